"""prof.py ID contract-substring: where the time of executing a function goes"""
import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools'); sys.setrecursionlimit(20000)
import z3, dbg, time, collections
from engine import contracts as CT, solve as SV
if __name__ == '__main__':
    R = dbg.load(sys.argv[1]); orig = SV.check_valid; T = collections.Counter(); N = collections.Counter()
    def cv(X, hyps, goal, ms, auto=False):
        t = time.time(); r = orig(X, hyps, goal, ms, auto); d = time.time() - t
        f = sys._getframe(1); w = ''
        while f:
            if f.f_code.co_name == 'general_loop': w = f.f_locals['c'][2] if 'c' in f.f_locals else '?'; break
            f = f.f_back
        T[(w, r)] += d; N[(w, r)] += 1; return r
    SV.check_valid = cv
    for con, fn in R.targets():
        if sys.argv[2] in con.name:
            t = time.time(); X = R.make_exec(con, fn); q0 = X.quick; Q = [0, 0]
            def quick(*a, **k):
                t = time.time(); r = q0(*a, **k); Q[0] += time.time() - t; Q[1] += 1; return r
            X.quick = quick
            CT.verify(X, con, fn); print('total', time.time() - t, 'quick', Q)
    for k, v in T.most_common(25): print(round(v, 1), N[k], k)
