"""dbgloop.py ID contract-substring candidate-substring: why a loop invariant candidate is dropped"""
import sys; sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools'); sys.setrecursionlimit(20000)
import z3, dbg, time
from engine import loops, contracts as CT, solve as SV
if __name__ == '__main__':
    orig = SV.check_valid
    def cv(X, hyps, goal, ms, auto=False):
        r = orig(X, hyps, goal, ms, auto)
        if not r and sys.argv[3] in WHAT[0]:
            parts = []; SV.split(list(hyps), goal, parts)
            for hs, g in parts:
                t = time.time(); a, b, s = SV.prove_part(hs, g, ms)
                print('PART', a, round(time.time() - t, 2))
                if a is not True:
                    print('GOAL', z3.simplify(g)); print('HYPS', *hs[-40:], sep='\n   ')
        return r
    WHAT = ['']
    oin = loops.View
    SV.check_valid = cv
    import re, inspect
    # the candidate under test is known through the frame of general_loop
    def name():
        f = sys._getframe(2)
        while f and f.f_code.co_name != 'general_loop': f = f.f_back
        c = f.f_locals.get('c') if f else None
        return c[2] if c else ''
    def cv2(X, hyps, goal, ms, auto=False):
        WHAT[0] = name(); return cv(X, hyps, goal, ms, auto)
    SV.check_valid = cv2
    R = dbg.load(sys.argv[1])
    for con, fn in R.targets():
        if sys.argv[2] in con.name: CT.verify(R.make_exec(con, fn), con, fn)
