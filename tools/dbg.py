"""dbg.py ID contract-substring obligation-substring: proves matching obligations in-process, prints failures"""
import sys; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
import importlib, time, z3
from engine.run import *
from engine import solve as SV
z3.set_option(max_lines=200, max_depth=60, max_args=60)
def load(pid):
    R = Runner(pid, 'quick', 1)
    R.spec = importlib.import_module('specs.' + pid); R.files = list(R.spec.FILES)
    R.P = Program(R.files); R.reg = CT.Registry(); R.spec.build(R.reg, R.P)
    return R
if __name__ == '__main__':
    R = load(sys.argv[1])
    for con, fn in R.targets():
        if sys.argv[2] not in con.name: continue
        X = R.make_exec(con, fn)
        CT.verify(X, con, fn)
        print('==', con.name, fn, len(X.obs), X.outs, X.notes)
        for o in X.obs:
            if len(sys.argv) > 3 and sys.argv[3] not in o.name: continue
            parts = []; SV.split(list(o.hyps), o.goal, parts)
            for hs, g in parts:
                t = time.time(); r, b, s = SV.prove_part(hs, g, 5000)
                print(o.name, o.line, r, b, round(time.time() - t, 2))
                if r is not True:
                    print('GOAL', z3.simplify(g))
                    print('HYPS', *hs[-30:], sep='\n   ')
