"""Runs the check of one property: extraction, obligations, solver, replay harness, evidence, verdict."""
import sys, os, time, json, importlib, pickle, signal, traceback, subprocess, shutil, tempfile, multiprocessing as mp, gc
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
from .terms import *
from .cxx import Program, ExtractError, REPO
from .exec import Exec, Unsupported, CxxThrow, Infeasible
from . import contracts as CT
from . import solve as SV

NPROC = int(os.environ.get('K52_JOBS', '8'))

def short(e, n=1500):
    s = str(e)
    return s if len(s) <= n else s[:n] + ' ...'

class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (520 if tier == 'quick' else 800)
        self.ms = 10000 if tier == 'quick' else 40000
        self.sem = mp.Semaphore(NPROC); SV.SEM[0] = self.sem
        self.results = []; self.fninfo = []; self.problems = []
    # ------------------------------------------------------------------ proof side
    def make_exec(self, con, fn):
        X = Exec(self.P, Ctx(con.bv, self.P), self.reg, con.unroll)
        X.assumed_used = set()
        X.ghost_t = dict(rndpos=I64); X.ghost_t.update(self.reg.ghosts)
        return X
    def targets(self):
        out = []
        for con in self.reg.contracts:
            if con.assumed: continue
            fns = []
            for f in self.P.find(con.qual, sig=con.sig, nparams=con.nparams):
                if getattr(con, 'where', None) is not None and not con.where(f): continue
                fns.append(f)
            if not fns:
                # a contract on an interface is an obligation of every class that implements it
                cls, name = con.qual.rsplit('::', 1)
                keys = [k for k, c in self.P.cls.items() if c.qual == cls]
                subs = [k for k in self.P.cls if any(self.P.is_sub(k, b) for b in keys) and k not in keys]
                for k in subs:
                    for m in self.P.cls[k].methods:
                        if m.name == name and (con.sig is None or con.sig in m.type) and not any(c is not con and c.matches(m) for c in self.reg.contracts):
                            b = self.P.body_of(m)
                            if b is not None and b not in fns: fns.append(b)
                over = [m for k in subs for m in self.P.cls[k].methods if m.name == name]
                if not fns and not over:
                    if not getattr(con, 'internal', False): self.problems.append(dict(fn=con.name, name='function under contract exists', kind='extract', status='missing', detail='no definition of %s %s in %s' % (con.qual, con.sig or '', ', '.join(self.files))))
                    continue
            for f in fns: out.append((con, f))
        return out
    def task(self, con, fn, w, gseed=0):
        t0 = time.time(); base = dict(fn=con.name, qual=fn.qual, type=fn.type, line=fn.loc())
        res = []
        self.sem.acquire()
        os.write(w, b'S')
        try:
            try:
                SV.SEED[0] = gseed
                X = self.make_exec(con, fn)
                CT.verify(X, con, fn)
            except (Unsupported, ExtractError, KeyError, CxxThrow, Infeasible, z3.Z3Exception, IndexError, AttributeError, TypeError, NotImplementedError, RecursionError, ValueError, OverflowError) as e:
                tb = traceback.format_exc()
                os.write(w, pickle.dumps(dict(info=dict(base, gen_s=time.time() - t0, obligations=0), res=[dict(base, name='obligations can be generated', kind='extract', status='unsupported', detail='%s: %s (near line %s)' % (type(e).__name__, short(e, 300), getattr(locals().get('X'), 'line', '?')), tb=tb[-3000:], time=time.time() - t0)])))
                return
            info = dict(base, gen_s=round(time.time() - t0, 2), obligations=len(X.obs), trusted=sorted(X.trusted), contracts_used=sorted(X.used_contracts), inlined=sorted(X.inlined), assumed=sorted(X.assumed_used), dropped=sorted(X.notes), exits=X.outs)
            # vacuity: the precondition has a model or at least is not refutable, and some exit is reachable
            s = z3.Solver(); s.set('timeout', 2000); s.add(*[f for f in X.precond if not CT.SV.has_quant(f)])
            vac = s.check() == z3.unsat
            reach = 0
            for s2, k, v in X.final:
                sv = z3.Solver(); sv.set('timeout', 1000); sv.add(*[f for f in s2.facts() if not SV.has_quant(f)])
                if sv.check() == z3.unsat: continue
                # with the quantified facts as well: an inconsistency the solver finds at once is reported
                sv = z3.Solver(); sv.set('timeout', 300); sv.add(*s2.facts())
                if sv.check() != z3.unsat: reach += 1
            info['reachable_exits'] = reach
            res.append(dict(base, name='precondition satisfiable and an exit reachable', kind='vacuity', status='failed' if vac or not reach else 'proved', backend='z3', time=0))
        finally:
            SV.SEED[0] = 0
            os.write(w, b'G')
            self.sem.release()
        obs = X.obs
        nsub = 1 if len(obs) <= 6 else min(NPROC, (len(obs) + 5) // 6)
        SEEDS = (0, 7, 23)
        def one(i, seed):
            """one attempt at one obligation; None: try the next seed"""
            o = obs[i]
            d = dict(base, name=o.name, kind=o.kind, oline=o.line)
            left = self.deadline - time.time()
            if left < 1: d.update(status='timeout', time=0, detail='time budget of the check used up'); return d
            SV.SEED[0] = seed
            try: r = SV.prove(o.hyps, o.goal, min(con.timeout if self.tier == 'quick' else max(con.timeout, self.ms), left * 1000))
            except (z3.Z3Exception, OverflowError, RecursionError, KeyError) as e: r = dict(status='unknown', backend='z3', time=0, goal=o.goal, model=None, detail=str(e))
            SV.SEED[0] = 0
            d.update(status=r['status'], backend=r.get('backend'), time=r['time'], parts=r.get('parts', 1))
            if r['status'] != 'proved':
                d['goal'] = short(r.get('goal')); d['model'] = short(r.get('model')) if r.get('model') is not None else None
                d['hyps'] = [short(h, 400) for h in o.hyps[-25:]]
            return d
        def work(idx, start, opened, send):
            """obligations idx, the first one from seed number start on; every step is reported"""
            for i in idx:
                d = None
                for sn in range(start, len(SEEDS)):
                    if sn and d is not None and (self.deadline - time.time() < 60 or opened > 3): break
                    send(('try', i, sn)); d = one(i, SEEDS[sn])
                    if d['status'] != 'unknown': break
                start = 0
                if d is None: d = dict(base, name=obs[i].name, kind=obs[i].kind, oline=obs[i].line, status='unknown', time=0, detail='the solver does not answer')
                if d['status'] != 'proved': opened += 1
                send(('done', i, d))
        nsub = max(1, nsub)
        stall = max(60 if self.tier == 'quick' else 200, 4 * con.timeout / 1000)
        def lost(i): return dict(base, name=obs[i].name, kind=obs[i].kind, oline=obs[i].line, status='unknown', time=stall, detail='the solver does not answer')
        got, nstall = supervise(work, [list(range(i, len(obs), nsub)) for i in range(nsub)], len(SEEDS), stall, self.sem, self.deadline + 20)
        if nstall: info['solver_restarts'] = nstall
        for i in range(len(obs)): res.append(got.get(i) or lost(i))
        info['solver_s'] = round(sum(r.get('time') or 0 for r in res), 2)
        os.write(w, pickle.dumps(dict(info=info, res=res)))
    def proof(self, only=None):
        t = time.time()
        self.spec = importlib.import_module('specs.' + self.pid)
        self.files = list(self.spec.FILES)
        try:
            self.P = Program(self.files)
            self.reg = CT.Registry()
            self.spec.build(self.reg, self.P)
            ts = self.targets()
        except (ExtractError, Unsupported, KeyError) as e:
            self.problems.append(dict(fn='extraction', name='source can be parsed', kind='extract', status='error', detail=short(e, 3000), time=0)); return
        self.parse_s = time.time() - t
        if only: ts = [(c, f) for c, f in ts if only in c.name]
        if not ts: self.problems.append(dict(fn='all', name='some function is under contract', kind='vacuity', status='failed', detail='no function found'))
        gc.collect(); gc.freeze()
        outs = fork_map_raw([(lambda w, g, c=c, f=f: self.task(c, f, w, g)) for c, f in ts], self.deadline + 40, self.sem, 150 if self.tier == 'quick' else 300)
        for (c, f), o in zip(ts, outs):
            if isinstance(o, dict):
                self.fninfo.append(o['info']); self.results += o['res']
            else: self.results.append(dict(fn=c.name, qual=f.qual, name='verification completes', kind='extract', status='timeout', detail=str(o), time=0))
    # ------------------------------------------------------------------ replay side
    def harness(self):
        """builds the replay harness of the property against the current sources and runs it; returns (ok, info)"""
        src = os.path.join(ROOT, 'harness', self.pid + '.cpp')
        if not os.path.exists(src): return None
        d = tempfile.mkdtemp(prefix='k52v_%s_' % self.pid)
        info = dict(harness='harness/%s.cpp' % self.pid)
        try:
            t = time.time()
            ok, log = build_harness(src, d)
            info['build_s'] = round(time.time() - t, 1)
            if not ok: info.update(built=False, log=log[-3000:]); return info
            info['built'] = True
            outp = os.path.join(d, 'out.txt')
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77', K52_CASE=os.path.join(d, 'case.txt'))
            lim = 60 if self.tier == 'quick' else 240
            t = time.time()
            with open(outp, 'w') as fo:
                p = subprocess.Popen([os.path.join(d, 'h'), self.tier, str(self.seed)], stdout=fo, stderr=subprocess.STDOUT, cwd=d, env=env, start_new_session=True)
                try: rc = p.wait(timeout=lim)
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait()
            info['run_s'] = round(time.time() - t, 1)
            out = open(outp, errors='replace').read()
            case = open(os.path.join(d, 'case.txt'), errors='replace').read() if os.path.exists(os.path.join(d, 'case.txt')) else ''
            fails = [l[5:].strip() for l in out.splitlines() if l.startswith('FAIL ')]
            for l in out.splitlines():
                if l.startswith('CASES '): info['cases'] = int(l.split()[1])
            info['rc'] = rc
            if fails: info['fails'] = fails[:20]
            elif rc == 'timeout': info['fails'] = ['does not finish: ' + (case or 'no case recorded')]
            elif rc != 0: info['fails'] = ['crash (%s) in case: %s\n%s' % (rc, case or 'unknown', out[-1500:])]
            elif 'cases' not in info: info['fails'] = ['ended early in case: %s' % case]
            return info
        finally: shutil.rmtree(d, ignore_errors=True)
    # ------------------------------------------------------------------ verdict
    def report(self, h):
        pid = self.pid
        allr = self.results + self.problems
        bad = [x for x in allr if x['status'] != 'proved']
        good = [x for x in allr if x['status'] == 'proved']
        known = known_findings(pid)
        fails = (h or {}).get('fails') or []
        kf = []
        for f in list(fails):
            for key in known:
                if key in f: kf.append(key); fails.remove(f); break
        spec = getattr(self, 'spec', None)
        bounded = getattr(spec, 'BOUNDED', [])
        viol = bool(bad) or bool(fails)
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        byb = {}
        for x in good: byb[x.get('backend') or '?'] = byb.get(x.get('backend') or '?', 0) + 1
        trusted = sorted(set(t for i in self.fninfo for t in i.get('trusted', [])))
        assumed = sorted(set(t for i in self.fninfo for t in i.get('assumed', [])))
        base = ['clang 18 front end (AST)', '/verif/engine (extraction, symbolic execution, loop summaries, library models)', 'z3 %s' % z3.get_version_string(),
                'finite sums, real functions: ground lemma instances in /verif/engine/solve.py', 'floating point treated as real arithmetic'] + trusted
        cov = dict(obligations=len(allr), discharged=len(good), checker_cmd='./check %s %s' % (pid, self.tier), trusted_base=base,
                   functions_under_contract=[dict(contract=i['fn'], function=i['qual'], line=i.get('line'), obligations=i.get('obligations', 0), gen_s=i.get('gen_s'), solver_s=i.get('solver_s'), inlined=i.get('inlined', []), uses_contracts=i.get('contracts_used', [])) for i in self.fninfo],
                   discharged_by=byb, solver_s=round(sum(x.get('time') or 0 for x in allr), 1), by_kind=count(allr, 'kind'), undischarged=[dict(fn=x['fn'], name=x['name'], status=x['status'], line=x.get('oline'), detail=x.get('detail')) for x in bad][:50],
                   bounded_stand_ins=bounded, replay_harness={k: v for k, v in (h or {}).items() if k != 'log'} or 'none')
        ev = dict(property=pid, tier=self.tier, seed=self.seed, level=getattr(spec, 'LEVEL', 'proof'), coverage=cov,
                  assumptions=assumed + list(getattr(spec, 'ASSUMPTIONS', [])) + ['integer arithmetic is exact (overflow is an obligation or modelled as wrap-around); reals stand for double'],
                  wall_s=round(time.time() - self.t0, 1), violations=1 if viol else 0)
        json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d functions, harness %s, %.1f s' % (pid, len(allr), len(good), len(self.fninfo), ('%s cases' % h.get('cases') if h and h.get('built') else 'not built' if h else 'none'), time.time() - self.t0))
        for x in bad[:30]: print('  undischarged: %s / %s [%s] line %s %s' % (x['fn'], x['name'], x['status'], x.get('oline'), (x.get('detail') or '')[:300]))
        if h and not h.get('built'): print('  harness could not be built: ' + (h.get('log') or '')[-600:])
        for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if not viol: return 0
        rp = '%s/evidence/replay_%s.json' % (ROOT, pid)
        json.dump(dict(property=pid, seed=self.seed, tier=self.tier, failing_inputs=fails, failed_obligations=[{k: x.get(k) for k in ('fn', 'qual', 'name', 'kind', 'status', 'backend', 'oline', 'goal', 'model', 'hyps', 'detail', 'tb')} for x in bad[:20]],
                       replay='cd /verif && ./replay %s %s %s' % (pid, self.tier, self.seed), harness_log=(h or {}).get('log')), open(rp, 'w'), indent=1, default=str)
        for f in fails[:5]: print('  failing input: ' + f[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fails else ' no-failing-input-found'))
        return 1

def count(xs, k):
    r = {}
    for x in xs: r[x[k]] = r.get(x[k], 0) + 1
    return r
def known_findings(pid):
    out = []
    try:
        for l in open(ROOT + '/known_findings.txt'):
            if l.startswith('finding: property=%s ' % pid): out.append(l.split('input=', 1)[1].strip() if 'input=' in l else l.split(' ', 2)[2].strip())
    except FileNotFoundError: pass
    return out

def wall(fd, data):
    mv = memoryview(data)
    while mv: n = os.write(fd, mv); mv = mv[n:]
def rall(fd):
    out = b''
    while True:
        b = os.read(fd, 1 << 16)
        if not b: break
        out += b
    os.close(fd); return out

def supervise(work, chunks, nseeds, stall, sem, deadline):
    """runs work on every chunk in a process of its own; a process that makes no progress (the solver ignores its time limit now and then)
    is ended and its chunk is taken up again where it stopped, with the next seed"""
    import select
    got = {}; jobs = {}; nstall = 0
    def start(idx, first, opened):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r)
            def send(m): d = pickle.dumps(m); wall(w, len(d).to_bytes(8, 'little') + d)
            sem.acquire()
            SV.BEAT[0] = lambda ms: send(('beat', 0, ms))
            if os.environ.get('K52_DEBUG'): import faulthandler; faulthandler.dump_traceback_later(45, repeat=True, file=open('/tmp/k52_stall_%d' % os.getpid(), 'w'))
            try: send(('start', 0, 0)); work(idx, first, opened, send)
            except BaseException as e: send(('error', 0, '%s: %s' % (type(e).__name__, e)))
            finally: sem.release()
            os._exit(0)
        os.close(w); jobs[r] = dict(pid=pid, idx=list(idx), buf=b'', at=None, cur=None, lim=None, opened=opened, held=False)
    def end(r, kill):
        j = jobs.pop(r); os.close(r)
        if kill:
            try: os.kill(j['pid'], signal.SIGKILL)
            except ProcessLookupError: pass
        os.waitpid(j['pid'], 0)
        if kill and j['held']: sem.release()
        return j
    for c in chunks:
        if c: start(c, 0, 0)
    while jobs and time.time() < deadline:
        rs, _, _ = select.select(list(jobs), [], [], 1.0)
        for r in rs:
            j = jobs[r]; b = os.read(r, 1 << 16)
            if not b: end(r, False); continue
            j['buf'] += b; j['at'] = time.time()
            while len(j['buf']) >= 8:
                n = int.from_bytes(j['buf'][:8], 'little')
                if len(j['buf']) < 8 + n: break
                kind, i, v = pickle.loads(j['buf'][8:8 + n]); j['buf'] = j['buf'][8 + n:]
                if kind == 'start': j['held'] = True
                elif kind == 'beat': j['lim'] = None if v is None else 2 * v / 1000 + 5
                elif kind == 'try': j['cur'] = (i, v); j['lim'] = None
                elif kind == 'done':
                    got[i] = v; j['idx'].remove(i); j['cur'] = None
                    if not j['idx']: j['held'] = False
                    if v['status'] != 'proved': j['opened'] += 1
        now = time.time()
        for r in list(jobs):
            j = jobs[r]
            if j['cur'] is not None and now - j['at'] > (stall if j['lim'] is None else min(stall, j['lim'])):
                i, sn = j['cur']; end(r, True); nstall += 1
                if os.environ.get('K52_DEBUG'): print('stall', i, sn, file=sys.stderr)
                start([i] + [k for k in j['idx'] if k != i], sn + 1, j['opened'])
    for r in list(jobs): end(r, True)
    return got, nstall

def fork_map_raw(tasks, deadline, sem, limit):
    """every task in a process of its own; one that has not generated its obligations in time is ended and started again with another seed.
    A task writes S when it starts, G when it has generated its obligations, and its result"""
    import select
    jobs = [None] * len(tasks); live = {}
    def start(i, seed):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); os.setpgid(0, 0)
            real = os.write
            try:
                os.write = lambda fd, d: (wall_(real, fd, d)) if fd == w else real(fd, d)
                tasks[i](w, seed)
            except BaseException as e:
                os.write = real
                wall(w, pickle.dumps('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
            os._exit(0)
        os.close(w); jobs[i] = [pid, r, b'', seed, None]; live[r] = i
    def kill(j):
        try: os.killpg(j[0], signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        try: os.waitpid(j[0], 0)
        except ChildProcessError: pass
        os.close(j[1])
    for i in range(len(tasks)): start(i, 0)
    while live and time.time() < deadline:
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rs:
            j = jobs[live[fd]]; b = os.read(fd, 1 << 16)
            if b:
                if not j[2]: j[4] = time.time()
                j[2] += b
            else: os.waitpid(j[0], 0); os.close(fd); del live[fd]
        for fd in list(live):
            i = live[fd]; j = jobs[i]
            if j[2] == b'S' and time.time() - j[4] > limit and j[3] < 2:
                kill(j); del live[fd]; sem.release(); start(i, j[3] + 1)
                if os.environ.get('K52_DEBUG'): print('generation stall', i, file=sys.stderr)
    for fd in list(live): kill(jobs[live[fd]])
    for j in jobs:
        if j[2][:1] == b'S': j[2] = j[2][1:]
        if j[2][:1] == b'G': j[2] = j[2][1:]
    out = []
    for j in jobs:
        try: out.append(pickle.loads(j[2]))
        except Exception: out.append('no result within the time budget')
    return out
def wall_(real, fd, data):
    mv = memoryview(data)
    while mv: n = real(fd, mv); mv = mv[n:]
    return len(data)

# ------------------------------------------------------------------ harness build
HFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-DBUILD_WITH_BOOST_THREAD', '-DBUILD_WITH_FFTW3', '-D_USE_MATH_DEFINES']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
def harness_meta(src):
    """first lines of a harness: // SOURCES: a.cpp b.cpp   // LIBS: -l..   // FLAGS: ..."""
    m = dict(SOURCES=[], LIBS=[], FLAGS=[])
    for l in open(src):
        if l.startswith('// ') and ':' in l:
            k, v = l[3:].split(':', 1)
            if k in m: m[k] += v.split()
        elif l.startswith('#include'): break
    return m
def expand(pats):
    import glob
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, p), recursive=True))
        out += g
    return list(dict.fromkeys(out))
def build_harness(src, d):
    m = harness_meta(src)
    srcs = expand(m['SOURCES']) + [src]
    san = SAN if '-fsanitize=thread' not in m['FLAGS'] else []
    jobs = []
    log = ''
    import concurrent.futures as cf
    def comp(a):
        i, s = a
        o = os.path.join(d, '%d.o' % i)
        cmd = ['g++'] + HFLAGS + san + m['FLAGS'] + ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/harness' % ROOT, '-c', s, '-o', o]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return p.returncode, o, p.stderr
    with cf.ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(comp, enumerate(srcs)))
    for rc, o, e in rs:
        if rc: return False, e
    p = subprocess.run(['g++'] + san + [f for f in m['FLAGS'] if f.startswith('-fsanitize')] + [o for _, o, _ in rs] + ['-o', os.path.join(d, 'h')] + m['LIBS'] + ['-lpthread'], capture_output=True, text=True)
    if p.returncode: return False, p.stderr
    return True, ''

def main(argv):
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(20000)
    pid = argv[1]; tier = argv[2] if len(argv) > 2 and argv[2] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    for a in argv[2:]:
        if a.startswith('--only='): only = a[7:]
    R = Runner(pid, tier, seed)
    rc = 1
    hp = None
    r, w = os.pipe(); 
    h = None
    if '--no-harness' not in argv:
        hp = os.fork()
        if hp == 0:
            os.close(r)
            try: data = pickle.dumps(R.harness())
            except BaseException as e: data = pickle.dumps(dict(built=False, log='harness driver: %r' % e))
            wall(w, data); os._exit(0)
    os.close(w)
    if '--no-proof' not in argv:
        try: R.proof(only)
        except Exception: R.problems.append(dict(fn='verifier', name='verification completes', kind='extract', status='error', detail=traceback.format_exc()[-3000:], time=0))
    if hp is not None:
        data = rall(r); os.waitpid(hp, 0)
        h = pickle.loads(data) if data else dict(built=False, log='no result')
    rc = R.report(h)
    if '--slow' in argv:
        for x in sorted(R.results, key=lambda x: -(x.get('time') or 0))[:12]: print('   %.1f s  %s / %s line %s' % (x.get('time') or 0, x['fn'], x['name'], x.get('oline')))
        for i in R.fninfo: print('   generation %.1f s %s' % (i.get('gen_s') or 0, i['fn']))
    sys.stdout.flush()
    os._exit(rc)
