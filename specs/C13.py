from .base import *
from engine.exec import FnVal
D_ = 'src/parallel/'
FILES = [D_ + 'thread/thread_worker_pool.cpp', D_ + 'thread/thread_worker_pool_task.cpp', D_ + 'sequential_worker_pool.cpp', D_ + 'worker_pool_factory.cpp', D_ + 'statistics_aggregator.cpp', D_ + 'worker_statistics.cpp', '/verif/drivers/pool.cpp']
ASSUMPTIONS = ['every task ends; whether one fails is a property of the task; a task that does not fail produces a result', 'one caller at a time uses a pool',
    'the queue operations are atomic and first in, first out (C14)', 'composition of the threads: a worker announces no more tasks than it took, so when as many announcements were taken as tasks handed out, every task was taken, performed and announced once (counting lemmas of DoTasks), and what the performing thread wrote is visible (lock of the queue)',
    'boost::thread runs the member function it is given with the arguments it is given; interruption is delivered only in waits, at interruption points and inside tasks; at least one hardware thread is reported', 'fewer than 2^30 tasks, 2^31 counted events per worker']
PT = 'k52::parallel::thread::'; PP = 'k52::parallel::'
TK = 'ThreadWorkerPoolTask'; KEY = ('k52::parallel::thread::ThreadWorkerPoolTask',)
QK = ('ThreadSafeQueue', KEY); WK = ('Worker', KEY); MK = ('ThreadWorkerPoolTemplated', KEY)
SLOT = ('$slot', 'ITaskResult'); VT = VEC(REF('ITask')); VRS = VEC(REF('ITaskResult'))
fails = z3.Function('fails', z3.IntSort(), z3.BoolSort()); produced = z3.Function('produced', z3.IntSort(), z3.IntSort(), z3.BoolSort())
FI = lambda n: z3.Function('thread_' + n, z3.IntSort(), z3.IntSort())
runs_, on_, takes_, gives_ = FI('function'), FI('object'), FI('first_argument'), FI('second_argument')
THR = ('$thread',)
MOST = 2**30
def build(reg, P):
    reg.slots = True; reg.embedded |= {QK, MK}
    ET = P.type_of(next(f for f in P.cls[QK].fields if f['name'] == 'queue_')).args[0] if not isinstance(P.cls[QK].fields[0], tuple) else None
    VE = VEC(ET)
    reg.ghost_fields.update({(QK, '$sent'): VE, (QK, '$taken'): VE, (THR, '$interrupted'): BOOL, (THR, '$joined'): BOOL})
    reg.ghosts.update(ran=VT, in_worker=BOOL, stop=BOOL)
    def log(X, st, n, args=None): pass
    # ---- boost::thread
    def start(X, st, n, args):
        if not args: return z3.IntVal(0)
        vs = [X.val(st, X.ev(st, a)) for a in args]
        if not (len(vs) == 4 and isinstance(vs[0], FnVal) and all(z3.is_expr(v) for v in vs[1:])):
            if len(vs) == 1 and z3.is_expr(vs[0]): return vs[0]     # moved from a temporary
            raise Unsupported('thread with other arguments')
        t = X.alloc_obj(st, '$thread'); X.trusted.add('boost::thread runs the member function given on the object given')
        X.ob(st, 'the thread is started with the function that processes the queue', z3.BoolVal(vs[0].decl.get('name') == 'ProcessTasksQueue'), 'post', n)
        st.assume(runs_(t) == 1, on_(t) == vs[1], takes_(t) == vs[2], gives_(t) == vs[3])
        X.write(st, flag(X, t, 'interrupted'), z3.BoolVal(False)); X.write(st, flag(X, t, 'joined'), z3.BoolVal(False))
        return t
    def flag(X, t, nm): return Loc(('H', (THR, '$' + nm)), (('o', t, None),), BOOL)
    reg.opaque['thread'] = start
    def act(nm):
        def f(X, st, n, b, args):
            t = X.val(st, b)
            if nm == 'joined': X.ob(st, 'waits only for a thread that is being stopped', z3.Or(t == 0, X.read(st, flag(X, t, 'interrupted'))), 'call', n)
            X.write(st, flag(X, t, nm), z3.BoolVal(True)); return z3.IntVal(0)
        return f
    reg.methods += [('thread', 'interrupt', act('interrupted')), ('thread', 'join', act('joined'))]
    def interrupted(X, st):
        if X.choose(st, z3.And(X.read(st, Loc(('V', 'stop'), (), BOOL)), fresh('interrupt', z3.BoolSort()))): raise CxxThrow(Exc('thread_interrupted'))
    def point(X, st, n, args): interrupted(X, st); return z3.IntVal(0)
    reg.extern['interruption_point'] = point
    def hw(X, st, n, args):
        v = fresh('hardware', z3.IntSort()); st.assume(v >= 1, v < 2**20); return v
    reg.extern['hardware_concurrency'] = hw
    def deleted(X, st, p, cls, n):
        if cls == WK:
            t = lambda i: X.read(st, X.field(st, Loc(('O', p + i), (), T('rec', WK)), 'thread_'))
            X.ob(st, 'all threads have ended before the workers go', z3.Or(p == 0, forall_range(I(0), array_size(p), lambda i: z3.Or(t(i) == 0, X.read(st, flag(X, t(i), 'joined'))))), 'call', n)
    reg.guards.setdefault('delete[]', []).append(deleted)
    # ---- the queue, as its users see it
    owner = z3.Function('owner_of_member', z3.IntSort(), z3.IntSort())
    def q(c, nm, post=False, r=None): return (c.of_ if post else c.of)(c.this if r is None else r, QK, '$' + nm)
    def n(c, v): return c.len(v, VE)
    def appended(c, old, new, e): return z3.And(n(c, new) == n(c, old) + 1, c.at(new, n(c, old), VE) == e, forall_range(I(0), n(c, old), lambda i: c.at(new, i, VE) == c.at(old, i, VE)))
    def extended(c, old, new): return z3.And(n(c, new) >= n(c, old), forall_range(I(0), n(c, old), lambda i: c.at(new, i, VE) == c.at(old, i, VE)))
    ran = lambda c: c.g('ran'); ran_ = lambda c: c.g_('ran')
    def nr(c, v): return c.len(v, VT)
    W = lambda c: c.g('in_worker')
    C14N = 'verified in C14 as one atomic step; here what the calling thread put in and took out'
    Q_ = PT + 'ThreadSafeQueue::'
    ok = lambda c, e: z3.And(c.ctx.rget(ET, e, 'task_to_do_') > 0, c.ctx.rget(ET, e, 'result_to_be_written_') > 0)
    def performed_first(c): return [('a task is announced only after it was performed', z3.Implies(W(c), nr(c, ran(c)) > n(c, q(c, 'sent'))))]
    reg.add(Contract(Q_ + 'Push', assumed=True, note=C14N, requires=lambda c: performed_first(c) + [('a task and a place', ok(c, c.a(0)))], modifies=lambda c: [c.floc('$sent')], ensures=lambda c: [('put in', appended(c, q(c, 'sent'), q(c, 'sent', True), c.a(0)))]))
    todo_of = lambda c, r: c.X.field(c.pre, Loc(('O', r), (), T('rec', MK)), 'tasks_to_do_').root[1]
    done_of = lambda c, r: c.X.field(c.pre, Loc(('O', r), (), T('rec', MK)), 'done_tasks_').root[1]
    maybe = lambda c: z3.And(c.g('stop'), fresh('interrupt', z3.BoolSort()))
    reg.add(Contract(Q_ + 'WaitAndPop', assumed=True, note=C14N, requires=lambda c: [('waits only for a task that was handed out', z3.Implies(z3.Not(W(c)), n(c, q(c, 'taken')) < n(c, q(c, 'sent', r=todo_of(c, owner(c.this))))))],
        throws=[('thread_interrupted', maybe)], modifies=lambda c: [c.floc('$taken'), c.arg(0)], ensures=lambda c: [('what was put in', ok(c, c.a_(0))), ('taken out', appended(c, q(c, 'taken'), q(c, 'taken', True), c.a_(0)))]))
    reg.add(Contract(Q_ + 'ThreadSafeQueue', assumed=True, note='verified in C14', nparams=0, modifies=lambda c: [c.floc('$sent'), c.floc('$taken')], ensures=lambda c: [('nothing put in or taken out', z3.And(n(c, q(c, 'sent', True)) == 0, n(c, q(c, 'taken', True)) == 0))]))
    # ---- tasks
    task = lambda c, e: c.ctx.rget(ET, e, 'task_to_do_'); slot = lambda c, e: c.ctx.rget(ET, e, 'result_to_be_written_')
    def ran_one(c, t): return z3.And(nr(c, ran_(c)) == nr(c, ran(c)) + 1, c.at(ran_(c), nr(c, ran(c)), VT) == t, forall_range(I(0), nr(c, ran(c)), lambda i: c.at(ran_(c), i, VT) == c.at(ran(c), i, VT)))
    reg.add(Contract(PP + 'ITask::Perform', assumed=True, note='the interface: produces a new result or fails', allocates=True, throws=[('runtime_error', lambda c: fails(c.this)), ('thread_interrupted', maybe)], on_throw='modifies', modifies=lambda c: [('V', 'ran')],
        throw_ensures=lambda c: [('performed', ran_one(c, c.this))], ensures=lambda c: [('performed', ran_one(c, c.this)), ('a new result', z3.And(c.result > c.pre.alloc, c.result <= c.post.alloc)), ('its own', produced(c.this, c.result))]))
    own = lambda c, f, post=False: (c.f_ if post else c.f)(f)
    at_slot = lambda c, a, post=False: sel((c.H_ if post else c.H)(SLOT, '$value'), a)
    reg.add(Contract(PT + TK + '::' + TK, nparams=2, modifies=lambda c: [c.obj], ensures=lambda c: [('the task and the place given', z3.And(c.f_('task_to_do_') == c.a(0), c.f_('result_to_be_written_') == c.a(1)))]))
    reg.add(Contract(PT + TK + '::' + TK, nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('nothing', z3.And(c.f_('task_to_do_') == 0, c.f_('result_to_be_written_') == 0))]))
    reg.add(Contract(PT + TK + '::DoTask', allocates=True, requires=lambda c: [('a task and a place', z3.And(c.f('task_to_do_') > 0, c.f('result_to_be_written_') > 0))], throws=[('runtime_error', lambda c: fails(c.f('task_to_do_')))], may_throw=['thread_interrupted'], on_throw=lambda c: [('V', 'ran')],
        modifies=lambda c: [('V', 'ran'), ('H', SLOT, '$value', c.f('result_to_be_written_'))], throw_ensures=lambda c: [('performed once', ran_one(c, c.f('task_to_do_'))), ('interrupted only when stopped', z3.BoolVal(True) if c.exc != 'thread_interrupted' else c.g('stop'))],
        ensures=lambda c: [('performed once', ran_one(c, c.f('task_to_do_'))), ('its result is written', z3.And(at_slot(c, c.f('result_to_be_written_'), True) > 0, produced(c.f('task_to_do_'), at_slot(c, c.f('result_to_be_written_'), True))))]))
    # ---- workers
    W_ = PT + 'Worker::'
    thr = lambda c, post=False: (c.f_ if post else c.f)('thread_')
    def tflag(c, t, nm, post=False): return sel((c.H_ if post else c.H)(THR, '$' + nm), t)
    def serves(c, w, t, a, b): return z3.And(t > 0, runs_(t) == 1, on_(t) == w, takes_(t) == a, gives_(t) == b)
    fl = lambda c, nm: ('H', THR, '$' + nm)
    reg.add(Contract(W_ + 'Start', allocates=True, requires=lambda c: [('not started yet', thr(c) == 0)], modifies=lambda c: [c.floc('thread_')], ensures=lambda c: [('a thread of its own', thr(c, True) > c.pre.alloc), ('that processes the first queue into the second', serves(c, c.this, thr(c, True), c.a(0), c.a(1))), ('runs', z3.And(z3.Not(tflag(c, thr(c, True), 'interrupted', True)), z3.Not(tflag(c, thr(c, True), 'joined', True))))]))
    reg.add(Contract(W_ + 'Stop', modifies=lambda c: [('H', THR, '$interrupted', thr(c))], ensures=lambda c: [('its thread is interrupted', tflag(c, thr(c), 'interrupted', True))]))
    reg.add(Contract(W_ + 'Join', requires=lambda c: [('is being stopped', z3.Or(thr(c) == 0, tflag(c, thr(c), 'interrupted')))], modifies=lambda c: [('H', THR, '$joined', thr(c))], ensures=lambda c: [('its thread has ended', tflag(c, thr(c), 'joined', True))]))
    def tq(c, i, nm, post=False): return q(c, nm, post, c.ref(i))
    def handled(c, whole):
        """what this thread took, performed and announced: the same tasks in the same order"""
        a, b, r = tq(c, 0, 'taken', True), tq(c, 1, 'sent', True), ran_(c); m = n(c, a)
        return [('as many announced as taken', n(c, b) == m if whole else z3.And(n(c, b) <= m, n(c, b) >= m - 1)), ('as many performed', nr(c, r) == m), ('those announced were taken in that order', forall_range(I(0), n(c, b), lambda i: c.at(b, i, VE) == c.at(a, i, VE))), ('each performed once', forall_range(I(0), m, lambda i: c.at(r, i, VT) == task(c, c.at(a, i, VE))))]
    def serving(info): return in_loop(info, *[('handled so far %d' % j, lambda c, k, j=j: handled(c, True)[j][1]) for j in range(4)])
    valid = lambda c: forall_all(c)
    def forall_all(c):
        return z3.BoolVal(True)
    reg.add(Contract(W_ + 'ProcessTasksQueue', internal=True, allocates=True, loops=[serving], requires=lambda c: [('a thread of its own', z3.And(W(c), nr(c, ran(c)) == 0, c.ref(0) != c.ref(1), c.ref(0) != 0, c.ref(1) != 0, n(c, tq(c, 0, 'taken')) == 0, n(c, tq(c, 1, 'sent')) == 0))],
        modifies=lambda c: [('V', 'ran'), ('H', QK, '$taken', c.ref(0)), ('H', QK, '$sent', c.ref(1)), ('H', SLOT, '$value')], ensures=lambda c: [('ends only when it is stopped', c.g('stop'))] + handled(c, False)))
    # ---- the pool of workers
    M_ = PT + 'ThreadWorkerPoolTemplated::'
    todo = lambda c: todo_of(c, c.this); done = lambda c: done_of(c, c.this)
    count = lambda c, post=False: (c.f_ if post else c.f)('number_of_workers_'); arr = lambda c, post=False: (c.f_ if post else c.f)('workers_')
    wthr = lambda c, i, post=False, a=None: (c.of_ if post else c.of)((arr(c, post) if a is None else a) + i, WK, 'thread_')
    def alive(c, post=False, upto=None):
        return [('as many workers as stated', z3.And(count(c, post) >= 1, arr(c, post) > 0, array_size(arr(c, post)) == count(c, post))), ('every worker has a thread that processes the tasks of this pool', forall_range(I(0), count(c, post) if upto is None else upto, lambda i: serves(c, arr(c, post) + i, wthr(c, i, post), todo(c), done(c))))]
    def running(c, upto=None, post=True): return forall_range(I(0), count(c, post) if upto is None else upto, lambda i: z3.And(z3.Not(tflag(c, wthr(c, i, post), 'interrupted', post)), z3.Not(tflag(c, wthr(c, i, post), 'joined', post)), wthr(c, i, post) > c.pre.alloc))
    qs = lambda c, nm: [('H', QK, '$' + nm, todo(c)), ('H', QK, '$' + nm, done(c))]
    idle = lambda c, post=False: n(c, q(c, 'taken', post, done(c))) == n(c, q(c, 'sent', post, todo(c)))
    def starting(info):
        return in_loop(info, ('threads started so far', lambda c, k: z3.And(alive(c, True, k)[0][1], alive(c, True, k)[1][1])), ('they run', lambda c, k: running(c, k)), ('the others have none', lambda c, k: forall_range(k, count(c, True), lambda i: wthr(c, i, True) == 0)))
    made = lambda c: alive(c, True) + [('they run', running(c)), ('nothing to do yet', idle(c, True))]
    reg.add(Contract(M_ + 'Initialize', internal=True, allocates=True, throws=[('invalid_argument', lambda c: count(c) <= 0)], loops=[starting], modifies=lambda c: [c.floc('workers_')], ensures=lambda c: [('as many workers as stated', count(c, True) == count(c))] + alive(c, True) + [('they run', running(c))]))
    newq = lambda c: [c.obj] + qs(c, 'sent') + qs(c, 'taken')
    reg.add(Contract(M_ + 'ThreadWorkerPoolTemplated', nparams=0, allocates=True, modifies=newq, ensures=made))
    reg.add(Contract(M_ + 'ThreadWorkerPoolTemplated', nparams=1, allocates=True, throws=[('invalid_argument', lambda c: c.a(0) <= 0)], modifies=newq, on_throw='modifies', ensures=lambda c: [('as many workers as asked', count(c, True) == c.a(0))] + made(c)))
    reg.add(Contract(M_ + 'get_number_of_workers', returns=lambda c: count(c)))
    def stopping(info): return in_loop(info, ('threads stopped so far', lambda c, k: forall_range(I(0), k, lambda i: tflag(c, wthr(c, i), 'interrupted', True))), ('threads joined so far', lambda c, k: forall_range(I(0), k, lambda i: tflag(c, wthr(c, i), 'joined', True))), ('all are stopped', lambda c, k: forall_range(I(0), count(c), lambda i: tflag(c, wthr(c, i), 'interrupted', True))))
    reg.add(Contract(M_ + '~ThreadWorkerPoolTemplated', requires=lambda c: alive(c), loops=[stopping], modifies=lambda c: [fl(c, 'interrupted'), fl(c, 'joined')], ensures=lambda c: [('every thread is stopped and has ended', forall_range(I(0), count(c), lambda i: z3.And(tflag(c, wthr(c, i), 'interrupted', True), tflag(c, wthr(c, i), 'joined', True))))]))
    ne = lambda c: n(c, c.a(0)); el = lambda c, i: c.at(c.a(0), i, VE)
    def sent_so_far(c, k):
        a, b = q(c, 'sent', False, todo(c)), q(c, 'sent', True, todo(c)); return [('handed out', n(c, b) == n(c, a) + k), ('in order', forall_range(I(0), k, lambda i: c.at(b, n(c, a) + i, VE) == el(c, i))), ('after the earlier ones', extended(c, a, b))]
    def taken_so_far(c, k): return [('as many announcements taken', n(c, q(c, 'taken', True, done(c))) == n(c, q(c, 'taken', False, done(c))) + k)]
    def handing(info):
        return in_loop(info, *[('handed out so far %d' % j, lambda c, k, j=j: sent_so_far(c, k)[j][1]) for j in range(3)], *[('all handed out %d' % j, lambda c, k, j=j: sent_so_far(c, ne(c))[j][1]) for j in range(3)], ('announcements taken so far', lambda c, k: taken_so_far(c, k)[0][1])) + \
            in_loop_vec(info, VE, None, ('the rest of the tasks', lambda c, k, v: z3.And(n(c, v) == ne(c) - k, k <= ne(c), forall_range(I(0), n(c, v), lambda i: c.at(v, i, VE) == el(c, i + k)))))
    def lemmas(c):
        d, e, p, a = (fresh(x, z3.IntSort()) for x in ('in_hand_of_some', 'in_hand_of_more', 'took', 'announced'))
        return [('workers together never announce more than they took', z3.Implies(z3.And(d >= 0, p >= a, e == d + (p - a)), e >= 0)), ('when together they announced as much as they took, each did', z3.Implies(z3.And(d >= 0, p >= a, e == d + (p - a), e == 0), z3.And(d == 0, p == a)))]
    def outcome(c):
        distinct = forall_range(I(0), ne(c), lambda i: forall_range(i + 1, ne(c), lambda j: slot(c, el(c, i)) != slot(c, el(c, j))))
        s_ = lambda a: at_slot(c, a, True)
        return [('results are in their places', z3.Implies(distinct, forall_range(I(0), ne(c), lambda i: z3.If(fails(task(c, el(c, i))), s_(slot(c, el(c, i))) == at_slot(c, slot(c, el(c, i))), z3.And(s_(slot(c, el(c, i))) > c.pre.alloc, s_(slot(c, el(c, i))) <= c.post.alloc, produced(task(c, el(c, i)), s_(slot(c, el(c, i)))))))))]
    reg.add(Contract(M_ + 'DoTasks', allocates=True, slots=True, loops=[handing], requires=lambda c: [('used by its owner', z3.Not(W(c))), ('earlier tasks are over', idle(c)), ('handed out before', z3.And(n(c, q(c, 'sent', False, todo(c))) >= 0, n(c, q(c, 'taken', False, done(c))) >= 0)), ('fewer than 2^30 tasks', z3.And(ne(c) >= 0, ne(c) < MOST)), ('tasks and places', forall_range(I(0), ne(c), lambda i: z3.And(task(c, el(c, i)) > 0, slot(c, el(c, i)) > 0)))],
        may_throw=['thread_interrupted'], on_throw='modifies', modifies=lambda c: [('H', QK, '$sent', todo(c)), ('H', QK, '$taken', done(c)), ('H', SLOT, '$value')], ensures=lambda c: sent_so_far(c, ne(c)) + taken_so_far(c, ne(c)) + [('all tasks are over', idle(c, True))] + lemmas(c), derived=outcome))
    # ---- the thread pool
    K_ = PT + 'ThreadWorkerPool::'
    pool = lambda c, r=None: c.X.field(c.pre, c.obj if r is None else c.objloc(r, 'ThreadWorkerPool'), 'worker_pool_').root[1]
    pc = lambda c, post=False, r=None: (c.of_ if post else c.of)(pool(c, r), MK, 'number_of_workers_')
    parr = lambda c, post=False: (c.of_ if post else c.of)(pool(c), MK, 'workers_')
    pidle = lambda c, post=False: n(c, q(c, 'taken', post, done_of(c, pool(c)))) == n(c, q(c, 'sent', post, todo_of(c, pool(c))))
    tasks = lambda c, i: c.at(c.a(0), i, VT); nt = lambda c: c.len(c.a(0), VT); res = lambda c, i: c.at(c.result, i, VRS)
    given = lambda c: [('tasks', forall_range(I(0), nt(c), lambda i: tasks(c, i) > 0)), ('fewer than 2^30 tasks', nt(c) < MOST)]
    failing = lambda c: exists_range(I(0), nt(c), lambda i: fails(tasks(c, i)))
    results = lambda c: [('a result for every task', c.len(c.result, VRS) == nt(c)), ('result i is the one task i produced', forall_range(I(0), nt(c), lambda i: z3.And(res(c, i) > c.pre.alloc, res(c, i) <= c.post.alloc, produced(tasks(c, i), res(c, i)))))]
    def filling(info):
        X = info.X; out = []
        for root, (base, vt) in list(X.exposed.items()):
            out += in_loop_vec(info, VE, None, ('tasks with their places', lambda c, k, v, base=base: z3.And(n(c, v) == k, forall_range(I(0), k, lambda i: z3.And(base > 0, task(c, c.at(v, i, VE)) == tasks(c, i), slot(c, c.at(v, i, VE)) == base + i)))))
        return out + in_loop(info, ('no failure so far', lambda c, k: forall_range(I(0), k, lambda i: z3.Not(fails(tasks(c, i))))))
    reg.add(Contract(K_ + 'AreAvailableWorkers', internal=True, returns=lambda c: pc(c) >= 2))
    reg.add(Contract(K_ + 'CheckAvailableWorkers', internal=True, throws=[('runtime_error', lambda c: pc(c) < 2)]))
    reg.add(Contract(K_ + 'IsValid', returns=lambda c: pc(c) >= 2))
    reg.add(Contract(K_ + 'GetStatistics', throws=[('logic_error', lambda c: z3.BoolVal(True))]))
    reg.add(Contract(K_ + 'ThreadWorkerPool', nparams=0, allocates=True, modifies=lambda c: [c.obj, c.floc('worker_pool_')] + [c.objloc(f(c, pool(c)), QK) for f in (todo_of, done_of)] + [('H', QK, '$' + x, f(c, pool(c))) for x in ('sent', 'taken') for f in (todo_of, done_of)], ensures=lambda c: [('has workers', z3.And(pc(c, True) >= 1, array_size(parr(c, True)) == pc(c, True))), ('nothing to do yet', pidle(c, True))]))
    reg.add(Contract(K_ + 'DoTasks', allocates=True, loops=[filling], requires=lambda c: given(c) + [('used by its owner', z3.Not(W(c))), ('earlier tasks are over', pidle(c)), ('handed out before', n(c, q(c, 'sent', False, todo_of(c, pool(c)))) >= 0)], throws=[('runtime_error', lambda c: z3.Or(pc(c) < 2, failing(c)))], may_throw=['thread_interrupted'], on_throw='modifies',
        modifies=lambda c: [('H', QK, '$sent', todo_of(c, pool(c))), ('H', QK, '$taken', done_of(c, pool(c))), ('H', SLOT, '$value')], ensures=lambda c: results(c) + [('all tasks are over', pidle(c, True))]))
    # ---- the sequential pool and statistics
    S_ = PP + 'SequentialWorkerPool::'; Z_ = PP + 'WorkerStatistics::'
    st3 = ('counted_', 'errors_', 'id_'); few = 2**31 - 1
    keep = lambda c, *but: z3.And(*[c.f_(f) == c.f(f) for f in st3 if f not in but])
    reg.add(Contract(Z_ + 'WorkerStatistics', nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('nothing counted', z3.And(*[c.f_(f) == 0 for f in st3]))]))
    reg.add(Contract(Z_ + 'WorkerStatistics', nparams=3, modifies=lambda c: [c.obj], ensures=lambda c: [('as given', z3.And(*[c.f_(f) == c.a(i) for i, f in enumerate(st3)]))]))
    for f, m in (('counted_', 'IncreaseCounted'), ('errors_', 'IncreaseErrors')):
        reg.add(Contract(Z_ + m, requires=lambda c, f=f: [('fewer than 2^31 events', c.f(f) < few)], modifies=lambda c, f=f: [c.floc(f)], ensures=lambda c, f=f: [('one more', c.f_(f) == c.f(f) + 1)]))
    for f in st3: reg.add(Contract(Z_ + 'get_' + f[:-1], returns=lambda c, f=f: c.f(f)))
    ZT = T('rec', 'WorkerStatistics'); stat = lambda c, f, post=False: c.ctx.rget(ZT, (c.f_ if post else c.f)('statistics_'), f)
    def counting(info): return in_loop(info, ('no failure so far', lambda c, k: forall_range(I(0), k, lambda i: z3.Not(fails(tasks(c, i))))), ('performed so far', lambda c, k: z3.And(*[f for _, f in performed(c, k)])), ('counted so far', lambda c, k: counted(c, k))) + in_loop_vec(info, VRS, None, ('results so far', lambda c, k, v: forall_range(I(0), k, lambda i: z3.And(c.at(v, i, VRS) > c.pre.alloc, c.at(v, i, VRS) <= c.post.alloc, produced(tasks(c, i), c.at(v, i, VRS))))))
    def performed(c, k): return [('every task is performed once', nr(c, ran_(c)) == nr(c, ran(c)) + k), ('in order', z3.And(forall_range(I(0), nr(c, ran(c)), lambda i: c.at(ran_(c), i, VT) == c.at(ran(c), i, VT)), forall_range(I(0), k, lambda i: c.at(ran_(c), nr(c, ran(c)) + i, VT) == tasks(c, i))))]
    def counted(c, k): return z3.And(stat(c, 'counted_', True) == stat(c, 'counted_') + k, stat(c, 'errors_', True) == stat(c, 'errors_'), stat(c, 'id_', True) == stat(c, 'id_'))
    reg.add(Contract(S_ + 'SequentialWorkerPool', nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('nothing counted', z3.And(*[stat(c, f, True) == 0 for f in st3]))]))
    reg.add(Contract(S_ + 'IsValid', returns=lambda c: z3.BoolVal(True)))
    reg.add(Contract(S_ + 'DoTasks', allocates=True, loops=[counting], requires=lambda c: given(c) + [('performed before', nr(c, ran(c)) >= 0), ('fewer than 2^31 events', stat(c, 'counted_') < 2**30)], throws=[('runtime_error', failing)], may_throw=['thread_interrupted'], on_throw='modifies', modifies=lambda c: [c.floc('statistics_'), ('V', 'ran')], throw_ensures=lambda c: [('tasks performed before are counted', z3.And(nr(c, ran_(c)) == nr(c, ran(c)) + 1 + stat(c, 'counted_', True) - stat(c, 'counted_'), stat(c, 'counted_', True) >= stat(c, 'counted_'), stat(c, 'errors_', True) == stat(c, 'errors_')))],
        ensures=lambda c: results(c) + performed(c, nt(c)) + [('every task is counted', counted(c, nt(c)))]))
    VZ = VEC(ZT)
    reg.add(Contract(S_ + 'GetStatistics', ensures=lambda c: [('its own statistics', z3.And(c.len(c.result, VZ) == 1, c.at(c.result, I(0), VZ) == c.f('statistics_')))]))
    # ---- statistics of many workers
    A_ = PP + 'StatisticsAggregator::'
    mt = lambda c: c.ft('statistics_'); m0 = lambda c: c.f('statistics_'); m1 = lambda c: c.f_('statistics_')
    dom = lambda c, m, k: sel(mdom(c.ctx, mt(c), m), k); rec = lambda c, m, k: sel(mval(c.ctx, mt(c), m), k); g = lambda c, r, f: c.ctx.rget(ZT, r, f)
    old = lambda c, f: z3.If(dom(c, m0(c), c.a(0)), g(c, rec(c, m0(c), c.a(0)), f), c.a(0) if f == 'id_' else I(0))
    reg.add(Contract(A_ + 'StatisticsAggregator', nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('by id', own_id(c, m1(c))), ('no events', (lambda k: z3.ForAll([k], z3.Not(dom(c, m1(c), k))))(fresh('k', z3.IntSort())))]))
    reg.add(Contract(A_ + 'GetAppropriateStatistics', internal=True, ensures=lambda c: [('those of the worker, empty ones for a new worker', z3.And(*[g(c, c.result, f) == old(c, f) for f in st3]))]))
    for f, m in (('counted_', 'RegisterCount'), ('errors_', 'RegisterError')):
        reg.add(Contract(A_ + m, requires=lambda c, f=f: [('fewer than 2^31 events', old(c, f) < few), ('by id', own_id(c, m0(c)))], modifies=lambda c: [c.floc('statistics_')], ensures=lambda c, f=f: [('by id', own_id(c, m1(c))), ('the event is counted for this worker', z3.And(dom(c, m1(c), c.a(0)), *[g(c, rec(c, m1(c), c.a(0)), h) == old(c, h) + (1 if h == f else 0) for h in st3])),
            ('other workers are as before', (lambda k: z3.ForAll([k], z3.Implies(k != c.a(0), z3.And(dom(c, m1(c), k) == dom(c, m0(c), k), z3.Implies(dom(c, m0(c), k), rec(c, m1(c), k) == rec(c, m0(c), k))))))(fresh('k', z3.IntSort())))]))
    VZ_ = lambda c, v, i: c.at(v, i, VZ); entry = lambda c, i, v: (lambda k: z3.And(dom(c, m0(c), k), rec(c, m0(c), k) == VZ_(c, v, i)))(g(c, VZ_(c, v, i), 'id_'))
    own_id = lambda c, m: (lambda k: z3.ForAll([k], z3.Implies(dom(c, m, k), g(c, rec(c, m, k), 'id_') == k)))(fresh('k', z3.IntSort()))
    def given_out(c, v, which): return (lambda k: z3.ForAll([k], z3.Implies(which(k), exists_range(I(0), c.len(v, VZ), lambda i: VZ_(c, v, i) == rec(c, m0(c), k)))))(fresh('k', z3.IntSort()))
    def once(c, v): return forall_range(I(0), c.len(v, VZ), lambda j: forall_range(I(0), j, lambda i: g(c, VZ_(c, v, i), 'id_') != g(c, VZ_(c, v, j), 'id_')))
    def collecting(info):
        its = [k for k, v in info.st.cells.items() if getattr(v, 'kind', '') == 'mapit']
        vis = lambda c: c.post.cells[its[0]].extra[0]
        return in_loop_vec(info, VZ, None, ('those visited, each once', lambda c, k, v: once(c, v)), ('of the workers visited', lambda c, k, v: forall_range(I(0), c.len(v, VZ), lambda i: z3.And(sel(vis(c), g(c, VZ_(c, v, i), 'id_')), entry(c, i, v)))), ('every worker visited', lambda c, k, v: given_out(c, v, lambda q: sel(vis(c), q))), ('how many', lambda c, k, v: c.len(v, VZ) == k)) if its else []
    reg.add(Contract(A_ + 'GetStatistics', loops=[collecting], requires=lambda c: [('by id', own_id(c, m0(c)))], ensures=lambda c: [('statistics of a worker', forall_range(I(0), c.len(c.result, VZ), lambda i: entry(c, i, c.result))), ('of every worker', given_out(c, c.result, lambda k: dom(c, m0(c), k))), ('each once', once(c, c.result))]))
    # ---- the factory
    F_ = PP + 'WorkerPoolFactory::'
    E = {nm: None for nm in ('kThreadWorkerPool', 'kMpiWorkerPool', 'kSequentialWorkerPool')}
    usable = lambda c, r, post=False: z3.Or(c.X.isinst(r, 'SequentialWorkerPool'), z3.And(c.X.isinst(r, 'ThreadWorkerPool'), (c.of_ if post else c.of)(pool(c, r), MK, 'number_of_workers_') >= 2))
    reg.add(Contract(PP + 'IWorkerPool::IsValid', assumed=True, note='what IsValid of the two pools, verified here, says', requires=lambda c: [('one of the two pools', z3.Or(c.X.isinst(c.this, 'SequentialWorkerPool'), c.X.isinst(c.this, 'ThreadWorkerPool')))], returns=lambda c: usable(c, c.this)))
    kind = lambda c: c.a(0)
    TH, MP, SQ = I(0), I(1), I(2)
    def of_kind(c): return [('a new pool of the kind asked for', z3.And(c.result > c.pre.alloc, c.result <= c.post.alloc, z3.If(kind(c) == SQ, c.X.isinst(c.result, 'SequentialWorkerPool'), c.X.isinst(c.result, 'ThreadWorkerPool'))))]
    enum = lambda c: [('one of the kinds', z3.And(kind(c) >= 0, kind(c) <= 2))]
    reg.add(Contract(F_ + 'CreateWorkerPool', allocates=True, requires=enum, throws=[('runtime_error', lambda c: kind(c) == MP)], ensures=of_kind))
    reg.add(Contract(F_ + 'CanCreateWorkerPool', requires=enum, returns=lambda c: kind(c) != MP))
    reg.add(Contract(F_ + 'CreateBestWorkerPool', allocates=True, unroll=4, ensures=lambda c: [('a usable pool', z3.And(c.result > c.pre.alloc, usable(c, c.result, True)))]))
