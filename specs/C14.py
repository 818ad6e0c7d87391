from .base import *
FILES = ['/verif/drivers/queue.cpp']
Q = 'k52::parallel::thread::ThreadSafeQueue::'
CNT = T('int', (32, True))
ASSUMPTIONS = ['boost::mutex gives mutual exclusion and boost::condition_variable::wait releases the lock, blocks and takes it again (spurious wake-ups included); between two sections that hold the lock other threads may change the queue in any way that its operations allow (here: in any way at all)',
               'fewer than 2^60 elements', 'copying an element does not throw']
GH = dict(acq=None, before=None, after=None, changes=I32, waits=I32, notified=BOOL, pending=BOOL)
class QM:
    """the guarded state of one queue and its ghost history: what the queue held when the lock was taken, and the one change made under the lock"""
    def __init__(s, X, loc):
        s.X = X; s.loc = loc; s.cls = loc.t.a
        fs = X.prog.all_fields(s.cls)
        s.qname, s.qt = [(n, t) for _, n, t in fs if t.k == 'vec'][0]
        s.mname = [n for _, n, t in fs if t.k == 'rec' and t.a == '$mutex'][0]
    def f(s, st, nm): return s.X.read(st, s.X.field(st, s.loc, nm))
    def set(s, st, nm, v): s.X.write(st, s.X.field(st, s.loc, nm), v)
    def content(s, st): return s.f(st, s.qname)
    def g(s, st, nm): return s.f(st, '$' + nm)
    def setg(s, st, nm, v): s.set(st, '$' + nm, v)
    def locked(s, st):
        m = s.X.field(st, s.loc, s.mname); return s.X.read(st, m.sub(('f', 'locked', m.t), BOOL))
    def len(s, v): return s.X.ctx.vlen(s.qt, v)
    def at(s, v, i): return s.X.ctx.vget(s.qt, v, i)
    def eq(s, a, b): return s.X.ctx.eq(s.qt, a, b)
    def others(s, st):
        """other threads may have used the queue"""
        v = s.X.ctx.fresh('content', s.qt)
        for f in s.X.ctx.wf(s.qt, v, st.alloc): st.assume(f)
        st.assume(s.len(v) < 2**60); s.set(st, s.qname, v)
def is_queue(k): return isinstance(k, tuple) and k[0] == 'ThreadSafeQueue'
def of_mutex(X, m):
    """the queue a mutex belongs to"""
    if m.root[0] == 'H' and is_queue(m.root[1][0]): return QM(X, Loc(('O', m.path[0][1]), (), T('rec', m.root[1][0])))
def acquire(X, st, m):
    q = of_mutex(X, m)
    if q is None: return
    q.others(st); q.setg(st, 'acq', q.content(st)); q.setg(st, 'notified', z3.BoolVal(False))
def release(X, st, m):
    q = of_mutex(X, m)
    if q is None: return
    a, b = q.g(st, 'acq'), q.content(st); ch = z3.simplify(z3.Not(q.eq(a, b)))
    it = lambda x, y: z3.simplify(z3.If(ch, x, y))
    if z3.is_true(ch) or z3.is_false(ch): pick = (lambda x, y: x if z3.is_true(ch) else y)
    else: pick = lambda x, y: X.ite(ch, x, y)
    q.setg(st, 'changes', it(q.g(st, 'changes') + 1, q.g(st, 'changes')))
    q.setg(st, 'before', pick(a, q.g(st, 'before'))); q.setg(st, 'after', pick(b, q.g(st, 'after')))
    grown = z3.And(ch, q.len(b) > q.len(a))
    q.setg(st, 'pending', z3.Or(q.g(st, 'pending'), z3.And(grown, z3.Not(q.g(st, 'notified')))))
    q.others(st)
def guarded(X, st, loc, n):
    if loc.root[0] == 'H' and is_queue(loc.root[1][0]) and loc.root[1][1] == QM(X, Loc(('O', loc.path[0][1]), (), T('rec', loc.root[1][0]))).qname:
        q = QM(X, Loc(('O', loc.path[0][1]), (), T('rec', loc.root[1][0])))
        X.ob(st, 'the queued elements are used only while holding the lock of the queue', q.locked(st), 'lock', n)
def owner_of(X, st, n, b):
    """the queue whose condition variable is used"""
    if isinstance(b, Loc) and b.root[0] == 'H' and is_queue(b.root[1][0]): return QM(X, Loc(('O', b.path[0][1]), (), T('rec', b.root[1][0])))
    raise Unsupported('condition variable outside a queue')
def wait(X, st, n, b, args):
    q = owner_of(X, st, n, b); l = X.rv(st, args[0])
    if not (isinstance(l, Opaque) and l.what == 'lock'): raise Unsupported('wait without a lock')
    p = of_mutex(X, l.data)
    X.ob(st, 'waits with the lock of the queue', z3.And(q.locked(st), z3.BoolVal(p is not None) if p is None else p.loc.root[1] == q.loc.root[1]), 'lock', n)
    X.ob(st, 'waits only while the queue is empty', q.len(q.content(st)) == 0, 'post', n)
    q.setg(st, 'waits', q.g(st, 'waits') + 1)
    release(X, st, l.data); acquire(X, st, l.data)
def notify(X, st, n, b, args):
    q = owner_of(X, st, n, b); q.setg(st, 'notified', z3.BoolVal(True)); q.setg(st, 'pending', z3.BoolVal(False))
def add_queue_model(reg, P):
    for k in list(P.cls):
        if is_queue(k):
            qt = [t for _, n, t in P.all_fields(k) if t.k == 'vec'][0]
            for g, t in GH.items(): reg.ghost_fields[(k, '$' + g)] = t or qt
    reg.guards.setdefault('lock', []).append(acquire); reg.guards.setdefault('unlock', []).append(release); reg.guards.setdefault('field', []).append(guarded)
    reg.methods += [('', 'wait', wait), ('', 'notify_one', notify), ('', 'notify_all', notify)]
def waiting(info):
    """while a consumer waits it has changed nothing and looks at what the queue held when it took the lock"""
    X = info.X
    if info.st.this is None or not is_queue(info.st.this.t.a): return []
    q = QM(X, info.st.this)
    return [('the queue is unchanged since the lock was taken', lambda v: q.eq(q.content(v.st), q.g(v.st, 'acq'))),
            ('the lock is held as before', lambda v: q.locked(v.st) == q.locked(v.pre.st)),
            ('nothing was removed yet', lambda v: q.g(v.st, 'changes') == q.g(v.pre.st, 'changes')),
            ('no notification is due', lambda v: q.g(v.st, 'pending') == q.g(v.pre.st, 'pending'))]
def build(reg, P):
    add_queue_model(reg, P)
    qm = lambda c: QM(c.X, c.obj)
    def ready(c):
        q = qm(c); return [('the lock is free', z3.Not(q.locked(c.pre))), ('the operation starts', z3.And(q.g(c.pre, 'changes') == 0, q.g(c.pre, 'waits') == 0, z3.Not(q.g(c.pre, 'pending'))))]
    def mods(c): return [c.floc(n) for n in [qm(c).qname] + ['$' + g for g in GH]]
    def end(c):
        q = qm(c); return [('the lock is free again', z3.Not(q.locked(c.post))), ('every push is followed by a notification', z3.Not(q.g(c.post, 'pending')))]
    def seq(c, f):
        q = qm(c); b, a = q.g(c.post, 'before'), q.g(c.post, 'after'); return f(q, b, a)
    one = lambda c: qm(c).g(c.post, 'changes') == 1
    none = lambda c: qm(c).g(c.post, 'changes') == 0
    def pushed(c):
        return seq(c, lambda q, b, a: z3.And(q.len(a) == q.len(b) + 1, q.at(a, q.len(b)) == c.a(0), forall_range(I(0), q.len(b), lambda i: q.at(a, i) == q.at(b, i))))
    def popped(c):
        return seq(c, lambda q, b, a: z3.And(q.len(b) >= 1, q.len(a) == q.len(b) - 1, forall_range(I(0), q.len(a), lambda i: q.at(a, i) == q.at(b, i + 1))))
    delivered = lambda c: seq(c, lambda q, b, a: c.a_(0) == q.at(b, I(0)))
    nowait = lambda c: ('does not wait', qm(c).g(c.post, 'waits') == 0)
    saw_empty = lambda c: qm(c).len(qm(c).g(c.post, 'acq')) == 0
    reg.add(Contract(Q + 'Push', requires=ready, modifies=mods, ensures=lambda c: [('changes the queue once', one(c)), ('appends the element at the end', pushed(c)), nowait(c)] + end(c)))
    reg.add(Contract(Q + 'WaitAndPop', requires=ready, modifies=lambda c: mods(c) + [c.arg(0)], loops=[waiting],
        ensures=lambda c: [('changes the queue once', one(c)), ('removes the oldest element', popped(c)), ('delivers the oldest element', delivered(c))] + end(c)))
    reg.add(Contract(Q + 'TryPop', requires=ready, modifies=lambda c: mods(c) + [c.arg(0)],
        ensures=lambda c: [('on success changes the queue once', z3.Implies(c.result, one(c))), ('on success removes the oldest element', z3.Implies(c.result, popped(c))),
            ('on success delivers the oldest element', z3.Implies(c.result, delivered(c))), ('on failure the queue was empty and stays as it is', z3.Implies(z3.Not(c.result), z3.And(saw_empty(c), none(c)))),
            ('on failure the output is untouched', z3.Implies(z3.Not(c.result), c.a_(0) == c.a(0))), nowait(c)] + end(c)))
    reg.add(Contract(Q + 'IsEmpty', requires=ready, modifies=mods,
        ensures=lambda c: [('changes nothing', none(c)), ('agrees with the contents', c.result == saw_empty(c)), nowait(c)] + end(c)))
    reg.add(Contract(Q + 'ThreadSafeQueue', nparams=0, modifies=lambda c: [c.obj], ensures=lambda c: [('a new queue is empty and free', z3.And(qm(c).len(qm(c).content(c.post)) == 0, z3.Not(qm(c).locked(c.post))))]))
