"""which locks may be held where: an interprocedural may-analysis over the control flow graphs

A lock is identified by what owns it: (class, member), a global, or a local variable of a function.  A scoped guard holds its
lock from its declaration until it is destroyed or unlocked; a guard handed in as a parameter holds the lock '<given>'."""
import re
from core import strip_targs

MUTEX = re.compile(r'^(const )?std::(recursive_|timed_|recursive_timed_|shared_|shared_timed_)?mutex\b')
GUARD = re.compile(r'^(const )?std::(unique_lock|lock_guard|scoped_lock|shared_lock)<')
CONDVAR = re.compile(r'^(const )?std::condition_variable(_any)?\b')
PARALLEL = {'cura::parallel_for', 'cura::run_multiple_producers_ordered_consumer'}


def bare(t):
    t = t.rstrip('& ').strip()
    while t.endswith('*'):
        t = t[:-1].strip()
    return t


class Held:
    """the locks that may be / must be held at the nodes of one function or lambda body"""

    def __init__(self, A, fn, lam=None):
        self.A, self.fn, self.lam = A, fn, lam
        self.guards = {}        # decl index of a guard -> locks
        self.may = {}           # node id -> frozenset
        self.must = {}
        self.acq = []           # (node, locks, held before)
        self.waits = []         # (node, lock of the guard, held)
        self.bad = []           # (node, text)
        self.exit_may = frozenset()
        self.exit_must = frozenset()
        cfg = fn.cfg(lam)
        if cfg is None:
            return
        self.entry = frozenset(('<given>', p.i) for p in (fn.params if lam is None else [fn.D(i) for i in lam.a[1]]) if GUARD.match(bare(p.t)) and p.t.endswith('&'))
        for _, i in self.entry:
            self.guards[i] = frozenset({('<given>', i)})
        IN = {cfg.entry: (self.entry, self.entry)}
        order = cfg.order()
        for _ in range(30):
            changed = False
            for b in order:
                if b not in IN:
                    continue
                st = IN[b]
                for kind, x in cfg.events(cfg.b[b]):
                    st = self.step(kind, x, st)
                for s in cfg.b[b].succ:
                    if s < 0:
                        continue
                    o = IN.get(s)
                    nw = st if o is None else (o[0] | st[0], o[1] & st[1])
                    if nw != o:
                        IN[s] = nw
                        changed = True
            if not changed:
                break
        for b in order:
            if b not in IN:
                continue
            st = IN[b]
            for kind, x in cfg.events(cfg.b[b]):
                if kind == 'n':
                    self.may[x.id], self.must[x.id] = st
                st = self.step(kind, x, st, True)
        if cfg.exit in IN:
            self.exit_may, self.exit_must = IN[cfg.exit]

    def locks(self, n):
        return self.A.locks(self.fn, n)

    def step(self, kind, x, st, rec=False):
        may, must = st
        if kind == 'D':
            g = self.guards.get(x.i) if x is not None else None
            if g and not (x.t.endswith('&')):
                return may - g, must - g
            return st
        if kind != 'n':
            return st
        fn = self.fn
        if x.k == 'decl':
            for v in x.ch:
                if v is not None and v.k == 'var' and GUARD.match(fn.D(v.a).t):
                    may, must = self.guard(v, may, must, rec)
            return may, must
        if x.k == 'var' and GUARD.match(fn.D(x.a).t):
            return self.guard(x, may, must, rec)
        if x.k == 'opcall' and x.cname() == 'operator=' and x.ch and x.ch[0] is not None and x.ch[0].k == 'ref' and GUARD.match(bare(x.ch[0].t)):
            g, mode = self.made(x.ch[1])
            self.guards[x.ch[0].a] = self.guards.get(x.ch[0].a, frozenset()) | g
            if rec:
                self.acq.append((x, g, may))
            return may | g, must
        if x.k != 'mcall' or not x.ch or x.ch[0] is None:
            return st
        nm, o = x.cname(), x.ch[0]
        t = bare(o.t)
        if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared') and (MUTEX.match(t) or GUARD.match(t)):
            g = self.guards.get(o.a) if o.k == 'ref' and GUARD.match(t) else self.locks(o)
            if not g:
                return st
            if nm.startswith('lock'):
                if rec:
                    self.acq.append((x, g, may))
                    if len(g) == 1 and g <= must:
                        self.bad.append((x, 'locks what is already locked'))
                return may | g, must | (g if len(g) == 1 else frozenset())
            if rec and not (g & may):
                self.bad.append((x, 'unlocks what is not locked'))
            return may - g, must - g
        if nm.startswith('wait') and CONDVAR.match(t) and len(x.ch) > 1 and x.ch[1] is not None:
            y = x.ch[1]
            g = self.guards.get(y.a) if y.k == 'ref' else None
            if rec:
                self.waits.append((x, g or frozenset(), may))
        return st

    def made(self, c):
        """locks taken by the expression that creates a guard, and how"""
        g, mode = set(), 'lock'
        todo = [c]
        while todo:
            a = todo.pop()
            if a is None:
                continue
            if 'defer_lock' in a.t:
                mode = 'defer'
            elif 'try_to_lock' in a.t:
                mode = 'try'
            elif MUTEX.match(bare(a.t)):
                g |= self.locks(a)
            elif a.k in ('call', 'mcall') and GUARD.match(bare(a.t)):
                for f in self.A.callees(a):
                    g |= self.A.returned(f)
            elif a.k == 'ref' and GUARD.match(bare(a.t)) or a.k in ('ctor', 'init', 'icast', 'cast', 'call', 'cond'):
                todo += a.ch
        return frozenset(g), mode

    def guard(self, v, may, must, rec):
        g, mode = self.made(v.ch[0] if v.ch else None)
        self.guards[v.a] = self.guards.get(v.a, frozenset()) | g
        if mode == 'defer' or not g:
            return may, must
        if rec and mode == 'lock':
            self.acq.append((v, g, may))
        return may | g, must | (g if len(g) == 1 and mode == 'lock' else frozenset())


class Analysis:
    def __init__(self, P):
        self.P = P
        self._h, self._acq, self._ret = {}, {}, {}

    def held(self, fn, lam=None):
        k = (fn.u, lam.id if lam is not None else None)
        if k not in self._h:
            self._h[k] = Held(self, fn, lam)
        return self._h[k]

    def locks(self, fn, n, depth=0):
        """what the mutex expression denotes"""
        if n is None or depth > 12:
            return frozenset()
        if n.k == 'mem':
            q = self.owner(n)
            return frozenset({q}) if q else frozenset()
        if n.k == 'ref':
            d = fn.D(n.a)
            if 'G' in d.fl or 'S' in d.fl:
                return frozenset({('global', d.n)})
            t = d.t.rstrip()
            if t.endswith('&') or t.endswith('*'):
                ini = self.init_of(fn, d)
                if ini:
                    r = frozenset()
                    for i in ini:
                        r |= self.locks(fn, i, depth + 1)
                    return r
                return frozenset({('local', fn.u, d.i)}) if MUTEX.match(bare(t)) else frozenset()
            return frozenset({('local', fn.u, d.i)})
        if n.k == 'cond':
            return self.locks(fn, n.ch[1], depth + 1) | self.locks(fn, n.ch[2], depth + 1)
        if n.k == 'this':
            return frozenset()
        if n.k in ('un', 'icast', 'cast', 'opcall', 'mcall', 'ctor', 'init', 'x', 'sub') and n.ch:
            return self.locks(fn, n.ch[0], depth + 1)
        return frozenset()

    def init_of(self, fn, d):
        """what a reference or pointer variable was bound to or assigned from"""
        if not hasattr(fn, '_inits_by_decl'):
            m = {}
            for x in fn.walk():
                if x.k == 'var' and x.ch and x.ch[0] is not None:
                    m.setdefault(x.a if not isinstance(x.a, (list, tuple)) else x.a[0], []).append(x.ch[0])
                elif x.k == 'asg' and x.ch and x.ch[0] is not None and x.ch[0].k == 'ref' and x.ch[0].t.endswith('*'):
                    m.setdefault(x.ch[0].a, []).append(x.ch[1])
            fn._inits_by_decl = m
        return fn._inits_by_decl.get(d.i)

    def owner(self, n):
        d = n.decl()
        b = n.ch[0] if n.ch else None
        cls = strip_targs(bare(b.t)).replace('const ', '') if b is not None else strip_targs(n.fn.cls or '')
        r = self.P.record_of(bare(b.t)) if b is not None else None
        # a member belongs to the class that declares it
        seen = set()
        while r is not None and not any(f[0] == d.n for f in r['fields']) and r.get('bases'):
            nxt = next((self.P.record_of(x[0]) for x in r['bases']), None)
            if nxt is None or nxt['q'] in seen:
                break
            seen.add(nxt['q'])
            r = nxt
        if r is not None:
            cls = strip_targs(r['q'])
        return ('member', cls, d.n)

    def callees(self, n):
        return [f for f in self.P.resolve(n) if f.body is not None]

    def returned(self, f):
        """locks held by a guard the function returns"""
        if f.u in self._ret:
            return self._ret[f.u]
        self._ret[f.u] = frozenset()
        g = set()
        for x in f.walk(False):
            if x.k == 'return' and x.ch and x.ch[0] is not None:
                for y in x.ch[0].walk(False):
                    if MUTEX.match(bare(y.t)) and y.k in ('mem', 'ref'):
                        g |= self.locks(f, y)
        self._ret[f.u] = frozenset(g)
        return self._ret[f.u]

    def closures(self, fn, n):
        """lambdas that run because of this call: the one that is called and the ones handed over"""
        out = []
        for c in n.ch:
            while c is not None and c.k in ('icast', 'cast', 'ctor', 'init', 'call') and len([x for x in c.ch if x is not None]) == 1:
                c = [x for x in c.ch if x is not None][0]
            if c is None:
                continue
            if c.k == 'lambda':
                out.append(c)
            elif c.k == 'ref':
                out += [x for i in self.init_of(fn, fn.D(c.a)) or () for x in i.walk(False) if x.k == 'lambda']
        return out

    def taken(self, fn, lam):
        """locks that may be taken while a lambda runs"""
        k = (fn.u, lam.id, 'taken')
        if k in self._h:
            return self._h[k]
        self._h[k] = out = {}
        for _, ls, _ in self.held(fn, lam).acq:
            for l in ls:
                if l[0] != '<given>':
                    out[l] = ('a lambda at line %d' % lam.l,)
        for n in lam.x.walk(False):
            if n.k in ('call', 'mcall', 'opcall', 'ctor'):
                for c in self.callees(n):
                    for l, ch in self.acquired(c).items():
                        out.setdefault(l, ch)
                for m in self.closures(fn, n):
                    for l, ch in self.taken(fn, m).items():
                        out.setdefault(l, ch)
        return out

    def direct(self, fn):
        """locks taken in the function itself, its lambdas included"""
        g = set()
        hs = [self.held(fn)] + [self.held(fn, l) for l in fn.walk() if l.k == 'lambda']
        for h in hs:
            for n, ls, _ in h.acq:
                g |= ls
        return {x for x in g if x[0] != '<given>'}

    def acquired(self, f):
        """locks that may be taken while the function runs: lock -> chain of calls"""
        if not self._acq:
            self.closure()
        return self._acq.get(f.u, {})

    def closure(self):
        P = self.P
        fns = [f for f in P.fns.values() if f.body is not None and not f.dep and not f.f.startswith('@ref') and not f.u.startswith('ref:')]
        calls, self._acq = {}, {}
        for f in fns:
            self._acq[f.u] = {l: (f.q,) for l in self.direct(f)}
            for n in f.walk():
                if n.k in ('call', 'mcall', 'opcall', 'ctor'):
                    for c in self.callees(n):
                        if c.u != f.u:
                            calls.setdefault(c.u, set()).add(f.u)
        todo = [u for u in self._acq if self._acq[u]]
        while todo:
            u = todo.pop()
            for v in calls.get(u, ()):
                a = self._acq.setdefault(v, {})
                new = False
                for l, ch in self._acq[u].items():
                    if l not in a and len(ch) < 12:
                        a[l] = (P.fns[v].q,) + ch
                        new = True
                if new:
                    todo.append(v)


# ---------------------------------------------------------------------------------------------------------- rules
def bodies(P, fns):
    for f in fns:
        if f.body is None or f.dep or f.f.startswith('@ref') or f.u.startswith('ref:'):
            continue
        yield f, None
        for l in f.walk():
            if l.k == 'lambda' and l.a[5] is not None and l.a[5] >= 0:
                yield f, l


def show(l):
    return l[1] + '::' + l[2] if l[0] == 'member' else str(l[1])


def own_nodes(fn, lam):
    return (lam.x if lam is not None else fn.body).walk(False)


def given(f, lam):
    ps = f.params if lam is None else [f.D(i) for i in lam.a[1]]
    return [p.i for p in ps if GUARD.match(bare(p.t)) and p.t.endswith('&')]


def parents(n):
    m, st = {}, [n]
    while st:
        x = st.pop()
        for c in list(x.ch) + ([x.x] if x.k == 'lambda' and x.x is not None else []):
            if c is not None:
                m[c.id] = x
                st.append(c)
    return m


def in_loop(root, n, pm):
    x = n
    while x.id in pm:
        p = pm[x.id]
        if p.k in ('while', 'for', 'do', 'rfor'):
            return True
        if p.k == 'lambda':
            return False
        x = p
    return False


def wait_rules(rep, A, fns):
    """a wait without a condition of its own is only made inside a loop that looks again at what it waits for"""
    P = A.P
    looped = {}

    def ok(f, lam, depth=0):
        """f is only called from loops"""
        k = f.u
        if k in looped:
            return looped[k]
        looped[k] = False
        cs = []
        for g in fns:
            if g.body is None or g.dep:
                continue
            pm = None
            for n in g.walk():
                if n.k in ('call', 'mcall', 'opcall') and any(c.u == f.u for c in A.callees(n)):
                    pm = pm or parents(g.body)
                    cs.append(in_loop(g.body, n, pm) or depth < 3 and ok(g, None, depth + 1))
        looped[k] = bool(cs) and all(cs)
        return looped[k]
    for f, lam in bodies(P, fns):
        h = A.held(f, lam)
        pm = None
        for n, g, held in h.waits:
            rep.count('waits')
            pm = pm or parents(lam.x if lam is not None else f.body)
            plain = len([c for c in n.ch if c is not None]) == 2 and n.cname() == 'wait'
            if plain and not in_loop(None, n, pm) and not (lam is None and ok(f, lam)):
                rep.violation('wait:' + f.sq, '%s:%d %s' % (f.f, n.l, f.q), 'waits once: a spurious or early wake-up ends the wait although what is waited for has not happened')
            elif g and not (g & held):
                rep.violation('wait:' + f.sq, '%s:%d %s' % (f.f, n.l, f.q), 'waits with a lock that is not held')
            else:
                rep.ok()
                rep.sample('wait at %s:%d inside a re-checking loop' % (f.f, n.l))


def handed_rules(rep, A, fns):
    """functions that are handed a held lock: shared members are touched only under it, items are worked on without it, and it is held again at the end"""
    P = A.P
    hs = [(f, lam, A.held(f, lam)) for f, lam in bodies(P, fns) if given(f, lam)]
    locks = [f for f, lam in bodies(P, fns) if lam is None]
    shared = {}
    WR = ('asg', 'casg')

    def target(n):
        if n.k in WR:
            return n.ch[0]
        if n.k == 'un' and n.a in ('++', '--', 'p++', 'p--', '++p', '--p', 'post++', 'post--', 'pre++', 'pre--'):
            return n.ch[0]
        if n.k == 'mcall' and n.ch and n.ch[0] is not None and n.callee() is not None and 'c' not in n.callee().fl:
            return n.ch[0]
        return None
    for f, lam, h in hs:
        if not h.entry:
            continue
        for n in own_nodes(f, lam):
            x = target(n)
            if x is not None and x.k == 'mem' and n.id in h.must and h.must[n.id] & h.entry and not CONDVAR.match(bare(x.t)) and not MUTEX.match(bare(x.t)) and 'std::atomic' not in x.t:
                shared.setdefault(A.owner(x), []).append((f, n))
    for f, lam, h in hs:
        rep.count('handed_locks')
        e = h.entry
        if not e:
            continue
        for n in own_nodes(f, lam):
            if n.k == 'mem' and A.owner(n) in shared and n.id in h.must:
                if h.must[n.id] & e:
                    rep.ok()
                else:
                    rep.violation('shared:%s:%s' % (show(A.owner(n)), f.sq), '%s:%d %s' % (f.f, n.l, f.q), '%s is shared between the workers but touched here while the lock is given up' % show(A.owner(n)))
            item = None
            if n.k == 'opcall' and n.cname() == 'operator()' and len([c for c in n.ch[1:] if c is not None]) >= 1 and n.ch[0] is not None and n.ch[0].k in ('mem', 'ref'):
                item = n.ch[1:]
            elif n.k == 'call' and (not isinstance(n.a, int) or n.a < 0) and len(n.ch) > 1:
                item = n.ch[1:]
            if item and n.id in h.may:
                handed = any(c is not None and GUARD.match(bare(c.t)) for c in item)
                if h.may[n.id] & e and not handed:
                    rep.violation('item:' + f.sq, '%s:%d %s' % (f.f, n.l, f.q), 'an item is worked on while the lock of the work queue is still held: no other thread can go on, and work started from it waits for the lock it holds')
                else:
                    rep.ok()
        for n, t in h.bad:
            rep.violation('lock:' + f.sq, '%s:%d %s' % (f.f, n.l, f.q), t)
        if lam is not None or f.n == 'worker':
            if h.exit_must >= e:
                rep.ok()
            else:
                rep.violation('exit:' + f.sq, f.where() if lam is None else '%s:%d %s' % (f.f, lam.l, f.q), 'ends without holding the lock it was handed')


def order_rules(rep, A, fns):
    P = A.P
    edges = {}
    for f, lam in bodies(P, fns):
        h = A.held(f, lam)
        for n, t in h.bad:
            if not h.entry:
                rep.violation('lock:' + f.sq, '%s:%d %s' % (f.f, n.l, f.q), t)
        for n, ls, held in h.acq:
            rep.count('acquisitions')
            rep.ok()
            for a in held:
                for b in ls:
                    if a[0] != '<given>' and b[0] != '<given>':
                        edges.setdefault((a, b), ('%s:%d %s' % (f.f, n.l, f.q), ()))
        # a lock that is taken by hand is released on every way out
        hand = set()
        for n, ls, held in h.acq:
            if n.k == 'mcall' and not GUARD.match(bare(n.ch[0].t)):
                hand |= ls
        for l in hand & h.exit_may:
            if l[0] != '<given>' and not f.n.lower().startswith('lock'):
                rep.violation('held:%s:%s' % (show(l), f.sq), f.where(), 'a way out leaves %s locked' % show(l))
        for n in own_nodes(f, lam):
            if n.k not in ('call', 'mcall', 'opcall', 'ctor') or n.id not in h.may:
                continue
            held = {x for x in h.may[n.id] if x[0] != '<given>'}
            if not held:
                continue
            rep.count('calls_under_a_lock')
            for c in n.ch:
                if c is not None and GUARD.match(bare(c.t)) and c.k == 'ref':
                    held -= h.guards.get(c.a, frozenset())       # handed on: judged there
            if not held:
                continue
            for c in A.callees(n):
                for b, chain in A.acquired(c).items():
                    for a in held:
                        edges.setdefault((a, b), ('%s:%d %s' % (f.f, n.l, f.q), chain))
            for m in A.closures(f, n):
                for b, chain in A.taken(f, m).items():
                    for a in held:
                        edges.setdefault((a, b), ('%s:%d %s' % (f.f, n.l, f.q), chain))
        for n, g, held in h.waits:
            for a in held - g:
                if a[0] != '<given>':
                    rep.violation('wait:%s:%s' % (show(a), f.sq), '%s:%d %s' % (f.f, n.l, f.q), 'sleeps while holding %s' % show(a))
    rep.cov['nested_acquisitions'] = len(edges)
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    for (a, b), (where, chain) in sorted(edges.items(), key=str):
        rep.sample('%s -> %s at %s' % (show(a), show(b), where))
        via = ' through ' + ' -> '.join(chain[:4]) if chain else ''
        if a == b:
            rep.violation('again:%s' % show(a), where, '%s may be taken%s while it is held already' % (show(a), via))
            continue
        # can a be reached from b?
        seen, st = {b}, [b]
        while st:
            for y in succ.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        if a in seen:
            rep.violation('order:%s' % '/'.join(sorted({show(a), show(b)})), where, '%s is taken%s while %s is held, and elsewhere the other way round' % (show(b), via, show(a)))
        else:
            rep.ok()
