"""C01: two work items of one parallel section never touch the same storage unprotected when one of them writes."""
import re
from effects import Effects, covers, item_unique, PTRLIKE

ANY_GLOBAL_OK = ()


def lambda_of(env, a):
    x = a
    for _ in range(8):
        if x is None:
            return None
        if x.k == 'lambda':
            return x
        if x.k in ('icast', 'cast') and x.ch:
            x = x.ch[0]
        elif x.k == 'ctor' and x.ch:
            x = x.ch[0]
        elif x.k == 'ref' and x.a in env.lamvars:
            return env.lamvars[x.a]
        elif x.k == 'call' and x.cname() in ('move', 'forward', 'ref', 'cref') and x.ch:
            x = x.ch[0]
        else:
            return None
    return None


def find_sites(P):
    for f in P.fns.values():
        if f.dep or 'ThreadPool' in f.f:
            continue
        for n in f.walk():
            if n.k in ('call', 'mcall') and n.cname() in ('parallel_for', 'run_multiple_producers_ordered_consumer'):
                yield f, n


def analyse_site(E, fn, n):
    """yields (kind, data) ; kind in 'race', 'nolambda'"""
    env = E.env(fn)
    args = [a for a in env.callargs(n) if a is not None]
    lams = []
    for a in args:
        l = lambda_of(env, a)
        if l is not None:
            lams.append(l)
    nm = n.cname()
    if nm == 'parallel_for':
        groups = [('self', lams[:1])]
    else:
        groups = [('self', lams[:1]), ('cross', lams[:2])]
    if not lams:
        yield ('nolambda', n)
        return
    for kind, ls in groups:
        if kind == 'self':
            A = B = ls[0]
            ea = eb = items(E, fn, env, A)
        else:
            if len(ls) < 2:
                continue
            A, B = ls
            ea, eb = items(E, fn, env, A), items(E, fn, env, B)
        yield ('stats', (len(ea), len(eb)))
        chunked = nm == 'parallel_for' and any(a.k not in ('defarg', 'lambda') for a in args[3:])
        for r in conflicts(ea, eb, kind == 'self'):
            yield ('chunked' if chunked and offset_only(*r) else 'race', r)


def offset_only(a, b):
    """both accesses go through an index of the same container, a constant distance apart"""
    for x, y in zip(a.path[1:], b.path[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x[1][1] == y[1][1] and bool(x[1][1])
        if x != y:
            return False
    return False


def items(E, fn, env, lam):
    """effects of the body visible to other items, each with a flag whether its storage is private to the item"""
    out = []
    wsym = {(('L', fn.u, i),) for i in lam.a[1]}
    inner = set()
    for i, l in env.scope.items():
        x = l
        while x is not None:
            if x is lam:
                inner.add((('L', fn.u, i),))
                break
            nx = None
            for a in x.ancestors():
                if a.k == 'lambda':
                    nx = a
                    break
            x = nx

    def uniq(lin):
        syms = dict(lin[1])
        k = [s for s in syms if s in wsym]
        if len(k) != 1:
            return False
        return all(s in wsym or s not in inner for s in syms)

    for e in E.summary(fn, lam):
        r = e.path[0]
        if r[0] == 'L' and r[1] == fn.u and r[2] in lam.a[1]:
            continue        # the item's own handle (index value, iterator to its own element)
        u = item_unique(e.path, uniq)
        out.append((e, u))
    return out


def disjoint(a, b):
    if a == b:
        return True
    if a[1] != b[1]:
        return False
    cs = [abs(c) for _, c in a[1]]
    return len(cs) == 1 and (a[0] - b[0]) % cs[0] != 0


def conflicts(ea, eb, same):
    from collections import defaultdict
    byroot = defaultdict(list)
    for e, u in eb:
        byroot[e.path[0]].append((e, u))
    seen = set()
    for e, u in ea:
        for f, v in byroot.get(e.path[0], ()):
            if not (e.w or f.w):
                continue
            if e.locks & f.locks:
                continue
            if u and v and same and e.path[:e.path.index(u)] == f.path[:f.path.index(v)]:
                # both go through an index of the same container that differs from item to item:
                # c*w1+k1 == c*w2+k2 has a solution with w1 != w2 only if c divides k1-k2 and k1 != k2
                if disjoint(u[1], v[1]):
                    continue
            if not covers(e.path, f.path):
                continue
            a, b = (e, f) if e.w else (f, e)
            k = (a.path, b.path, b.w, a.locks, b.locks)
            if k in seen:
                continue
            seen.add(k)
            yield a, b
