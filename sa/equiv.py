"""Summaries of functions as value graphs and their comparison with reference functions."""
from fractions import Fraction
import terms as t
import vg
from terms import *
from vg import St, VG, RET, default_root, isref, isptr, is_const_ref, get_field, mk_obj, bare, strip_targs

OPAQUE_OPS = ('loop', 'loopout', 'loopexit', 'alg', 'lam', 'eff')


class Summary:
    def __init__(self):
        self.out = {}
        self.unknown = []
        self.inlined = set()


def summarize(P, f, opaque=(), self_first=False, budget=150000, maxdepth=None, ctor_of=None):
    S = VG(P, opaque, budget)
    S.refside = f.f.startswith('@ref')
    if maxdepth:
        S.MAXDEPTH = maxdepth
    t.BUDGET[0] = budget
    st = St()
    env = {'$frame': 0, '$this': T('addr', T('D', T('this')), ())}
    roots = []
    if ctor_of:
        r = S.record(ctor_of)
        if r is not None:
            st.m[T('D', T('this'))] = S.default_obj(r, ctor_of)
    k = 0
    for i, p in enumerate(f.params):
        key = (p.fn.u, p.i)
        if self_first and i == 0:
            env[key] = T('addr', T('D', T('this')), ())
            continue
        r = T('L', 'param%d' % k)
        S.rtype[r] = p.t
        v = T('param', k, sort=S.sort(p.t))
        # the same parameter number may have different sorts in different functions: qualify by sort
        v = T('param', k, S.sort(p.t) or '', sort=S.sort(p.t))
        st.m[r] = batom(v) if v.sort == 'b' else v
        env[key] = T('addr', r, ())
        roots.append((k, r, p))
        k += 1
    env['$reflike'] = isref(S.rettype(f))
    env['$ret'] = S.rettype(f)
    S.stack.append(f.u)
    sm = Summary()
    isctor = f.r['k'] == 'ctor' or f.n == strip_targs(f.cls).split('::')[-1]
    if isctor and not self_first and f.cls:
        a = env['$this']
        st.m[a.args[0]] = UNDEF
        S.stack.pop()
        args = [('a' if isref(p.t) else 'v', env[(p.fn.u, p.i)] if isref(p.t) else st.m[r], None) for (_, r, p) in roots]
        S.run_ctor(f, a, args, st, None)
        v, s = VOID, st
    else:
        v, s = S.run_body(f.body, st, env, f)
    sm.out['return'] = S.canon(v, s) if not env['$reflike'] else v
    sm.out['exception'] = s.exc
    for k, r, p in roots:
        if isref(p.t) and not is_const_ref(p.t):
            sm.out['argument %d' % k] = S.canon(s.m[r], s)
    for r, x in s.m.items():
        if r.op == 'L':
            continue
        x = S.canon(x, s)
        if x is not default_root(r):
            sm.out[r] = x
    sm.unknown = S.unknown
    sm.inlined = S.inlined
    return sm


# ------------------------------------------------------------------ linear feasibility of a path
def constraints(path):
    """[(coeffs dict mono->c, const, rel)]  meaning  sum + const  rel 0, rel in '>=', '>', '='"""
    out = []
    for dec, o in path:
        if dec.op == 'GE':
            d = t.pdict(dec.args[0])
            k = dec.args[1]
            if o == 1:
                out.append((d, -k, '>='))
            else:
                out.append(({m: -c for m, c in d.items()}, k - 1, '>='))
        elif dec.op == 'SG':
            d = t.pdict(dec.args[0])
            k = dec.args[1]
            if o == 0:
                out.append(({m: -c for m, c in d.items()}, k, '>'))
            elif o == 1:
                out.append((d, -k, '='))
            else:
                out.append((d, -k, '>'))
    return out


def feasible(path):
    # opaque equalities: x == "a" and x == "b"
    seen = {}
    for d, o in path:
        if seen.setdefault(d, o) != o:
            return False
    eqs = [d for d, o in path if d.op == 'B' and o == 1 and d.args[0].op == 'eq']
    for k, d in enumerate(eqs):
        if any(t.implied(c, d, 1) == 0 for c in eqs[:k]):
            return False
    if eqs:
        for d, o in path:
            # a key that was just written is there
            if o == 0 and d.op == 'B' and d.args[0].op == 'has' and isinstance(d.args[0].args[0], Tm) and d.args[0].args[0].op == 'upd':
                k, k2 = d.args[0].args[0].args[1], d.args[0].args[1]
                if any({k, k2} == set(e.args[0].args) for e in eqs):
                    return False
    cons = constraints(path)
    extra = []
    for c, k, rel in cons:
        for m in c:
            if m and all(e % 2 == 0 for _, e in m) or (m and all(a.sort in ('u', 'b') and e > 0 for a, e in m)):
                extra.append(({m: Fraction(1)}, Fraction(0), '>='))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and isconst(m[0][0].args[1]) and cval(m[0][0].args[1]) > 0:
                # a remainder is smaller than the divisor, and not negative for sizes
                b = cval(m[0][0].args[1]) - 1
                extra.append(({m: Fraction(-1)}, Fraction(b), '>='))
                extra.append(({m: Fraction(1)}, Fraction(0 if t.uge0(m[0][0].args[0]) else b), '>='))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('fn1',) and m[0][0].args[0] == 'sqrt':
                extra.append(({m: Fraction(1)}, Fraction(0), '>='))
    return fm(cons + extra)


def fm(cons):
    cs = []
    for c, k, rel in cons:
        c = {m: x for m, x in c.items() if x}
        if rel == '=':
            cs.append((c, k, '>='))
            cs.append(({m: -x for m, x in c.items()}, -k, '>='))
        else:
            cs.append((c, k, rel))
    while True:
        nxt = []
        for c, k, rel in cs:
            if not c:
                if k < 0 or (rel == '>' and k == 0):
                    return False
            else:
                nxt.append((c, k, rel))
        cs = nxt
        if not cs:
            return True
        vs = {}
        for c, _, _ in cs:
            for m in c:
                vs[m] = vs.get(m, 0) + 1
        best = None
        for v in vs:
            p = sum(1 for c, _, _ in cs if c.get(v, 0) > 0)
            q = sum(1 for c, _, _ in cs if c.get(v, 0) < 0)
            if best is None or p * q - p - q < best[0]:
                best = (p * q - p - q, v)
        v = best[1]
        pos = [x for x in cs if x[0].get(v, 0) > 0]
        neg = [x for x in cs if x[0].get(v, 0) < 0]
        rest = [x for x in cs if not x[0].get(v, 0)]
        if len(pos) * len(neg) > 600:
            return True
        for c1, k1, r1 in pos:
            for c2, k2, r2 in neg:
                a, b = c1[v], -c2[v]
                c = {}
                for m in list(c1) + [m for m in c2 if m not in c1]:
                    if m == v:
                        continue
                    x = c1.get(m, 0) * b + c2.get(m, 0) * a
                    if x:
                        c[m] = x
                rest.append((c, k1 * b + k2 * a, '>' if '>' in (r1, r2) and (r1 == '>' or r2 == '>') else '>='))
        cs = rest
        if len(cs) > 1500:
            return True


def equalities(path):
    """linear forms known to be zero on the path -> substitution {atom: poly}"""
    subs = {}
    ges = {}
    zeros = []
    for dec, o in path:
        if dec.op == 'SG' and o == 1:
            zeros.append(psub(dec.args[0], const(dec.args[1])))
        if dec.op == 'GE':
            lo, hi = ges.get(dec.args[0], (None, None))
            k = dec.args[1]
            if o == 1:
                lo = k if lo is None else max(lo, k)
            else:
                hi = k - 1 if hi is None else min(hi, k - 1)
            ges[dec.args[0]] = (lo, hi)
        if dec.op == 'B' and o == 1 and dec.args[0].op == 'eq':
            a, b = dec.args[0].args
            if a.op == 'str' or (b.op != 'str' and a.uid < b.uid):
                subs[b] = a
            else:
                subs[a] = b
    # also look for pairs of inequalities that pin a form
    for L, (lo, hi) in ges.items():
        if lo is None and t.uge0(L):
            lo = 0
        if lo is not None and (lo == hi or hi is None and lo == 2 ** 63 - 1 and L.op != 'poly' and L.sort == 'i'):
            zeros.append(psub(L, const(lo)))
    for z in zeros:
        z = subst(z, subs)
        if not isinstance(z, Tm) or isconst(z):
            continue
        d = t.pdict(z)
        cand = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1]
        cand = [(m, c) for m, c in cand if not any(m[0][0] in t.subterms(x) for m2, _ in d.items() if m2 != m for x, _ in m2)]
        if not cand:
            continue
        m, c = max(cand, key=lambda x: x[0][0][0].uid)
        a = m[0][0]
        rhs = t.pscale(psub(z, t.mk({m: c})), -1 / c)
        for k in list(subs):
            subs[k] = subst(subs[k], {a: rhs})
        subs[a] = rhs
    return subs


def subst(v, subs):
    if not subs:
        return v
    return t.rewrite(v, lambda x: subs.get(x), {})


# ------------------------------------------------------------------ comparison
class Diff:
    def __init__(self, path, a, b, where):
        self.path, self.a, self.b, self.where = path, a, b, where


def paths(v, limit=4000):
    """(path, leaf) of a diagram"""
    st = [((), v)]
    n = 0
    while st:
        p, x = st.pop()
        if isinstance(x, Tm):
            n += 1
            if n > limit:
                raise Undecided('too many paths')
            yield p, x
        else:
            for o, k in enumerate(x.kids):
                st.append((p + ((x.dec, o),), k))


def compare(a, b, path=(), where='', depth=0):
    """first feasible difference between two values, or None"""
    if a is b:
        return None
    d = compare0(a, b, path, where, depth)
    if d is not None and depth < 4:
        m = unify(a, b, path, where, depth)
        if m:
            b = t.rewrite(b, lambda z: m.get(z), {})
            d = None if a is b else compare0(a, b, path, where, depth)
    return d


def decisions(v, out):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Ite) and x not in seen:
            seen.add(x)
            out.add(x.dec)
            st.extend(x.kids)


def outer_loops(v):
    """values of loops in v that are not inside other loops"""
    st, seen, out = [v], set(), []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, (Tm, Ite)) and x not in seen:
            seen.add(x)
            if isinstance(x, Ite):
                st.append(x.dec)
                st.extend(x.kids)
            elif x.op == 'loopout':
                out.append(x)
            else:
                st.extend(x.args)
    return out


def unify(a, b, path, where, depth):
    """{value of a loop that b decides on: the equal value of a}"""
    da, db = set(), set()
    decisions(a, da)
    decisions(b, db)
    oa, ob = [x for x in da if x not in db], [x for x in db if x not in da]
    if not oa or not ob:
        return {}
    la, lb = outer_loops(tuple(oa)), outer_loops(tuple(ob))
    la, lb = [x for x in la if x not in lb], [x for x in lb if x not in la]
    if len(la) > 8 or len(lb) > 8:
        return {}
    m = {}
    for y in lb:
        for x in la:
            if loops_equal(x, y, path, where, depth + 1):
                m[y] = x
                break
    return m


def compare0(a, b, path, where, depth):
    try:
        pair = t.lift0(lambda x, y: x if x is y else T('pair', x, y), (a, b), None, [6000])
    except t.Big:
        return split(T('cases', a), T('cases', b), path, where, depth)
    for p, leaf in paths(pair):
        if not (leaf.op == 'pair'):
            continue
        full = path + p
        if not feasible(full):
            continue
        x, y = leaf.args
        d = leafdiff(x, y, full, where, depth)
        if d is not None and has_cases((d.a, d.b, tuple(dec for dec, _ in d.path))):
            d = split(d.a, d.b, d.path, where, depth)
        if d is not None:
            return d
    return None


def cases_in(v):
    return [x for x in t.subterms(v) if isinstance(x, Tm) and x.op == 'cases']


_hc = {}


def has_cases(v):
    if isinstance(v, tuple):
        return any(has_cases(x) for x in v)
    if not isinstance(v, (Tm, Ite)):
        return False
    r = _hc.get(v)
    if r is None:
        r = _hc[v] = bool(cases_in(v))
    return r


def restrict(v, dec, o, memo):
    """v where decision dec has outcome o"""
    if isinstance(v, Tm):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if v.dec is dec:
        r = restrict(v.kids[o], dec, o, memo)
    else:
        i = t.implied(v.dec, dec, o) if v.ord[0] == t.dec_ord(dec)[0] else None
        if i is not None:
            r = restrict(v.kids[i], dec, o, memo)
        else:
            r = t.node(v.dec, tuple(restrict(k, dec, o, memo) for k in v.kids))
    memo[v] = r
    return r


def split(x, y, path, where, depth, limit=500):
    """difference of two values that contain opaque case distinctions: decide the cases one by one"""
    free0 = any(contains(dec, ('phi',)) for dec, _ in path)
    pend = []
    base = []
    for dec, o in path:
        if has_cases(dec):
            pend.append((t.node(dec, tuple(const(k) for k in range(t.nkids(dec)))), o))
        else:
            base.append((dec, o))
    stack = [(x, y, tuple(pend), tuple(base))]
    n = 0
    while stack:
        x, y, pend, path = stack.pop()
        if x is y:
            continue
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        dec = None
        for v in (x, y):
            if isinstance(v, Ite):
                dec = v.dec
                break
        if dec is None:
            cx, cy = cases_in(x), cases_in(y)
            only = [c for c in cx if c not in cy] + [c for c in cy if c not in cx]
            todo = only or cx
            if todo:
                dec = min(todo, key=lambda c: c.uid).args[0].dec
        if dec is None:
            for v, _ in pend:
                if isinstance(v, Ite):
                    dec = v.dec
                    break
                c = cases_in(v)
                if c:
                    dec = min(c, key=lambda c: c.uid).args[0].dec
                    break
        if dec is None:
            d = leafdiff(x, y, path, where, depth)
            if d is not None:
                if not free0 and any(contains(dec, ('phi',)) for dec, _ in path):
                    raise Undecided('cases inside a loop')
                return d
            continue
        while has_cases(dec):
            dec = min(cases_in(dec), key=lambda c: c.uid).args[0].dec
        for o in range(t.nkids(dec)):
            full = path + ((dec, o),)
            if not feasible(full):
                continue
            rm, memo = {}, {}

            def leaf(z):
                if z.op != 'cases':
                    return None
                v = restrict(z.args[0], dec, o, rm)
                v = t.rewrite(v, leaf, memo) if has_cases(v) else v
                if isinstance(v, Tm):
                    return v
                return t.mk_cases(v) or T('cases', v)

            def rw(v):
                v = restrict(v, dec, o, rm)
                return t.rewrite(v, leaf, memo) if has_cases(v) else v
            np, ok = [], True
            for v, want in pend:
                v = rw(v)
                if isinstance(v, Tm) and isconst(v):
                    if cval(v) != want:
                        ok = False
                        break
                else:
                    np.append((v, want))
            if ok:
                stack.append((rw(x), rw(y), tuple(np), full))
    return None


def leafdiff(x, y, path, where, depth):
    if x is y:
        return None
    subs = equalities(path)
    x2, y2 = x, y
    if subs:
        x2, y2 = subst(x, subs), subst(y, subs)
        if x2 is y2:
            return None
        if not (isinstance(x2, Tm) and isinstance(y2, Tm)):
            return compare(x2, y2, path, where, depth + 1) if depth < 4 else Diff(path, x2, y2, where)
    if isconst(x2) and isconst(y2) and abs(cval(x2) - cval(y2)) == 2 ** 64:
        return None           # the same 64 bits
    # structural descent to the differing part
    for u, v in ((x2, y2), (y2, x2)):
        # an object whose changed members turn out to be unchanged under the path
        if u.op == 'obj' and u.args[0] is v and depth < 20:
            for f, w in sorted(u.args[1], key=lambda p: str(p[0])):
                o = get_field(v, f)
                d = compare(w, o, path, where + '.' + str(f).split('::')[-1], depth + 1) if u is x2 else compare(o, w, path, where + '.' + str(f).split('::')[-1], depth + 1)
                if d is not None:
                    return d
            return None
    for u, v in ((x2, y2), (y2, x2)):
        # an optional made anew from the value of another one
        if u.op == 'some' and v.op not in ('some', 'null', 'undef', 'new', 'make', 'addr') and depth < 20 and isinstance(u.args[0], (Tm, Ite)) and known_present(v, path):
            w = vg.mk_deref(v)
            if isinstance(u.args[0], Tm) and u.args[0].sort is not None:
                w = T('deref', v, sort=u.args[0].sort) if w.op == 'deref' else w
            return compare(u.args[0], w, path, where, depth + 1) if u is x2 else compare(w, u.args[0], path, where, depth + 1)
    for u, v in ((x2, y2), (y2, x2)):
        # the element a map makes for a key it did not have
        if u.op == 'at' and (v in (ZERO, NULL) or v.op == 'list' and not v.args or v.op == 'str' and v.args == ('',)) and any(
                o == 0 and dec.op == 'B' and dec.args[0].op == 'has' and dec.args[0].args[1] is u.args[1] and u.args[0] in underlying(dec.args[0].args[0]) for dec, o in path):
            return None
    if x2.op == y2.op and x2.op in ('obj', 'some', 'new', 'valof', 'upd', 'app') and depth < 20:
        if x2.op == 'obj':
            if x2.args[0] is y2.args[0]:
                fa, fb = dict(x2.args[1]), dict(y2.args[1])
                for f in sorted(set(fa) | set(fb), key=str):
                    va = fa.get(f) if f in fa else (get_field(x2.args[0], f) if x2.args[0] is not None else UNDEF)
                    vb = fb.get(f) if f in fb else (get_field(y2.args[0], f) if y2.args[0] is not None else UNDEF)
                    d = compare(va, vb, path, where + '.' + (f.split('::')[-1] if isinstance(f, str) else str(f)), depth + 1)
                    if d is not None:
                        return d
                return None
        elif len(x2.args) == len(y2.args) and all(isinstance(u, (Tm, Ite)) for u in x2.args + y2.args):
            for i, (u, v) in enumerate(zip(x2.args, y2.args)):
                d = compare(u, v, path, where, depth + 1)
                if d is not None:
                    return d
            return None
    return deepdiff(x2, y2, path, where, depth)


def underlying(m):
    """a map and the ones it was made of by writing entries"""
    out = [m]
    while isinstance(m, Tm) and m.op == 'upd':
        m = m.args[0]
        out.append(m)
    return out


def known_present(v, path):
    c = vg.nonnull(v)
    return all(leaf is TRUE or not feasible(path + p) for p, leaf in paths(c))


def deepdiff(x, y, path, where, depth):
    """opaque terms with the same head whose arguments agree under the path are equal"""
    if depth < 24 and x.op == y.op and x.op in ('loop', 'loopout') and loops_equal(x, y, path, where, depth):
        return None
    if depth < 24 and x.op == y.op and x.op not in ('poly', 'loop', 'loopout') and len(x.args) == len(y.args) and x.args:
        for u, v in zip(x.args, y.args):
            if u is v or u == v:
                continue
            if isinstance(u, (Tm, Ite)) and isinstance(v, (Tm, Ite)):
                d = compare(u, v, path, where + '/' + x.op, depth + 1)
                if d is not None:
                    return Diff(path, x, y, where) if d is not None else None
            else:
                return Diff(path, x, y, where)
        return None
    return Diff(path, x, y, where)


def loops_equal(x, y, path, where, depth):
    """two loops are equal when they start alike and do the same in every iteration"""
    if x.op == 'loopout':
        if x.args[0] != y.args[0] or not isinstance(x.args[1], Tm) or not isinstance(y.args[1], Tm):
            return False
        l, m = x.args[1], y.args[1]
        u, v = x.args[2], y.args[2]
        for perm in ([None] if l is m else loop_maps(l, m, path, where, depth + 1) if l.op == m.op == 'loop' else []):
            ren = {p: vg.mk_phi(l.args[0], perm[p.args[1]], p.sort) for p in phis(u, l.args[0])} if perm else {}
            w = rephi(u, l.args[0], ren) if ren else u
            if w is v or isinstance(w, (Tm, Ite)) and isinstance(v, (Tm, Ite)) and compare(w, v, (), where, depth + 1) is None:
                return True
        return False
    for _ in loop_maps(x, y, path, where, depth):
        return True
    return False


def loop_maps(x, y, path, where, depth):
    """the ways to name the variables of loop x like those of loop y under which the two loops are equal"""
    import itertools
    same = lambda u, v, p: u is v or isinstance(u, (Tm, Ite)) and isinstance(v, (Tm, Ite)) and compare(u, v, p, where, depth + 1) is None
    lvl, i1, c1, n1, e1 = x.args
    lvl2, i2, c2, n2, e2 = y.args
    N = len(i1)
    if lvl != lvl2 or N != len(i2) or len(e1) != len(e2):
        return
    fits = [[k for k in range(N) if same(i1[j], i2[k], path)] for j in range(N)]
    if not all(fits):
        return
    vs = phis((c1, n1, e1), lvl)
    tried = 0
    for perm in itertools.product(*fits):
        if len(set(perm)) != N:
            continue
        tried += 1
        if tried > 24:
            return
        ren = {} if all(perm[k] == k for k in range(N)) else {v: vg.mk_phi(lvl, perm[v.args[1]], v.sort) for v in vs}
        rw = (lambda v: rephi(v, lvl, ren)) if ren else (lambda v: v)
        if same(rw(c1), c2, ()) and all(same(rw(n1[k]), n2[perm[k]], ()) for k in range(N)) and all(k1 == k2 and same(rw(h1), h2, ()) for (k1, h1), (k2, h2) in zip(e1, e2)):
            yield perm


def contains(v, ops):
    return any(isinstance(x, Tm) and x.op in ops for x in t.subterms(v))


def local_leak(v):
    return any(isinstance(x, Tm) and (x.op == 'clos' or x.op == 'addr' and x.args[0].op == 'L' or x.op == 'L') for x in t.subterms(v))


def loopsig(v):
    """multiset of loop headers in a value"""
    out = []
    for x in t.subterms(v):
        if isinstance(x, Tm) and x.op == 'loop':
            out.append(x)
    return out


def classify(d, ua, known):
    """'violation' or a reason for being undecided"""
    x, y = d.a, d.b
    both = [x, y]
    if ua:
        # only unknown constructs that reach the differing values matter
        for v in both:
            if contains(v, ('unk',)):
                return 'construct outside the fragment: ' + (ua[0] if ua else '')
        for dec, o in d.path:
            if contains(dec, ('unk',)):
                return 'construct outside the fragment: ' + ua[0]
    for v in both + [dec for dec, _ in d.path]:
        if local_leak(v):
            return 'address of a local escapes'
    lx, ly = set(loopsig(x)), set(loopsig(y))
    for l in (l for dec, _ in d.path for l in loopsig(dec)):
        ina, inb = known[0] is None or l in known[0], known[1] is None or l in known[1]
        if ina:
            lx.add(l)
        if inb:
            ly.add(l)
    if lx != ly and not aligned(lx, ly):
        return 'loops are not aligned'
    ax, ay = algs(x), algs(y)
    if ax != ay:
        return 'library algorithms are not aligned'
    return 'violation'


def own(x, lvl):
    """x is a loop (or a value seen after one) of level lvl, whose loop variables are its own"""
    return x.op == 'loop' and x.args[0] == lvl or x.op in ('loopout', 'loopexit') and isinstance(x.args[1], Tm) and x.args[1].args[0] == lvl


def phis(v, lvl):
    """the variables of the enclosing loop of level lvl in v"""
    seen, st, out = set(), [v], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Tm, Ite)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Ite):
            st.append(x.dec)
            st.extend(x.kids)
        elif x.op == 'phi':
            if x.args[0] == lvl and isinstance(x.args[1], int):
                out.add(x)
        elif not own(x, lvl):
            st.extend(x.args)
    return out


def rephi(v, lvl, m):
    """rename / replace variables of the enclosing loop"""
    return t.rewrite(v, lambda z: z if isinstance(z, Tm) and own(z, lvl) else m.get(z), {})


def aligned(lx, ly):
    """the loops of two values iterate over the same space, or over spaces that differ in exactly one place"""
    dx, dy = [l for l in lx if l not in ly], [l for l in ly if l not in lx]
    hx, hy = {}, {}
    for l in dx:
        hx.setdefault(loophead(l), []).append(l)
    for l in dy:
        hy.setdefault(loophead(l), []).append(l)
    rx, ry = [], []
    for h in sorted(set(hx) | set(hy), key=str):
        u, v = hx.get(h, []), hy.get(h, [])
        if any(all(rerepresented(l, m) for m in v) for l in u) if u and v else False:
            return False
        if len(u) != len(v):
            if u and v:
                continue          # the same iteration space, seen from a different number of values
            rx += u
            ry += v
    if not rx and not ry:
        return True
    if len(rx) != len(ry):
        # several values observed from one changed loop
        pass
    # innermost first; an outer loop may differ only because of the inner one
    subs = {}

    def inner(ls):
        return [l for l in ls if not any(m is not l and m in t.subterms(l) for m in ls)]
    for _ in range(4):
        ix, iy = inner(rx), inner(ry)
        if not ix or not iy:
            return False
        for l in ix:
            ok = False
            for m in iy:
                if single_difference(l, m):
                    subs[l] = m
                    ok = True
                    break
            if not ok:
                return False
        for m in iy:
            if not any(v is m for v in subs.values()) and not any(single_difference(l, m) for l in ix):
                return False
        rx = [l for l in rx if l not in ix]
        ry = [l for l in ry if l not in iy]
        if not rx and not ry:
            return True
        hy = {loophead(m) for m in ry}
        rx2 = [l for l in rx if loophead(t.rewrite(l, lambda z: subs.get(z) if z is not l else None, {})) not in hy]
        if not rx2:
            return True
        rx = rx2
    return False


def rerepresented(l, m):
    """two loops over the same space that carry different data: variables that start and step differently"""
    lvl, i1, c1, n1, e1 = l.args
    lvl2, i2, c2, n2, e2 = m.args
    if lvl != lvl2:
        return False
    free = list(range(len(i2)))
    a = []
    for k in range(len(i1)):
        j = next((j for j in free if i2[j] is i1[k]), None)
        if j is None:
            a.append(k)
        else:
            free.remove(j)

    def shape(x):
        return t.shash(rephi(x, lvl, {v: T('phiA', v.sort) for v in phis(x, lvl)}))
    s2 = {shape(n2[j]) for j in free}
    return bool(a) and bool(free) and any(shape(n1[k]) not in s2 for k in a)


def single_difference(l, m):
    """two loop terms that differ only in one bound, one start or one step, by a constant"""
    import itertools
    lvl, i1, c1, n1, e1 = l.args
    lvl2, i2, c2, n2, e2 = m.args
    N = len(i1)
    if lvl != lvl2 or N != len(i2) or N > 5:
        return False
    for perm in itertools.permutations(range(N)) if N <= 4 else (tuple(range(N)),):
        ren = {}
        for v in phis((c1, n1, e1), lvl):
            ren[v] = vg.mk_phi(lvl, perm[v.args[1]], v.sort)
        rw = (lambda v: rephi(v, lvl, ren)) if any(perm[k] != k for k in range(N)) else (lambda v: v)
        d = []
        cc = rw(c1)
        if cc is not c2:
            d.append(('cond', cc, c2))
        for k in range(N):
            if i1[k] is not i2[perm[k]]:
                d.append(('init', i1[k], i2[perm[k]]))
            x = rw(n1[k])
            if x is not n2[perm[k]]:
                d.append(('next', x, n2[perm[k]]))
            if len(d) > 1:
                break
        if len(d) == 1 and len(e1) == len(e2) and all(k1 == k2 and rw(h1) is h2 for (k1, h1), (k2, h2) in zip(e1, e2)):
            kind, u, v = d[0]
            if kind == 'cond':
                return constant_shift(u, v)
            if kind == 'init':
                if not (isinstance(u, Tm) and isinstance(v, Tm) and isconst(psub(u, v))):
                    return False
                k = [k for k in range(N) if i1[k] is not i2[perm[k]]][0]
                return not peels(l, m, perm, k) and not peels(m, l, tuple(perm.index(q) for q in range(N)), perm[k])
            return isinstance(u, Tm) and isinstance(v, Tm) and isconst(psub(u, v))
    return False


def peels(l, m, perm, k):
    """the first iteration of l changes nothing but variable k, which becomes the start value of m"""
    lvl, i1, c1, n1, e1 = l.args
    first = {}
    for v in phis((c1, n1, e1), lvl):
        if not isinstance(i1[v.args[1]], Tm):
            return True
        first[v] = i1[v.args[1]]
    rw = lambda v: rephi(v, lvl, first)
    for q in range(len(i1)):
        d = rw(n1[q])
        if d is not m.args[1][perm[q]]:
            return False
    return True


def constant_shift(u, v):
    """two conditions with the same decisions up to the constant of one comparison"""
    if isinstance(u, Tm) or isinstance(v, Tm):
        return False
    nu, nv = [x for x in t.nodes(u) if isinstance(x, Ite)], [x for x in t.nodes(v) if isinstance(x, Ite)]
    du, dv = {x.dec for x in nu}, {x.dec for x in nv}
    a, b = [x for x in du if x not in dv], [x for x in dv if x not in du]
    if len(a) != 1 or len(b) != 1 or a[0].op != 'GE' or b[0].op != 'GE':
        return False
    return a[0].args[0] is b[0].args[0]


def algs(v):
    return sorted(str(x.args[0]) for x in t.subterms(v) if isinstance(x, Tm) and (x.op == 'alg' or x.op == 'call' and isinstance(x.args[0], str) and (x.args[0].startswith('ranges::') or x.args[0].startswith('std::'))))


def loophead(l):
    """identity of the iteration space: condition with the initial values and steps of its variables"""
    lvl, inits, cond, nexts, exits = l.args
    idx = sorted({x.args[1] for x in phis(cond, lvl)})
    # rename by order of appearance so that additional loop variables do not matter
    sub = {}
    for x in phis((cond,) + tuple(nexts), lvl):
        if x.args[1] in idx:
            sub[x] = T('phiH', idx.index(x.args[1]), sort=x.sort)
    rw = lambda v: rephi(v, lvl, sub)
    return t.shash((rw(cond), tuple(inits[k] for k in idx), tuple(rw(nexts[k]) for k in idx), len(exits)))


def describe(d, names=None):
    cond = ', '.join('%s%s' % ({0: 'not ', 1: ''}[o] if dec.op != 'SG' else '', show(dec) + ('' if dec.op != 'SG' else {0: ' negative', 1: ' zero', 2: ' positive'}[o])) for dec, o in d.path)
    return '%s: code gives %s, required %s%s' % (d.where, show(d.a)[:300], show(d.b)[:300], (' when ' + cond[:500]) if cond else '')


FRAME = [None]          # (function name, 'w' or 'r') -> members of its object it may write or read; None if unknown


def unframed(v, memo):
    """v with members (and calls that only look at members) taken from before the calls that leave them alone"""
    def leaf(x):
        if x.op == 'fld' and isinstance(x.args[-1], Tm) and x.args[-1].op == 'mut':
            name = x.args[0] if isinstance(x.args[0], str) else None
            o = x.args[-1]
            if name is None:
                return None
            while isinstance(o, Tm) and o.op == 'mut' and len(o.args) > 1:
                w = FRAME[0](o.args[0], 'w')
                if w is None or name.split('::')[-1] in w:
                    break
                o = o.args[1]
            if o is not x.args[-1]:
                return lift(lambda b: get_field(b, name), t.rewrite(o, leaf, memo))
        if x.op == 'call' and len(x.args) > 1 and isinstance(x.args[1], Tm) and x.args[1].op == 'mut':
            r = FRAME[0](x.args[0], 'r')
            o = x.args[1]
            while r is not None and isinstance(o, Tm) and o.op == 'mut' and len(o.args) > 1:
                w = FRAME[0](o.args[0], 'w')
                if w is None or w & r:
                    break
                o = o.args[1]
            if o is not x.args[1]:
                rest = [t.rewrite(a, leaf, memo) for a in (o,) + x.args[2:]]
                return lift(lambda *vs: t.mkterm('call', (x.args[0],) + tuple(vs), x.sort), *rest)
        return None
    return t.rewrite(v, leaf, memo)


def check(impl, spec, ignore=()):
    """compare two summaries; returns (verdict, message): 'equal' | 'violation' | 'undecided'"""
    v = check0(impl, spec, ignore)
    if v[0] != 'violation' or FRAME[0] is None:
        return v
    memo, outs, same = {}, [], True
    try:
        for s in (impl, spec):
            o = {k: unframed(x, memo) if isinstance(x, (Tm, Ite)) else x for k, x in s.out.items()}
            same = same and all(o[k] is s.out[k] for k in o)
            outs.append(o)
        if same:
            return v
        keep = impl.out, spec.out
        impl.out, spec.out = outs
        try:
            w = check0(impl, spec, ignore)
        finally:
            impl.out, spec.out = keep
        return w if w[0] == 'equal' else v
    except (Undecided, RecursionError):
        return v


def check0(impl, spec, ignore=()):
    t.BUDGET[0] = 400000
    keys = [k for k in list(impl.out) + [k for k in spec.out if k not in impl.out]]
    undec = None
    # outcomes only matter where no exception is pending
    ea, eb = impl.out['exception'], spec.out['exception']

    def cmp(x, y, name):
        nonlocal undec
        try:
            return compare(x, y, (), name)
        except Undecided as u:
            undec = '%s: %s' % (name, u)
            return None
    d = cmp(ea, eb, 'exit')
    ok = t.bnot(vg.pending(eb))
    diffs = [] if d is None else [d]
    for k in keys:
        if k == 'exception':
            continue
        if any(str(k) == i or (isinstance(k, Tm) and k.op == 'G' and k.args[0] == i) for i in ignore):
            continue
        a = impl.out.get(k)
        b = spec.out.get(k)
        if a is None:
            a = default_root(k) if isinstance(k, Tm) else VOID
        if b is None:
            b = default_root(k) if isinstance(k, Tm) else VOID
        if a is b:
            continue
        if isinstance(k, Tm) and (k in impl.out) != (k in spec.out) and loopsig(k):
            # an object designated by way of a loop: it may be one the other side designates differently
            other = spec.out if k in impl.out else impl.out
            mine = impl.out if k in impl.out else spec.out
            if any(isinstance(o, Tm) and o.op == k.op and o not in mine and loopsig(o) for o in other):
                undec = 'effect on an object that is found by a loop'
                continue
        a = ite(ok, a, VOID)
        b = ite(ok, b, VOID)
        name = k if isinstance(k, str) else 'effect on ' + show(default_root(k))
        d = cmp(a, b, name)
        if d is not None:
            diffs.append(d)
    known = (None, None)
    if diffs:
        known = tuple({l for v in list(sm.out.values()) + list(sm.out) for l in (loopsig(v) if isinstance(v, (Tm, Ite)) else ())} for sm in (impl, spec))
    for d in diffs:
        c = classify(d, impl.unknown + spec.unknown, known)
        if c == 'violation':
            return 'violation', describe(d)
        undec = c + ' (' + describe(d)[:300] + ')'
    if undec:
        return 'undecided', undec
    return 'equal', ''
