"""V01 every ordering used for sorting or keyed storage is a strict weak ordering

Each comparator (lambda or function given to a sorting algorithm or an ordered container, operator< of a repository class) is
translated to a formula over what it compares; the formula is evaluated on every order type of three elements: the quantities
compared are arbitrary, so what matters is only how the three elements are ordered in each of them."""
import itertools, re
import equiv, os, spec, vg
import terms as t
from terms import T, Tm, Ite, TRUE, FALSE, Undecided
from vg import VG, St, bare, split_params
from core import strip_targs

SORTS = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'min_element', 'max_element', 'minmax_element', 'lower_bound', 'upper_bound', 'binary_search',
         'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'merge', 'inplace_merge', 'set_union', 'set_difference', 'set_intersection', 'equal_range', 'is_sorted',
         'min', 'max', 'minmax'}
ORDERED = re.compile(r'^std::(set|map|multiset|multimap|priority_queue)<')
ELEMENT = [T('element', k) for k in range(3)]


UNITS = set()


class Mixed(Exception):
    pass


class Comparator:
    """a boolean function of two elements as a formula"""

    def __init__(self, value, a, b):
        self.a, self.b = a, b
        self.value = value
        self.atoms = []           # one-element quantities over ELEMENT[0]
        self.kind = {}            # atom -> 'num' | 'bool' | 'id'
        self.free = []            # quantities that belong to neither element
        self.scale = {0, 1, 2}
        self.dec = {}
        for n in t.nodes(value):
            if isinstance(n, Ite) and n.dec not in self.dec:
                self.dec[n.dec] = self.decision(n.dec)

    def side(self, x):
        s = set()
        for y in t.subterms(x):
            if y is self.a:
                s.add('a')
            elif y is self.b:
                s.add('b')
            elif isinstance(y, Tm) and y.op == 'unk':
                raise Mixed('unknown construct')
        return s

    def atom(self, x, kind):
        s = self.side(x)
        if len(s) == 2:
            raise Mixed('a quantity of both elements: ' + t.show(x)[:80])
        if not s:
            if x not in self.free:
                self.free.append(x)
            return ('p', self.free.index(x))
        src = self.a if 'a' in s else self.b
        y = t.rewrite(x, lambda z: ELEMENT[0] if z is src else None, {})
        if y not in self.atoms:
            self.atoms.append(y)
        self.kind[y] = kind
        return ('a' if 'a' in s else 'b', self.atoms.index(y))

    def poly(self, L):
        out = []
        for m, c in t.pdict(L).items():
            fs = []
            for x, e in m:
                if e < 0:
                    raise Mixed('quotient')
                fs.append((self.atom(x, 'num'), e))
            out.append((c, fs))
        return out

    def decision(self, d):
        if d.op == 'B':
            d = d.args[0]
        if d.op in ('GE', 'SG'):
            p = self.poly(d.args[0])
            k = d.args[1]
            if abs(k) > 1 and not all(r[0] != 'p' and self.atoms[r[1]].op == 'bits&' for c, fs in p for r, e in fs):
                c = -(-abs(k) * 6 // 10)
                self.scale |= {c, 2 * c}
            return (d.op, p, k)
        if d.op == 'eq':
            return ('eq', self.atom(d.args[0], 'id'), self.atom(d.args[1], 'id'))
        if d.op == 'call' and d.args[0].endswith('operator==') and len(d.args) == 3:
            return ('eq', self.atom(d.args[1], 'id'), self.atom(d.args[2], 'id'))
        if d.op in ('vlt', 'vgt', 'vle', 'vge') and isinstance(d.args[0], Tm) and d.args[0].op == 'call' and d.args[0].args[0].endswith('operator<=>') and len(d.args[0].args) == 3:
            return (d.op, self.atom(d.args[0].args[1], 'num'), self.atom(d.args[0].args[2], 'num'))
        return ('b', self.atom(d, 'bool'))

    def truth(self, i, j, vals, free):
        """value for the elements i, j under an assignment"""
        def get(r):
            return free[r[1]] if r[0] == 'p' else vals[i if r[0] == 'a' else j][r[1]]

        def ev(p):
            s = 0
            for c, fs in p:
                for r, e in fs:
                    c = c * get(r) ** e
                s += c
            return s
        v = self.value
        while isinstance(v, Ite):
            d = self.dec[v.dec]
            if d[0] == 'GE':
                o = 1 if ev(d[1]) >= d[2] else 0
            elif d[0] == 'SG':
                x = ev(d[1]) - d[2]
                o = 0 if x < 0 else 1 if x == 0 else 2
            elif d[0][0] == 'v':
                x, y = get(d[1]), get(d[2])
                o = 1 if {'vlt': x < y, 'vgt': x > y, 'vle': x <= y, 'vge': x >= y}[d[0]] else 0
            elif d[0] == 'eq':
                o = 1 if get(d[1]) == get(d[2]) else 0
            else:
                o = 1 if get(d[1]) else 0
            v = v.kids[o]
        if v is TRUE:
            return True
        if v is FALSE:
            return False
        raise Mixed('not a truth value: ' + t.show(v)[:80])

    def related(self):
        def linked(i, j):
            d = self.derived.get(i)
            return d is not None and (j == d[2] if d[0] == 'and' else j in d[1])
        return any(a is not b and any(x is a for x in t.subterms(b)) and not linked(i, j) and not linked(j, i)
                   for i, a in enumerate(self.atoms) for j, b in enumerate(self.atoms))

    def failure(self):
        """None, or which law fails and an order type that shows it"""
        # quantities that follow from others: a bit of a number, equality of points from their coordinates
        derived = {}
        for k, a in enumerate(self.atoms):
            if a.op == 'bits&':
                m = [t.show(x) for x in a.args]
                for i, c in enumerate(m):
                    if c.isdigit() and a.args[1 - i] in self.atoms:
                        derived[k] = ('and', int(c), self.atoms.index(a.args[1 - i]))
                        self.scale |= {3}
            elif [t.show(y)[-6:] for y in self.atoms if y is not a and any(z is a for z in y.args)] == ['.value']:
                derived[k] = ('and', -1, [j for j, y in enumerate(self.atoms) if y is not a and any(z is a for z in y.args)][0])
            elif self.kind[a] == 'id':
                sub = [j for j, y in enumerate(self.atoms) if y is not a and any(z is a for z in y.args)]
                if len(sub) == 2 and sorted(t.show(self.atoms[j])[-2:] for j in sub) == ['.X', '.Y']:
                    derived[k] = ('all', tuple(sub))
        self.derived = derived
        dom = [(0,) if k in derived else (0, 1) if self.kind[a] == 'bool' else (0, 1, 2) if self.kind[a] == 'id' else (0, 1) if a.op == 'bits&' and any(t.show(x) == '1' for x in a.args)
               else tuple(sorted(self.scale)) for k, a in enumerate(self.atoms)]
        size = 1
        for d in dom:
            size *= len(d)
        frees = list(itertools.product((0, 1, 2), repeat=len(self.free)))
        if len(frees) > 27 or size > 1000:
            raise Mixed('too many quantities: ' + ', '.join(t.show(a)[:50] for a in self.atoms + self.free))
        elems = []
        for e in itertools.product(*dom):
            e = list(e)
            for k, d in derived.items():
                e[k] = e[d[2]] & d[1] if d[0] == 'and' else tuple(e[j] for j in d[1])
            elems.append(tuple(e))
        names = [t.show(a)[:60].replace('element(0)', 'x') for a in self.atoms]

        def say(law, *es):
            return law, '; '.join('%s: %s' % (chr(97 + k), ', '.join('%s=%s' % (nm, v) for nm, v in zip(names, e))) for k, e in enumerate(es))
        for fr in frees:
            M = {}
            for x in range(len(elems)):
                for y in range(len(elems)):
                    M[x, y] = self.truth(0, 1, (elems[x], elems[y]), fr)
            for x in range(len(elems)):
                if M[x, x]:
                    return say('an element precedes itself', elems[x])
            for x in range(len(elems)):
                for y in range(x):
                    if M[x, y] and M[y, x]:
                        return say('two elements each precede the other', elems[x], elems[y])
            R = range(len(elems))
            after = [sum(1 << y for y in R if M[x, y]) for x in R]
            tie = [sum(1 << y for y in R if not M[x, y] and not M[y, x]) for x in R]
            for law, rel in (('precedence is not transitive', after), ('being tied is not transitive', tie)):
                for x in R:
                    for y in R:
                        if rel[x] >> y & 1:
                            more = rel[y] & ~rel[x]
                            if more:
                                return say(law, elems[x], elems[y], elems[more.bit_length() - 1])
        return None


def function_value(P, f):
    S = VG(P, UNITS)
    st = St()
    env = {'$frame': 0, '$this': T('addr', T('D', T('this')), ())}
    args = []
    if f.cls and 's' not in f.fl and len(f.params) == 1:
        a = T('elemA')
        r = T('L', 'objA')
        st.m[r] = a
        env['$this'] = T('addr', r, ())
        names = [None, f.params[0]]
    else:
        names = f.params
    els = [T('elemA'), T('elemB')]
    for k, p in enumerate(names):
        if p is None:
            continue
        r = T('L', 'el%d' % k)
        x = T('el', k, S.sort(p.t) or '', sort=S.sort(p.t)) if S.sort(p.t) else els[k]
        st.m[r] = x
        els[k] = x
        env[(p.fn.u, p.i)] = T('addr', r, ())
    S.stack.append(f.u)
    env['$ret'] = 'bool'
    v, s = S.run_body(f.body, st, env, f)
    return v, els


class Captures(VG):
    """what a comparator captures is a quantity of neither element"""

    def __init__(self, P, n):
        VG.__init__(self, P, UNITS)
        self.own = {(n.fn.u, i) for i in n.a[1]} | {(m.decl().fn.u, m.decl().i) for m in n.x.walk() if m.k == 'var' and m.decl() is not None}

    def droot(self, d, env):
        k = (d.fn.u, d.i)
        if k not in env and d.is_local() and k not in self.own:
            return T('addr', T('G', 'captured ' + d.n, sort=self.sort(d.t)), ())
        return VG.droot(self, d, env)


def lambda_value(P, n):
    S = Captures(P, n)
    st = St()
    env = {'$frame': 0, '$this': T('addr', T('D', T('this')), ()), '$ret': 'bool'}
    els, args = [], []
    for k, pi in enumerate(n.a[1]):
        p = n.fn.D(pi)
        x = T('el', k, S.sort(p.t) or '', sort=S.sort(p.t)) if S.sort(p.t) else T('elem' + 'AB'[k])
        r = T('L', 'el%d' % k)
        S.rtype[r] = p.t
        st.m[r] = x
        els.append(x)
        args.append(('a', T('addr', r, ())) if vg.isref(p.t) else ('v', x))
    S.stack.append('comparator')
    v, s = S.run_lambda(n, env, args, st)
    return v, els


def comparators(P, rep):
    """(where, description, thunk giving formula and elements)"""
    seen = set()
    for f in P.fns.values():
        if f.body is None or f.f.startswith('@ref') or f.dep:
            continue
        if f.n == 'operator<' and (len(f.params) + (1 if f.cls and 's' not in f.fl else 0)) == 2:
            ps = [bare(p.t) for p in f.params]
            if (not f.cls or ps == [bare(f.clsq)] or strip_targs(ps[0]) == strip_targs(f.cls)) and len(set(ps)) == 1:
                yield f, f.q, ('fn', f), f.where()
        for n in f.nodes:
            if n.k == 'opcall' or n.k == 'call' or n.k == 'mcall':
                nm = strip_targs(n.cq() or '')
                base = nm.rsplit('::', 1)[-1]
                if n.k == 'opcall' and n.a[1] == '()' and n.ch:
                    o = n.ch[0]
                    while o is not None and o.k in ('icast', 'cast', 'x') and o.ch:
                        o = o.ch[0]
                    base = o.decl().n if o is not None and o.k == 'ref' and o.decl() is not None else ''
                    nm = 'ranges::' + base if o is not None and o.k == 'ref' and 'ranges' in (o.decl().q or '') else ''
                if base not in SORTS or not (nm.startswith('std::') or nm.startswith('ranges::')):
                    continue
                args = n.args()
            elif n.k in ('ctor', 'var') and ORDERED.match(bare(n.t) if n.k == 'ctor' else bare(n.decl().t)):
                args = n.ch
            else:
                continue
            for x in args:
                for y in resolve(P, f, x):
                    key = (y[0], id(y[1]))
                    if key in seen:
                        continue
                    seen.add(key)
                    yield f, 'comparator in ' + f.q, y, '%s:%d' % (f.f, y[1].l)


def resolve(P, f, x, depth=0):
    """comparator lambdas and functions an argument denotes"""
    if x is None or depth > 6:
        return
    while x.k in ('icast', 'cast', 'x', 'ctor', 'tmp', 'bind', 'init', 'un') and len(x.ch) == 1:
        x = x.ch[0]
        if x is None:
            return
    if x.k == 'lambda':
        if len(x.a[1]) == 2 and bare(x.fn.D(x.a[1][0]).t) == bare(x.fn.D(x.a[1][1]).t):
            yield ('lambda', x)
    elif x.k == 'ref':
        d = x.decl()
        if d.k in ('Function', 'CXXMethod'):
            g = P.fns.get(d.u)
            if g is not None and g.body is not None and len(g.params) == 2 and bare(g.params[0].t) == bare(g.params[1].t):
                yield ('fn', g)
        elif d.k == 'Var':
            if d.is_local():
                for m in f.nodes:
                    if m.k == 'var' and m.decl() is not None and m.decl().i == d.i and m.ch:
                        yield from resolve(P, f, m.ch[0], depth + 1)
            else:
                for g in P.gvs.values():
                    if g['q'] == d.q and g.get('b') is not None:
                        from core import Fn
                        gf = Fn(P, {'u': 'gv:' + d.q, 'q': d.q, 'n': d.n, 'f': d.f, 'l': d.l, 'le': d.l, 'fl': '', 'cls': '', 'dep': 0, 'D': g['D'], 'T': g['T'],
                                    'in': [], 'b': g['b'], 'p': [], 'cfg': None, 'lc': []})
                        for m in gf.body.walk():
                            if m.k == 'lambda':
                                yield from resolve(P, gf, m, depth + 1)


def check(rep, P):
    UNITS.update(u for u in spec.units(P) if not re.match(r'operator(==|!=|<|>|<=|>=|<=>)$', P.fns[u].n))
    done = set()
    for f, what, c, where in comparators(P, rep):
        key = (what, where)
        if key in done:
            continue
        done.add(key)
        rep.count('comparators')
        rep.ok()
        try:
            t.BUDGET[0] = 60000
            v, els = function_value(P, c[1]) if c[0] == 'fn' else lambda_value(P, c[1])
            v = equiv_bool(v)
            cmp = Comparator(v, els[0], els[1])
            r = cmp.failure()
        except (Mixed, Undecided) as x:
            rep.undec('%s (%s): %s' % (what, where, x))
            continue
        except (AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError) as x:
            if os.environ.get('SPEC_X'):
                raise
            rep.undec('%s (%s): construct outside the fragment (%s)' % (what, where, type(x).__name__))
            continue
        rep.count('decided')
        rep.sample('%s %s' % (where, what))
        if r is not None and cmp.related():
            rep.undec('%s (%s): the quantities compared depend on one another' % (what, where))
            continue
        if r is not None:
            over = ', '.join(sorted(t.show(a).replace('element(0)', 'x') for a in cmp.atoms))[:160]
            rep.violation('comparator over %s: %s' % (over, r[0]), where, '%s is not a strict weak ordering: %s for %s' % (what, r[0], r[1]))
    rep.need('comparators', 15)
    return ('Comparators of sorting algorithms and ordered containers and operator< of repository classes, as formulas over what they compare; '
            'each formula is judged on every order type of three elements (irreflexive, asymmetric, transitive, ties transitive). '
            'Comparators that combine both elements in one quantity (angles, distances between them) are listed as undecided.')


def equiv_bool(v):
    return t.lift(lambda x: x if x in (TRUE, FALSE) else t.batom(x) if x.sort == 'b' else x, v)
