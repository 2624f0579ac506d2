"""Program model over the fact base: AST nodes, functions, lambdas, CFGs, call graph."""
import json, os, re, sys, time
import facts
from facts import AnalysisError, VERIF, REPO


class Decl:
    __slots__ = ('i', 'k', 'n', 'q', 't', 'fl', 'u', 'f', 'l', 'pu', 'ta', 'fn')

    def __init__(self, i, row, T, fn):
        self.i = i
        self.k, self.n, q, t, self.fl, self.u, self.f, self.l, self.pu, self.ta = row
        self.q = q or self.n
        self.t = T[t] if t >= 0 else ''
        self.fn = fn

    @property
    def key(self):
        return self.u if self.u else (self.fn.u, self.i)

    def is_local(self):
        return self.k in ('Var', 'ParmVar', 'Decomposition', 'Binding') and 'G' not in self.fl and 'S' not in self.fl and not self.fl.startswith('G')

    def __repr__(self):
        return '<%s %s>' % (self.k, self.q)


class Node:
    __slots__ = ('k', 'l', 't', 'a', 'ch', 'p', 'id', 'fn', 'x')

    def __repr__(self):
        return '<%s#%d %s l%d>' % (self.k, self.id, self.a, self.l)

    def walk(self, lambdas=True):
        st = [self]
        while st:
            n = st.pop()
            yield n
            if n.k == 'lambda' and not lambdas and n is not self:
                st.extend(c for c in reversed(n.ch) if c is not None)
                continue
            if n.x is not None and n.k == 'lambda':
                st.append(n.x)
            for c in reversed(n.ch):
                if c is not None:
                    st.append(c)

    # ---- decl helpers
    def decl(self):
        a = self.a
        if self.k in ('ref', 'mem', 'var', 'definit') or (self.k == 'call' and a >= 0):
            return self.fn.D(a)
        if self.k in ('mcall', 'opcall', 'ctor'):
            return self.fn.D(a[0]) if a[0] >= 0 else None
        return None

    def callee(self):
        if self.k in ('call', 'mcall', 'opcall', 'ctor'):
            return self.decl() if not (self.k == 'call' and self.a < 0) else None
        return None

    def cname(self):
        d = self.callee()
        return d.n if d else ''

    def cq(self):
        d = self.callee()
        return strip_targs(d.q) if d else ''

    def args(self):
        """explicit arguments (without the object of a member call); for opcall all operands"""
        if self.k == 'mcall':
            return self.ch[1:]
        if self.k == 'call' and self.a < 0:
            return self.ch[1:]
        return self.ch

    def obj(self):
        return self.ch[0] if self.k == 'mcall' else None

    def loc(self):
        return '%s:%d' % (self.fn.f, self.l)

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p


def local_part(q):
    """name of a type declared in a function, without the function"""
    d, start, cut = 0, 0, 0
    for i, c in enumerate(q):
        if c == '(':
            if d == 0:
                start = i
            d += 1
        elif c == ')':
            d -= 1
            if d == 0 and not q.startswith('anonymous', start + 1) and not q.startswith('lambda', start + 1) and not q[:start].endswith('operator'):
                k = q.find('::', i)
                if k in (i + 1, i + 7):
                    cut = k + 2
    return q[cut:]


def strip_targs(q):
    """remove template argument lists (and the enclosing function of a local type) from a qualified name"""
    if (')::' in q or ') const::' in q) and not q.endswith(')'):
        q = local_part(q)
    if '<' not in q:
        return q
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<':
            # operator< / operator<< / <=>
            if d == 0 and ''.join(out).endswith('operator'):
                j = i
                while j < len(q) and q[j] in '<=>':
                    j += 1
                out.append(q[i:j])
                i = j
                continue
            d += 1
        elif c == '>' and d:
            if not (i and q[i - 1] == '-'):
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Fn:
    """A function definition (or a lambda body treated as one)"""

    def __init__(self, P, r):
        self.P = P
        self.r = r
        self.u = r['u']
        self.q = r['q']
        self.n = r['n']
        self.f = r['f']
        self.l = r['l']
        self.le = r['le']
        self.fl = r['fl']
        self.cls = r['cls']
        self.dep = bool(r['dep'])
        self._D = [None] * len(r['D'])
        self._built = False
        self.pu = r.get('pu', '')
        self.ta = r.get('ta', '')
        self.sq = strip_targs(self.q)

    def D(self, i):
        d = self._D[i]
        if d is None:
            d = self._D[i] = Decl(i, self.r['D'][i], self.r['T'], self)
        return d

    def _build(self):
        if self._built:
            return
        self._built = True
        self.nodes = []
        T = self.r['T']
        fn = self
        nodes = self.nodes

        def mk(j, p):
            if j is None:
                return None
            n = Node()
            n.k = j[0]
            n.l = j[1]
            n.t = T[j[2]] if j[2] >= 0 else ''
            n.a = j[3]
            n.p = p
            n.fn = fn
            n.x = None
            n.id = len(nodes)
            nodes.append(n)
            if n.k == 'lambda':
                n.ch = [mk(c, n) for c in j[4]]
                n.x = mk(j[5], n)
            elif len(j) > 4:
                n.ch = [mk(c, n) for c in j[4]]
                if n.k == 'mem':
                    n.x = j[5]
                elif n.k == 'var' and len(j) > 5:
                    n.x = j[5]
            else:
                n.ch = []
            return n
        sys.setrecursionlimit(20000)
        self._inits = []
        for fld, written, base, body in self.r['in']:
            self._inits.append((self.D(fld) if fld >= 0 else None, written, base, mk(body, None)))
        self._defs = [mk(j, None) for j in self.r.get('da', ())]
        self._body = mk(self.r['b'], None)

    @property
    def body(self):
        self._build()
        return self._body

    @property
    def defaults(self):
        """default arguments of a constructor, by parameter"""
        self._build()
        return self._defs

    @property
    def inits(self):
        self._build()
        return self._inits

    @property
    def params(self):
        return [self.D(i) for i in self.r['p']]

    def node(self, i):
        self._build()
        return self.nodes[i]

    def walk(self, lambdas=True):
        for _, _, _, b in self.inits:
            if b is not None:
                yield from b.walk(lambdas)
        if self.body is not None:
            yield from self.body.walk(lambdas)

    def cfg(self, lam=None):
        """CFG of the function, or of the lambda node lam"""
        c = self.r['cfg'] if lam is None else self.r['lc'][lam.a[5]]
        if c is None:
            return None
        return CFG(self, c)

    @property
    def clsq(self):
        """class with its template arguments"""
        return self.q[:-len(self.n) - 2] if self.cls and self.q.endswith('::' + self.n) else self.cls

    def where(self):
        return '%s:%d %s' % (self.f, self.l, self.q)

    def __repr__(self):
        return '<Fn %s>' % self.q


class Block:
    __slots__ = ('id', 'succ', 'el', 'term', 'cond', 'label', 'noret', 'pred')


class CFG:
    def __init__(self, fn, c):
        self.fn = fn
        self.entry, self.exit, bl = c
        self.b = {}
        for k, v in bl.items():
            b = Block()
            b.id = int(k)
            b.succ = [s for s in v[0]]
            b.el = v[1]
            b.term = fn.node(v[2]) if v[2] >= 0 else None
            b.cond = fn.node(v[3]) if v[3] >= 0 else None
            b.label = fn.node(v[4]) if v[4] >= 0 else None
            b.noret = bool(v[5])
            b.pred = []
            self.b[b.id] = b
        for b in self.b.values():
            for s in b.succ:
                if s >= 0:
                    self.b[s].pred.append(b.id)

    def events(self, b):
        """elements of a block: ('n', Node) | ('D', Decl) | ('I', Decl)"""
        for e in b.el:
            if isinstance(e, int):
                yield ('n', self.fn.node(e))
            else:
                yield (e[0], self.fn.D(e[1]) if e[1] >= 0 else None)

    def order(self):
        """reverse post-order"""
        seen, out = set(), []

        def dfs(x):
            st = [(x, iter(self.b[x].succ))]
            seen.add(x)
            while st:
                y, it = st[-1]
                for s in it:
                    if s >= 0 and s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.b[s].succ)))
                        break
                else:
                    out.append(y)
                    st.pop()
        dfs(self.entry)
        return out[::-1]


class Prog:
    def __init__(self, F):
        self.F = F
        self.fns = {u: Fn(self, r) for u, r in F.fns.items()}
        self.by_q = {}
        self.by_sq = {}
        self.insts = {}
        for f in self.fns.values():
            if f.u.startswith('ref:'):
                continue
            self.by_q.setdefault(f.q, []).append(f)
            self.by_sq.setdefault(f.sq, []).append(f)
            if f.pu:
                self.insts.setdefault(f.pu, []).append(f)
        self.recs = F.recs
        self.rec_by_q = {}
        for r in F.recs.values():
            self.rec_by_q.setdefault(strip_targs(r['q']), []).append(r)
        self.enums = {e['q']: e for e in F.enums.values()}
        self.gvs = F.gvs
        self._ov = None
        self._ctors = None
        self._recty = None
        self.nodes_visited = 0

    def find(self, sq, required=True):
        """functions with the given template-argument-free qualified name (non dependent first)"""
        l = [f for f in self.by_sq.get(sq, [])]
        if not l and required:
            raise AnalysisError('anchor vanished: no definition of %s' % sq)
        return sorted(l, key=lambda f: (f.dep, f.f, f.l))

    def one(self, sq):
        l = [f for f in self.find(sq) if not f.dep] or self.find(sq)
        return l[0]

    def methods(self, cls):
        return [f for f in self.fns.values() if strip_targs(f.cls) == cls]

    def ctors(self, ty):
        """constructors (definitions) of the class named by the type"""
        if self._ctors is None:
            self._ctors = {}
            for f in self.fns.values():
                if f.cls and not f.dep and f.n == strip_targs(f.cls).split('::')[-1]:
                    self._ctors.setdefault(f.clsq, []).append(f)
        return self._ctors.get(ty, [])

    def record_of(self, ty):
        if self._recty is None:
            self._recty = {r['q']: r for r in self.recs.values()}
        return self._recty.get(ty)

    def overriders(self, u):
        """USRs of methods overriding u (transitively)"""
        if self._ov is None:
            d = {}
            for r in self.recs.values():
                for m in r['methods']:
                    for o in m[4]:
                        d.setdefault(o, set()).add(m[1])
            self._ov = d
        out, st = set(), [u]
        while st:
            x = st.pop()
            for y in self._ov.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def resolve(self, call):
        """possible callee definitions of a call node (virtual dispatch included)"""
        d = call.callee()
        if d is None:
            return []
        out = []
        if d.u in self.fns:
            out.append(self.fns[d.u])
        if call.k == 'mcall' and 'v' in d.fl and not call.a[2]:
            for o in self.overriders(d.u):
                if o in self.fns:
                    out.append(self.fns[o])
        return out

    def lambdas(self, fn):
        return [n for n in fn.walk() if n.k == 'lambda']


def program(tus=None, config='main', only=None):
    return Prog(facts.load(tus, config, only))


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, level='other'):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.cov = {}
        self.notes = []
        self.samples = []
        self.undecided = []
        self.level = level
        self.assumptions = []
        self.oblig = 0

    def ok(self, n=1):
        self.oblig += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, where, msg):
        """key: stable identity of the failing construct (no line numbers)"""
        self.oblig += 1
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, where, msg))

    def undec(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def need(self, key, minimum, got=None):
        g = self.cov.get(key, 0) if got is None else got
        if g < minimum:
            raise AnalysisError('%s: only %d instances of "%s" found, at least %d expected (rule would pass vacuously)' % (self.pid, g, key, minimum))

    def finish(self, explanation):
        known = load_known(self.pid)
        new = []
        for key, where, msg in self.viol:
            if key in known:
                self.known.append((key, where, msg))
            else:
                new.append((key, where, msg))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'explanation': explanation, 'obligations': self.oblig,
               'discharged': self.oblig - len(self.viol), 'samples': self.samples or ['none']}
        cov.update(self.cov)
        cov['known_findings'] = len(self.known)
        cov['undecided'] = len(self.undecided)
        if self.undecided:
            cov['undecided_list'] = self.undecided[:40]
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'),
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d violations, %d known findings, %d undecided, %.1fs' % (
            self.pid, self.oblig, len(new), len(self.known), len(self.undecided), time.time() - self.t0))
        for k in sorted(self.cov):
            print('   %s: %s' % (k, self.cov[k]))
        for u in self.undecided[:20]:
            print('   undecided: ' + u)
        for key, where, msg in self.known:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.pid, key, where, msg))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for key, where, msg in new:
                    f.write('%s\n  at %s\n  %s\n' % (key, where, msg))
            for key, where, msg in new:
                print('  %s\n     at %s\n     %s' % (key, where, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(.*?) :: ', line)
            if m and m.group(1) == pid:
                out.add(m.group(2))
    return out
