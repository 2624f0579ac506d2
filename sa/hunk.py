"""Comparison of a function with its reference where they differ.

Functions too large to be summarised as a whole are aligned statement by statement (up to the names of locals and of the
object); what differs is a run of statements, or the condition of one statement, in the same place of both.  That part is
summarised on both sides from an arbitrary state of the locals and compared by what it leaves behind: control flow, values that
are used later, effects.  Wider parts around the difference are tried as well: agreement at any width proves the functions equal."""
import equiv, terms as t, vg
from core import strip_targs
from terms import T, Tm, Ite, TRUE, FALSE, Undecided, lift, ite, batom
from vg import VG, St, RET, isref, bare

SKIP = ('NoOp', 'LValueToRValue')
STMT = {'block', 'decl', 'if', 'for', 'while', 'do', 'rfor', 'switch', 'case', 'default', 'return', 'break', 'continue', 'nop', 'try', 'catch', 'attr'}
LOOPS = ('for', 'while', 'do', 'rfor')


def strip(n):
    while n is not None and (n.k == 'icast' and n.a in SKIP or n.k == 'attr' and len(n.ch) == 1):
        n = n.ch[0]
    return n


def silent(n):
    """statements without meaning: logging, assertions, empty ones"""
    if n is None or n.k == 'nop' or n.k == 'decl' and not n.ch:
        return True
    if n.k in STMT:
        return False
    m = strip(n)
    if m.k in ('call', 'mcall') and m.cq().startswith('spdlog::'):
        return True
    if m.k == 'cond' and any(x.k == 'call' and x.cname() == '__assert_fail' for x in m.walk()):
        return True
    return m.k == 'cast' and bare(m.t) == 'void' and strip(m.ch[0]).k in ('ref', 'int', 'mem')


def stmts(n):
    if n is None:
        return []
    if n.k == 'block':
        return [c for c in n.ch if not silent(c)]
    return [] if silent(n) else [n]


def plain(ty):
    ty = ty.replace('const ', '')
    return '' if '(lambda' in ty or '(anonymous' in ty or 'ref::' in ty else ty


class Hunk:
    pass


class Align:
    def __init__(self, P, code, ref):
        self.P = P
        self.code, self.ref = code, ref
        self.ab, self.ba = {}, {}
        self.trail = []
        self.base = {}
        ps, qs = list(code.params), list(ref.params)
        self.self = None
        if qs and qs[0].n == 'self':
            self.self = (ref.u, qs[0].i)
            qs = qs[1:]
        self.ok = len(ps) == len(qs)
        for p, q in zip(ps, qs):
            self.bind((p.fn.u, p.i), (q.fn.u, q.i))

    # ---- names of locals
    def bind(self, a, b):
        if self.ab.get(a) == b and self.ba.get(b) == a:
            return True
        if a in self.ab or b in self.ba:
            return False
        self.ab[a] = b
        self.ba[b] = a
        self.trail.append((a, b))
        return True

    def undo(self, mark):
        while len(self.trail) > mark:
            a, b = self.trail.pop()
            del self.ab[a]
            del self.ba[b]

    # ---- shape of a node
    def shape(self, n):
        """(token, children, local or None)"""
        k = n.k
        if k == 'this':
            return ('selfptr',), [], None
        if k == 'ref':
            d = n.decl()
            if (d.fn.u, d.i) == self.self:
                return ('self',), [], None
            if d.is_local():
                return ('local',), [], d
            return ('ref', strip_targs(d.q) if d.k in ('Function', 'CXXMethod') else d.q, d.ta, d.t), [], None
        if k == 'un' and n.a in ('*', '&'):
            c = self.shape(strip(n.ch[0]))[0] if n.ch[0] is not None else None
            if n.a == '*' and c == ('selfptr',):
                return ('self',), [], None
            if n.a == '&' and c == ('self',):
                return ('selfptr',), [], None
        if k == 'mem':
            return ('mem', strip_targs(n.decl().q)), [self.base_of(n)], None
        if k == 'mcall':
            d = n.decl()
            return ('mcall', self.callee(d), d.t, n.a[2]), [self.base_of(n)] + list(n.ch[1:]), None
        if k == 'call':
            if n.a < 0:
                return ('call', ''), list(n.ch), None
            d = n.decl()
            return ('call', self.callee(d), d.ta, d.t), list(n.ch), None
        if k == 'opcall':
            d = n.decl()
            return ('opcall', self.callee(d) if d is not None else '', n.a[1]), list(n.ch), None
        if k == 'ctor':
            d = n.decl()
            return ('ctor', plain(d.q + ' ' + d.t), plain(n.t)), list(n.ch), None
        if k in ('int', 'flt', 'chr', 'str', 'bool', 'null', 'sizeof'):
            return (k, n.a, bare(n.t) if k in ('int', 'flt', 'sizeof') else ''), [], None
        if k in ('un', 'bin', 'asg'):
            return (k, n.a), list(n.ch), None
        if k == 'casg':
            return (k, n.a, bare(n.ch[0].t)), list(n.ch), None
        if k in ('icast', 'cast', 'init', 'new'):
            return (k if k != 'icast' else 'cast', n.a, plain(n.t)), list(n.ch), None
        if k == 'var':
            d = n.decl()
            if n.x:
                return ('var', id(n)), [], None        # structured bindings: see below
            return ('var', plain(d.t), 'S' in d.fl), list(n.ch), d
        if k == 'block':
            return ('block',), stmts(n), None
        if k in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'return', 'break', 'continue', 'decl', 'cond', 'sub', 'stdinit', 'throw', 'delete', 'default', 'try'):
            return (k, n.a if k == 'if' else ''), list(n.ch), None
        if k == 'case':
            return ('case', n.a), list(n.ch[1:]), None
        if k == 'catch':
            return ('catch', '' if n.a < 0 else n.fn.r['T'][n.a]), list(n.ch), None
        if k == 'defarg':
            return ('defarg', n.a), [], None
        if k == 'definit':
            return ('definit', n.decl().q), [], None
        return ('other', id(n)), [], None

    def base_of(self, n):
        b = strip(n.ch[0])
        if b is None or b.k == 'this' or self.shape(b)[0] in (('self',), ('selfptr',)):
            return 'self'
        return b

    def callee(self, d):
        q = strip_targs(d.q)
        return d.n if '(lambda' in d.q or '(anonymous' in d.q or 'ref::' in q else q

    def same(self, a, b):
        m = len(self.trail)
        if self.same0(a, b):
            return True
        self.undo(m)
        return False

    def same_list(self, A, B):
        return len(A) == len(B) and all(self.same0(x, y) for x, y in zip(A, B))

    def same0(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        a, b = strip(a), strip(b)
        if a is None or b is None:
            return a is b
        if a.k == 'block' or b.k == 'block':
            return self.same_list(stmts(a), stmts(b))
        if a.k == b.k == 'lambda':
            return self.same_lambda(a, b)
        if a.k == b.k == 'var' and a.x and b.x:
            return self.same_binding(a, b)
        ta, ca, da = self.shape(a)
        tb, cb, db = self.shape(b)
        if ta != tb or len(ca) != len(cb):
            return False
        if (da is None) != (db is None):
            return False
        if da is not None and not self.bind((da.fn.u, da.i), (db.fn.u, db.i)):
            return False
        if not self.fixed(a, b, ta):
            return False
        return all(self.same0(x, y) for x, y in zip(ca, cb))

    def same_inits(self, A, B):
        """the initialisers of two constructors"""
        if not self.ok or len(A) != len(B):
            return False
        for (fa, _, ba, xa), (fb, _, bb, xb) in zip(A, B):
            if (fa and fa.q) != (fb and fb.q) or ba != bb or not self.same(xa, xb):
                return False
        return True

    def same_binding(self, a, b):
        da, db = a.decl(), b.decl()
        if plain(da.t) != plain(db.t) or isref(da.t) != isref(db.t) or len(a.x) != len(b.x) or not self.same_list(a.ch, b.ch):
            return False
        if not self.bind((da.fn.u, da.i), (db.fn.u, db.i)):
            return False
        for x, y in zip(a.x, b.x):
            i = x[0] if isinstance(x, (list, tuple)) else x
            j = y[0] if isinstance(y, (list, tuple)) else y
            if not isinstance(i, int) or not isinstance(j, int) or not self.bind((a.fn.u, i), (b.fn.u, j)):
                return False
        return True

    def same_head(self, a, b):
        """captures and parameters of two lambdas"""
        if len(a.a[1]) != len(b.a[1]):
            return False

        def caps(n):
            by = {}
            for (d, r), ini in zip(n.a[0], n.ch):
                if d < 0:
                    continue
                dd = n.fn.D(d)
                if 'I' in dd.fl:
                    by[('init', dd.n)] = (ini, dd)
                elif not r:
                    by[(dd.fn.u, dd.i)] = (None, dd)
            return by
        x, y = caps(a), caps(b)
        init = [k for k in x if k[0] == 'init']
        if len(x) != len(y) or sorted(init) != sorted(k for k in y if k[0] == 'init'):
            return False
        for k in init:
            if not self.same0(x[k][0], y[k][0]):
                return False
            if not self.bind((x[k][1].fn.u, x[k][1].i), (y[k][1].fn.u, y[k][1].i)):
                return False
        for i, j in zip(a.a[1], b.a[1]):
            p, q = a.fn.D(i), b.fn.D(j)
            if plain(p.t) != plain(q.t) or not self.bind((a.fn.u, i), (b.fn.u, j)):
                return False
        return {self.ab.get(k) for k in x if k[0] != 'init'} <= set(y) | {None}

    def same_lambda(self, a, b):
        return self.same_head(a, b) and self.same_list(stmts(a.x), stmts(b.x))

    def fixed(self, a, b, tok):
        """constants and defaults that the reference means by their recorded values"""
        k = tok[0]
        if k == 'ref' and a.k == 'ref':
            d = a.decl()
            if not (d.t.startswith('const ') or 'X' in d.fl) or d.k not in ('Var',):
                return True
            key = ('ref', tok)
        elif k == 'defarg':
            key = ('defarg', tok)
        elif k == 'definit':
            key = ('definit', tok)
        elif k == 'ctor' and not a.ch and (a.decl() is not None and ('d' in a.decl().fl or 'i' in a.decl().fl)) and bare(a.t).startswith('cura'):
            key = ('ctor', tok)
        else:
            return True
        if key not in self.base:
            self.base[key] = self.value(a, False) is self.value(b, True)
        return self.base[key]

    def value(self, n, ref):
        S = VG(self.P)
        S.refside = ref
        S.stack.append('default')
        try:
            st = St()
            v = S.ev(n, st, {'$frame': 0, '$this': T('addr', T('D', T('this')), ())})
            return S.canon(v, st)
        except (Undecided, AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError):
            return 'unknown'

    # ---- where they differ
    def difference(self):
        """parts that differ, widest first; [] if nothing does"""
        if not self.ok:
            return None
        m = len(self.trail)
        if self.same_list(stmts(self.code.body), stmts(self.ref.body)):
            return []
        self.undo(m)
        return self.lists(stmts(self.code.body), stmts(self.ref.body), (self.code.body, self.ref.body)) or None

    def lists(self, A, B, where):
        i = 0
        while i < len(A) and i < len(B) and self.same(A[i], B[i]):
            i += 1
        if i == len(A) == len(B):
            return []
        ja, jb = len(A), len(B)
        while ja > i and jb > i and self.same(A[ja - 1], B[jb - 1]):
            ja -= 1
            jb -= 1
        h = Hunk()
        h.kind, h.A, h.B, h.where = 'stmts', A[i:ja], B[i:jb], where
        # a labelled statement means nothing without its switch
        out = [] if any(x.k in ('case', 'default') for x in h.A + h.B) else [h]
        if len(h.A) == len(h.B):
            bad = []
            for x, y in zip(h.A, h.B):
                if not self.same(x, y):
                    bad.append((x, y))
            if len(bad) == 1:
                x, y = bad[0]
                if len(h.A) > 1 and x.k not in ('case', 'default') and y.k not in ('case', 'default'):
                    h2 = Hunk()
                    h2.kind, h2.A, h2.B, h2.where = 'stmts', [x], [y], where
                    out.append(h2)
                out += self.descend(x, y)
        return out

    def descend(self, a, b):
        a, b = strip(a), strip(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str) or a.k != b.k:
            return []
        if a.k == 'block':
            return self.lists(stmts(a), stmts(b), (a, b))
        if a.k == 'lambda':
            m = len(self.trail)
            if not self.same_head(a, b):
                self.undo(m)
                return []
            return self.lists(stmts(a.x), stmts(b.x), (a, b))
        ta, ca, da = self.shape(a)
        tb, cb, db = self.shape(b)
        if ta != tb or len(ca) != len(cb) or ta[0] == 'other' or (a.k == 'var' and a.x):
            return []
        if da is not None and not self.bind((da.fn.u, da.i), (db.fn.u, db.i)):
            return []
        bad = [k for k, (x, y) in enumerate(zip(ca, cb)) if not self.same(x, y)]
        if len(bad) != 1:
            return []
        k = bad[0]
        x, y = ca[k], cb[k]
        if a.k in LOOPS + ('if', 'switch'):
            role = {'for': ('init', 'cond', 'inc', 'body'), 'while': ('cv', 'cond', 'body'), 'do': ('body', 'cond'), 'if': ('init', 'cv', 'cond', 'body', 'body'),
                    'switch': ('init', 'cv', 'cond', 'body'), 'rfor': ('init', 'range', '', '', '', '', 'var', 'body')}[a.k]
            role = role[k] if k < len(role) else ''
            if role == 'cond' and x is not None and y is not None:
                h = Hunk()
                h.kind, h.A, h.B, h.where = 'cond' if a.k != 'switch' else 'expr', [x], [y], (a, b)
                return [h] + self.descend(x, y)
            if role == 'inc':
                h = Hunk()
                h.kind, h.A, h.B, h.where = 'stmts', [c for c in (x,) if c is not None], [c for c in (y,) if c is not None], (a, b)
                return [h] + self.descend(x, y)
            if role == 'body':
                return self.lists(stmts(x), stmts(y), (a, b))
            return []
        if a.k in ('case', 'default', 'try', 'catch'):
            return self.lists(stmts(x), stmts(y), (a, b))
        return self.descend(x, y)


SCALAR = {'bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'float', 'double', 'unsigned char', 'signed char'}


class Part(VG):
    """execution of a part of a function from an arbitrary state"""

    def __init__(self, P, opaque, names, budget, selfkey):
        VG.__init__(self, P, opaque, budget)
        self.names = names         # local -> name common to both sides
        self.selfkey = selfkey
        self.own = set()
        self.known = {}
        self.outer = None
        self.const = {}            # constants declared outside the part that are looked through

    def droot(self, d, env):
        k = (d.fn.u, d.i)
        if k not in env:
            if k == self.selfkey:
                return T('addr', T('D', T('this')), ())
            if d.is_local() and k not in self.own and k in self.names:
                r = T('G', self.names[k], sort=self.sort(d.t))
                self.rtype[r] = d.t
                a = T('addr', r, ())
                if k in self.const and env.get('$closing') is None:
                    r = T('L', 'const %s' % self.names[k])
                    if r not in self.clos:
                        self.clos[r] = r
                        e2 = dict(env)
                        self.clos[r] = self.ev(self.const[k], St(), e2)
                        self.rtype[r] = d.t
                    return T('addr', r, ())
                if k in self.known and not env.get('$closing') == k:
                    # a local lambda: what it does is known
                    e2 = dict(env)
                    e2['$closing'] = k
                    self.frame += 1
                    self.closures[self.frame] = (self.known[k], e2)
                    r = T('L', 'closure %s' % self.names[k])
                    self.clos[r] = T('clos', self.frame)
                    return T('addr', r, ())
                return a
        return VG.droot(self, d, env)

    def load_root(self, r, st):
        if r in self.clos and r not in st.m:
            return self.clos[r]
        return VG.load_root(self, r, st)


def visible(nodes):
    """locals declared by these statements themselves"""
    ds = [n for n in nodes if n.k == 'decl']
    return {(v.fn.u, v.decl().i) for n in ds for v in n.ch if v is not None and v.k == 'var'} | bindings(ds)


def declared(nodes):
    return {(v.fn.u, v.decl().i) for n in nodes for v in n.walk() if v.k == 'var' and v.decl() is not None}


def bindings(nodes):
    out = set()
    for n in nodes:
        for v in n.walk():
            if v.k == 'var' and v.x:
                out |= {(v.fn.u, x[0] if isinstance(x, (list, tuple)) else x) for x in v.x}
    return out


def used_later(fn, nodes, where):
    """locals mentioned after the part, or anywhere in a loop or lambda around it"""
    inside = {id(x) for n in nodes for x in n.walk()}
    around = [where] + list(where.ancestors())
    rep = [x for x in around if x.k in LOOPS or x.k == 'lambda']
    out = set()

    def refs(n):
        for x in n.walk():
            if id(x) not in inside and x.k == 'ref' and x.decl() is not None and x.decl().is_local():
                out.add((x.decl().fn.u, x.decl().i))
    if rep:
        refs(rep[-1])
    if nodes:
        last = max(x.id for n in nodes for x in n.walk())
        for x in fn.body.walk():
            if x.id > last and x.k == 'ref' and x.decl() is not None and x.decl().is_local():
                out.add((x.decl().fn.u, x.decl().i))
        return out
    return None


def tail(fn, nodes, where):
    """'cont' or 'ret' if nothing follows these statements in the innermost loop's body or in the function that returns nothing"""
    n = nodes[-1] if nodes else None
    while n is not None:
        p = n.p
        if p is None or p.k == 'lambda':
            return 'ret' if p is None and n is fn.body and fn.r.get('rt') == 'void' else None
        if p.k in LOOPS:
            body = p.ch[{'for': 3, 'while': 2, 'do': 0, 'rfor': 7}[p.k]]
            return 'cont' if body is n else None
        if p.k == 'block':
            after = False
            for c in p.ch:
                if after and c is not None and not silent(c):
                    return None
                if c is n:
                    after = True
        elif p.k == 'if':
            if n not in p.ch[3:5]:
                return None
        elif p.k != 'attr':
            return None
        n = p
    return None


class Parts:
    """attempts at one differing part"""

    def __init__(self, P, impl, e, al, h):
        self.P, self.impl, self.e, self.al, self.h = P, impl, e, al, h
        self.nameA, self.nameB = {}, {}
        for k, (a, b) in enumerate(sorted(al.ab.items(), key=lambda p: (str(p[0][0]), p[0][1]))):
            self.nameA[a] = self.nameB[b] = 'local %d' % k
        inA, inB = declared(h.A) | bindings(h.A), declared(h.B) | bindings(h.B)
        self.inA, self.inB = inA, inB
        la = used_later(impl, h.A, h.where[0])
        lb = used_later(e.ref, h.B, h.where[1])
        live = set()
        if la is not None:
            live |= {self.nameA[k] for k in la if k in self.nameA}
        if lb is not None:
            live |= {self.nameB[k] for k in lb if k in self.nameB}
        # reference parameters stay visible to the caller
        live |= {self.nameA[(p.fn.u, p.i)] for p in impl.params if isref(p.t) and (p.fn.u, p.i) in self.nameA}
        for fn, names in ((impl, self.nameA), (e.ref, self.nameB)):
            for x in fn.body.walk():
                if x.k == 'var' and x.decl() is not None and isref(x.decl().t) and (x.fn.u, x.decl().i) in names and (x.fn.u, x.decl().i) not in inA | inB:
                    live.add(names[(x.fn.u, x.decl().i)])
        self.live = live
        self.tail = (tail(impl, h.A, h.where[0]), tail(e.ref, h.B, h.where[1])) if h.kind == 'stmts' else (None, None)
        if self.tail[0] != self.tail[1]:
            self.tail = (None, None)

    def side(self, fn, nodes, names, mine, opaque, ref, through=False):
        e = self.e
        S = Part(self.P, opaque, names, e.budget, self.al.self if ref else None)
        S.clos = {}
        S.refside = ref
        S.own = set()
        for x in fn.body.walk():
            if x.k == 'var' and x.ch and x.ch[0] is not None and (x.fn.u, x.decl().i) not in mine:
                c = strip(x.ch[0])
                while c is not None and c.k in ('cast', 'icast', 'ctor', 'x') and len(c.ch) == 1:
                    c = strip(c.ch[0])
                if c is not None and c.k == 'lambda':
                    S.known[(x.fn.u, x.decl().i)] = c
                elif through and not isref(x.decl().t) and x.decl().t.startswith('const ') and bare(x.decl().t) in SCALAR:
                    S.const[(x.fn.u, x.decl().i)] = x.ch[0]
        t.BUDGET[0] = e.budget
        st = St()
        inlam = [x for x in [self.h.where[1 if ref else 0]] + list(self.h.where[1 if ref else 0].ancestors()) if x.k == 'lambda']
        env = {'$frame': 0, '$this': T('addr', T('D', T('this')), ())}
        if not inlam:
            env['$reflike'] = isref(S.rettype(fn))
            env['$ret'] = S.rettype(fn)
        S.stack.append(fn.u)
        sm = equiv.Summary()
        if self.h.kind in ('cond', 'expr'):
            n = nodes[0]
            v = S.ev(n, st, env)
            if self.h.kind == 'cond':
                v = S.tobool(v)
            sm.out['value'] = S.canon(v, st)
            sm.out['exception'] = st.exc
            s = st
        else:
            out = {'fall': (TRUE, st)}
            for c in nodes:
                if 'fall' not in out:
                    break
                out = S.seq(out, lambda z, c=c: S.ex(c, z, env))
            res, ctl = None, None
            # at the end of a loop's body, or of a function that returns nothing, leaving early is leaving
            early = self.tail[1 if ref else 0]
            for kind in ('fall', 'ret', 'brk', 'cont'):
                if kind in out:
                    g, s = out[kind]
                    is_kind, kind = kind, ('fall' if kind == early else kind)
                    if 'ret' in out and is_kind != 'ret' or early == 'ret':
                        s.m.pop(RET, None)
                    if res is None:
                        res, ctl = (g, s), T('ctl', kind)
                    else:
                        ctl = ite(g, T('ctl', kind), ctl)
                        res = (t.bor(res[0], g), vg.merge_st(g, s, res[1]))
            if 'exc' in out:
                g, s = out['exc']
                if res is None:
                    res, ctl = (g, s), T('ctl', 'exc')
                else:
                    ex = s.exc
                    s2 = vg.merge_st(g, s, res[1])
                    s2.exc = ite(g, ex, res[1].exc)
                    ctl = ite(g, T('ctl', 'exc'), ctl)
                    res = (TRUE, s2)
            s = res[1]
            v = s.m.pop(RET, t.VOID)
            sm.out['control'] = ctl
            sm.out['exception'] = s.exc
            r = S.canon(v, s) if not env.get('$reflike') else v
            isret = lift(lambda x: TRUE if x.args[0] == 'ret' else FALSE, ctl)
            sm.out['return'] = ite(isret, r, t.VOID)
            # locals declared here and used later
            out_of = visible(nodes)
            for k, b in env.items():
                if isinstance(k, tuple) and k in out_of and k in names and names[k] in self.live and isinstance(b, (Tm, Ite)):
                    x = S.canon(S.rd(b, s), s)
                    sm.out[names[k]] = ite(lift(lambda z: TRUE if z.args[0] == 'fall' else FALSE, ctl), x, t.VOID)
        for r, x in s.m.items():
            if r.op == 'L' or r.op == 'G' and isinstance(r.args[0], str) and r.args[0].startswith('local ') and r.args[0] not in self.live:
                continue
            x = S.canon(x, s)
            if x is not vg.default_root(r):
                sm.out[r] = x
        sm.unknown = S.unknown
        sm.inlined = S.inlined
        return sm

    def attempt(self, opq, through=False):
        a = self.side(self.impl, self.h.A, self.nameA, self.inA, opq, False, through)
        b = self.side(self.e.ref, self.h.B, self.nameB, self.inB, opq, True, through)
        for x, y in ((a, b), (b, a)):
            for k in x.out:
                if isinstance(k, str) and k.startswith('local ') and k not in y.out:
                    return ('undecided', 'a local is declared elsewhere'), a, b
        return equiv.check(a, b, ignore=self.e.ignore), a, b
