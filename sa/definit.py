"""Definite initialisation: locals and members that can be read, or handed on, before anything was stored in them."""
from core import strip_targs

SCALAR = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'bool', 'double', 'float', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short'}


def bare(t):
    return t.replace('const ', '').rstrip('& ').strip()


def is_ref(t):
    return t.rstrip().endswith('&')


def changes(t):
    """a parameter of this type lets the callee store into the argument"""
    t = t.strip()
    return t.endswith('&&') or t.endswith('&') and not t.startswith('const ') or t == ''


class Open:
    """scalar members an object has when nothing is stored in it explicitly"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.cmemo = {}

    def scalar(self, t):
        return t in SCALAR or t.endswith('*') or t in self.P.enums

    def record(self, t):
        return self.P.record_of(t) or (self.P.rec_by_q.get(strip_targs(t)) or [None])[0]

    def own_fields(self, r):
        return [fl for fl in r['fields'] if self.scalar(fl[1])]

    def ctors(self, r):
        name = strip_targs(r['q']).split('::')[-1]
        return [f for f in self.P.by_sq.get(strip_targs(r['q']) + '::' + name, []) if f.body is not None and not f.dep and 'i' not in (f.fl or '') and 'd' not in (f.fl or '')]

    def stored(self, f, seen=()):
        """members of *this that every way through the function has stored into when it returns"""
        if f.u in self.cmemo:
            return self.cmemo[f.u]
        if f.u in seen or f.body is None or len(seen) > 3:
            return frozenset()
        try:
            cfg = f.cfg()
        except (KeyError, IndexError, TypeError):
            cfg = None
        if cfg is None:
            return frozenset()
        IN = {cfg.entry: frozenset()}
        order = cfg.order()
        for _ in range(20):
            ch = False
            for b in order:
                if b not in IN:
                    continue
                st = IN[b]
                for kind, x in cfg.events(cfg.b[b]):
                    if kind == 'n':
                        st = st | self.stores(f, x, seen)
                for s in cfg.b[b].succ:
                    if s < 0:
                        continue
                    o = IN.get(s)
                    n = st if o is None else o & st
                    if n != o:
                        IN[s] = n
                        ch = True
            if not ch:
                break
        r = IN.get(cfg.exit, None)
        if r is None:
            r = frozenset(['*'])        # never returns
        self.cmemo[f.u] = r
        return r

    def stores(self, f, x, seen):
        out = set()
        if x.k == 'asg' and x.ch[0] is not None:
            m = self.this_member(x.ch[0])
            if m:
                out.add(m)
        elif x.k in ('call', 'mcall', 'opcall', 'ctor'):
            d = x.decl() if not (x.k == 'call' and isinstance(x.a, int) and x.a < 0) else None
            # a member handed to something that may store into it
            for c in x.ch:
                if c is None:
                    continue
                y = c
                while y is not None and y.k in ('un', 'icast', 'cast') and y.ch and (y.k != 'un' or y.a == '&'):
                    y = y.ch[0]
                m = self.this_member(y) if y is not None else None
                if m and self.scalar(bare(y.t)):
                    out.add(m)
            if x.k == 'mcall' and x.ch[0] is not None and x.ch[0].k == 'this' and d is not None:
                for g in self.P.resolve(x) or ():
                    g = g if not isinstance(g, str) else self.P.fns.get(g)
                    if g is not None and g.cls == f.cls:
                        out |= self.stored(g, seen + (f.u,))
            if x.k == 'opcall' and x.ch and x.ch[0] is not None and x.ch[0].k == 'un' and x.ch[0].a == '*' and x.ch[0].ch[0].k == 'this' and x.cname() == 'operator=':
                out.add('*')
        return frozenset(out)

    @staticmethod
    def this_member(n):
        if n is not None and n.k == 'mem' and n.ch and n.ch[0] is not None and n.ch[0].k == 'this':
            return n.decl().n
        return None

    def after(self, f, r):
        """own scalar members a constructor leaves open"""
        given, delegates = set(), False
        for d, written, base, body in f.inits:
            if d is not None and body is not None:
                given.add(d.n)
            elif d is None and not base:
                delegates = True
            elif d is None and base and strip_targs(str(base)) == strip_targs(r['q']):
                delegates = True
        if delegates:
            return set()
        st = self.stored(f)
        if '*' in st:
            return set()
        return {fl[0] for fl in self.own_fields(r) if fl[3] is None and fl[0] not in given and fl[0] not in st and 's' not in str(fl[2] or '')}

    def default(self, t, depth=0):
        """members (dotted) left open when an object of the type is made without arguments"""
        t = bare(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        r = self.record(t)
        if r is None or depth > 6 or t.startswith('std::'):
            return frozenset()
        out = set()
        cs = self.ctors(r)
        zero = [f for f in cs if all(x is not None for x in f.defaults) and len(f.defaults) == len(f.params) or not f.params]
        if zero:
            out |= self.after(zero[0], r)
        elif not cs:
            for fl in r['fields']:
                if 's' in str(fl[2] or '') or fl[3] is not None:
                    continue
                if self.scalar(fl[1]):
                    out.add(fl[0])
                elif not fl[1].startswith('std::') and not is_ref(fl[1]):
                    out |= {fl[0] + '.' + o for o in self.default(fl[1], depth + 1)}
        self.memo[t] = frozenset(out)
        return self.memo[t]


class Local:
    """locals of one function (or lambda) that may be used before they hold a value"""

    def __init__(self, O, fn, lam=None):
        self.O, self.fn, self.lam = O, fn, lam
        self.bad = []           # (node, decl, member, how)
        self.tracked = 0
        cfg = fn.cfg(lam)
        if cfg is None:
            return
        self.vars = {}
        body = fn.body if lam is None else lam.x
        if body is None:
            return
        for x in body.walk():
            if x.k == 'var' and not x.x:
                d = x.decl()
                if d is None or is_ref(d.t) or 'S' in d.fl or 'T' in d.fl:
                    continue
                if not x.ch and O.scalar(bare(d.t)):
                    self.vars[d.i] = ('',)
                elif self.made_empty(x):
                    o = O.default(d.t)
                    if o:
                        self.vars[d.i] = tuple(sorted(o))
        if not self.vars:
            return
        self.tracked = len(self.vars)
        # state: set of (decl, member) that may be open
        IN = {cfg.entry: frozenset()}
        order = cfg.order()
        for _ in range(40):
            ch = False
            for b in order:
                if b not in IN:
                    continue
                st = IN[b]
                for kind, x in cfg.events(cfg.b[b]):
                    st = self.step(kind, x, st)
                for s in cfg.b[b].succ:
                    if s < 0:
                        continue
                    o = IN.get(s)
                    n = st if o is None else o | st
                    if n != o:
                        IN[s] = n
                        ch = True
            if not ch:
                break
        for b in order:
            if b in IN:
                st = IN[b]
                for kind, x in cfg.events(cfg.b[b]):
                    st = self.step(kind, x, st, True)

    def made_empty(self, x):
        if not x.ch:
            return True
        c = x.ch[0]
        return len(x.ch) == 1 and c is not None and c.k == 'ctor' and not [y for y in c.ch if y is not None and y.k != 'defarg'] and not self.braces(c)

    @staticmethod
    def braces(c):
        return bool(isinstance(c.a, (list, tuple)) and len(c.a) > 1 and c.a[1])

    def step(self, kind, x, st, rec=False):
        if kind != 'n':
            return st
        if x.k in ('decl', 'var'):
            for v in ([x] if x.k == 'var' else x.ch):
                if v is not None and v.k == 'var' and v.a in self.vars:
                    st = frozenset(y for y in st if y[0] != v.a) | {(v.a, m) for m in self.vars[v.a]}
            return st
        if x.k in ('asg',):
            r = self.target(x.ch[0])
            if r is not None:
                return self.drop(st, *r)
            return st
        if x.k == 'lambda':
            for d, byref in (x.a[0] or ()):
                if d in self.vars:
                    st = frozenset(y for y in st if y[0] != d)
            return st
        if x.k == 'opcall' and x.cname() == 'operator=' and x.ch:
            r = self.target(x.ch[0])
            if r is not None:
                return self.drop(st, *r)
        if x.k in ('call', 'mcall', 'opcall', 'ctor', 'new', 'init', 'stdinit'):
            return st
        if x.k == 'ref' and x.a in self.vars:
            return self.use(x, st, rec)
        return st

    def target(self, n):
        """(decl, member path) an expression names"""
        names = []
        while n is not None and n.k == 'mem' and n.ch:
            names.append(n.decl().n)
            n = n.ch[0]
        if n is not None and n.k == 'ref' and n.a in self.vars:
            return n.a, '.'.join(reversed(names))
        return None

    @staticmethod
    def drop(st, d, m):
        return frozenset(y for y in st if not (y[0] == d and (m == '' or y[1] == m or y[1].startswith(m + '.'))))

    def use(self, x, st, rec):
        m = []
        n = x
        while n.p is not None and n.p.k == 'mem' and n.p.ch and n.p.ch[0] is n:
            n = n.p
            m.append(n.decl().n)
        m = '.'.join(m)
        p = n.p
        while p is not None and p.k in ('icast', 'attr') and p.ch and p.ch[0] is n:
            n, p = p, p.p
        if p is None:
            return st
        if p.k == 'asg' and p.ch[0] is n or p.k == 'opcall' and p.cname() == 'operator=' and p.ch and p.ch[0] is n:
            return st           # stored into, below
        if p.k == 'un' and p.a == '&' or p.k in ('lambda', 'sizeof', 'sub', 'rfor'):
            return self.drop(st, x.a, m)
        if p.k == 'var' and p.decl() is not None and is_ref(p.decl().t):
            return self.drop(st, x.a, m)
        if p.k == 'mcall' and p.ch[0] is n:
            d = p.decl()
            return st if d is not None and 'c' in d.fl else self.drop(st, x.a, m)
        if p.k == 'ctor' and len(p.ch) == 1 and bare(p.t) == bare(self.fn.D(x.a).t) and not m:
            return self.read(x, m, st, rec)         # copied or moved as a whole
        if p.k in ('call', 'mcall', 'opcall', 'ctor', 'new'):
            pt = self.param(p, n)
            if pt is None or changes(pt):
                return self.drop(st, x.a, m)
            if pt.strip().startswith('const ') and is_ref(pt) and not self.copies(p):
                return st if self.vars[x.a] != ('',) else self.read(x, m, st, rec)
            return self.read(x, m, st, rec)
        if p.k in ('block', 'for', 'while', 'do', 'if') and self.vars[x.a] != ('',):
            return st
        if p.k == 'cast' and bare(p.t) == 'void':
            return st
        return self.read(x, m, st, rec)

    @staticmethod
    def copies(p):
        return p.k == 'ctor'

    def param(self, p, n):
        d = p.decl() if not (p.k == 'call' and isinstance(p.a, int) and p.a < 0) else None
        if d is None or not d.t or '(' not in d.t:
            return None
        ps = split_params(d.t)
        i = next((k for k, c in enumerate(p.ch) if c is n), None)
        if i is None:
            return None
        if p.k == 'mcall' or p.k == 'opcall' and 'C' in d.k and len(p.ch) == len(ps) + 1:
            i -= 1
            if i < 0:
                return None
        return ps[i] if i < len(ps) else None

    def read(self, x, m, st, rec):
        hit = [y for y in st if y[0] == x.a and (m == '' or y[1] == '' or y[1] == m or y[1].startswith(m + '.'))]
        if hit and rec:
            for y in hit:
                self.bad.append((x, self.fn.D(x.a), y[1]))
        return st


def split_params(t):
    i = t.find('(')
    depth, cur, out = 0, '', []
    for c in t[i + 1:]:
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if depth == 0:
                break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out
