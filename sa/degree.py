"""How many lengths are multiplied in a value: 1 for a coordinate, 2 for an area or squared distance; inferred over the whole program."""
import math
from core import strip_targs

INT32 = {'int': 31, 'unsigned int': 32, 'short': 15, 'unsigned short': 16, 'char': 7, 'signed char': 7, 'unsigned char': 8}
INT64 = {'long', 'long long', 'unsigned long', 'unsigned long long'}
REAL = {'double', 'float', 'long double'}
NUM = set(INT32) | INT64 | REAL
POINTS = {'ClipperLib::IntPoint::X', 'ClipperLib::IntPoint::Y', 'cura::Point3LL::x_', 'cura::Point3LL::y_', 'cura::Point3LL::z_'}
SAME = {'abs', 'fabs', 'llabs', 'labs', 'round', 'floor', 'ceil', 'lround', 'llround', 'lrint', 'llrint', 'trunc', 'move', 'forward', 'round_up_divide', 'round_divide', 'fmod'}
CAP = 6


def bare(t):
    return t.replace('const ', '').rstrip('& ').strip()


class Degrees:
    def __init__(self, P):
        self.P = P
        self.var, self.fld, self.ret = {}, {}, {}
        self.why = {}
        self.fns = [f for f in P.fns.values() if not f.dep and f.body is not None and not f.f.startswith('@ref')]
        self.ev = {}
        for _ in range(6):
            self.changed = False
            for f in self.fns:
                self.pass_(f)
            if not self.changed:
                break

    def up(self, tab, k, d):
        if d > CAP:
            d = CAP
        if d > tab.get(k, 0):
            tab[k] = d
            self.changed = True

    def key(self, d):
        return (d.fn.u, d.i)

    def pass_(self, f):
        ret = 0
        for x in f.walk():
            if x.k == 'var' and x.ch and not x.x:
                if bare(x.decl().t) in NUM:
                    self.up(self.var, self.key(x.decl()), self.deg(x.ch[0]))
            elif x.k == 'asg' or x.k == 'casg' and x.a in ('+=', '-='):
                self.store(x.ch[0], self.deg(x.ch[1]))
            elif x.k == 'casg' and x.a == '*=':
                self.store(x.ch[0], self.deg(x.ch[0]) if self.loops(x) else self.deg(x.ch[0]) + self.deg(x.ch[1]))
            elif x.k == 'return' and x.ch and x.ch[0] is not None and not self.in_lambda(x):
                ret = max(ret, self.deg(x.ch[0]))
            elif x.k in ('call', 'mcall'):
                self.args(x)
        for d, written, base, body in f.inits:
            if d is not None and body is not None and bare(d.t) in NUM:
                self.up(self.fld, strip_targs(d.q), self.deg(body))
        if bare(self.rtype(f)) in NUM:
            self.up(self.ret, f.u, ret)

    @staticmethod
    def loops(x):
        return True

    @staticmethod
    def rtype(f):
        r = f.r['rt']
        return f.r['T'][r] if isinstance(r, int) and r >= 0 else str(r)

    @staticmethod
    def in_lambda(x):
        p = x.p
        while p is not None:
            if p.k == 'lambda':
                return True
            p = p.p
        return False

    def args(self, x):
        if x.k == 'call' and isinstance(x.a, int) and x.a < 0:
            return
        off = 1 if x.k == 'mcall' else 0
        for g in self.P.resolve(x) or ():
            g = self.P.fns.get(g) if isinstance(g, str) else g
            if g is None or g.body is None or g.f.startswith('@ref'):
                continue
            for p, a in zip(g.params, x.ch[off:]):
                if a is not None and a.k != 'defarg' and bare(p.t) in NUM:
                    self.up(self.var, self.key(p), self.deg(a))

    def store(self, n, d):
        while n is not None and n.k in ('icast', 'cast', 'attr') and n.ch:
            n = n.ch[0]
        if n is None or bare(n.t) not in NUM:
            return
        if n.k == 'ref' and n.decl() is not None:
            self.up(self.var, self.key(n.decl()), d)
        elif n.k == 'mem':
            self.up(self.fld, strip_targs(n.decl().q), d)

    def deg(self, n, depth=0):
        if n is None or isinstance(n, str) or depth > 60:
            return 0
        k = n.k
        if k in ('icast', 'cast', 'attr', 'init', 'stdinit', 'ctor'):
            ch = [c for c in n.ch if c is not None and c.k != 'defarg']
            return self.deg(ch[0], depth + 1) if len(ch) == 1 else 0
        if k == 'ref':
            d = n.decl()
            return self.var.get(self.key(d), 0) if d is not None and d.is_local() else 0
        if k == 'mem':
            q = strip_targs(n.decl().q)
            return 1 if q in POINTS else self.fld.get(q, 0)
        if k == 'un':
            return self.deg(n.ch[0], depth + 1) if n.a in ('-', '+', '*', '++', '--') else 0
        if k == 'cond':
            return max(self.deg(n.ch[-1], depth + 1), self.deg(n.ch[-2], depth + 1))
        if k == 'bin':
            if n.a == '*':
                return min(CAP, self.deg(n.ch[0], depth + 1) + self.deg(n.ch[1], depth + 1))
            if n.a == '/':
                return max(0, self.deg(n.ch[0], depth + 1) - self.deg(n.ch[1], depth + 1))
            if n.a in ('+', '-'):
                return max(self.deg(n.ch[0], depth + 1), self.deg(n.ch[1], depth + 1))
            if n.a == '%':
                return self.deg(n.ch[0], depth + 1)
            return 0
        if k in ('call', 'mcall', 'opcall'):
            if k == 'call' and isinstance(n.a, int) and n.a < 0 or bare(n.t) not in NUM:
                return 0
            d = n.decl()
            if d is None:
                return 0
            nm = n.cname()
            if strip_targs(d.q) == 'ClipperLib::Area':
                return 2
            if strip_targs(d.q).startswith('std::') or '::' not in d.q:
                if nm in ('sqrt', 'sqrtf'):
                    return self.deg(n.ch[0], depth + 1) // 2
                if nm in ('cbrt',):
                    return self.deg(n.ch[0], depth + 1) // 3
                if nm in ('hypot',):
                    return max(self.deg(c, depth + 1) for c in n.ch)
                if nm in ('min', 'max', 'clamp'):
                    return max([self.deg(c, depth + 1) for c in n.ch] + [0])
                if nm in SAME and n.ch:
                    return self.deg(n.ch[0], depth + 1)
                return 0
            if strip_targs(d.q) == 'cura::Settings::get':
                return 1 if bare(n.t) == 'long long' else 0
            if nm in ('square',) and n.ch:
                return min(CAP, 2 * self.deg(n.ch[0], depth + 1))
            if nm in SAME and n.ch and k == 'call':
                return self.deg(n.ch[0], depth + 1)
            best = 0
            for g in self.P.resolve(n) or ():
                g = self.P.fns.get(g) if isinstance(g, str) else g
                if g is not None:
                    best = max(best, self.ret.get(g.u, 0))
            return best
        return 0


LITERAL = ('int', 'flt', 'chr', 'bool')


def constant(n):
    while n is not None and n.k in ('icast', 'cast', 'attr', 'un') and n.ch:
        n = n.ch[0]
    return n is None or n.k in LITERAL or n.k == 'sizeof' or n.k == 'ref' and n.decl() is not None and 'X' in (n.decl().fl or '')


def squeezed(D, x):
    """how an expression loses the width its value needs; None if it does not"""
    t = bare(x.t)
    if x.k in ('icast', 'cast') and x.ch and x.ch[0] is not None:
        s = bare(x.ch[0].t)
        if (t in INT32 or t == 'float') and s in NUM and s not in INT32 and not constant(x.ch[0]):
            d = D.deg(x.ch[0])
            if d >= 2:
                return 'a product of %d lengths is stored as %s' % (d, t)
    if x.k == 'bin' and x.a == '*' and not constant(x.ch[0]) and not constant(x.ch[1]):
        d = D.deg(x)
        if t in INT32:
            if d >= 2:
                return 'the product of %d lengths is formed as %s' % (d, t)
            o = partner(x)
            if o is not None and D.deg(o) >= 2 and not (constant(x.ch[0]) or constant(x.ch[1])):
                return 'a product formed as %s meets a product of lengths' % t
        if t in INT64 and d >= 4 and bare(x.ch[0].t) in INT64 | set(INT32):
            return 'the product of %d lengths is formed as %s' % (d, t)
    return None


def partner(x):
    """what the value of an expression is compared with, added to or stored into"""
    p, n = x.p, x
    while p is not None and p.k in ('icast', 'cast', 'attr'):
        p, n = p.p, p
    if p is not None and p.k == 'bin' and p.a in ('<', '>', '<=', '>=', '==', '!=', '+', '-'):
        o = p.ch[1] if p.ch[0] is n else p.ch[0]
        return None if constant(o) else o
    if p is not None and p.k in ('asg', 'casg') and p.ch[1] is n:
        return p.ch[0]
    return None
