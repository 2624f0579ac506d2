"""Gated value numbering: the meaning of a function as value graphs over its inputs.

No path is handed to a solver and nothing is executed: statements are translated to terms, joins become decision nodes, loops
become canonical fixed-point terms, in-repo callees are substituted (bounded), anything else stays an opaque term."""
import hashlib, re, sys
import basetab
from fractions import Fraction
import terms as t
from terms import (T, Tm, Ite, TRUE, FALSE, NONE, NULL, UNDEF, VOID, ZERO, ONE, const, lift, ite, band, bor, bnot, batom, lt, eqnum,
                   eqval, padd, psub, pmul, pdiv, idiv, imod, trunc, isconst, cval, isint, has, nonnull, Undecided, MAKERS, show)
from core import strip_targs

sys.setrecursionlimit(20000)

INT_T = {'int', 'long', 'long long', 'short', 'char', 'signed char', '__int128', 'wchar_t', 'char8_t', 'char16_t', 'char32_t'}
UINT_T = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char', 'unsigned __int128'}
FLT_T = {'float', 'double', 'long double'}


def bare(ty):
    ty = ty.strip()
    while True:
        o = ty
        if ty.endswith('&'):
            ty = ty.rstrip('&').strip()
        if ty.startswith('const '):
            ty = ty[6:].strip()
        if ty.startswith('volatile '):
            ty = ty[9:].strip()
        if ty.endswith(' const'):
            ty = ty[:-6].strip()
        if ty.endswith('*const'):
            ty = ty[:-5].strip()
        if ty == o:
            return ty


def isref(ty):
    return ty.rstrip().endswith('&')


def isptr(ty):
    return bare(ty).endswith('*')


def is_const_ref(ty):
    ty = ty.strip()
    return ty.startswith('const ') or ty.endswith('const &')


def split_params(fty):
    """parameter types of a canonical function type 'R (A, B) const'"""
    # find the parameter list: last top-level (...) group
    d = 0
    end = None
    i = len(fty) - 1
    while i >= 0:
        c = fty[i]
        if c == ')' or c == '>':
            if c == ')' and d == 0:
                end = i
            d += 1
        elif c == '(' or c == '<':
            d -= 1
            if c == '(' and d == 0:
                break
        i -= 1
    if end is None:
        return []
    s = fty[i + 1:end]
    out, d, cur = [], 0, ''
    for k, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ------------------------------------------------------------------ leaf level makers
def own_field(v, f, base):
    if isinstance(v, Ite):
        if v.dec.op != 'B' or v.kids != (FALSE, TRUE):
            return False
        v = v.dec.args[0]
    return v.op == 'fld' and v.args[0] == f and v.args[1] is base


PX, PY = 'ClipperLib::IntPoint::X', 'ClipperLib::IntPoint::Y'
POINT = {PX, PY}


def mk_obj(base, fields):
    """fields: dict"""
    if base is not None and base.op == 'obj':
        d = dict(base.args[1])
        d.update(fields)
        base, fields = base.args[0], d
    if base is not None:
        fields = {f: v for f, v in fields.items() if not own_field(v, f, base)}
        if not fields:
            return base
    elif len(fields) == 2 and set(fields) == POINT:
        x = fields[PX]
        if isinstance(x, Tm) and x.op == 'fld' and own_field(fields[PY], PY, x.args[1]) and own_field(x, PX, x.args[1]):
            return x.args[1]
    return T('obj', base, tuple(sorted(fields.items(), key=lambda x: x[0] if isinstance(x[0], str) else t.shash(x[0]))))


t.OBJ.append(lambda base, fields: mk_obj(base, dict(fields)))

FIELD_SORT = {}


def get_field(v, f, sort=None):
    if sort is not None:
        FIELD_SORT.setdefault(f, sort)
    if v.op == 'obj':
        for g, x in v.args[1]:
            if g == f:
                return x
        if v.args[0] is None:
            return UNDEF
        return get_field(v.args[0], f, sort)
    if v is UNDEF:
        return UNDEF
    r = T('fld', f, v, sort=FIELD_SORT.get(f))
    if r.sort == 'b':
        return batom(r)
    return r


def mk_size(v):
    op = v.op
    if op == 'app':
        return padd(lift1(mk_size, v.args[0]), ONE)
    if op == 'list':
        return const(len(v.args))
    if op in ('rep', 'resized'):
        return v.args[1] if op == 'resized' else v.args[0]
    if op == 'upd':
        return lift1(mk_size, v.args[0])
    if op == 'str':
        return const(len(v.args[0]))
    if op == 'popped':
        return psub(lift1(mk_size, v.args[0]), ONE)
    if op == 'obj' and v.args[0] is not None:
        return mk_size(v.args[0])
    return T('size', v, sort='u')


def lift1(f, v):
    return f(v) if isinstance(v, Tm) else lift(f, v)


def mk_at(v, i, sort=None):
    op = v.op
    if op == 'upd':
        c = lift(eqval, v.args[1], i)
        return ite(c, v.args[2], lift(lambda a: mk_at(a, i, sort), v.args[0]))
    if op == 'app':
        n = lift1(mk_size, v.args[0])
        c = lift(eqnum, n, i)
        if c is FALSE:
            return lift(lambda a: mk_at(a, i, sort), v.args[0])
        return ite(c, v.args[1], lift(lambda a: mk_at(a, i, sort), v.args[0]))
    if op == 'list' and isconst(i) and 0 <= cval(i) < len(v.args):
        return v.args[int(cval(i))]
    if op == 'rep':
        return v.args[1]
    if op == 'obj' and v.args[0] is not None:
        return mk_at(v.args[0], i, sort)
    if v is UNDEF:
        return UNDEF
    r = T('at', v, i, sort=sort)
    if r.sort == 'b':
        return batom(r)
    return r


MAKERS['fld'] = lambda f, v: get_field(v, f)
MAKERS['size'] = mk_size
MAKERS['at'] = lambda v, i: lift1(lambda a: lift1(lambda b: mk_at(a, b), i), v)
MAKERS['deref'] = lambda v: mk_deref(v)
MAKERS['has'] = lambda m, k: T('has', m, k)


def mk_upd(v, i, x):
    if v.op == 'upd' and v.args[1] is i:
        v = v.args[0]
        if not isinstance(v, Tm):
            return lift(lambda a: mk_upd(a, i, x), v)
    if v.op == 'app' and isinstance(v.args[0], Tm) and mk_size(v.args[0]) is i:
        return T('app', v.args[0], x)          # the element just added is written
    if v.op == 'list' and isconst(i) and 0 <= cval(i) < len(v.args) and isinstance(x, (Tm, Ite)):
        k = int(cval(i))
        return T('list', *(v.args[:k] + (x,) + v.args[k + 1:]))
    return T('upd', v, i, x)


def mk_deref(v, sort=None):
    if v.op == 'some':
        return v.args[0]
    if v.op == 'new':
        return v.args[0]
    if v.op == 'ptrto':
        return v.args[0]
    return T('deref', v, sort=sort)


class St:
    __slots__ = ('m', 'exc')

    def __init__(self, m=None, exc=NONE):
        self.m = m if m is not None else {}
        self.exc = exc

    def copy(self):
        return St(dict(self.m), self.exc)


def merge_val(g, a, b):
    if a is b:
        return a
    if isinstance(a, Tm) and isinstance(b, Tm):
        ba = a.args[0] if a.op == 'obj' else a
        bb = b.args[0] if b.op == 'obj' else b
        if ba is bb and (a.op == 'obj' or b.op == 'obj') and (ba is not None or (a.op == 'obj' and b.op == 'obj')):
            fa = dict(a.args[1]) if a.op == 'obj' else {}
            fb = dict(b.args[1]) if b.op == 'obj' else {}
            out = {}
            for f in sorted(set(fa) | set(fb), key=str):
                x = fa[f] if f in fa else (get_field(ba, f) if ba is not None else UNDEF)
                y = fb[f] if f in fb else (get_field(bb, f) if bb is not None else UNDEF)
                out[f] = merge_val(g, x, y)
            return mk_obj(ba, out)
    return ite(g, a, b)


def default_root(r):
    """initial value of an untouched root"""
    if r.op == 'D':
        return mk_deref(r.args[0])
    if r.op == 'G':
        return T('glob', r.args[0], sort=r.sort)
    if r.op == 'L':
        return UNDEF
    return T('init', r)


def merge_st(g, a, b):
    """g ? a : b"""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    m = {}
    for r in list(a.m) + [r for r in b.m if r not in a.m]:
        x, y = a.m.get(r), b.m.get(r)
        if x is None:
            if r.op == 'L':
                m[r] = y
                continue
            x = default_root(r)
        if y is None:
            if r.op == 'L':
                m[r] = x
                continue
            y = default_root(r)
        m[r] = merge_val(g, x, y)
    return St(m, ite(g, a.exc, b.exc))


RET = T('L', '$ret')


PURE_STD = {
    'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2',
    'pow': 'pow', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'log2': 'log2', 'hypot': 'hypot', 'fmod': 'fmod', 'cbrt': 'cbrt',
}
ROUND = {'round': 'round', 'lround': 'round', 'llround': 'round', 'rint': 'rint', 'lrint': 'rint', 'llrint': 'rint',
         'nearbyint': 'rint', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc'}
NOOP_PREFIX = ('spdlog::', 'scripta::', 'std::operator<<')
IGNORED = {'__assert_fail', 'spdlog::stopwatch', 'std::basic_ostream::operator<<', 'std::basic_ostream::flush', 'std::endl'}
ITER_T = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator)')
MAY_THROW = {'std::stod', 'std::stoi', 'std::stof', 'std::stol', 'std::stoul', 'std::stoll', 'std::stoull'}


def strip_iter(q):
    return q


# calls that write or read something outside the program although they return a value
IO_CALLS = {p + n for p in ('', 'std::') for n in ('fprintf', 'printf', 'vfprintf', 'fwrite', 'fputs', 'fputc', 'putchar', 'puts', 'fread', 'fgets', 'fgetc', 'getc', 'fseek', 'fflush', 'fclose',
                                                   'fopen', 'remove', 'rename', 'fscanf', 'ungetc')}


# calls at which other threads see what was written, and after which they may have written
LOCK_CALLS = {'std::unique_lock::lock', 'std::unique_lock::unlock', 'std::mutex::lock', 'std::mutex::unlock', 'std::condition_variable::wait'}


def pending(exc):
    """is an exception pending"""
    def f(x):
        if x is NONE:
            return FALSE
        if x.op == 'cases':
            return t.mk_cases(lift(f, x.args[0]))
        return TRUE
    return lift(f, exc)


class VG:
    MAXDEPTH = 8

    def __init__(self, P, opaque=(), budget=150000):
        self.P = P
        self.opaque = set(opaque)          # usrs (or template-free qualified names) never substituted
        self.budget = budget
        self.frame = 0
        self.level = 0
        self.signed = False
        self.refside = False          # evaluating a reference: constants and defaults mean what ref/base.json says
        self.stack = []
        self.intry = 0
        self.unknown = []
        self.closures = {}
        self.over = None
        self.rtype = {}
        self.inlined = set()
        self.calls = 0
        self.enumtypes = set(P.enums)

    # ---------------------------------------------------------------- types
    def sort(self, ty):
        ty = bare(ty)
        if ty == 'bool':
            return 'b'
        if ty in FLT_T:
            return 'f'
        if ty in UINT_T:
            return 'u'
        if ty in INT_T:
            return 'i'
        if ty in self.enumtypes or strip_targs(ty) in self.enumtypes:
            return 'i'
        if ty == '(unnamed enum)' or ty.startswith('enum '):
            return 'i'
        if ty in ('std::_Bit_reference', 'std::_Bit_const_reference'):
            return 'b'
        return None

    def atom(self, op, *args, ty=''):
        s = self.sort(ty)
        x = T(op, *args, sort=s)
        if s == 'b':
            return batom(x)
        return x

    def unk(self, n, why):
        s = '%s:%d %s' % (n.fn.q if n is not None else '?', n.l if n is not None else 0, why)
        self.unknown.append(s)
        return T('unk', s)

    # ---------------------------------------------------------------- memory
    def load_root(self, r, st):
        v = st.m.get(r)
        if v is None:
            v = default_root(r)
        return v

    def rd(self, addr, st, sort=None):
        """read an address value (MTBDD of addr leaves)"""
        def f(a):
            if a.op != 'addr':
                # opaque pointer
                a = self.toaddr(a)
            v = self.load_root(a.args[0], st)
            path = a.args[1]
            for k, step in enumerate(path):
                s = sort if k == len(path) - 1 else None
                v = self.rdstep(v, step, s)
            if sort and isinstance(v, Tm) and v.sort is None and v.op in ('deref', 'param', 'glob', 'ptrto', 'unk', 'call', 'fld', 'at'):
                v.sort = sort
                if sort == 'b':
                    return batom(v)
            elif sort == 'b' and isinstance(v, Tm) and v not in (TRUE, FALSE, UNDEF):
                if v.sort == 'b':
                    return batom(v)
            return v
        return lift(f, addr)

    def rdstep(self, v, step, sort):
        if step[0] == '.':
            return lift(lambda x: get_field(x, step[1], sort), v)
        if step[0] == '[':
            return lift(lambda x, i: mk_at(x, i, sort), v, step[1])
        if step[0] == '*':
            return lift(lambda x: mk_deref(x, sort), v)
        if step[0] == 'entry':
            return lift(lambda x: mk_obj(None, {'first': step[1], 'second': mk_at(x, step[1], sort)}), v)
        raise Undecided('step')

    def wr(self, addr, val, st):
        if isinstance(addr, Ite):
            for leaf, g in self.leafguards(addr):
                self.wr1(leaf, val, st, g)
        else:
            self.wr1(addr, val, st, TRUE)

    def leafguards(self, v):
        out = {}
        for l in t.leaves(v):
            out[l] = lift(lambda x: TRUE if x is l else FALSE, v)
        return list(out.items())

    def wr1(self, a, val, st, g):
        if a.op != 'addr':
            a = self.toaddr(a)
        r, path = a.args
        old = self.load_root(r, st)
        new = self.wrpath(old, path, val)
        st.m[r] = merge_val(g, new, old)

    def wrpath(self, v, path, val):
        if not path:
            return val
        step = path[0]
        if step[0] == 'entry' and len(path) > 1 and path[1] == ('.', 'second'):
            return self.wrpath(v, (('[', step[1]),) + path[2:], val)
        if len(path) > 1:
            val = self.wrpath(self.rdstep(v, step, None), path[1:], val)
        if step[0] == '.':
            return lift(lambda x: mk_obj(None if x is UNDEF else x, {step[1]: val}), v)
        if step[0] == '[':
            return lift(lambda x, i: mk_upd(x, i, val), v, step[1])
        if step[0] == '*':
            return lift(lambda x: T('some', val), v)
        raise Undecided('step')

    def toaddr(self, p):
        """address denoted by a pointer value (leaf)"""
        if p is None:
            raise Undecided('pointer value outside the fragment')
        if p.op == 'addr':
            return p
        return T('addr', T('D', p), ())

    def sub(self, addr, step):
        def f(a):
            a = self.toaddr(a)
            return T('addr', a.args[0], a.args[1] + (step,))
        return lift(f, addr)

    def subi(self, addr, idx):
        def f(a, i):
            a = self.toaddr(a)
            return T('addr', a.args[0], a.args[1] + (('[', i),))
        return lift(f, addr, idx)

    def fresh(self, what='t', ty=''):
        self.frame += 1
        r = T('L', '%s%d' % (what, self.frame))
        if ty:
            self.rtype[r] = ty
        return r

    # ---------------------------------------------------------------- environment
    def droot(self, d, env):
        """address of the object a declaration denotes"""
        k = (d.fn.u, d.i)
        b = env.get(k)
        if b is not None:
            return b
        if d.k == 'ParmVar' or (d.is_local()):
            r = T('L', '%s#%d@%s' % (d.n, d.i, env['$frame']))
            self.rtype[r] = d.t
            a = T('addr', r, ())
            env[k] = a
            return a
        r = T('G', d.q, sort=self.sort(d.t))
        self.rtype[r] = d.t
        return T('addr', r, ())

    def global_const(self, d, n=None):
        """value of a constant global with a known initialiser, or None"""
        if n is not None and self.refside and n.fn is not None and n.fn.f.startswith('@ref'):
            v = basetab.get('const ' + d.q)
            if v is not None:
                return v
            v = self.global_const(d)
            if v is not None:
                basetab.record('const ' + d.q, v)
            return v
        t0 = d.t
        if not (t0.startswith('const ') or 'X' in d.fl):
            return None
        g = None
        for x in self.P.gvs.values() if isinstance(self.P.gvs, dict) else self.P.gvs:
            if x['q'] == d.q:
                g = x
                break
        if g is None or g.get('b') is None:
            return None
        key = ('gc', d.q)
        if key in self.closures:
            return self.closures[key]
        self.closures[key] = None
        from core import Fn
        f = Fn(self.P, {'u': 'gv:' + d.q, 'q': d.q, 'n': d.n, 'f': d.f, 'l': d.l, 'le': d.l, 'fl': '', 'cls': '', 'dep': 0, 'D': g['D'], 'T': g['T'],
                        'in': [], 'b': g['b'], 'p': [], 'cfg': None, 'lc': []})
        env = {'$frame': 0, '$this': None}
        v = self.ev(f.body, St(), env)
        if v is not None and any(isinstance(x, Tm) and x.op == 'unk' for x in t.subterms(v)):
            v = None
        self.closures[key] = v
        return v

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st, env):
        """rvalue"""
        if self.over and n is self.over[0]:
            return self.rd(self.over[1], st, self.sort(n.t))
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            return self.unk(n, 'expression kind ' + n.k)
        v = m(n, st, env)
        if self.sort(n.t) == 'b' and isinstance(v, Tm) and v not in (TRUE, FALSE, UNDEF) and v.op != 'addr':
            v = batom(v) if v.sort in (None, 'b') else bnot(eqnum(v, ZERO))
        return v

    def lv(self, n, st, env):
        """address of a glvalue (temporaries are materialised)"""
        if self.over and n is self.over[0]:
            return self.over[1]
        m = getattr(self, 'l_' + n.k, None)
        if m is not None:
            a = m(n, st, env)
            if a is not None:
                return a
        v = self.ev(n, st, env)
        return self.mat(v, st, n.t)

    def mat(self, v, st, ty=''):
        r = self.fresh('tmp', ty)
        st.m[r] = v
        return T('addr', r, ())

    def ptr(self, n, st, env):
        """address denoted by an expression of (smart) pointer type"""
        return lift(lambda p: self.toaddr(p), self.ev(n, st, env))

    def e_ref(self, n, st, env):
        d = n.decl()
        if d.k == 'EnumConstant':
            m = re.search(r'=(-?\d+)', d.fl)
            if m:
                return const(int(m.group(1)))
        if d.k in ('Function', 'CXXMethod'):
            return T('fn', d.q + ('<%s>' % d.ta if d.ta else ''))
        if not d.is_local() and d.k == 'Var' and (d.fn.u, d.i) not in env:
            v = self.global_const(d, n)
            if v is not None:
                return v
        if d.n == 'nullopt' and d.q.startswith('std::'):
            return NULL
        return self.rd(self.l_ref(n, st, env), st, self.sort(n.t))

    def l_ref(self, n, st, env):
        d = n.decl()
        if d.k in ('Function', 'CXXMethod', 'EnumConstant', 'NonTypeTemplateParm'):
            return None
        return self.droot(d, env)

    def e_this(self, n, st, env):
        return env['$this']

    def e_mem(self, n, st, env):
        d = n.decl()
        if d.k == 'EnumConstant':
            return self.e_ref(n, st, env)
        if d.k != 'Field':
            if d.k == 'Var':
                v = self.global_const(d, n)
                if v is not None:
                    return v
                return self.rd(T('addr', T('G', d.q, sort=self.sort(d.t)), ()), st, self.sort(n.t))
            return T('fn', d.q)
        b = n.ch[0]
        if not n.x and b is not None and not hasattr(self, 'l_' + b.k):
            v = self.ev(b, st, env)
            s = self.sort(n.t)
            return lift(lambda x: get_field(x, fname(d), s), v)
        a = self.l_mem(n, st, env)
        if a is None:
            return self.unk(n, 'member')
        return self.rd(a, st, self.sort(n.t))

    def l_mem(self, n, st, env):
        d = n.decl()
        if d.k != 'Field':
            if d.k == 'Var':
                return T('addr', T('G', d.q, sort=self.sort(d.t)), ())
            return None
        b = n.ch[0]
        if n.x:
            a = self.ptr(b, st, env)
        else:
            a = self.lv(b, st, env)
        r = self.sub(a, ('.', fname(d)))
        if isref(d.t):
            # reference member: the address it is bound to
            v = self.rd(r, st)
            return lift(lambda p: p if p.op == 'addr' else T('addr', T('D', T('refto', p)), ()) if False else self.refaddr(p), v)
        return r

    def refaddr(self, p):
        return T('addr', T('D', T('ptrto', p)), ())

    def e_int(self, n, st, env):
        if isptr(n.t):
            return NULL
        return const(int(n.a))

    def e_flt(self, n, st, env):
        f = float(n.a)
        if f in (float('inf'), float('-inf')):
            return T('inf', n.a, sort='f')
        return const(Fraction(repr(f)) if 'e' not in repr(f) else Fraction(f).limit_denominator(10 ** 18) if abs(f) < 1e-6 else Fraction(f))

    def e_chr(self, n, st, env):
        return const(n.a)

    def e_str(self, n, st, env):
        return T('str', n.a)

    def e_bool(self, n, st, env):
        return TRUE if n.a else FALSE

    def e_null(self, n, st, env):
        return NULL

    def e_sizeof(self, n, st, env):
        return const(int(n.a)) if n.a.lstrip('-').isdigit() else self.unk(n, 'sizeof')

    def e_defarg(self, n, st, env):
        if n.ch[0] is None:
            return self.unk(n, 'default argument')
        if not (self.refside and n.fn is not None and n.fn.f.startswith('@ref') and isinstance(n.a, str) and n.a.startswith('cura::')):
            return self.ev(n.ch[0], st, env)
        v = basetab.get('arg ' + n.a)
        if v is None:
            v = self.ev(n.ch[0], st, env)
            basetab.record('arg ' + n.a, v)
        return v

    def e_attr(self, n, st, env):
        return self.ev(n.ch[0], st, env) if n.ch[0] is not None else self.unk(n, 'default argument')

    e_definit = e_attr

    def num(self, v, n):
        """coerce booleans to numbers"""
        return lift(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, v)

    def tobool(self, v):
        def f(x):
            if x in (TRUE, FALSE):
                return x
            if x.op == 'poly' or x.sort in ('i', 'u', 'f'):
                return bnot(eqnum(x, ZERO))
            if x.sort == 'b':
                return batom(x)
            return nonnull(x)
        return lift(f, v)

    def e_un(self, n, st, env):
        op = n.a
        c = n.ch[0]
        if op == '!':
            return bnot(self.tobool(self.ev(c, st, env)))
        if op == '-':
            return lift(lambda x: t.pscale(x, Fraction(-1)), self.num(self.ev(c, st, env), n))
        if op == '+':
            return self.ev(c, st, env)
        if op == '&':
            if c.k == 'ref' and c.decl().k in ('CXXMethod', 'Function', 'Field'):
                return T('fn', c.decl().q)
            return self.lv(c, st, env)
        if op == '*':
            return self.rd(self.l_un(n, st, env), st, self.sort(n.t))
        if op in ('++', '--', 'p++', 'p--'):
            a = self.lv(c, st, env)
            old = self.rd(a, st, self.sort(c.t))
            k = const(1 if '+' in op else -1)
            new = lift(lambda x: self.addnum(x, k), old)
            self.wr(a, new, st)
            return old if op[0] == 'p' else new
        if op == '~':
            return lift(lambda x: T('bnot', x, sort='i'), self.ev(c, st, env))
        if op in ('__extension__', '__real'):
            return self.ev(c, st, env)
        return self.unk(n, 'unary ' + op)

    def addnum(self, x, k):
        if x.op == 'iter':
            return T('iter', x.args[0], lift(padd, x.args[1], k))
        return padd(x, k)

    def l_un(self, n, st, env):
        if n.a == '*':
            return self.ptr(n.ch[0], st, env)
        if n.a in ('++', '--'):
            self.e_un(n, st, env)
            return self.lv_noeffect(n.ch[0], st, env)
        return None

    def lv_noeffect(self, n, st, env):
        return self.lv(n, st.copy(), env)

    def arith(self, op, a, b, ty, ta, tb, n):
        isf = bare(ty) in FLT_T

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return T('undefop', op, x, y)
            if op == '+':
                if x.op == 'iter':
                    return T('iter', x.args[0], lift(padd, x.args[1], y))
                return padd(x, y)
            if op == '-':
                if x.op == 'iter' and y.op == 'iter' and x.args[0] is y.args[0]:
                    return lift(psub, x.args[1], y.args[1])
                if x.op == 'iter':
                    return T('iter', x.args[0], lift(psub, x.args[1], y))
                return psub(x, y)
            if op == '*':
                return pmul(x, y)
            if op == '/':
                return pdiv(x, y) if isf else idiv(x, y)
            if op == '%':
                return imod(x, y)
            if isconst(x) and isconst(y) and op in ('&', '|', '^', '<<', '>>'):
                i, j = int(cval(x)), int(cval(y))
                if not (op in ('<<', '>>') and (j < 0 or j > 64)):
                    return const({'&': i & j, '|': i | j, '^': i ^ j, '<<': i << j if op == '<<' else 0, '>>': i >> j if op == '>>' else 0}[op])
            if op == '<<' and isconst(y) and 0 <= cval(y) < 40:
                return t.pscale(x, Fraction(2 ** int(cval(y))))
            if op in ('&', '|', '^') and x.uid > y.uid:
                x, y = y, x
            return T('bits' + op, x, y, sort='i')
        return lift(f, a, b)

    def e_bin(self, n, st, env):
        op = n.a
        if op in ('&&', '||'):
            a = self.tobool(self.ev(n.ch[0], st, env))
            if a is (FALSE if op == '&&' else TRUE):
                return a
            s2 = st.copy()
            b = self.tobool(self.ev(n.ch[1], s2, env))
            g = a if op == '&&' else bnot(a)
            m = merge_st(g, s2, st) if self.differs(s2, st) else st
            st.m, st.exc = m.m, m.exc
            return band(a, b) if op == '&&' else bor(a, b)
        if op == ',':
            self.ev(n.ch[0], st, env)
            return self.ev(n.ch[1], st, env)
        a = self.ev(n.ch[0], st, env)
        b = self.ev(n.ch[1], st, env)
        return self.binop(op, a, b, n.t, n.ch[0].t, n.ch[1].t, n)

    def differs(self, a, b):
        return a.exc is not b.exc or any(a.m.get(r) is not v for r, v in b.m.items()) or len(a.m) != len(b.m)

    def binop(self, op, a, b, ty, ta, tb, n):
        if op in ('<', '>', '<=', '>='):
            a, b = self.num(a, n), self.num(b, n)

            def f(x, y):
                if x.op == 'iter' and y.op == 'iter':
                    x, y = x.args[1], y.args[1]
                if not isinstance(x, Tm) or not isinstance(y, Tm):
                    return lift(f, x, y)
                if x.op == 'str' or y.op == 'str':
                    return batom(T('strlt', *((x, y) if op in '<>=' else (x, y))))
                if op == '<':
                    return lt(x, y)
                if op == '>':
                    return lt(y, x)
                if op == '<=':
                    return bnot(lt(y, x))
                return bnot(lt(x, y))
            return lift(f, a, b)
        if op in ('==', '!='):
            e = self.equal(a, b)
            return e if op == '==' else bnot(e)
        if op in ('|', '&', '^') and bare(ta) == 'bool' and bare(tb) == 'bool':
            if op == '|':
                return bor(a, b)
            if op == '&':
                return band(a, b)
            return bnot(self.equal(a, b))
        if op == '<=>':
            return lift(lambda x, y: T('cmp3', x, y), a, b)
        if op in ('.*', '->*'):
            return self.unk(n, op)
        return self.arith(op, self.num(a, n), self.num(b, n), ty, ta, tb, n)

    def equal(self, a, b):
        def f(x, y):
            if x in (TRUE, FALSE) and y not in (TRUE, FALSE):
                x = ONE if x is TRUE else ZERO
            if y in (TRUE, FALSE) and x not in (TRUE, FALSE):
                y = ONE if y is TRUE else ZERO
            if x.op == 'obj' and y.op == 'obj' and x.args[0] is None and y.args[0] is None:
                r = TRUE
                dy = dict(y.args[1])
                for k, v in x.args[1]:
                    r = band(r, self.equal(v, dy.get(k, UNDEF)))
                return r
            if x.op == 'iter' and y.op == 'iter' and x.args[0] is y.args[0]:
                return lift(eqnum, x.args[1], y.args[1])
            if x.op == 'some' and y.op == 'some':
                return self.equal(x.args[0], y.args[0])
            return eqval(x, y)
        return lift(f, a, b)

    def e_asg(self, n, st, env):
        v = self.ev(n.ch[1], st, env)
        a = self.lv(n.ch[0], st, env)
        v = self.conv(v, n.ch[1].t, n.ch[0].t)
        self.wr(a, v, st)
        return v

    def l_asg(self, n, st, env):
        self.e_asg(n, st, env)
        return self.lv_noeffect(n.ch[0], st, env)

    def conv(self, v, tfrom, tto):
        """conversion of arithmetic values"""
        f, to = self.sort(tfrom), self.sort(tto)
        if to in ('i', 'u') and f == 'f':
            return lift(trunc, v)
        if to == 'b' and f != 'b':
            return self.tobool(v)
        if f == 'b' and to in ('i', 'u', 'f'):
            return self.num(v, None)
        return v

    def e_casg(self, n, st, env):
        op = n.a[:-1]
        v = self.ev(n.ch[1], st, env)
        a = self.lv(n.ch[0], st, env)
        old = self.rd(a, st, self.sort(n.ch[0].t))
        tl, tr = bare(n.ch[0].t), bare(n.ch[1].t)
        ty = 'double' if tl in FLT_T or tr in FLT_T else tl
        new = self.binop(op, old, v, ty, tl, tr, n)
        if ty == 'double' and tl not in FLT_T:
            new = lift(trunc, new)
        if tl == 'bool':
            new = self.tobool(new)
        self.wr(a, new, st)
        return new

    def l_casg(self, n, st, env):
        self.e_casg(n, st, env)
        return self.lv_noeffect(n.ch[0], st, env)

    def e_cond(self, n, st, env):
        c = self.tobool(self.ev(n.ch[0], st, env))
        if c is TRUE:
            return self.ev(n.ch[1], st, env)
        if c is FALSE:
            return self.ev(n.ch[2], st, env)
        s1, s2 = st.copy(), st.copy()
        a = self.ev(n.ch[1], s1, env)
        b = self.ev(n.ch[2], s2, env)
        m = merge_st(c, s1, s2)
        st.m, st.exc = m.m, m.exc
        return merge_val(c, a, b)

    def l_cond(self, n, st, env):
        c = self.tobool(self.ev(n.ch[0], st, env))
        s1, s2 = st.copy(), st.copy()
        a = self.lv(n.ch[1], s1, env)
        b = self.lv(n.ch[2], s2, env)
        m = merge_st(c, s1, s2)
        st.m, st.exc = m.m, m.exc
        return ite(c, a, b)

    def e_icast(self, n, st, env):
        ck = n.a
        v = self.ev(n.ch[0], st, env)
        if ck == 'PointerToBoolean':
            return self.tobool(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return self.tobool(v)
        if ck == 'FloatingToIntegral':
            return lift(trunc, v)
        if ck in ('IntegralCast', 'IntegralToFloating'):
            return self.num(v, n)
        return v

    def e_cast(self, n, st, env):
        ck = n.a
        if ck in ('FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'IntegralCast', 'IntegralToFloating'):
            return self.e_icast(n, st, env)
        if ck == 'ToVoid':
            self.ev(n.ch[0], st, env)
            return VOID
        if ck == 'Dynamic':
            return lift(lambda x: T('dyncast', n.t, x), self.ev(n.ch[0], st, env))
        if ck == 'BitCast' and False:
            return None
        return self.ev(n.ch[0], st, env)

    def l_cast(self, n, st, env):
        if n.a in ('NoOp', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'LValueBitCast') and hasattr(self, 'l_' + n.ch[0].k):
            return self.lv(n.ch[0], st, env)
        return None

    l_icast = None

    def e_sub(self, n, st, env):
        return self.rd(self.l_sub(n, st, env), st, self.sort(n.t))

    def l_sub(self, n, st, env):
        b = n.ch[0]
        i = self.ev(n.ch[1], st, env)
        if isptr(b.t) and '[' not in b.t:
            a = self.ptr(b, st, env)
        else:
            a = self.lv(b, st, env)
        return self.subi(a, self.num(i, n))

    def e_x(self, n, st, env):
        if n.a == 'CXXScalarValueInitExpr' or n.a == 'ImplicitValueInitExpr':
            return self.zero(n.t)
        if n.a in ('CXXFoldExpr',):
            return self.unk(n, n.a)
        if n.a == 'CXXNoexceptExpr':
            return TRUE
        return self.unk(n, n.a)

    def zero(self, ty):
        s = self.sort(ty)
        if s == 'b':
            return FALSE
        if s:
            return ZERO
        if isptr(ty):
            return NULL
        r = self.record(ty)
        if r is not None:
            return self.default_obj(r, ty)
        return T('make', strip_targs(bare(ty)))

    # ---- aggregates
    def record(self, ty):
        b = bare(ty)
        q = strip_targs(b)
        l = self.P.rec_by_q.get(q)
        if not l:
            return None
        if len(l) > 1:
            for r in l:
                if r['q'] == b:
                    return r
        return l[0]

    def default_obj(self, r, ty):
        fields = {}
        self.add_default_fields(r, fields)
        return mk_obj(None, fields)

    def add_default_fields(self, r, fields, skip=()):
        for b in r.get('bases', []):
            bq = b[0] if isinstance(b, (list, tuple)) else b
            br = self.record(bq)
            if br is not None:
                self.add_default_fields(br, fields)
        for fl in r['fields']:
            name = r['q'] + '::' + fl[0]
            f = strip_targs(name)
            if f in fields:
                continue
            if fl[3] is not None:
                fields[f] = self.default_init(r, fl)
            else:
                fields[f] = self.undef_of(fl[1])

    def undef_of(self, ty):
        if self.sort(ty) or isptr(ty):
            return UNDEF
        b = bare(ty)
        if strip_targs(b) in ('std::optional', 'std::shared_ptr', 'std::unique_ptr', 'std::function'):
            return NULL
        r = self.record(ty)
        if r is not None:
            return self.call_default_ctor(r, ty)
        if strip_targs(b) in ('std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
            return T('str', '') if 'basic_string' in b else T('list')
        if strip_targs(b) in ('std::pair',) or b.endswith(']') or strip_targs(b) == 'std::array':
            return UNDEF
        return T('make', strip_targs(b))

    def call_default_ctor(self, r, ty):
        fields = {}
        # a user provided default constructor?
        for f in self.P.methods(strip_targs(r['q'])):
            if f.n == strip_targs(r['q']).split('::')[-1] and not f.params and f.r['k'] != 'dtor' and not f.dep and 'd' not in f.fl:
                st = St()
                a = self.mat(UNDEF, st)
                self.run_ctor(f, a, [], st, None)
                return self.rd(a, st)
        self.add_default_fields(r, fields)
        return mk_obj(None, fields)

    def default_init(self, r, fl):
        key = ('di', r['q'], fl[0])
        if key in self.closures:
            return self.closures[key]
        if self.refside:
            v = basetab.get('member ' + r['q'] + '::' + fl[0])
            if v is not None:
                self.closures[key] = v
                return v
        from core import Fn
        f = Fn(self.P, {'u': 'di:' + r['q'] + fl[0], 'q': r['q'], 'n': fl[0], 'f': r.get('f', ''), 'l': fl[4], 'le': fl[4], 'fl': '', 'cls': r['q'], 'dep': 0,
                        'D': r['D'], 'T': r['T'], 'in': [], 'b': fl[3], 'p': [], 'cfg': None, 'lc': []})
        st = St()
        v = self.ev(f.body, st, {'$frame': 0, '$this': T('this')})
        v = self.conv(v, f.body.t, fl[1])
        self.closures[key] = v
        if self.refside:
            basetab.record('member ' + r['q'] + '::' + fl[0], v)
        return v

    def e_init(self, n, st, env):
        ty = bare(n.t)
        q = strip_targs(ty)
        r = self.record(ty)
        if q == 'std::array' or ty.endswith(']') or q == 'std::initializer_list':
            ch = n.ch
            if q == 'std::array' and len(ch) == 1 and ch[0].k == 'init':
                ch = ch[0].ch
            return T('list', *[self.ev(c, st, env) for c in ch])
        if r is not None:
            fields = {}
            fls = []
            vals = [self.evconv(c, st, env) for c in n.ch]
            bases = [self.record(b[0] if isinstance(b, (list, tuple)) else b) for b in r.get('bases', [])]
            k = 0
            base = None
            for b in bases:
                if k < len(vals):
                    base = vals[k]
                    k += 1
            fls = r['fields']
            for fl in fls:
                f = strip_targs(r['q'] + '::' + fl[0])
                if k < len(vals):
                    fields[f] = self.conv(vals[k], n.ch[k].t, fl[1])
                    k += 1
            if base is not None:
                return lift(lambda b: mk_obj(b, fields), base)
            return mk_obj(None, fields)
        if not n.ch:
            return self.zero(n.t)
        if len(n.ch) == 1:
            return self.ev(n.ch[0], st, env)
        return T('make', q, *[self.ev(c, st, env) for c in n.ch])

    def evconv(self, c, st, env):
        if c is None:
            return UNDEF
        return self.ev(c, st, env)

    def e_stdinit(self, n, st, env):
        c = n.ch[0]
        return T('list', *[self.ev(x, st, env) for x in c.ch]) if c.k == 'init' else self.ev(c, st, env)

    def e_throw(self, n, st, env):
        v = self.ev(n.ch[0], st, env) if n.ch[0] is not None else T('rethrow')
        ty = bare(n.ch[0].t) if n.ch[0] is not None else ''
        self.throw(st, T('exc', strip_targs(ty)), TRUE)
        return VOID

    def throw(self, st, e, g):
        st.exc = ite(band(g, bnot(pending(st.exc))), e, st.exc)

    def e_new(self, n, st, env):
        v = self.ev(n.ch[0], st, env) if n.ch[0] is not None else UNDEF
        if n.a:
            return lift(lambda s: T('newarr', s), self.ev(n.ch[1], st, env))
        return lift(lambda x: T('new', x), v)

    def e_delete(self, n, st, env):
        self.ev(n.ch[0], st, env)
        return VOID

    # ---- lambdas
    def e_lambda(self, n, st, env):
        caps = {}
        env2 = dict(env)
        capinfo = n.a[0]
        for (d, byref), ini in zip(capinfo, n.ch):
            if d < 0:
                continue
            dd = n.fn.D(d)
            if 'I' in dd.fl or not byref:
                if ini is not None:
                    v = self.ev(ini, st, env)
                    r = self.fresh('cap', dd.t)
                    st.m[r] = v
                    if 'I' in dd.fl and isref(dd.t):
                        env2[(dd.fn.u, dd.i)] = self.lv(ini, st, env)
                    else:
                        env2[(dd.fn.u, dd.i)] = T('addr', r, ())
        self.frame += 1
        key = self.frame
        self.closures[key] = (n, env2)
        return T('clos', key)

    def canon(self, v, st):
        """value fit to appear inside an opaque term: closures and local addresses are replaced by their meaning"""
        def f(x):
            if x.op == 'clos':
                return self.lamterm(x, st)
            if x.op == 'addr' and x.args[0].op == 'L':
                return lift(lambda z: T('valof', z) if z.op != 'clos' else self.lamterm(z, st), self.rd(x, st))
            if x.op == 'iter' and x.args[0].op == 'addr':
                return lift(lambda z: T('iterv', z, x.args[1]), self.rd(x.args[0], st))
            if x.op == 'endit':
                return lift(lambda z: T('enditv', z), self.rd(x.args[0], st))
            if x.op == 'find':
                return T('findv', x.args[1], x.args[2])
            if x.op == 'obj':
                return mk_obj(None if x.args[0] is None else x.args[0], {k: self.canon(y, st) for k, y in x.args[1]})
            return x
        return lift(f, v)

    def lamterm(self, clos, st):
        n, env = self.closures[clos.args[0]]
        self.level += 1
        lvl = self.level
        try:
            s2 = st.copy()
            s2.exc = NONE
            args = []
            for i, pi in enumerate(n.a[1]):
                p = n.fn.D(pi)
                v = self.atom('lparam', lvl, i, ty=p.t) if not isptr(p.t) else T('lparam', lvl, i)
                if p.t.endswith('&') and not p.t.endswith('&&') and not p.t.startswith('const '):
                    # what it does to its argument is part of what it does
                    r = self.fresh('larg', p.t)
                    s2.m[r] = v
                    args.append(('a', T('addr', r, ())))
                else:
                    args.append(('v', v))
            before = dict(s2.m)
            ret, s3 = self.run_lambda(n, env, args, s2)
            eff = []
            for r, v in s3.m.items():
                o = before.get(r)
                if r.op == 'L' and (o is None or r is RET):
                    continue
                if o is None:
                    o = default_root(r)
                if v is not o:
                    # side effect on the outer state: expressed relative to the outer value
                    eff.append(T('eff', r if r.op != 'L' else T('Lv', o), v))
            return T('lam', lvl, len(args), ret if ret is not None else VOID, tuple(sorted(eff, key=t.shash)))
        finally:
            self.level -= 1

    def run_lambda(self, n, env, args, st):
        """args: ('v', value) | ('a', address)"""
        e2 = dict(env)
        self.frame += 1
        e2['$frame'] = '%s.%d' % (env['$frame'], self.frame)
        # parameters
        for pi, (k, a) in zip(n.a[1], args):
            p = n.fn.D(pi)
            self.bindparam(p, k, a, st, e2)
        # locals of the lambda get their own frame: forget bindings of decls inside the body lazily
        return self.run_body(n.x, st, e2, n.fn)

    def bindparam(self, p, k, a, st, e2):
        if k == 'a' and (isref(p.t)):
            e2[(p.fn.u, p.i)] = a
        else:
            v = a if k == 'v' else self.rd(a, st, self.sort(p.t))
            r = T('L', '%s#%d@%s' % (p.n, p.i, e2['$frame']))
            self.rtype[r] = p.t
            st.m[r] = v
            e2[(p.fn.u, p.i)] = T('addr', r, ())

    def run_body(self, body, st, env, fn):
        """execute a function body; returns (value, state)"""
        out = self.ex(body, st, env)
        res = None
        for kind in ('ret', 'fall', 'brk', 'cont'):
            if kind in out:
                g, s = out[kind]
                if res is None:
                    res = (g, s)
                else:
                    res = (bor(res[0], g), merge_st(res[0], res[1], s))
        if 'exc' in out:
            g, s = out['exc']
            if res is None:
                res = (g, s)
            else:
                e = s.exc
                s2 = merge_st(g, s, res[1])
                s2.exc = ite(g, e, res[1].exc)
                res = (TRUE, s2)
        s = res[1]
        v = s.m.pop(RET, VOID)
        return v, s

    # ---- calls
    def argpairs(self, nodes, ptypes, st, env):
        """('a', addr, node) for reference parameters, ('v', value, node) otherwise"""
        out = []
        for i, a in enumerate(nodes):
            pt = ptypes[i] if i < len(ptypes) else None
            if pt is None:
                byref = hasattr(self, 'l_' + a.k)
            else:
                byref = isref(pt)
            if byref:
                # prvalues of references: materialise
                out.append(('a', self.lv(a, st, env), a))
            else:
                v = self.ev(a, st, env)
                out.append(('v', self.conv(v, a.t, pt) if pt else v, a))
        return out

    def val(self, p, st):
        k, a, n = p
        return a if k == 'v' else self.rd(a, st, self.sort(n.t))

    def can_inline(self, f):
        if f.u in self.opaque or f.sq in self.opaque or f.dep or f.body is None:
            return False
        if len(self.stack) >= self.MAXDEPTH:
            return False
        if f.u in self.stack:
            return False
        return True

    def e_call(self, n, st, env):
        r = self.call(n, st, env, want='v')
        return r

    def l_call(self, n, st, env):
        return self.call(n, st, env, want='a')

    e_mcall = e_call
    l_mcall = l_call
    e_opcall = e_call
    l_opcall = l_call

    def res(self, v, st, n, want):
        """result of an expression whose value is v; want an address -> materialise"""
        if want == 'v':
            return v
        return self.mat(v, st, n.t)

    def addr_res(self, a, st, n, want):
        if want == 'a':
            return a
        return self.rd(a, st, self.sort(n.t))

    def call(self, n, st, env, want):
        self.calls += 1
        d = n.callee()
        if d is None:
            # call through an expression value
            fv = self.ev(n.ch[0], st, env)
            args = self.argpairs(n.ch[1:], [], st, env)
            return self.callvalue(fv, args, st, n, want)
        q = strip_targs(d.q)
        if q in ('cura::utils::hash_enum', 'cura::utils::hash_djb2a') and self.stack and n.args():
            v = self.ev(n.args()[0], st, env)

            def hs(x):
                if x.op == 'str':
                    return const(t.text_hash(x.args[0]) if q.endswith('enum') else t.djb2a(x.args[0]))
                return T('strhash', x, sort='u')
            return self.res(lift(hs, v), st, n, want)
        import stdmodel
        r = stdmodel.call(self, n, d, q, st, env, want)
        if r is not None:
            return r
        ptypes = split_params(d.t)
        objaddr = None
        nodes = n.args()
        ismeth = d.k in ('CXXMethod', 'CXXConversion') or (d.k == 'CXXMethod')
        if n.k == 'mcall':
            o = n.obj()
            objaddr = self.ptr(o, st, env) if n.a[1] or isptr(o.t) else self.lv(o, st, env)
        elif n.k == 'opcall' and d.k == 'CXXMethod' and 's' not in d.fl:
            objaddr = self.lv(n.ch[0], st, env)
            nodes = n.ch[1:]
        # a call operator of a lambda / functor
        if n.k == 'opcall' and n.a[1] == '()' and d.k == 'CXXMethod':
            fv = self.rd(objaddr, st)
            if any(x.op == 'clos' for x in t.leaves(fv)):
                args = self.argpairs(nodes, ptypes, st, env)
                return self.callvalue(fv, args, st, n, want)
        args = self.argpairs(nodes, ptypes, st, env)
        # defaulted three-way comparison of a class around one number
        if n.k == 'opcall' and n.a[1] == '<=>' and objaddr is not None and 'd' in d.fl:
            rec = self.record(bare(n.ch[0].t))
            if rec is not None and len(rec['fields']) == 1 and not rec.get('bases') and self.sort(rec['fields'][0][1]) in ('i', 'u', 'r') and strip_targs(bare(n.ch[1].t)) == strip_targs(bare(n.ch[0].t)):
                f = ('.', strip_targs(rec['q'] + '::' + rec['fields'][0][0]))
                so = self.sort(rec['fields'][0][1])
                u = self.rd(self.sub(objaddr, f), st, so)
                v = self.rd(self.sub(self.lv(n.ch[1], st, env), f), st, so)
                return lift(lambda x, y: T('cmp3', x, y), u, v)
        # defaulted assignment
        if n.k == 'opcall' and n.a[1] == '=' and objaddr is not None:
            f = self.P.fns.get(d.u) or self.P.fns.get('ref:' + d.u)
            if f is None or 'd' in d.fl or 'i' in d.fl or f.body is None:
                v = self.val(args[0], st)
                self.wr(objaddr, self.assign_conv(v, n.ch[1].t, n.ch[0].t), st)
                return objaddr if want == 'a' else v
        f = self.P.fns.get(d.u) or self.P.fns.get('ref:' + d.u)
        virt = 'v' in d.fl and n.k == 'mcall' and not n.a[2] and self.P.overriders(d.u)
        if f is not None and not virt and self.can_inline(f):
            snap = st.copy()
            fr, lvl, nu = self.frame, self.level, len(self.unknown)
            try:
                return self.inline(f, objaddr, args, st, n, want)
            except Undecided as e:
                if 'too large' in str(e) or 'depth' in str(e):
                    raise
                st.m, st.exc = snap.m, snap.exc
                self.level = lvl
                self.unknown.append('%s not substituted: %s' % (f.q, e))
        return self.opaque_call(n, d, q, objaddr, args, ptypes, st, want)

    def assign_conv(self, v, tfrom, tto):
        if strip_targs(bare(tto)) == 'std::optional' and strip_targs(bare(tfrom)) not in ('std::optional', 'std::nullopt_t'):
            return lift(lambda x: x if x is NULL else T('some', x), v)
        return v

    def inline(self, f, objaddr, args, st, n, want):
        self.inlined.add(f.u)
        self.frame += 1
        env = {'$frame': self.frame, '$this': objaddr}
        for p, (k, a, an) in zip(f.params, args):
            self.bindparam(p, k, a, st, env)
        env['$reflike'] = isref(f.r['rt'] if isinstance(f.r.get('rt'), str) else self.rettype(f))
        self.stack.append(f.u)
        try:
            v, s = self.run_body(f.body, st, env, f)
        finally:
            self.stack.pop()
        st.m, st.exc = s.m, s.exc
        if env['$reflike']:
            if want == 'a':
                return v
            return self.rd(v, st, self.sort(n.t)) if isinstance(v, Tm) and v.op == 'addr' or isinstance(v, Ite) and all(x.op == 'addr' for x in t.leaves(v)) else v
        return self.res(v, st, n, want)

    def rettype(self, f):
        rt = f.r['rt']
        return f.r['T'][rt] if isinstance(rt, int) and rt >= 0 else ''

    def callvalue(self, fv, args, st, n, want):
        ls = t.leaves(fv)
        if all(x.op == 'clos' for x in ls):
            res = None
            for leaf, g in self.leafguards(fv):
                ln, lenv = self.closures[leaf.args[0]]
                s2 = st.copy()
                v, s3 = self.run_lambda(ln, lenv, [(k, a) for k, a, _ in args], s2)
                if isinstance(v, Tm) and v.op == 'addr' and want == 'v' and not isptr(n.t):
                    v = self.rd(v, s3, self.sort(n.t))
                if res is None:
                    res = (v, s3)
                else:
                    res = (ite(g, v, res[0]), merge_st(g, s3, res[1]))
            st.m, st.exc = res[1].m, res[1].exc
            return self.res(res[0], st, n, want)
        vals = [self.canon(self.val(a, st), st) for a in args]
        s = self.sort(n.t)

        def f(fn, *vs):
            return self.atom('apply', fn, *vs, ty=n.t)
        v = lift(f, self.canon(fv, st), *vals)
        return self.res(v, st, n, want)

    def callbacks(self, name, raw, vals, st, n):
        """what the lambdas handed to a function that stays a call may do: any number of runs, decided by the function"""
        clos = []
        for v in raw:
            for leaf in t.leaves(v) if isinstance(v, (Tm, Ite)) else ():
                if leaf.op == 'clos' and leaf not in clos:
                    clos.append(leaf)
        plain = [v for v, w in zip(vals, raw) if not (isinstance(w, (Tm, Ite)) and any(x.op == 'clos' for x in t.leaves(w)))]
        for k, leaf in enumerate(clos):
            ln, lenv = self.closures[leaf.args[0]]
            said = self.fresh('cb')
            st.m[said] = T('unasked')

            def cond(s):
                return self.lift_or_embed(lambda r, *vs: batom(T('again', name, k, r, *vs, sort='b')), [s.m[said]] + plain)

            def body(s):
                args = []
                for i, pi in enumerate(ln.a[1]):
                    p = ln.fn.D(pi)
                    args.append(('v', self.atom('lparam', self.level, i, ty=p.t) if not isptr(p.t) else T('lparam', self.level, i)))
                v, s2 = self.run_lambda(ln, lenv, args, s)
                s2.m[said] = self.canon(v, s2) if v is not None and v is not UNDEF else VOID
                return {'fall': (TRUE, s2)}
            try:
                out = self.loop_term(st, cond, body, None, n)
                if set(out) == {'fall'}:
                    s1 = out['fall'][1]
                    st.m, st.exc = s1.m, s1.exc
                    continue
            except Undecided as u:
                if 'too large' in str(u):
                    raise
            # not expressible as repeated runs: every value one run changes becomes an unspecified function of that run
            lam = self.lamterm(leaf, st)
            s2 = st.copy()
            s2.exc = NONE
            self.level += 1
            args = [('v', self.atom('lparam', self.level, i, ty=ln.fn.D(pi).t) if not isptr(ln.fn.D(pi).t) else T('lparam', self.level, i)) for i, pi in enumerate(ln.a[1])]
            v, s3 = self.run_lambda(ln, lenv, args, s2)
            self.level -= 1
            cells = set()
            for r, x in s3.m.items():
                if r.op == 'L' and (r not in st.m or r is RET):
                    continue
                self.diffcells(r, (), st.m.get(r, default_root(r)), x, cells)
            for r, path in sorted(cells, key=lambda c: (c[0].uid, len(c[1]), str(c[1]))):
                x = self.load_root(r, st)
                for step in path:
                    x = self.rdstep(x, step, None)
                st.m[r] = self.wrpath(self.load_root(r, st), path, self.lift_or_embed(lambda *vs: T('cbout', name, lam, *vs), [self.canon(x, st)] + plain))

    def opaque_call(self, n, d, q, objaddr, args, ptypes, st, want):
        if 'N' in d.fl or q in ('exit', 'abort', 'std::exit'):
            self.throw(st, T('exit', q), TRUE)
            return self.res(VOID, st, n, want)
        name = q + ('<%s>' % d.ta if d.ta and q.startswith('cura') else '')
        raw = [self.val(a, st) for a in args]
        vals = [self.canon(a, st) for a in raw]
        # pointers to objects: add the current contents for in-repo callees
        if objaddr is not None:
            ov = self.canon(self.rd(objaddr, st), st)
            vals = [ov] + vals
            if q in LOCK_CALLS:
                # what other threads may see from here on, or could see until here
                for r in sorted((r for r in st.m if r.op in ('D', 'G') and r.args[0] != '$effects' and not (r.op == 'D' and objaddr.op == 'D' and r is objaddr)), key=str):
                    w = st.m[r]
                    if w is not default_root(r):
                        vals.append(T('seen', r, ZERO))
                        vals.append(self.canon(w, st))
            if d.n == 'empty' and not args and q.split('::')[0] in ('std', 'boost', 'phmap', 'tsl') and bare(n.t) == 'bool':
                # a collection without a model of its own is empty when its size is zero
                size = lift(lambda o: self.atom('call', name[:-5] + 'size', o, ty='unsigned long'), ov)
                return self.res(lift(lambda z: eqnum(z, ZERO), size), st, n, want)
        ty = n.t
        ret_ref = want == 'a'

        def f(*vs):
            return self.atom('call', name, *vs, ty=ty)
        try:
            v = lift(f, *vals)
        except Undecided:
            v = self.atom('call', name, *vals, ty=ty)
        # effects
        nm = 0
        if any(isinstance(w, (Tm, Ite)) and any(x.op == 'clos' for x in t.leaves(w)) for w in raw) and not q.startswith('std::'):
            self.callbacks(name, raw if objaddr is None else [None] + raw, vals, st, n)
        if objaddr is not None and 'c' not in d.fl and d.k in ('CXXMethod',) and not ((want != 'a' and n.k == 'opcall' and n.a[1] == '[]' or n.k == 'mcall' and q.endswith('::operator[]')) and self.only_looks(name)):
            new = self.lift_or_embed(lambda *vs: T('mut', name, *vs), vals)
            self.wr(objaddr, new, st)
            nm += 1
        off = 1 if objaddr is not None else 0
        for i, (k, a, an) in enumerate(args):
            pt = ptypes[i] if i < len(ptypes) else ''
            if k == 'a' and isref(pt) and not is_const_ref(pt) and not pt.endswith('&&'):
                new = self.lift_or_embed(lambda *vs: T('out', name, i, *vs), vals)
                self.wr(a, new, st)
                nm += 1
            elif isptr(pt) and not bare(pt).startswith('const ') and not pt.strip().startswith('const ') and isptr(an.t):
                new = self.lift_or_embed(lambda *vs: T('out', name, i, *vs), vals)
                pv = a if k == 'v' else self.rd(a, st)
                for leaf in t.leaves(pv):
                    if leaf.op == 'addr':
                        self.wr(leaf, new, st)
                        nm += 1
        if (bare(ty) == 'void' and not nm) or q in IO_CALLS:
            r = T('G', '$effects')
            old = self.load_root(r, st)
            st.m[r] = self.lift_or_embed(lambda o, *vs: T('then', o, T('call', name, *vs)), [old] + vals)
        if want == 'a':
            return lift(lambda x: self.refaddr(x) if x not in (TRUE, FALSE) else self.mat(x, st), v)
        return v

    def only_looks(self, name):
        """element access that writes nothing itself, and whose result is only read here"""
        import equiv
        return equiv.FRAME[0] is not None and equiv.FRAME[0](name, 'w') == set()

    def lift_or_embed(self, f, vals):
        return lift(f, *vals)

    # ---- construction
    def e_ctor(self, n, st, env):
        d = n.decl()
        import stdmodel
        r = stdmodel.ctor(self, n, d, st, env)
        if r is not None:
            return r
        q = strip_targs(d.q)
        ptypes = split_params(d.t)
        cls = q.rsplit('::', 1)[0]
        # copy / move
        if len(n.ch) >= 1 and ptypes and bare(ptypes[0]) == bare(n.t) and isref(ptypes[0]) and all(c.k == 'defarg' for c in n.ch[1:]):
            f = self.P.fns.get(d.u) or self.P.fns.get('ref:' + d.u)
            if f is None or 'd' in d.fl or 'i' in d.fl:
                return self.ev(n.ch[0], st, env)
        f = self.P.fns.get(d.u) or self.P.fns.get('ref:' + d.u)
        args = self.argpairs(n.ch, ptypes, st, env)
        rec = self.record(n.t)
        if f is not None and 'd' not in f.fl and self.can_inline(f):
            a = self.mat(UNDEF, st, n.t)
            self.run_ctor(f, a, args, st, n)
            if rec is not None and rec['fields'] and strip_targs(f.cls) != strip_targs(bare(n.t)):
                for fl in rec['fields']:        # inherited constructor: the members of the derived class get their defaults
                    v = self.default_init(rec, fl) if fl[3] is not None else self.undef_of(fl[1])
                    self.wr(self.sub(a, ('.', strip_targs(rec['q'] + '::' + fl[0]))), v, st)
            return self.rd(a, st)
        if rec is not None and (not n.ch) and ('d' in d.fl or 'i' in d.fl):
            return self.default_obj(rec, n.t)
        if 'i' in d.fl and f is None and len(n.ch) and rec is not None and rec.get('bases'):
            # inherited constructor
            pass
        vals = [self.canon(self.val(a, st), st) for a in args]
        if cls == 'ClipperLib::IntPoint' and len(vals) == 2:
            return mk_obj(None, {PX: vals[0], PY: vals[1]})
        if cls.startswith('std') or rec is None:
            return lift(lambda *vs: T('make', cls, *vs), *vals)
        return self.lift_or_embed(lambda *vs: T('make', cls, *vs), vals)

    def run_ctor(self, f, a, args, st, n):
        self.inlined.add(f.u)
        self.frame += 1
        env = {'$frame': self.frame, '$this': a}
        for p, x in zip(f.params, args):
            self.bindparam(p, x[0], x[1], st, env)
        self.stack.append(f.u)
        try:
            rec = self.record(f.clsq) or self.record(f.cls)
            if rec is not None and not any(i[2] and i[0] is None for i in f.inits if False):
                fields = {}
                base = None
                inits = {i[0].n: i for i in f.inits if i[0] is not None and i[3] is not None}
                deleg = [i for i in f.inits if i[0] is None and i[3] is not None]
                for i in deleg:
                    # base class or delegated constructor
                    v = self.ev(i[3], st, env)
                    base = v if base is None else base
                if base is not None:
                    st.m[a.args[0]] = self.wrpath(self.load_root(a.args[0], st), a.args[1], base)
                same = base is not None and any(strip_targs(bare(i[3].t)) == strip_targs(f.cls) for i in deleg)
                if not same:
                    for fl in rec['fields']:
                        fq = strip_targs(rec['q'] + '::' + fl[0])
                        i = inits.get(fl[0])
                        if i is not None:
                            if isref(fl[1]):
                                v = self.lv(i[3], st, env)
                            else:
                                v = self.ev(i[3], st, env)
                                v = self.conv(v, i[3].t, fl[1])
                        elif fl[3] is not None:
                            v = self.default_init(rec, fl)
                        else:
                            v = self.undef_of(fl[1])
                        self.wr(self.sub(a, ('.', fq)), v, st)
            v, s = self.run_body(f.body, st, env, f) if f.body is not None else (VOID, st)
            st.m, st.exc = s.m, s.exc
        finally:
            self.stack.pop()

    # ---------------------------------------------------------------- statements
    def ex(self, n, st, env):
        """execute; returns {kind: (guard relative to entry, state)}; st may be consumed"""
        if n is None:
            return {'fall': (TRUE, st)}
        m = getattr(self, 's_' + n.k, None)
        if m is not None:
            return m(n, st, env)
        self.ev(n, st, env)
        return self.after(st)

    def after(self, st):
        """split off the states in which an exception is pending"""
        if st.exc is NONE:
            return {'fall': (TRUE, st)}
        g = pending(st.exc)
        if g is TRUE:
            return {'exc': (TRUE, st)}
        s2 = st.copy()
        s2.exc = NONE
        return {'exc': (g, st), 'fall': (bnot(g), s2)}

    def seq(self, out, nxt):
        """continue the fall-through outcome with nxt(state)"""
        if 'fall' not in out:
            return out
        g, s = out.pop('fall')
        o2 = nxt(s)
        for k, (h, s2) in o2.items():
            self.addout(out, k, band(g, h), s2)
        return out

    def addout(self, out, k, g, s):
        if g is FALSE:
            return
        if k in out:
            h, s1 = out[k]
            out[k] = (bor(h, g), merge_st(h, s1, s))
        else:
            out[k] = (g, s)

    def s_block(self, n, st, env):
        out = {'fall': (TRUE, st)}
        for c in n.ch:
            if 'fall' not in out:
                break
            out = self.seq(out, lambda s, c=c: self.ex(c, s, env))
        return out

    def s_nop(self, n, st, env):
        return {'fall': (TRUE, st)}

    def s_attr(self, n, st, env):
        return self.ex(n.ch[0], st, env)

    def s_decl(self, n, st, env):
        for v in n.ch:
            if v is not None:
                self.declvar(v, st, env)
        return self.after(st)

    def declvar(self, v, st, env):
        d = v.decl()
        key = (d.fn.u, d.i)
        ini = v.ch[0] if v.ch else None
        if 'S' in d.fl or ('G' in d.fl and d.k == 'Var' and not d.is_local()):
            # static local
            if ini is not None and (d.t.startswith('const ') or 'X' in d.fl):
                st2 = st
                val = self.conv(self.ev(ini, st2, env), ini.t, d.t)
                r = self.fresh('static', d.t)
                st.m[r] = val
                env[key] = T('addr', r, ())
            else:
                env[key] = T('addr', T('G', 'static:' + d.n), ())
            return
        if isref(d.t):
            a = self.lv(ini, st, env)
            env[key] = a
        else:
            r = T('L', '%s#%d@%s' % (d.n, d.i, env['$frame']))
            self.rtype[r] = d.t
            env[key] = T('addr', r, ())
            if ini is None:
                st.m[r] = self.undef_of(d.t)
            else:
                val = self.ev(ini, st, env)
                st.m[r] = self.conv(val, ini.t, d.t)
        if v.x:
            self.decompose(v, d, env[key], st, env)

    def decompose(self, v, d, addr, st, env):
        ty = bare(d.t)
        q = strip_targs(ty)
        for i, bi in enumerate(v.x):
            b = d.fn.D(bi)
            if q in ('std::pair', 'std::tuple'):
                f = ('first', 'second')[i] if q == 'std::pair' else 'std::get%d' % i
                env[(b.fn.u, b.i)] = self.sub(addr, ('.', f))
            elif q == 'std::array' or ty.endswith(']'):
                env[(b.fn.u, b.i)] = self.sub(addr, ('[', const(i)))
            else:
                r = self.record(ty)
                if r is not None and i < len(r['fields']):
                    env[(b.fn.u, b.i)] = self.sub(addr, ('.', strip_targs(r['q'] + '::' + r['fields'][i][0])))
                else:
                    a = self.rd(addr, st)
                    env[(b.fn.u, b.i)] = self.sub(addr, ('.', 'elem%d' % i))

    def s_return(self, n, st, env):
        c = n.ch[0] if n.ch else None
        if c is not None:
            if env.get('$reflike'):
                v = self.lv(c, st, env)
            else:
                v = self.ev(c, st, env)
                rt = env.get('$ret')
                if rt:
                    v = self.conv(v, c.t, rt)
            st.m[RET] = v
        out = self.after(st)
        if 'fall' in out:
            out['ret'] = out.pop('fall')
        return out

    def s_break(self, n, st, env):
        return {'brk': (TRUE, st)}

    def s_continue(self, n, st, env):
        return {'cont': (TRUE, st)}

    def condition(self, cv, c, st, env):
        """evaluate the condition; returns boolean value"""
        if cv is not None:
            self.s_decl(cv, st, env)
        return self.tobool(self.ev(c, st, env))

    def s_if(self, n, st, env):
        ini, cv, c, th, el = n.ch
        out = {'fall': (TRUE, st)}
        if ini is not None:
            out = self.ex(ini, st, env)

        def body(s):
            if n.a and (th is None or el is None):
                pass
            g = self.condition(cv, c, s, env)
            o1 = self.after(s)

            def br(s):
                if g is TRUE:
                    return self.ex(th, s, env)
                if g is FALSE:
                    return self.ex(el, s, env)
                if n.a:
                    # if constexpr: the discarded branch is absent
                    pass
                s2 = s.copy()
                oa = self.ex(th, s, env)
                ob = self.ex(el, s2, env)
                o = {}
                for k in sorted(set(oa) | set(ob), key=str):
                    if k in oa and k in ob:
                        ga, sa = oa[k]
                        gb, sb = ob[k]
                        # within c: ga, otherwise gb
                        o[k] = (ite(g, ga, gb), merge_st(g, sa, sb))
                    elif k in oa:
                        o[k] = (band(g, oa[k][0]), oa[k][1])
                    else:
                        o[k] = (band(bnot(g), ob[k][0]), ob[k][1])
                return {k: x for k, x in o.items() if x[0] is not FALSE}
            return self.seq(o1, br)
        return self.seq(out, body)

    def s_try(self, n, st, env):
        self.intry += 1
        try:
            out = self.ex(n.ch[0], st, env)
        finally:
            self.intry -= 1
        if 'exc' not in out:
            return out
        g, s = out.pop('exc')
        e = s.exc
        rest = g
        s.exc = NONE
        for h in n.ch[1:]:
            ty = '' if h.a < 0 else strip_targs(bare(h.fn.r['T'][h.a]))

            def match(x, ty=ty):
                if x.op == 'cases':
                    return t.mk_cases(lift(match, x.args[0]))
                if x.op == 'exit' or x is NONE:
                    return FALSE
                if ty == '':
                    return TRUE
                if x.op == 'exc' and x.args[0] == ty:
                    return TRUE
                if ty == 'std::exception' and x.op == 'exc' and x.args[0].startswith('std::'):
                    return TRUE
                if ty == 'std::logic_error' and x.op == 'exc' and x.args[0] in ('std::invalid_argument', 'std::out_of_range'):
                    return TRUE
                return FALSE
            mt = lift(match, e)
            hg = band(rest, mt)
            rest = band(rest, bnot(mt))
            if hg is FALSE:
                continue
            o2 = self.ex(h.ch[0], s.copy(), env)
            for k, (h2, s2) in o2.items():
                self.addout(out, k, band(hg, h2), s2)
        if rest is not FALSE:
            s.exc = e
            self.addout(out, 'exc', rest, s)
        return out

    def s_switch(self, n, st, env):
        ini, cv, c, body = n.ch
        if ini is not None:
            o = self.ex(ini, st, env)
            st = o['fall'][1]
        if cv is not None:
            self.s_decl(cv, st, env)
        v = self.num(self.ev(c, st, env), n)
        # flatten the body into labelled statements
        items = []
        def flat(s):
            labels = []
            while s is not None and s.k in ('case', 'default'):
                labels.append(None if s.k == 'default' else int(s.a))
                if s.k == 'case' and len(s.ch) > 1 and s.ch[0] is not None:
                    for x in s.ch[0].walk():
                        if x.k == 'str':
                            t.text_hash(x.a)
                s = s.ch[-1]
            items.append((labels, s))
        for s in (body.ch if body.k == 'block' else [body]):
            flat(s)
        cases = [l for ls, _ in items for l in ls if l is not None]
        anycase = FALSE
        for k in cases:
            anycase = bor(anycase, lift(lambda x: eqnum(x, const(k)), v))
        out = {}
        active = FALSE                         # guard under which control is inside the body
        cur = None
        entered = FALSE
        for labels, s in items:
            for l in labels:
                g = bnot(anycase) if l is None else lift(lambda x: eqnum(x, const(l)), v)
                if g is FALSE:
                    continue
                s0 = st.copy()
                if cur is None or active is FALSE:
                    cur, active = s0, g
                else:
                    cur = merge_st(g, s0, cur)
                    active = bor(active, g)
            if active is FALSE or s is None:
                continue
            o = self.ex(s, cur.copy(), env)
            for k, (h, s2) in o.items():
                if k == 'fall':
                    continue
                self.addout(out, 'fall' if k == 'brk' else k, band(active, h), s2)
            if 'fall' in o:
                active, cur = band(active, o['fall'][0]), o['fall'][1]
            else:
                active = FALSE
        if active is not FALSE:
            self.addout(out, 'fall', active, cur)
        if not any(l is None for ls, _ in items for l in ls):
            self.addout(out, 'fall', bnot(anycase), st)
        return out

    # ---- loops
    def s_for(self, n, st, env):
        ini, c, inc, body = n.ch
        if ini is not None:
            self.ex(ini, st, env)
        return self.loop(st, env,
                         cond=(lambda s: self.tobool(self.ev(c, s, env))) if c is not None else (lambda s: TRUE),
                         body=lambda s: self.ex(body, s, env),
                         inc=(lambda s: self.ev(inc, s, env)) if inc is not None else None, n=n)

    def s_while(self, n, st, env):
        cv, c, body = n.ch

        def cond(s):
            return self.condition(cv, c, s, env)
        return self.loop(st, env, cond=cond, body=lambda s: self.ex(body, s, env), inc=None, n=n)

    def s_do(self, n, st, env):
        body, c = n.ch
        flag = self.fresh('do', 'bool')
        st.m[flag] = TRUE

        def cond(s):
            first = s.m[flag]
            s2 = s.copy()
            g = self.tobool(self.ev(c, s2, env))
            m = merge_st(first, s, s2)
            s.m, s.exc = m.m, m.exc
            s.m[flag] = FALSE
            return ite(first, TRUE, g)
        return self.loop(st, env, cond=cond, body=lambda s: self.ex(body, s, env), inc=None, n=n)

    def s_rfor(self, n, st, env):
        ini, rng, beg, end, c, inc, lvar, body = n.ch
        if ini is not None:
            self.ex(ini, st, env)
        rv = rng.ch[0]
        rexpr = rv.ch[0]
        a = self.lv(rexpr, st, env)
        a = self.underlying(a, rng, beg, end, st, env)
        # iterate by position over the container
        ic = self.fresh('idx', 'unsigned long')
        st.m[ic] = ZERO
        var = lvar.ch[0]
        d = var.decl()
        core = var.ch[0] if var.ch else None
        while core is not None and not (core.k == 'un' and core.a == '*' or core.k == 'opcall' and core.a[1] == '*'):
            core = core.ch[0] if core.k in ('icast', 'cast', 'ctor', 'mcall', 'init', 'x', 'bind', 'tmp') and core.ch else None

        def cond(s):
            sz = lift(mk_size, self.rd(a, s))
            return lift(lambda i, z: lt(i, z), s.m[ic], sz)

        def bodyf(s):
            el = self.subi(a, s.m[ic])
            key = (d.fn.u, d.i)
            if core is not None:
                # the element as the declaration of the loop variable converts it
                old, self.over = self.over, (core, el)
                self.declvar(var, s, env)
                self.over = old
                return self.ex(body, s, env)
            if isref(d.t):
                env[key] = el
            else:
                r = T('L', '%s#%d@%s' % (d.n, d.i, env['$frame']))
                self.rtype[r] = d.t
                env[key] = T('addr', r, ())
                s.m[r] = self.rd(el, s, self.sort(d.t))
            if var.x:
                self.decompose(var, d, env[key], s, env)
            return self.ex(body, s, env)

        def incf(s):
            s.m[ic] = lift(lambda i: padd(i, ONE), s.m[ic])
        return self.loop(st, env, cond=cond, body=bodyf, inc=incf, n=n)

    def underlying(self, a, rng, beg, end, st, env):
        """the container a class of the repository iterates over: what its begin() and end() point into"""
        rv = rng.ch[0]
        if self.record(rv.ch[0].t) is None or strip_targs(bare(rv.ch[0].t)).startswith('std::') or beg is None or end is None:
            return a
        s = st.copy()
        unk = len(self.unknown)
        e = dict(env)
        try:
            e[(rv.decl().fn.u, rv.decl().i)] = a
            b = self.ev(beg.ch[0].ch[0], s, e)
            z = self.ev(end.ch[0].ch[0], s, e)
        except Undecided:
            b = z = None
        del self.unknown[unk:]
        if isinstance(b, Tm) and b.op == 'iter' and b.args[1] is ZERO and isinstance(z, Tm) and z.op in ('iter', 'endit') and z.args[0] is b.args[0] \
                and (z.op == 'endit' or z.args[1] is lift(mk_size, self.rd(b.args[0], s))):
            return b.args[0]
        return a

    def iteration(self, st, cond, body, inc):
        """one iteration from st: (cond value, {kind: (guard rel. to cond true, state)}, state after cond)"""
        g = cond(st)
        sc = st
        if g is FALSE:
            return g, {}, sc
        o = body(sc.copy())
        res = {}
        for k, (h, s) in o.items():
            if k == 'cont':
                k = 'fall'
            self.addout(res, k, h, s)
        if inc is not None and 'fall' in res:
            h, s = res['fall']
            s = s.copy()
            inc(s)
            res['fall'] = (h, s)
        return g, res, sc

    def loop(self, st, env, cond, body, inc, n):
        # bounded unrolling when the condition is decided
        s = st.copy()
        out = {}
        fr = self.frame
        nu = len(self.unknown)
        alive = TRUE
        for k in range(17):
            s0 = s.copy()
            g, res, sc = self.iteration(s, cond, body, inc)
            if g is FALSE:
                self.addout(out, 'fall', alive, sc)
                return out
            if g is not TRUE or k == 16:
                break
            for kind, (h, s2) in res.items():
                if kind != 'fall':
                    self.addout(out, 'fall' if kind == 'brk' else kind, band(alive, h), s2)
            if 'fall' not in res:
                return out
            h, s = res['fall']
            alive = band(alive, h)
            if alive is FALSE:
                return out
        del self.unknown[nu:]
        return self.loop_term(st, cond, body, inc, n)

    def cellval(self, st, cell):
        r, path = cell
        v = self.load_root(r, st)
        for step in path:
            v = self.rdstep(v, step, None)
        return v

    def loop_term(self, st, cond, body, inc, n):
        unk, fr = len(self.unknown), self.frame
        out = self.loop_term1(st, cond, body, inc, n)
        if diverges(out) and not self.signed:
            # an unsigned counter that is compared as a signed number
            del self.unknown[unk:]
            self.signed = True
            try:
                out = self.loop_term1(st, cond, body, inc, n)
            finally:
                self.signed = False
        if diverges(out):
            raise Undecided('a loop does not end')
        return out

    def loop_term1(self, st, cond, body, inc, n):
        self.level += 1
        lvl = self.level
        try:
            cells = []
            for rounds in range(12):
                self.frame += 1
                fr = self.frame
                s = st.copy()
                ph = []
                for i, c in enumerate(cells):
                    p = self.phi(c, st, ('?', fr, i))
                    ph.append(p)
                    s.m[c[0]] = self.wrpath(self.load_root(c[0], s), c[1], p)
                start = s.copy()
                nu = len(self.unknown)
                g, res, sc = self.iteration(s, cond, body, inc)
                new = set()
                for k, (h, s2) in list(res.items()) + [('c', (TRUE, sc))]:
                    for r in list(s2.m):
                        if r.op == 'L' and r not in st.m:
                            continue
                        v0 = start.m.get(r)
                        if v0 is None:
                            v0 = default_root(r)
                        self.diffcells(r, (), v0, s2.m[r], new)
                new = {c for c in new if not any(c[0] is o[0] and c[1][:len(o[1])] == o[1] for o in cells)}
                if not new:
                    break
                del self.unknown[nu:]
                cells = [o for o in cells if not any(o[0] is c[0] and o[1][:len(c[1])] == c[1] for c in new)] + sorted(new, key=lambda c: (c[0].uid, len(c[1]), str(c[1])))
                # drop nested duplicates
                cells = [c for c in cells if not any(c is not o and c[0] is o[0] and len(o[1]) < len(c[1]) and c[1][:len(o[1])] == o[1] for o in cells)]
            else:
                raise Undecided('loop cells do not stabilise')
            return self.close_loop(st, cells, ph, g, res, sc, lvl, n)
        finally:
            self.level -= 1

    def phi(self, cell, st, ident):
        r, path = cell
        v = self.cellval(st, cell)
        sort = None
        if not path and r in self.rtype:
            sort = self.sort(self.rtype[r])
        elif path and path[-1][0] == '.':
            sort = FIELD_SORT.get(path[-1][1])
        if sort == 'u' and self.signed:
            sort = 'i'
        if sort is None:
            ls = [x for x in t.leaves(v)]
            if ls and all(x in (TRUE, FALSE) for x in ls):
                sort = 'b'
            elif ls and all(isint(x) for x in ls):
                sort = 'i'
            elif ls and all(x.op == 'poly' or x.sort == 'f' for x in ls):
                sort = 'f'
        p = T('phi', *ident, sort or '', sort=sort)
        return batom(p) if sort == 'b' else p

    def diffcells(self, r, path, a, b, out):
        if a is b:
            return
        if isinstance(a, Tm) and isinstance(b, Tm):
            ba = a.args[0] if a.op == 'obj' else a
            bb = b.args[0] if b.op == 'obj' else b
            if ba is bb and (a.op == 'obj' or b.op == 'obj') and (ba is not None or a.op == b.op):
                fa = dict(a.args[1]) if a.op == 'obj' else {}
                fb = dict(b.args[1]) if b.op == 'obj' else {}
                for f in sorted(set(fa) | set(fb), key=str):
                    x = fa.get(f) if f in fa else (get_field(ba, f) if ba is not None else UNDEF)
                    y = fb.get(f) if f in fb else (get_field(bb, f) if bb is not None else UNDEF)
                    self.diffcells(r, path + (('.', f),), x, y, out)
                return
        out.add((r, path))

    def close_loop(self, st, cells, ph, g, res, sc, lvl, n):
        N = len(cells)
        inits = [self.cellval(st, c) for c in cells]
        nxt_g, nxt_s = res.get('fall', (FALSE, None))
        nexts = [self.cellval(nxt_s, c) if nxt_s is not None else VOID for c in cells]
        condout = [self.cellval(sc, c) for c in cells]
        exits = {k: res[k] for k in ('brk', 'ret', 'exc') if k in res}
        atoms = [t.leaves(p)[0] if isinstance(p, Tm) else p.dec.args[0] for p in ph]
        idx = {a: i for i, a in enumerate(atoms)}

        def deps(v):
            return {idx[x] for x in t.subterms(v) if x in idx}
        base = deps(g) | (deps(nxt_g) if nxt_g is not TRUE else set())
        for k, (h, s2) in exits.items():
            base |= deps(h)
        closure = {}
        nd = [deps(v) for v in nexts]
        cd = [deps(v) for v in condout]

        def close(seed):
            seen = set()
            w = list(seed)
            while w:
                i = w.pop()
                if i in seen:
                    continue
                seen.add(i)
                w.extend(nd[i] - seen)
            return seen
        # signatures that depend on what the values are, not on how they were built
        sig = [semhash(v, {}) for v in inits]
        for _ in range(ROUNDS):
            sg = {atoms[i]: sig[i] for i in range(N)}
            sig = [hashlib.md5((semhash(nexts[i], sg) + sig[i]).encode()).hexdigest() for i in range(N)]

        def build(seed, extra):
            """loop term over the slice needed for extra (a value over the placeholders)"""
            need = close(set(seed) | base)
            order = sorted(need, key=lambda i: (sig[i], i))
            ren = {atoms[i]: mk_phi(lvl, k, atoms[i].sort) for k, i in enumerate(order)}

            def rw(v):
                memo = {}
                return t.rewrite(v, lambda x: ren.get(x), memo) if v is not None else None
            parts = (tuple(inits[i] for i in order), rw(g), tuple(rw(nexts[i]) for i in order),
                     tuple((k, rw(h)) for k, (h, s2) in sorted(exits.items()) if k != 'x'))
            return T('loop', lvl, *parts), rw(extra)

        out = {}

        def outval(v, kind, ty_sort):
            """value v (over placeholders) observed when the loop ends by kind"""
            if not deps(v):
                return v
            L, rv = build(deps(v), v)
            if isinstance(rv, Tm) and rv.op == 'phi' and rv.args[0] == lvl:
                pass
            x = T('loopout', kind, L, rv, sort=ty_sort)
            return canon_loops(x) if lvl == 1 else x

        def sorted_out(v, kind):
            ls = t.leaves(v)
            s = None
            if ls and all(x in (TRUE, FALSE) for x in ls):
                s = 'b'
            elif ls and all(isint(x) for x in ls):
                s = 'i'
            elif ls and all(x.op == 'poly' or x.sort == 'f' for x in ls):
                s = 'f'
            if isinstance(v, Tm) and v.op == 'obj':
                return mk_obj(v.args[0] if v.args[0] is None or not deps(v.args[0]) else outval(v.args[0], kind, None), {f: sorted_out(x, kind) for f, x in v.args[1]})
            r = outval(v, kind, s)
            if s == 'b' and isinstance(r, Tm) and r not in (TRUE, FALSE):
                return batom(r)
            return r

        def final(s2, kind):
            m = {}
            for r, v in s2.m.items():
                if r.op == 'L' and r not in st.m and r is not RET:
                    continue
                m[r] = sorted_out(v, kind)
            return St(m, s2.exc if s2.exc is NONE else sorted_out(s2.exc, kind))

        def exitflag(kind):
            L, _ = build(base, VOID)
            x = T('loopexit', kind, L)
            return batom(canon_loops(x) if lvl == 1 else x)
        rem = TRUE
        for kind in ('ret', 'exc', 'brk'):
            if kind in exits:
                f = exitflag(kind)
                self.addout(out, 'fall' if kind == 'brk' else kind, band(rem, f), final(exits[kind][1], kind))
                rem = band(rem, bnot(f))
        if g is not TRUE:
            self.addout(out, 'fall', rem, final(sc, 'done'))
        if not out:
            out['exc'] = (TRUE, St(dict(st.m), T('exit', 'diverges')))
        return out


ROUNDS = 2
SEEDS = (1, 2, 3, 4)
_sem = {k: {} for k in SEEDS}


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def semhash(v, env):
    """digest of the value under a few pseudo-random valuations of its atoms (env: digests of loop placeholders)"""
    return hashlib.md5(repr([semval(v, k, env) for k in SEEDS]).encode()).hexdigest()


_sigs = {}
_atoms = {}
_canon = {}


def free_atoms(x):
    """placeholders and loop variables occurring in x"""
    r = _atoms.get(x)
    if r is None:
        r = _atoms[x] = frozenset(y for y in t.subterms(x) if isinstance(y, Tm) and y.op == 'phi')
    return r


SORTS = (None, 'b', 'i', 'u', 'f')


def diverges(out):
    return len(out) == 1 and 'exc' in out and out['exc'][1].exc is T('exit', 'diverges')


def mk_phi(lvl, k, sort):
    return T('phi', lvl, k, sort or '', sort=sort)


def with_phis(env, lvl, sig):
    e = dict(env)
    for k, v in enumerate(sig):
        for so in SORTS:
            e[mk_phi(lvl, k, so)] = v
    return e


def loop_sigs(L, env):
    """digests of the variables of a loop term, independent of their order"""
    lvl, inits, cond, nexts, exits = L.args
    fa = free_atoms(L)
    outer = {a: v for a, v in env.items() if a in fa and a.args[0] != lvl}
    key = (L, tuple(sorted(((a.uid, v) for a, v in outer.items()))))
    r = _sigs.get(key)
    if r is None:
        sig = [semhash(v, outer) for v in inits]
        for _ in range(ROUNDS):
            e = with_phis(outer, lvl, sig)
            sig = [hashlib.md5((semhash(nexts[k], e) + sig[k]).encode()).hexdigest() for k in range(len(sig))]
        r = _sigs[key] = (sig, outer)
    return r


def canon_loops(x):
    """loop terms with their variables in an order that does not depend on how they were built"""
    r = _canon.get(x)
    if r is not None:
        return r

    def leaf(z):
        if z.op not in ('loopout', 'loopexit'):
            return None
        r = _canon.get(z)
        if r is not None:
            return r
        kind, L = z.args[:2]
        lvl, inits, cond, nexts, exits = L.args
        sig, _ = loop_sigs(L, {})
        order = sorted(range(len(inits)), key=lambda k: (sig[k], k))
        ren = {}
        for n, k in enumerate(order):
            if n != k:
                for so in SORTS:
                    ren[mk_phi(lvl, k, so)] = n

        def rn(v):
            if ren:
                v = t.rewrite(v, lambda y: (mk_phi(lvl, ren[y], y.sort) if y in ren else y if own_loop(y, lvl) else None), {})
            return t.rewrite(v, leaf, {})
        L2 = T('loop', lvl, tuple(t.rewrite(inits[k], leaf, {}) for k in order), rn(cond), tuple(rn(nexts[k]) for k in order), tuple((k, rn(h)) for k, h in exits))
        r = T(z.op, kind, L2, *[rn(v) for v in z.args[2:]], sort=z.sort)
        _canon[z] = r
        return r
    r = leaf(x)
    _canon[x] = r
    return r


def own_loop(x, lvl):
    return x.op == 'loop' and x.args[0] == lvl or x.op in ('loopout', 'loopexit') and isinstance(x.args[1], Tm) and x.args[1].args[0] == lvl


def number(r, sort):
    if isinstance(r, tuple):
        return r[1]
    if r is True or r is False:
        return Fraction(int(r))
    return Fraction(r % 11) if sort == 'u' else Fraction(r % 17 - 6)


def semval(v, seed, env):
    glob = _sem[seed]
    memo = {}

    def go(x):
        """(value, depends on env)"""
        if isinstance(x, tuple):
            rs = [go(y) for y in x]
            return h64('t', [r[0] for r in rs]), any(r[1] for r in rs)
        if not isinstance(x, (Tm, Ite)):
            return h64(repr(x)), False
        r = glob.get(x)
        if r is not None:
            return r, False
        r = memo.get(x)
        if r is not None:
            return r, True
        r, d = calc(x)
        (memo if d else glob)[x] = r
        return r, d

    def num(x):
        r, d = go(x)
        return number(r, x.sort if isinstance(x, Tm) else None), d

    def calc(x):
        if isinstance(x, Ite):
            dec = x.dec
            if dec.op == 'B':
                at = dec.args[0]
                if at.op == 'eq':
                    (a, d1), (b, d2) = go(at.args[0]), go(at.args[1])
                    o, d = int(a == b), d1 or d2
                else:
                    r, d = go(at)
                    o = int(r) if r is True or r is False else int(r[1] > 0) if isinstance(r, tuple) else r & 1
            else:
                n, d = num(dec.args[0])
                k = dec.args[1]
                o = int(n >= k) if dec.op == 'GE' else 0 if n < k else 1 if n == k else 2
            r, d2 = go(x.kids[o])
            return r, d or d2
        if x in env:
            h = h64(env[x], seed)
            if x.sort in ('i', 'u', 'f'):
                return ('n', number(h, x.sort)), True
            return (bool(h & 1) if x.sort == 'b' else h), True
        op = x.op
        if x is TRUE or x is FALSE:
            return x is TRUE, False
        if op == 'poly':
            tot, dep = Fraction(0), False
            for m, c in x.args[0]:
                p = c
                for a, e in m:
                    n, d = num(a)
                    dep = dep or d
                    if e < 0 and n == 0:
                        n = Fraction(19, 7)
                    p *= n ** e
                tot += p
            return ('n', tot), dep
        if op == 'cases':
            return go(x.args[0])
        if op == 'phi':
            h = h64('phi', x.args[:2], seed)
            if x.sort in ('i', 'u', 'f'):
                return ('n', number(h, x.sort)), True
            return (bool(h & 1) if x.sort == 'b' else h), True
        if op == 'L':
            return h64('L', re.sub(r'[#@\d].*', '', x.args[0])), False
        if op in ('loopout', 'loopexit') and isinstance(x.args[1], Tm) and x.args[1].op == 'loop':
            kind, L = x.args[:2]
            lvl = L.args[0]
            sig, outer = loop_sigs(L, env)
            e = with_phis({a: v for a, v in env.items() if a.args[0] != lvl}, lvl, sig)
            h = h64(op, kind, sorted(sig), semval(L.args[2], seed, e), [(k, semval(v, seed, e)) for k, v in L.args[4]], [semval(v, seed, e) for v in x.args[2:]], seed)
            d = any(not isinstance(a.args[0], int) or a.args[0] < lvl for a in free_atoms(x))
            if x.sort in ('i', 'u', 'f'):
                return ('n', number(h, x.sort)), d
            return (bool(h & 1) if x.sort == 'b' or op == 'loopexit' else h), d
        rs = [go(a) for a in x.args]
        vals = [r[0] for r in rs]
        if op == 'eq':
            return vals[0] == vals[1], any(r[1] for r in rs)
        h = h64(op, vals, seed)
        d = any(r[1] for r in rs)
        if x.sort in ('i', 'u', 'f'):
            return ('n', number(h, x.sort)), d
        if x.sort == 'b':
            return bool(h & 1), d
        return h, d
    return go(v)[0]


def fname(d):
    q = strip_targs(d.q)
    if q.startswith('std::pair::') or q.startswith('std::_'):
        return q.split('::')[-1]
    return q
