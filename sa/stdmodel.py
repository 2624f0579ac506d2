"""Meaning of the standard-library operations the engine uses (trusted base of the value graphs)."""
import re
from fractions import Fraction
import terms as t
from terms import *
import vg
from vg import (bare, isref, isptr, mk_size, mk_at, mk_obj, mk_deref, get_field, PURE_STD, ROUND, MAY_THROW, strip_targs, split_params, is_const_ref)

VEC = {'std::vector', 'std::deque', 'std::array', 'std::list', 'std::basic_string', 'std::initializer_list', 'std::span', 'std::basic_string_view', 'std::queue', 'std::stack'}
MAP = {'std::map', 'std::unordered_map'}
SET = {'std::set', 'std::unordered_set'}
PTR = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'}
ITER = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
        'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
        'std::reverse_iterator', 'std::move_iterator', 'std::_Fwd_list_iterator', 'std::__detail::_Node_iterator_base')
ALG_MUT = {'sort', 'stable_sort', 'reverse', 'rotate', 'fill', 'unique', 'remove_if', 'remove', 'nth_element', 'partition', 'stable_partition',
           'shuffle', 'iota', 'replace', 'fill_n', 'copy', 'transform', 'partial_sort', 'push_heap', 'pop_heap', 'make_heap', 'generate', 'for_each', 'move', 'swap_ranges', 'copy_if'}
LOG = ('spdlog::', 'scripta::')

INT_LIM = {'long long': (-2**63, 2**63 - 1), 'long': (-2**63, 2**63 - 1), 'int': (-2**31, 2**31 - 1), 'short': (-2**15, 2**15 - 1), 'char': (-128, 127), 'signed char': (-128, 127),
           'unsigned int': (0, 2**32 - 1), 'unsigned long': (0, 2**64 - 1), 'unsigned long long': (0, 2**64 - 1), 'unsigned short': (0, 2**16 - 1), 'unsigned char': (0, 255), 'bool': (0, 1)}


def has_(m, k):
    """has(m,k) as boolean value for leaf terms"""
    if m.op == 'upd' or m.op == 'ins':
        c = lift(eqval, m.args[1], k)
        return ite(c, TRUE, lift(lambda a: has_(a, k), m.args[0]))
    if m.op == 'del':
        c = lift(eqval, m.args[1], k)
        return ite(c, FALSE, lift(lambda a: has_(a, k), m.args[0]))
    if m.op == 'list' and not m.args:
        return FALSE
    if m.op == 'list' and all(isinstance(x, Tm) for x in m.args):
        r = FALSE
        for x in m.args:
            kk = x
            if x.op == 'obj' and dict(x.args[1]).get('first') is not None:
                kk = dict(x.args[1])['first']
            r = bor(r, lift(eqval, kk, k))
        return r
    return t.has(m, k)


def cls_of(q):
    return q.rsplit('::', 1)[0] if '::' in q else ''


def absv(x):
    return ite(lt(x, ZERO), pscale(x, Fraction(-1)), x)


def maxv(a, b):
    return ite(lt(a, b), b, a)


def minv(a, b):
    return ite(lt(b, a), b, a)


def roundv(kind, x):
    if t.isint(x):
        return x
    if isconst(x):
        c = cval(x)
        import math
        if kind == 'floor':
            return const(math.floor(c))
        if kind == 'ceil':
            return const(math.ceil(c))
        if kind == 'trunc':
            return const(int(c))
        if kind == 'rint':
            return const(round(c))
        return const(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
    if kind == 'trunc':
        return trunc(x)
    if kind == 'round':
        half = const(Fraction(1, 2))
        return ite(lt(ZERO, x), trunc(padd(x, half)), ite(lt(x, ZERO), trunc(psub(x, half)), ZERO))
    return T('rnd', kind, x, sort='i')


def fsqrt(x):
    if isconst(x) and cval(x) >= 0:
        import math
        c = cval(x)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    return T('fn1', 'sqrt', x, sort='f')


def call(S, n, d, q, st, env, want):
    name = d.n
    ev, lv = S.ev, S.lv
    if q.startswith('cura::') and not q.startswith('cura::operator""'):
        if q in ('cura::Application::getInstance',):
            v = T('call', q)
            return S.addr_res(T('addr', T('D', T('ptrto', v)), ()), st, n, want)
        return None
    a = n.args()

    def R(v):
        return S.res(v, st, n, want)

    def A(addr):
        return S.addr_res(addr, st, n, want)
    if q.startswith(LOG) or q in ('__assert_fail', 'printf', 'fprintf', 'std::fflush', 'fflush', 'fmt::print'):
        if q in ('fprintf', 'printf', 'fmt::print'):
            return None
        return R(VOID)
    cls = cls_of(q)
    base = q.split('::')[-1]
    std = q.startswith('std::') or '::' not in q
    # ------------------------------------------------ free functions
    if n.k == 'call' and std and d.k in ('Function', 'CXXMethod'):
        if base in ('move', 'forward', 'as_const', 'ref', 'cref', 'launder') and len(a) == 1:
            if want == 'a':
                return lv(a[0], st, env)
            return ev(a[0], st, env)
        if base in ('addressof', '__addressof'):
            return R(lv(a[0], st, env))
        if cls == 'std::numeric_limits':
            m = re.search(r'numeric_limits<(.*)>::', d.q)
            ty = m.group(1) if m else n.t
            ty = bare(ty)
            if ty in INT_LIM:
                lo, hi = INT_LIM[ty]
                if base == 'max':
                    return R(const(hi))
                if base in ('min', 'lowest'):
                    return R(const(lo))
            if base == 'lowest':
                return R(pscale(T('fltmax', sort='f'), Fraction(-1)))
            if base == 'max':
                return R(T('fltmax', sort='f'))
            return R(T('limit', base, ty, sort='f'))
        if base in ('max', 'min') and len(a) >= 2 and a[0].t and S.sort(a[0].t) in ('i', 'u', 'f', None):
            xs = [S.num(ev(x, st, env), n) for x in a[:2]]
            if len(a) == 2 or a[2].k == 'defarg':
                if S.sort(n.t) is None:
                    return objminmax(S, base, xs, n, st, want)
                return R(lift(maxv if base == 'max' else minv, *xs))
            return None
        if base in ('max', 'min') and len(a) == 1 and (a[0].k == 'stdinit'):
            l = a[0].ch[0].ch if a[0].ch[0].k == 'init' else None
            if l:
                v = S.num(ev(l[0], st, env), n)
                for x in l[1:]:
                    v = lift(maxv if base == 'max' else minv, v, S.num(ev(x, st, env), n))
                return R(v)
        if base in ('abs', 'fabs', 'labs', 'llabs') and len(a) == 1:
            return R(lift(absv, S.num(ev(a[0], st, env), n)))
        if base == 'clamp' and len(a) == 3:
            x, lo, hi = [S.num(ev(y, st, env), n) for y in a]
            return R(lift(lambda x, lo, hi: ite(lt(x, lo), lo, ite(lt(hi, x), hi, x)), x, lo, hi))
        if base == 'lerp' and len(a) == 3:
            x, y, k = [S.num(ev(z, st, env), n) for z in a]
            return R(lift(lambda x, y, k: padd(x, pmul(k, psub(y, x))), x, y, k))
        if base in ROUND and len(a) == 1:
            return R(lift(lambda x: roundv(ROUND[base], x), S.num(ev(a[0], st, env), n)))
        if base == 'sqrt':
            return R(lift(fsqrt, S.num(ev(a[0], st, env), n)))
        if base == 'pow' and len(a) == 2:
            x, y = S.num(ev(a[0], st, env), n), S.num(ev(a[1], st, env), n)

            def pw(x, y):
                if isconst(y) and cval(y).denominator == 1 and 0 <= cval(y) <= 4:
                    r = ONE
                    for _ in range(int(cval(y))):
                        r = pmul(r, x)
                    return r
                return T('fn2', 'pow', x, y, sort='f')
            return R(lift(pw, x, y))
        if base in PURE_STD and q in (base, 'std::' + base):
            vs = [S.num(ev(x, st, env), n) for x in a]
            return R(lift(lambda *xs: T('fn%d' % len(xs), base, *xs, sort='f'), *vs))
        if base in ('isnan', 'isinf', 'isfinite', 'signbit', 'isnormal'):
            if base == 'isnan':
                return R(lift(lambda x: batom(T('isnan', x)), ev(a[0], st, env)))
            return R(lift(lambda x: batom(T(base, x)), ev(a[0], st, env)))
        if base == 'hypot':
            return None
        if base == 'swap' and len(a) == 2:
            x, y = lv(a[0], st, env), lv(a[1], st, env)
            vx, vy = S.rd(x, st, S.sort(a[0].t)), S.rd(y, st, S.sort(a[1].t))
            S.wr(x, vy, st)
            S.wr(y, vx, st)
            return R(VOID)
        if base == 'exchange' and len(a) == 2:
            x = lv(a[0], st, env)
            old = S.rd(x, st, S.sort(a[0].t))
            S.wr(x, ev(a[1], st, env), st)
            return R(old)
        if base in ('make_pair',):
            x, y = [ev(z, st, env) for z in a]
            return R(mk_obj(None, {'first': x, 'second': y}))
        if base in ('make_tuple', 'forward_as_tuple'):
            return R(mk_obj(None, {'std::get%d' % i: ev(z, st, env) for i, z in enumerate(a)}))
        if base == 'get' and len(a) == 1:
            m = re.match(r'^(\d+)', d.ta or '')
            ty = strip_targs(bare(a[0].t))
            if m and ty in ('std::tuple', 'std::pair'):
                i = int(m.group(1))
                f = ('first', 'second')[i] if ty == 'std::pair' else 'std::get%d' % i
                return A(S.sub(lv(a[0], st, env), ('.', f)))
            if m and ty == 'std::array':
                return A(S.subi(lv(a[0], st, env), const(int(m.group(1)))))
            return None
        if base in ('make_shared', 'make_unique', 'allocate_shared'):
            return R(make_new(S, n, d, a, st, env))
        if base == 'make_optional':
            return R(lift(lambda x: T('some', x), ev(a[0], st, env)))
        if base in ('next', 'prev') and a and iterlike(a[0].t):
            v = ev(a[0], st, env)
            k = S.num(ev(a[1], st, env), n) if len(a) > 1 else ONE
            if base == 'prev':
                k = lift(lambda x: pscale(x, Fraction(-1)), k)
            return R(lift(lambda i, k: T('iter', i.args[0], lift(padd, i.args[1], k)) if i.op == 'iter' else T('iternext', i, k), itnorm(S, v, st), k))
        if base == 'distance':
            x, y = ev(a[0], st, env), ev(a[1], st, env)
            return R(S.binop('-', itnorm(S, y, st), itnorm(S, x, st), 'long', '', '', n))
        if base in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data') and len(a) == 1:
            ad = lv(a[0], st, env)
            return container_method(S, n, base.lstrip('c') if base[0] == 'c' else base, ad, [], strip_targs(bare(a[0].t)), st, env, want)
        if base == 'to_string':
            return R(lift(lambda x: T('to_string', x), ev(a[0], st, env)))
        if q in MAY_THROW:
            vs = [ev(x, st, env) for x in a if x.k != 'defarg']
            v = lift(lambda *xs: T('call', q, *xs, sort=S.sort(n.t)), *vs)
            if S.intry:
                for e in ('std::invalid_argument', 'std::out_of_range'):
                    S.throw(st, T('exc', e), lift(lambda x: batom(T('throws', e, x)), v))
            return R(v)
        if cls == 'std' and base in ('for_each', 'transform', 'copy', 'copy_if', 'accumulate') and a and iterlike(a[0].t):
            r = alg_loop(S, n, base, a, st, env, want)
            if r is not None:
                return r
        if base in ALG_MUT and cls == 'std' and a and iterlike(a[0].t) or q.startswith('ranges::') and False:
            return alg_mut(S, n, d, base, a, st, env, want)
        if base in ('accumulate',) and cls == 'std':
            return None
    # ------------------------------------------------ members
    if n.k == 'mcall':
        o = n.obj()
        oty = strip_targs(bare(o.t)) if not isptr(o.t) else strip_targs(bare(bare(o.t)[:-1]))
        oaddr = None

        def O():
            return S.ptr(o, st, env) if n.a[1] or isptr(o.t) else lv(o, st, env)
        if cls in VEC or cls in MAP or cls in SET or cls in ('std::_Vector_base', 'std::__cxx11::basic_string', 'std::__cxx11::list') or oty in VEC | MAP | SET:
            return container_method(S, n, name, O(), a, oty, st, env, want)
        if cls in ('std::optional', 'std::_Optional_base_impl') or oty == 'std::optional':
            ad = O()
            v = S.rd(ad, st)
            if name in ('has_value', 'operator bool'):
                return R(lift(nonnull, v))
            if name == 'value':
                return A(S.sub(ad, ('*',)))
            if name == 'value_or':
                y = ev(a[0], st, env)
                y = S.conv(y, a[0].t, n.t)
                s = S.sort(n.t)
                x = S.rd(S.sub(ad, ('*',)), st, s)
                return R(ite(lift(nonnull, v), x, y))
            if name == 'reset':
                S.wr(ad, NULL, st)
                return R(VOID)
            if name == 'emplace':
                x = emplace_value(S, elem_type(o.t), a, st, env, n)
                S.wr(ad, lift(lambda y: T('some', y), x), st)
                return A(S.sub(ad, ('*',)))
        if cls in PTR or oty in PTR:
            ad = O()
            v = S.rd(ad, st)
            if name == 'get':
                return R(v)
            if name == 'operator bool':
                return R(lift(nonnull, v))
            if name == 'reset':
                S.wr(ad, ev(a[0], st, env) if a and a[0].k != 'defarg' else NULL, st)
                return R(VOID)
            if name == 'lock':
                return R(lift(lambda x: T('lockwp', x) if x.op != 'new' else x, v))
            if name == 'release':
                S.wr(ad, NULL, st)
                return R(v)
        if name.startswith('operator') and d.k == 'CXXConversion':
            if oty in ('std::_Bit_reference', 'std::reference_wrapper', 'std::basic_string', 'std::function') or oty.startswith('std::_Bit'):
                if oty == 'std::function':
                    return R(lift(nonnull, S.rd(O(), st)))
                return R(S.rd(O(), st, S.sort(n.t)))
        if oty == 'std::atomic' or cls in ('std::__atomic_base', 'std::atomic'):
            ad = O()
            if name in ('load',) or name.startswith('operator '):
                return R(S.rd(ad, st, S.sort(n.t)))
            if name == 'store':
                S.wr(ad, S.conv(ev(a[0], st, env), a[0].t, n.t), st)
                return R(VOID)
        if iterlike(o.t) and name == 'base':
            return R(S.rd(O(), st))
        if oty.startswith('std::chrono') or cls.startswith('std::chrono'):
            return None
    # ------------------------------------------------ operators
    if n.k == 'opcall':
        op = n.a[1]
        c = n.ch
        t0 = strip_targs(bare(c[0].t))
        if op in ('*', '->') and len(c) == 1 and d.k == 'CXXMethod':
            if t0 in PTR or t0.startswith('std::__shared_ptr'):
                p = ev(c[0], st, env)
                ad = lift(S.toaddr, p)
                return A(ad) if op == '*' else ad
            if t0 == 'std::optional':
                ad = S.sub(lv(c[0], st, env), ('*',))
                return A(ad) if op == '*' else ad
            if iterlike(c[0].t):
                v = itnorm(S, ev(c[0], st, env), st)
                ad = lift(lambda i: iter_addr(S, i), v)
                return A(ad) if op == '*' else ad
        if op == '[]' and d.k == 'CXXMethod':
            if t0 in VEC or t0 in MAP:
                ad = lv(c[0], st, env)
                i = S.num(ev(c[1], st, env), n)
                return A(S.subi(ad, i))
            if t0 in PTR:
                return A(S.subi(lift(S.toaddr, ev(c[0], st, env)), S.num(ev(c[1], st, env), n)))
            if iterlike(c[0].t):
                v = itnorm(S, ev(c[0], st, env), st)
                i = S.num(ev(c[1], st, env), n)
                return A(lift(lambda it, k: iter_addr(S, T('iter', it.args[0], lift(padd, it.args[1], k))) if it.op == 'iter' else T('addr', T('D', T('iternext', it, k)), ()), v, i))
        if op in ('++', '--') and iterlike(c[0].t):
            ad = lv(c[0], st, env)
            old = itnorm(S, S.rd(ad, st), st)
            k = const(1 if op == '++' else -1)
            if t0 == 'std::reverse_iterator':
                k = pscale(k, Fraction(-1))
            new = lift(lambda x: T('iter', x.args[0], lift(padd, x.args[1], k)) if x.op == 'iter' else T('iternext', x, k), old)
            S.wr(ad, new, st)
            if len(c) == 2:
                return R(old)
            return A(ad) if want == 'a' else new
        if op in ('+', '-', '+=', '-=') and iterlike(c[0].t):
            x = itnorm(S, ev(c[0], st, env), st)
            y = ev(c[1], st, env)
            if iterlike(c[1].t):
                y = itnorm(S, y, st)

                def sub(a_, b_):
                    if a_.op == 'iter' and b_.op == 'iter' and a_.args[0] is b_.args[0]:
                        return lift(psub, a_.args[1], b_.args[1])
                    return T('iterdiff', a_, b_, sort='i')
                return R(lift(sub, x, y))
            y = S.num(y, n)
            if op[0] == '-':
                y = lift(lambda z: pscale(z, Fraction(-1)), y)
            v = lift(lambda i, k: T('iter', i.args[0], lift(padd, i.args[1], k)) if i.op == 'iter' else T('iternext', i, k), x, y)
            if op in ('+=', '-='):
                ad = lv(c[0], st, env)
                S.wr(ad, v, st)
                return A(ad)
            return R(v)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(c) == 2 and (q.startswith('std::') or q.startswith('__gnu_cxx')) :
            x, y = ev(c[0], st, env), ev(c[1], st, env)
            if iterlike(c[0].t):
                x, y = itnorm(S, x, st), itnorm(S, y, st)
                def cmpi(u, v_):
                    p = iterpair(S, u, v_, st)
                    if not isinstance(p, Tm):
                        raise Undecided('iterators into a conditional container')
                    u, v_ = p.args
                    if op in ('==', '!='):
                        e = S.equal(u, v_)
                        return e if op == '==' else bnot(e)
                    return S.binop(op, u, v_, 'bool', '', '', n)
                return R(lift(cmpi, x, y))
            if op in ('==', '!='):
                nx, ny = strip_targs(bare(c[0].t)), strip_targs(bare(c[1].t))
                if nx == 'std::optional' and ny not in ('std::optional', 'std::nullopt_t'):
                    y = lift(lambda z: T('some', z), y)
                elif ny == 'std::optional' and nx not in ('std::optional', 'std::nullopt_t'):
                    x = lift(lambda z: T('some', z), x)
                if ny == 'std::nullopt_t':
                    y = NULL
                e = S.equal(x, y)
                return R(e if op == '==' else bnot(e))
            if t0 in ('std::pair', 'std::tuple'):
                return R(lexi(S, op, x, y, n))
            if S.sort(c[0].t) is None:
                def sl(u, v_):
                    if u.op == 'cmp3' and strip_targs(bare(c[0].t)).endswith('_ordering'):
                        return S.binop(op, u.args[0], u.args[1], 'bool', '', '', n)
                    if op == '<':
                        return batom(T('vlt', u, v_))
                    if op == '>':
                        return batom(T('vlt', v_, u))
                    if op == '<=':
                        return bnot(batom(T('vlt', v_, u)))
                    return bnot(batom(T('vlt', u, v_)))
                return R(lift(lambda u, v_: FALSE if u is v_ and op in '<>' else TRUE if u is v_ else sl(u, v_), x, y))
            return R(S.binop(op, x, y, 'bool', c[0].t, c[1].t, n))
        if op == '+' and q == 'std::operator+' and 'basic_string' in n.t:
            return R(lift(concat, ev(c[0], st, env), ev(c[1], st, env)))
        if op == '+=' and t0 == 'std::basic_string':
            ad = lv(c[0], st, env)
            S.wr(ad, lift(concat, S.rd(ad, st), ev(c[1], st, env)), st)
            return A(ad)
        if op == '<<' and ('ostream' in n.t or 'stringstream' in n.t or 'ostream' in t0):
            if 'stringstream' in c[0].t or 'ostringstream' in c[0].t:
                return stream_out(S, n, c, st, env, want)
            return stream_out(S, n, c, st, env, want)
        if op == '=' and t0 in PTR | {'std::optional'} and strip_targs(bare(c[1].t)) == 'std::nullptr_t':
            ad = lv(c[0], st, env)
            S.wr(ad, NULL, st)
            return A(ad)
        if op == '()' and t0 == 'std::function':
            return None
        if op == '()' and t0 in ('std::hash',):
            return R(lift(lambda x: T('hash', x, sort='u'), S.num(ev(c[1], st, env), n)))
        if op == '()' and t0 in ('std::less', 'std::greater', 'std::plus', 'std::minus', 'std::multiplies', 'std::equal_to'):
            o2 = {'std::less': '<', 'std::greater': '>', 'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::equal_to': '=='}[t0]
            return R(S.binop(o2, ev(c[1], st, env), ev(c[2], st, env), n.t, c[1].t, c[2].t, n))
    return None


def concat(x, y):
    if x.op == 'str' and y.op == 'str':
        return T('str', x.args[0] + y.args[0])
    if x.op == 'str' and x.args[0] == '':
        return y
    if y.op == 'str' and y.args[0] == '':
        return x
    # flatten
    l = list(x.args) if x.op == 'cat' else [x]
    r = list(y.args) if y.op == 'cat' else [y]
    if l[-1].op == 'str' and r[0].op == 'str':
        l[-1:] = [T('str', l[-1].args[0] + r[0].args[0])]
        r = r[1:]
    return T('cat', *(l + r))


def stream_out(S, n, c, st, env, want):
    ad = S.lv(c[0], st, env)
    x = S.ev(c[1], st, env)
    x = S.canon(x, st)
    old = S.rd(ad, st)

    def f(o, v):
        l = list(o.args) if o.op == 'stream' else [o]
        if l[-1].op == 'str' and v.op == 'str':
            l[-1] = T('str', l[-1].args[0] + v.args[0])
            return T('stream', *l)
        return T('stream', *(l + [v]))
    S.wr(ad, S.lift_or_embed(f, [old, x]), st)
    return S.addr_res(ad, st, n, want)


def lexi(S, op, x, y, n):
    def parts(v):
        if v.op == 'obj' and v.args[0] is None:
            return [b for _, b in v.args[1]]
        return [v]

    def lessv(a, b):
        def f(u, v):
            pu, pv = parts(u), parts(v)
            if len(pu) != len(pv):
                return batom(T('vlt', u, v))
            r = FALSE
            for i in reversed(range(len(pu))):
                e = S.equal(pu[i], pv[i])
                l = lift(lambda p, q_: lt(p, q_) if t.isnum(p) or t.isnum(q_) else FALSE if p is q_ else batom(T('vlt', p, q_)), S.num(pu[i], n), S.num(pv[i], n))
                r = bor(l, band(e, r))
            return r
        return lift(f, a, b)
    if op == '<':
        return lessv(x, y)
    if op == '>':
        return lessv(y, x)
    if op == '<=':
        return bnot(lessv(y, x))
    return bnot(lessv(x, y))


def objminmax(S, base, xs, n, st, want):
    """min/max of a class type that converts to a number"""
    def num1(v):
        if v.op == 'obj' and v.args[0] is None and len(v.args[1]) == 1:
            return v.args[1][0][1]
        r = S.record(n.t)
        if r is not None and len(r['fields']) == 1:
            return get_field(v, strip_targs(r['q'] + '::' + r['fields'][0][0]), S.sort(r['fields'][0][1]))
        return None

    def f(a, b):
        x, y = num1(a), num1(b)
        if x is None or y is None:
            return T('call', 'std::' + base, a, b)
        c = lift(lt, x, y)
        if base == 'max':
            return ite(c, b, a)
        c = lift(lt, y, x)
        return ite(c, b, a)
    v = lift(f, *xs)
    return S.res(v, st, n, want)


def iterlike(ty):
    b = strip_targs(bare(ty))
    return b in ITER


def iter_addr(S, i):
    if i.op == 'iter':
        a = S.toaddr(i.args[0])
        if isinstance(i.args[1], Tm):
            return T('addr', a.args[0], a.args[1] + (('[', i.args[1]),))
        return lift(lambda k: T('addr', a.args[0], a.args[1] + (('[', k),)), i.args[1])
    if i.op == 'find':
        a = S.toaddr(i.args[0])
        return T('addr', a.args[0], a.args[1] + (('entry', i.args[2]),))
    return T('addr', T('D', i), ())


def itnorm(S, v, st):
    return v


def iterpair(S, u, v, st):
    """normalise two iterators before comparison"""
    def pos(x, other):
        if x.op == 'endit' and other.op == 'iter':
            return T('iter', x.args[0], lift(mk_size, S.rd(x.args[0], st)))
        return x
    u, v = pos(u, v), pos(v, u)
    if u.op == 'iter' and v.op == 'iter' and u.args[0] is v.args[0]:
        return T('ipair', u.args[1], v.args[1]) if isinstance(u.args[1], Tm) and isinstance(v.args[1], Tm) else T('ipair', u, v)
    return T('ipair', u, v)


def elem_type(ty):
    b = bare(ty)
    i = b.find('<')
    if i < 0:
        return ''
    d = 0
    for k in range(i, len(b)):
        if b[k] == '<':
            d += 1
        elif b[k] == '>':
            d -= 1
            if d == 0:
                return b[i + 1:k].strip()
        elif b[k] == ',' and d == 1:
            return b[i + 1:k].strip()
    return ''


def emplace_value(S, ety, a, st, env, n):
    """value constructed from the arguments of emplace-like calls"""
    vals = [S.ev(x, st, env) for x in a if x.k != 'defarg']
    if len(vals) == 1:
        s = S.sort(ety)
        if s:
            return S.conv(vals[0], a[0].t, ety)
        if strip_targs(bare(a[0].t)) == strip_targs(bare(ety)):
            return vals[0]
        if strip_targs(ety) in ('std::shared_ptr', 'std::unique_ptr', 'std::basic_string') or isptr(ety):
            return vals[0]
    if not vals:
        return S.zero(ety)
    if strip_targs(bare(ety)) == 'std::pair' and len(vals) == 2:
        return mk_obj(None, {'first': vals[0], 'second': vals[1]})
    # a constructor of an in-repo class with that many parameters
    cands = []
    q = strip_targs(bare(ety))
    cls = bare(ety)
    while True:
        for f in S.P.ctors(cls):
            if (len(f.params) == len(vals) or len(f.params) > len(vals) and f.defaults and all(x is not None for x in f.defaults[len(vals):])) and 'd' not in f.fl and 'i' not in f.fl:
                if len(vals) == 1 and bare(f.params[0].t) == bare(cls):
                    continue
                cands.append(f)
        rr = S.P.record_of(cls)
        if rr is None or rr['fields'] or len(rr.get('bases') or ()) != 1:
            break
        b0 = rr['bases'][0]
        cls = b0 if isinstance(b0, str) else b0[0]
    fit = [f for f in cands if all(bare(p.t) == bare(x.t) for p, x in zip(f.params, a))]
    if len(fit) > 1:
        fit = [f for f in fit if not f.params[-1].t.endswith('&&')] or fit
    fit = [f for f in fit if len(f.params) == len(vals)] or fit
    fit = fit[:1] if fit and len({tuple(bare(p.t) for p in f.params) for f in fit}) == 1 else fit
    if not fit:
        fit = [f for f in cands if all((S.sort(p.t) is None) == (S.sort(x.t) is None) for p, x in zip(f.params, a))]
    cands = fit[:1] if len(fit) >= 1 and len({bare(p.t) for f in fit for p in f.params}) == len(fit[0].params) or len(fit) == 1 else fit
    if len(cands) == 1 and S.can_inline(cands[0]):
        f = cands[0]
        extra = [('v', S.conv(S.ev(x, st, {'$frame': 0}), x.t, p.t), x) for x, p in zip(f.defaults[len(vals):], f.params[len(vals):])] if len(f.params) > len(vals) else []
        ad = S.mat(UNDEF, st, ety)
        S.run_ctor(f, ad, [('v', S.conv(v, x.t, p.t), x) for v, x, p in zip(vals, a, f.params)] + extra, st, n)
        return S.rd(ad, st)
    if not cands and any(len(f.params) > len(vals) for f in S.P.ctors(bare(ety))):
        return S.unk(n, 'default arguments of an emplaced object')
    if q == 'ClipperLib::IntPoint' and len(vals) == 2:
        return mk_obj(None, {vg.PX: vals[0], vg.PY: vals[1]})
    r = S.record(ety)
    if r is not None and not cands and len(r['fields']) == len(vals) and not r.get('bases'):
        return mk_obj(None, {strip_targs(r['q'] + '::' + fl[0]): S.conv(v, x.t, fl[1]) for fl, v, x in zip(r['fields'], vals, a)})
    return S.lift_or_embed(lambda *vs: T('make', q, *vs), [S.canon(v, st) for v in vals])


def make_new(S, n, d, a, st, env):
    m = re.match(r'^(.*)$', d.ta or '')
    ety = elem_type(n.t)
    v = emplace_value(S, ety, a, st, env, n)
    return lift(lambda x: T('new', x), v)


def alg_loop(S, n, base, a, st, env, want):
    """algorithms over the whole of a container are the loops they abbreviate"""
    s0 = st.copy()
    b, e = S.ev(a[0], s0, env), S.ev(a[1], s0, env)
    if not (isinstance(b, Tm) and b.op == 'iter' and isinstance(e, Tm) and e.op in ('iter', 'endit') and b.args[0] is e.args[0]) or b.args[1] is not ZERO:
        return None
    X = b.args[0]
    if e.op == 'iter' and e.args[1] is not lift(mk_size, S.rd(X, s0)):
        return None
    sink = fv = acc = None
    if base == 'accumulate':
        if len(a) > 3:
            fv = S.ev(a[3], s0, env)
        init = S.ev(a[2], s0, env)
        acc = S.fresh('acc', a[2].t)
        s0.m[acc] = init
    elif base == 'for_each':
        fv = S.ev(a[2], s0, env)
    else:
        c = a[2]
        while c is not None and c.k in ('icast', 'cast', 'tmp', 'bind', 'ctor', 'x') and len(c.ch) == 1:
            c = c.ch[0]
        if c is None or c.k != 'call' or c.cq() != 'std::back_inserter':
            return None
        sink = S.lv(c.ch[0], s0, env)
        if sink is None or sink is X:
            return None
        if base != 'copy':
            fv = S.ev(a[3], s0, env)
    if fv is not None and not all(x.op == 'clos' for x in t.leaves(fv)):
        return None
    ety = elem_type(a[0].t)
    ic = S.fresh('idx', 'unsigned long')
    s0.m[ic] = ZERO

    class Fake:
        pass
    fake = Fake()
    fake.t, fake.fn, fake.l, fake.k = 'void', n.fn, n.l, 'call'

    def cond(s):
        return lift(lambda i, z: lt(i, z), s.m[ic], lift(mk_size, S.rd(X, s)))

    def app(args, s, rt):
        fake.t = rt
        return S.callvalue(fv, [(k, x, None) for k, x in args], s, fake, 'v')

    def body(s):
        el = S.subi(X, s.m[ic])
        if base == 'for_each':
            app([('a', el)], s, 'void')
        elif base == 'accumulate':
            if fv is not None:
                r = app([('v', s.m[acc]), ('a', el)], s, a[2].t)
            else:
                r = lift(padd, S.num(s.m[acc], n), S.num(S.rd(el, s, S.sort(ety)), n))
            s.m[acc] = r
        else:
            x = S.rd(el, s, S.sort(ety))
            g = TRUE
            if base == 'copy_if':
                g = S.tobool(app([('a', el)], s, 'bool'))
            elif fv is not None:
                x = app([('a', el)], s, '')
            old = S.rd(sink, s)
            new = lift(lambda o: T("app", o, x), old)
            S.wr(sink, ite(g, new, old), s)
        return {'fall': (TRUE, s)}

    def inc(s):
        s.m[ic] = lift(lambda i: padd(i, ONE), s.m[ic])
    out = S.loop(s0, env, cond=cond, body=body, inc=inc, n=n)
    if set(out) != {'fall'}:
        return None
    s1 = out['fall'][1]
    st.m, st.exc = s1.m, s1.exc
    if base == 'accumulate':
        return S.res(st.m[acc], st, n, want)
    return S.res(VOID, st, n, want)


def alg_mut(S, n, d, base, a, st, env, want):
    vals = [S.ev(x, st, env) for x in a]
    cvals = [S.canon(v, st) for v in vals]
    target = 0
    if base in ('copy', 'transform', 'move', 'copy_if'):
        return None
    v = vals[0]

    def f(*vs):
        return T('alg', d.n, *vs)
    for leaf in t.leaves(v):
        if leaf.op == 'iter':
            new = S.lift_or_embed(f, cvals)
            S.wr(leaf.args[0], new, st)
    r = S.lift_or_embed(lambda *vs: T('call', 'std::' + base, *vs), cvals)
    return S.res(r, st, n, want)


def container_method(S, n, name, ad, a, oty, st, env, want):
    ev = S.ev
    kind = 'map' if oty in MAP else 'set' if oty in SET else 'vec'

    def R(v):
        return S.res(v, st, n, want)

    def A(addr):
        return S.addr_res(addr, st, n, want)
    v = None

    def V():
        return S.rd(ad, st)
    if name in ('size', 'length'):
        return R(lift(mk_size, V()))
    if name == 'empty':
        return R(lift(lambda x: lift(lambda z: eqnum(z, ZERO), mk_size(x)), V()))
    if name in ('reserve', 'shrink_to_fit', 'max_load_factor'):
        return R(VOID)
    if name in ('c_str', 'data', 'str', 'operator basic_string_view', 'view') and oty in ('std::basic_string', 'std::basic_string_view'):
        return R(V())
    if name == 'clear':
        S.wr(ad, T('str', '') if oty == 'std::basic_string' else T('list'), st)
        return R(VOID)
    if name in ('begin', 'cbegin'):
        return R(lift(lambda x: T('iter', x, ZERO), ad))
    if name in ('end', 'cend'):
        if kind != 'vec':
            return R(lift(lambda x: T('endit', x), ad))
        return R(lift(lambda x, z: T('iter', x, z), ad, lift(mk_size, V())))
    if name in ('rbegin', 'crbegin', 'rend', 'crend'):
        return None
    if kind in ('map', 'set'):
        if name in ('find',):
            k = ev(a[0], st, env)
            return R(lift(lambda x, m, kk: T('find', x, m, kk), ad, V(), S.num(k, n)))
        if name in ('contains', 'count'):
            k = ev(a[0], st, env)
            h = lift(has_, V(), S.num(k, n))
            return R(h if name == 'contains' else S.num(h, n))
        if name == 'at' and kind == 'map':
            k = S.num(ev(a[0], st, env), n)
            return A(S.subi(ad, k))
        if kind == 'map' and name in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
            if name == 'insert' and len(a) == 1:
                p = ev(a[0], st, env)
                k = lift(lambda x: get_field(x, 'first'), p)
                x = lift(lambda y: get_field(y, 'second'), p)
            elif len(a) == 2 and not iterlike(a[0].t):
                k, x = ev(a[0], st, env), ev(a[1], st, env)
                # mapped type conversions
                x = S.conv(x, a[1].t, maptype(n.obj().t)[1]) if n.k == 'mcall' else x
            else:
                return None
            k = S.num(k, n)
            old = V()
            new = lift(lambda m, kk: T('upd', m, kk, x), old, k)
            h = lift(has_, old, k)
            if name != 'insert_or_assign':
                new = ite(h, old, new)
            S.wr(ad, new, st)
            it = lift(lambda y, m, kk: T('find', y, m, kk), ad, V(), k)
            return R(lift(lambda i: mk_obj(None, {'first': i, 'second': bnot(h)}), it))
        if kind == 'set' and name in ('insert', 'emplace') and len(a) == 1:
            k = S.num(ev(a[0], st, env), n)
            old = V()
            h = lift(has_, old, k)
            new = ite(h, old, lift(lambda m, kk: T('ins', m, kk), old, k))
            S.wr(ad, new, st)
            return R(lift(lambda y, m, kk: mk_obj(None, {'first': T('find', y, m, kk), 'second': bnot(h)}), ad, old, k))
        if name == 'erase' and len(a) == 1 and iterlike(a[0].t):
            itv = ev(a[0], st, env)
            old = V()
            if all(isinstance(x, Tm) and x.op == 'find' and x.args[0] is ad for x in t.leaves(itv)):
                # the iterator designates an element, so it is present
                new = lift(lambda i: T('del', i.args[1], i.args[2]) if i.args[1] is old else T('erased', old, i), itv)
                S.wr(ad, new, st)
                return R(lift(lambda i: T('erasedit', i), itv))
            return None
        if name == 'erase' and len(a) == 1 and not iterlike(a[0].t):
            k = S.num(ev(a[0], st, env), n)
            old = V()
            h = lift(has_, old, k)
            S.wr(ad, ite(h, lift(lambda m, kk: T('del', m, kk), old, k), old), st)
            return R(S.num(h, n))
        return None
    if name == 'at':
        return A(S.subi(ad, S.num(ev(a[0], st, env), n)))
    if name == 'front':
        return A(S.subi(ad, ZERO))
    if name in ('back', 'top'):
        i = lift(lambda z: psub(z, ONE), lift(mk_size, V()))
        return A(S.subi(ad, i))
    if name in ('push_back', 'emplace_back', 'push'):
        ety = elem_type(n.obj().t) if n.k == 'mcall' else ''
        if not ety and n.k == 'mcall':
            # a class derived from a container: the inserted type of the inherited member
            ty = n.obj().t.rstrip(' *')
            for _ in range(4):
                r = S.P.record_of(bare(ty))
                if r is None or not r['bases']:
                    break
                b = r['bases'][0]
                ty = r['T'][b[0]] if isinstance(b, (list, tuple)) and isinstance(b[0], int) else b[0] if isinstance(b, (list, tuple)) else b
                if re.match(r'std::(vector|deque|list)<', ty):
                    ety = elem_type(ty)
                    break
        if name == 'emplace_back':
            x = emplace_value(S, ety, a, st, env, n)
        else:
            x = S.conv(ev(a[0], st, env), a[0].t, ety)
        old = V()
        S.wr(ad, lift(lambda m: T('app', m, x), old), st)
        if name == 'emplace_back':
            i = lift(mk_size, old)
            return A(S.subi(ad, i))
        return R(VOID)
    if name == 'pop_back':
        S.wr(ad, lift(lambda m: m.args[0] if m.op == 'app' else T('popped', m), V()), st)
        return R(VOID)
    if name == 'resize':
        k = S.num(ev(a[0], st, env), n)
        fill = ev(a[1], st, env) if len(a) > 1 else S.zero(elem_type(n.obj().t))
        S.wr(ad, lift(lambda m, kk: T('rep', kk, fill) if m.op == 'list' and not m.args else T('resized', m, kk, fill), V(), k), st)
        return R(VOID)
    if name == 'assign' and len(a) == 2 and not iterlike(a[0].t):
        k = S.num(ev(a[0], st, env), n)
        fill = ev(a[1], st, env)
        S.wr(ad, lift(lambda kk: T('rep', kk, fill), k), st)
        return R(VOID)
    if name == 'compare' and len(a) == 1:
        e = S.equal(V(), ev(a[0], st, env))
        return R(ite(e, ZERO, lift(lambda x, y: T('strcmp', x, y, sort='i'), V(), ev(a[0], st, env))))
    if name == 'erase' and a and iterlike(a[0].t):
        vals = [V()] + [S.canon(ev(x, st, env), st) for x in a]
        S.wr(ad, S.lift_or_embed(lambda *vs: T('erased', *vs), vals), st)
        return R(S.lift_or_embed(lambda *vs: T('erasedit', *vs), vals))
    return None


def maptype(ty):
    b = bare(ty)
    i = b.find('<')
    parts, d, cur = [], 0, ''
    for c in b[i + 1:]:
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += c
    parts.append(cur.strip())
    return parts + ['', '']


def ctor(S, n, d, st, env):
    """constructor of a standard-library class; None if not modelled"""
    cls = cls_of(strip_targs(d.q))
    a = [x for x in n.ch if x is None or x.k != 'defarg']
    ev = S.ev
    if not cls.startswith('std'):
        return None
    pt = split_params(d.t)
    ty = strip_targs(bare(n.t))
    if len(a) == 1 and pt and strip_targs(bare(pt[0])) == ty and isref(pt[0]):
        return ev(a[0], st, env)
    if ty == 'std::basic_string':
        if not a:
            return T('str', '')
        if len(a) == 1:
            return ev(a[0], st, env)
        return None
    if ty == 'std::basic_string_view' and len(a) == 1:
        return ev(a[0], st, env)
    if ty in ('std::vector', 'std::deque', 'std::list', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::queue', 'std::stack'):
        if not a:
            return T('list')
        if len(a) == 1 and (a[0].k == 'stdinit' or strip_targs(bare(a[0].t)) == 'std::initializer_list'):
            return ev(a[0], st, env)
        if len(a) == 1 and S.sort(a[0].t) in ('i', 'u'):
            k = S.num(ev(a[0], st, env), n)
            return lift(lambda kk: T('rep', kk, S.zero(elem_type(n.t))), k)
        if len(a) == 2 and S.sort(a[0].t) in ('i', 'u'):
            k = S.num(ev(a[0], st, env), n)
            x = S.conv(ev(a[1], st, env), a[1].t, elem_type(n.t))
            return lift(lambda kk: T('rep', kk, x), k)
        return None
    if ty == 'std::pair':
        if len(a) == 2:
            x, y = ev(a[0], st, env), ev(a[1], st, env)
            p = maptype(n.t)
            return mk_obj(None, {'first': S.conv(x, a[0].t, p[0]), 'second': S.conv(y, a[1].t, p[1])})
        if len(a) == 1:
            return ev(a[0], st, env)
        if not a:
            p = maptype(n.t)
            return mk_obj(None, {'first': S.zero(p[0]), 'second': S.zero(p[1])})
    if ty == 'std::tuple':
        if a and not (len(a) == 1 and strip_targs(bare(a[0].t)) == 'std::tuple'):
            p = maptype(n.t)
            return mk_obj(None, {'std::get%d' % i: S.conv(ev(x, st, env), x.t, p[i]) for i, x in enumerate(a)})
        if len(a) == 1:
            return ev(a[0], st, env)
    if ty == 'std::optional':
        if not a or strip_targs(bare(a[0].t)) == 'std::nullopt_t':
            return NULL
        if strip_targs(bare(a[0].t)) == 'std::optional':
            return ev(a[0], st, env)
        v = S.conv(ev(a[0], st, env), a[0].t, elem_type(n.t))
        return lift(lambda x: T('some', x), v)
    if ty in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
        if not a or strip_targs(bare(a[0].t)) in ('std::nullptr_t', 'nullptr_t'):
            return NULL
        return ev(a[0], st, env)
    if ty == 'std::function':
        if not a:
            return NULL
        return ev(a[0], st, env)
    if ty in ('std::atomic', 'std::reference_wrapper') and len(a) == 1:
        if ty == 'std::reference_wrapper':
            return ev(a[0], st, env)
        return ev(a[0], st, env)
    if ty.endswith('iterator') or iterlike(n.t):
        if len(a) == 1:
            return ev(a[0], st, env)
    return None
