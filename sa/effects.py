"""Interprocedural effect + lockset analysis.

For every function: which access paths (rooted at a parameter, `this`, a captured local or a global) may be read or
written, and which mutexes are held when that happens.  Effects of callees are substituted at call sites (parameters and
`this` replaced by the access paths of the actual arguments), so extracting or inlining helpers does not change a result.

path   = (root, step...)     step = field name | '[*]' | ('[', linear form) | '#'
root   = ('P', i) | ('T',) | ('G', name) | ('L', fn usr, decl index) | ('F',)
linear = (const, ((symbol, coef), ...))   symbol = access path of an immutable scalar
"""
import re
from core import strip_targs

MAXLEN = 10
INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char'}
STD_ACCESS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend', 'find', 'lower_bound', 'upper_bound', 'equal_range',
              'front', 'back', 'data', 'top'}
STD_SAME = {'get', 'value', 'move', 'forward', 'ref', 'cref', 'as_const', 'next', 'prev', 'addressof', 'operator->', 'operator*', 'lock', 'base',
            'make_move_iterator', 'static_pointer_cast', 'dynamic_pointer_cast', 'value_or', 'to_address', 'any_cast', 'release_ptr', 'enumerate',
            'min', 'max', 'exchange'}
STD_ALGO_IT = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'remove', 'remove_if', 'unique', 'next', 'prev',
               'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'partition', 'stable_partition', 'adjacent_find', 'transform'}
PTRLIKE = re.compile(r'(\*( const)?$)|&$|iterator|_Iter|reference_wrapper|shared_ptr|unique_ptr|weak_ptr|::span<|_view<|_view$|string_view|views::|subrange|_Rb_tree_|_Node_')
LOCKT = re.compile(r'^(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<')
MUTEXT = re.compile(r'std::(recursive_|shared_|timed_)?mutex')
ATOMIC = re.compile(r'^(const |volatile )*(struct |class )?(boost::(unordered::)?concurrent_|std::atomic|std::atomic_flag|std::__atomic|std::(recursive_|shared_|timed_)?mutex|std::condition_variable|std::once_flag)')


def strip_conds(p):
    return tuple(x for x in p if not (isinstance(x, tuple) and len(x) == 2 and x[0] == '?'))


def conds_of(p):
    for x in p[1:2]:
        if isinstance(x, tuple) and x[0] == '?':
            return x[1]
    return frozenset()


def add_conds(ps, cs):
    """attach branch conditions (key, value) to paths; contradictory alternatives disappear"""
    cs = frozenset(cs)
    out = set()
    for p in ps:
        c = conds_of(p)
        m = dict(c)
        if any(m.get(k, v) != v for k, v in cs):
            continue
        c = c | cs
        q = strip_conds(p)
        out.add((q[0],) + ((('?', c),) if c else ()) + q[1:])
    return out


def consistent(a, b):
    m = dict(a)
    return all(m.get(k, v) == v for k, v in b)


def ckey(n, depth=0):
    """canonical key of a side-effect free condition (None when it is not one)"""
    if n is None or depth > 10:
        return None
    if n.k in ('icast', 'cast'):
        return ckey(n.ch[0], depth + 1)
    if n.k == 'ref':
        d = n.decl()
        return ('r', d.u or n.a)
    if n.k == 'this':
        return ('t',)
    if n.k in ('int', 'bool', 'chr', 'str'):
        return (n.k, n.a)
    if n.k == 'null':
        return ('null',)
    if n.k == 'mem':
        b = ckey(n.ch[0], depth + 1)
        return b and ('m', n.decl().n, b)
    if n.k in ('un', 'bin') and n.a not in ('++', '--', 'p++', 'p--'):
        cs = [ckey(c, depth + 1) for c in n.ch]
        return None if None in cs else (n.k, n.a) + tuple(cs)
    if n.k in ('mcall', 'opcall') and n.decl() is not None and ('c' in n.decl().fl or n.k == 'opcall'):
        cs = [ckey(c, depth + 1) for c in n.ch]
        return None if None in cs else ('call', n.decl().u or n.decl().q) + tuple(cs)
    return None


def cond_pair(n, val):
    """(key, value) of a branch condition, negations folded"""
    while n is not None and (n.k in ('icast', 'cast') or (n.k == 'un' and n.a == '!')):
        if n.k == 'un':
            val = not val
        n = n.ch[0]
    k = ckey(n)
    return (k, val) if k is not None else None


def control_conds(n):
    """conditions of the if/switch branches that enclose a statement"""
    out = []
    x = n
    while x.p is not None and x.p.k != 'lambda':
        p = x.p
        if p.k == 'if' and len(p.ch) >= 5:
            if x is p.ch[3]:
                out.append(cond_pair(p.ch[2], True))
            elif x is p.ch[4]:
                out.append(cond_pair(p.ch[2], False))
        elif p.k == 'cond':
            if x is p.ch[1]:
                out.append(cond_pair(p.ch[0], True))
            elif x is p.ch[2]:
                out.append(cond_pair(p.ch[0], False))
        elif p.k == 'block' and p.p is not None and p.p.k == 'switch':
            lab = None
            for c in p.ch:
                if c is not None and c.k in ('case', 'default'):
                    lab = c
                if c is x:
                    break
            if lab is not None:
                out.append((('sw', p.p.id), lab.id))
        elif p.k == 'switch':
            pass
        x = p
    return [c for c in out if c is not None]


def param_conds(env, n, lim):
    """values of unmodified boolean parameters implied by the branches enclosing n: frozenset of (parameter index, value)"""
    out = set()
    for k, v in control_conds_nodes(n):
        st = [(k, v)]
        while st:
            c, v = st.pop()
            while c is not None and (c.k in ('icast', 'cast') or (c.k == 'un' and c.a == '!')):
                if c.k == 'un':
                    v = not v
                c = c.ch[0]
            if c is None:
                continue
            if c.k == 'bin' and (c.a == '&&' and v or c.a == '||' and not v):
                st += [(c.ch[0], v), (c.ch[1], v)]
            elif c.k == 'ref' and c.a in env.pidx and not env.assigned.get(c.a) and c.fn.D(c.a).t in ('bool', 'const bool'):
                out.add((env.pidx[c.a], v))
    return frozenset(out)


def control_conds_nodes(n):
    x = n
    while x.p is not None:
        p = x.p
        if p.k == 'if' and len(p.ch) >= 5:
            if x is p.ch[3]:
                yield p.ch[2], True
            elif x is p.ch[4]:
                yield p.ch[2], False
        elif p.k == 'cond':
            if x is p.ch[1]:
                yield p.ch[0], True
            elif x is p.ch[2]:
                yield p.ch[0], False
        elif p.k == 'bin' and p.a in ('&&', '||') and x is p.ch[1]:
            yield p.ch[0], p.a == '&&'
        x = p


def const_bool(n):
    while n is not None and n.k in ('icast', 'cast', 'defarg') and n.ch:
        n = n.ch[0]
    if n is None:
        return None
    if n.k == 'bool':
        return bool(int(n.a)) if not isinstance(n.a, bool) else n.a
    if n.k == 'un' and n.a == '!':
        v = const_bool(n.ch[0])
        return None if v is None else not v
    if n.k == 'ref':
        d = n.fn.D(n.a)
        if 'X' in d.fl or d.t == 'const bool':
            for v in n.fn.walk():
                if v.k == 'var' and v.a == n.a and v.ch:
                    return const_bool(v.ch[0])
    return None


def is_ptr_t(t):
    return t.rstrip().endswith('*') or t.rstrip().endswith('*const') or t.rstrip().endswith('* const')


def trunc(p):
    return p if len(p) <= MAXLEN else p[:MAXLEN] + (() if p[MAXLEN - 1] == '~' else ('~',))


def ext(ps, step):
    return {trunc(p + (step,)) for p in ps}


def sub_lin(lin, f):
    """substitute symbols (paths) by f(path) -> linear form or None"""
    c, items = lin
    acc = {}
    for s, k in items:
        r = f(s)
        if r is None:
            return None
        c += r[0] * k
        for s2, k2 in r[1]:
            acc[s2] = acc.get(s2, 0) + k * k2
    return (c, tuple(sorted(((s, k) for s, k in acc.items() if k), key=repr)))


def lin_add(a, b, k=1):
    acc = dict(a[1])
    for s, v in b[1]:
        acc[s] = acc.get(s, 0) + k * v
    return (a[0] + k * b[0], tuple(sorted(((s, v) for s, v in acc.items() if v), key=repr)))


class Eff:
    __slots__ = ('path', 'w', 'locks', 'chain', 'pc')

    def __init__(self, path, w, locks, chain, pc=frozenset()):
        self.path, self.w, self.locks, self.chain, self.pc = path, w, locks, chain, pc

    def key(self):
        return (self.path, self.w, self.locks)


class Effects:
    def __init__(self, P, parallel=('parallel_for', 'run_multiple_producers_ordered_consumer'), maxeff=4000):
        self.P = P
        self.parallel = set(parallel)
        self.envs = {}
        self.sums = {}
        self.rets = {}
        self.maxeff = maxeff
        self.sites = []          # parallel sites: (fn, call node)
        self.stats = {'accesses': 0, 'calls': 0, 'external_calls': 0, 'functions': 0, 'lambdas': 0}
        self.fieldinfo = {}

    def written_fields(self):
        """data members assigned anywhere outside of constructor initialisers"""
        if not hasattr(self, '_wf'):
            w = self._wf = set()
            for f in self.P.fns.values():
                if f.dep:
                    continue
                for n in f.walk():
                    t = None
                    if n.k in ('asg', 'casg') or (n.k == 'un' and n.a in ('++', '--', 'p++', 'p--', '&')):
                        t = n.ch[0]
                    elif n.k == 'opcall' and n.a[1] in WRITE_OPS and n.ch:
                        t = n.ch[0]
                    if t is not None and t.k == 'mem':
                        w.add(f.D(t.a).u)
        return self._wf

    # ------------------------------------------------------------------ alias environment
    def env(self, fn):
        e = self.envs.get(fn.u)
        if e is None:
            e = self.envs[fn.u] = Env(self, fn)
            e.build()
        return e


class Env:
    def __init__(self, E, fn):
        self.E, self.P, self.fn = E, E.P, fn
        self.alias = {}      # decl idx -> set(paths)
        self.assigned = {}   # decl idx -> number of writes beyond init
        self.init = {}       # decl idx -> init node
        self.lamvars = {}    # decl idx -> lambda node
        self.lams = []
        self.pidx = {d: i for i, d in enumerate(fn.r['p'])}
        self.loopvar = set()
        self.scope = {}      # decl idx -> lambda node in which it is declared (or None)
        self.lamparam = {}   # decl idx -> (lambda node, position)
        self.fsym = {}       # (local object path, never reassigned integer member) -> linear form of its constructor argument
        self.falias = {}     # (local object path, reference member) -> paths

    def root(self, i):
        if i in self.pidx:
            return (('P', self.pidx[i]),)
        d = self.fn.D(i)
        if 'G' in d.fl or (d.k == 'Var' and d.u):
            return (('G', d.u or d.q),)
        return (('L', self.fn.u, i),)

    def ptrlike(self, d):
        return bool(PTRLIKE.search(d.t))

    def build(self):
        fn = self.fn
        order = []
        cur = {}
        for n in fn.walk():
            if n.k == 'lambda':
                self.lams.append(n)
                for pos, pi in enumerate(n.a[1]):
                    self.lamparam[pi] = (n, pos)
            if n.k == 'var':
                order.append(n)
                # enclosing lambda
                lam = None
                for a in n.ancestors():
                    if a.k == 'lambda':
                        lam = a
                        break
                self.scope[n.a] = lam
                if n.ch:
                    self.init[n.a] = n.ch[0]
                    c = n.ch[0]
                    while c is not None and c.k in ('icast', 'cast') or (c is not None and c.k == 'ctor' and len(c.ch) == 1 and c.ch[0] is not None):
                        c = c.ch[0]
                    if c is not None and c.k == 'lambda':
                        self.lamvars[n.a] = c
            if n.k in ('asg', 'casg') and n.ch[0] is not None and n.ch[0].k == 'ref':
                self.assigned[n.ch[0].a] = self.assigned.get(n.ch[0].a, 0) + 1
            if n.k == 'un' and n.a in ('++', '--', 'p++', 'p--') and n.ch[0].k == 'ref':
                self.assigned[n.ch[0].a] = self.assigned.get(n.ch[0].a, 0) + 1
            if n.k == 'opcall' and n.a[1] in ('=', '+=', '-=', '++', '--', '*=', '/=') and n.ch and n.ch[0] is not None and n.ch[0].k == 'ref':
                self.assigned[n.ch[0].a] = self.assigned.get(n.ch[0].a, 0) + 1
            if n.k == 'rfor':
                pass
        # fixpoint over pointer-like locals
        for it in range(3):
            changed = False
            for n in order:
                changed |= self.bind(n)
            for n in fn.walk():
                if n.k == 'asg' and n.ch[0] is not None and n.ch[0].k == 'ref':
                    d = fn.D(n.ch[0].a)
                    if d.is_local() and self.ptrlike(d) and not d.t.endswith('&'):
                        changed |= self.add(n.ch[0].a, add_conds(self.paths(n.ch[1]), control_conds(n)) if 'mutex' in self.ptrset(n) else self.paths(n.ch[1]))
                elif n.k == 'opcall' and n.a[1] == '=' and n.ch[0] is not None and n.ch[0].k == 'ref':
                    d = fn.D(n.ch[0].a)
                    if d.is_local() and self.ptrlike(d) and not d.t.endswith('&'):
                        changed |= self.add(n.ch[0].a, self.paths(n.ch[1]))
                elif n.k == 'rfor':
                    changed |= self.bind_rfor(n)
                elif n.k == 'lambda':
                    # init captures
                    for (ci, byref), c in zip(n.a[0], n.ch):
                        if ci >= 0 and 'I' in fn.D(ci).fl and c is not None:
                            changed |= self.add(ci, self.paths(c))
            if not changed:
                break

    def ptrset(self, n):
        """'mutex' when the function chooses a mutex through a pointer variable (then alternatives are kept apart per branch)"""
        if not hasattr(self, '_hasmutexptr'):
            self._hasmutexptr = any(v.k == 'var' and MUTEXT.search(self.fn.D(v.a).t) and is_ptr_t(self.fn.D(v.a).t) or v.k == 'cond' and MUTEXT.search(v.t) for v in self.fn.walk())
        return 'mutex' if self._hasmutexptr else ''

    def replaced_under(self, i):
        """the initial value of a variable that is assigned once, under one condition, stays when that condition fails"""
        for n in self.fn.walk():
            if n.k == 'asg' and n.ch[0] is not None and n.ch[0].k == 'ref' and n.ch[0].a == i:
                cc = control_conds(n)
                return [(cc[0][0], not cc[0][1])] if len(cc) == 1 and isinstance(cc[0][1], bool) else []
        return []

    def add(self, i, ps):
        cur = self.alias.setdefault(i, set())
        n0 = len(cur)
        if len(cur) < 12:
            cur |= ps
        return len(cur) != n0

    def bind(self, n):
        fn = self.fn
        d = fn.D(n.a)
        ch = self.bind_ctor(n)
        if n.ch and n.ch[0] is not None and not ('G' in d.fl):
            if self.ptrlike(d) or d.k == 'Decomposition':
                # references / pointers / iterators designate what the initialiser designates
                if d.t.endswith('&') or self.ptrlike(d):
                    ps = self.paths(n.ch[0])
                    if self.assigned.get(n.a) == 1 and self.ptrset(n):
                        ps = add_conds(ps, self.replaced_under(n.a))
                    ch |= self.add(n.a, ps)
        if n.x:
            base = self.alias.get(n.a) or {self.root(n.a)}
            for j, b in enumerate(n.x):
                ch |= self.add(b, ext(base, 'first' if j == 0 else 'second' if j == 1 else 'get%d' % j))
        return ch

    def bind_rfor(self, n):
        # children: init, range, begin, end, cond, inc, loopvar, body
        rng, lv = n.ch[1], n.ch[6]
        if lv is None or rng is None:
            return False
        v = next((x for x in lv.walk() if x.k == 'var'), None)
        r = next((x for x in rng.walk(False) if x.k == 'var'), None)
        if v is None or r is None or not r.ch:
            return False
        d = self.fn.D(v.a)
        if not (self.ptrlike(d) or d.k == 'Decomposition'):
            return False
        ps = self.paths(r.ch[0])
        ch = False
        if d.t.endswith('&') or self.ptrlike(d):
            self.alias.pop(v.a, None) if False else None
            ch = self.add(v.a, ext(ps, '[*]'))
        if v.x:
            base = self.alias.get(v.a) or {self.root(v.a)}
            for j, b in enumerate(v.x):
                ch |= self.add(b, ext(base, 'first' if j == 0 else 'second' if j == 1 else 'get%d' % j))
        return ch

    # ------------------------------------------------------------------ designated objects
    def paths(self, n, depth=0):
        """access paths an expression designates (object for lvalues, pointee for pointers/iterators/smart pointers)"""
        if n is None or depth > 40:
            return set()
        k = n.k
        if k == 'ref':
            d = self.fn.D(n.a)
            if d.k not in ('Var', 'ParmVar', 'Decomposition', 'Binding'):
                return set()
            if n.a in self.alias and self.alias[n.a]:
                return set(self.alias[n.a])
            return {self.root(n.a)}
        if k == 'this':
            return {(('T',),)}
        if k == 'mem':
            d = self.fn.D(n.a)
            if d.k == 'Var':
                return {(('G', d.u or d.q),)}
            if d.k != 'Field':
                return set()
            return self.fld(self.paths(n.ch[0], depth + 1), d.n)
        if k == 'un':
            if n.a in ('*', '&', '++', '--', 'p++', 'p--'):
                return self.paths(n.ch[0], depth + 1)
            return set()
        if k in ('cast', 'icast', 'defarg', 'definit'):
            return self.paths(n.ch[0], depth + 1) if n.ch else set()
        if k == 'sub':
            return ext(self.paths(n.ch[0], depth + 1), self.index(n.ch[1]))
        if k == 'cond':
            a, b = self.paths(n.ch[1], depth + 1), self.paths(n.ch[2], depth + 1)
            c = cond_pair(n.ch[0], True)
            if c is not None and a != b:
                a, b = add_conds(a, [c]), add_conds(b, [(c[0], not c[1])])
            return a | b
        if k in ('asg', 'casg'):
            return self.paths(n.ch[0], depth + 1)
        if k == 'bin':
            if n.a == ',':
                return self.paths(n.ch[1], depth + 1)
            if n.a in ('+', '-') and is_ptr_t(n.t):
                return self.paths(n.ch[0], depth + 1) or self.paths(n.ch[1], depth + 1)
            return set()
        if k == 'ctor':
            if PTRLIKE.search(n.t) or ('optional' in n.t and 'reference_wrapper' in n.t):
                out = set()
                for c in n.ch[:1]:
                    out |= self.paths(c, depth + 1)
                return out
            return set()
        if k == 'opcall':
            op = n.a[1]
            d = n.decl()
            if d is not None and d.u in self.P.fns:
                return self.callret(n, depth)
            if op in ('*', '->', '++', '--', '='):
                return self.paths(n.ch[0], depth + 1)
            if op == '[]':
                return ext(self.paths(n.ch[0], depth + 1), self.index(n.ch[1]))
            if op in ('+', '-') and PTRLIKE.search(n.t):
                return self.paths(n.ch[0], depth + 1)
            if op == '|':
                return self.paths(n.ch[0], depth + 1)
            if op == '()':
                # range adaptor applied to a container
                out = set()
                for c in n.ch[1:]:
                    out |= self.paths(c, depth + 1)
                return out if PTRLIKE.search(n.t) else set()
            return set()
        if k == 'mcall':
            d = n.decl()
            if d is None:
                return set()
            if d.u in self.P.fns or 'v' in d.fl:
                return self.callret(n, depth)
            nm = d.n
            if nm == 'at':
                return ext(self.paths(n.ch[0], depth + 1), self.index(n.ch[1]))
            if nm in STD_ACCESS:
                if PTRLIKE.search(n.t) or '&' in d.t.split('(')[0] or '*' in d.t.split('(')[0] or nm in ('front', 'back', 'top'):
                    b = self.paths(n.ch[0], depth + 1)
                    if 'span' in (n.ch[0].t or '') and False:
                        return b
                    return ext(b, '[*]')
                return set()
            if nm in ('emplace_back', 'emplace_front', 'insert', 'emplace', 'try_emplace', 'erase', 'insert_or_assign'):
                return ext(self.paths(n.ch[0], depth + 1), '[*]')
            if nm in STD_SAME or nm.startswith('operator'):
                return self.paths(n.ch[0], depth + 1)
            return set()
        if k == 'call':
            if n.a < 0:
                return set()
            d = n.decl()
            if d.u in self.P.fns:
                return self.callret(n, depth)
            nm = d.n
            if d.q.startswith('std::') or d.q.startswith('ranges::') or d.q.startswith('boost::'):
                if nm in STD_SAME or nm in STD_ALGO_IT:
                    out = set()
                    for c in n.ch[:1]:
                        out |= self.paths(c, depth + 1)
                    return ext(out, '[*]') if nm in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend') else out
                if PTRLIKE.search(n.t) and not nm.startswith('make_'):
                    out = set()
                    for c in n.ch[:1]:
                        out |= self.paths(c, depth + 1)
                    return out
            return set()
        return set()

    def callret(self, n, depth):
        d = n.decl()
        rt = d.t.split('(')[0]
        if not (PTRLIKE.search(rt.strip()) or ('optional' in rt and 'reference_wrapper' in rt)):
            return set()
        out = set()
        for g in self.P.resolve(n):
            for p in self.E.retpaths(g):
                out |= self.subst(p, n, depth + 1)
        return out

    def subst(self, p, call, depth=0):
        """map a callee path to caller paths at this call"""
        r = p[0]
        if r[0] == 'T':
            if call.k == 'mcall':
                base = self.paths(call.ch[0], depth)
            elif call.k == 'opcall' and call.ch and call.callee() is not None and call.callee().k == 'CXXMethod':
                base = self.paths(call.ch[0], depth)
            else:
                base = set()
        elif r[0] == 'P':
            i = r[1]
            args = self.callargs(call)
            if i >= len(args) or args[i] is None:
                return set()
            base = self.paths(args[i], depth)
        elif r[0] == 'L':
            return {p} if r[1] == self.fn.u else set()
        else:
            base = {(r,)}
        if not base:
            return set()
        steps = []
        for s in p[1:]:
            if isinstance(s, tuple) and s[0] == '[':
                lin = sub_lin(s[1], lambda q: self.subst_sym(q, call))
                steps.append(('[', lin) if lin is not None else '[*]')
            else:
                steps.append(s)
        if steps and isinstance(steps[0], str):
            base = self.fld(base, steps[0])
            steps = steps[1:]
        return {trunc(b + tuple(steps)) for b in base}

    def fld(self, base, name):
        """field of an object; reference/pointer members of local objects stand for what their constructor bound them to"""
        out = set()
        for b in base:
            a = self.falias.get((b, name)) if len(b) == 1 else None
            if a:
                out |= a
            else:
                out.add(trunc(b + (name,)))
        return out

    def bind_ctor(self, n):
        c = n.ch[0] if n.ch else None
        if c is None or c.k != 'ctor':
            return False
        d = c.decl()
        if d is None or d.u not in self.P.fns:
            return False
        g = self.P.fns[d.u]
        ch = False
        for f, written, basecls, body in g.inits:
            if f is None or body is None:
                continue
            scalar = f.t.replace('const ', '') in INTT or f.t.endswith('LayerIndex')
            if not scalar and not (f.t.endswith('&') or is_ptr_t(f.t) or 'reference_wrapper' in f.t or 'shared_ptr' in f.t):
                continue
            b = body
            while b is not None and b.k in ('icast', 'cast', 'ctor', 'un') and b.ch:
                b = b.ch[0]
            if b is not None and b.k == 'ref' and b.a in g.r['p']:
                i = g.r['p'].index(b.a)
                if i < len(c.ch) and c.ch[i] is not None and scalar:
                    if f.u not in self.E.written_fields():
                        l = self.lin(c.ch[i])
                        if l is not None:
                            self.fsym[(self.root(n.a), f.n)] = l
                    continue
                if i < len(c.ch) and c.ch[i] is not None:
                    ps = self.paths(c.ch[i])
                    key = (self.root(n.a), f.n)
                    cur = self.falias.setdefault(key, set())
                    if not ps <= cur:
                        cur |= ps
                        ch = True
        return ch

    def subst_sym(self, q, call):
        if q[0][0] == 'P' and len(q) == 1:
            args = self.callargs(call)
            if q[0][1] < len(args):
                return self.lin(args[q[0][1]])
            return None
        s = self.subst(q, call)
        if len(s) == 1:
            x = next(iter(s))
            l = self.fsym.get((x[:-1], x[-1])) if len(x) > 1 else None
            return l if l is not None else (0, ((x, 1),))
        return None

    def callargs(self, call):
        if call.k == 'mcall':
            return call.ch[1:]
        if call.k == 'opcall' and call.callee() is not None and call.callee().k == 'CXXMethod':
            return call.ch[1:]
        if call.k == 'call' and call.a < 0:
            return call.ch[1:]
        return call.ch

    # ------------------------------------------------------------------ index expressions as linear forms
    def asgnode(self, i):
        if not hasattr(self, '_asg'):
            self._asg = {}
            for n in self.fn.walk():
                if n.k in ('asg', 'casg') and n.ch[0] is not None and n.ch[0].k == 'ref':
                    self._asg.setdefault(n.ch[0].a, n)
        return self._asg.get(i)

    def index(self, n):
        l = self.lin(n)
        return ('[', l) if l is not None else '[*]'

    def lin(self, n, depth=0):
        if n is None or depth > 12:
            return None
        k = n.k
        if k == 'int':
            return (int(n.a), ())
        if k in ('icast', 'cast', 'defarg'):
            return self.lin(n.ch[0], depth + 1) if n.ch else None
        if k == 'ctor' and len(n.ch) >= 1 and 'LayerIndex' in n.t:
            return self.lin(n.ch[0], depth + 1)
        if k == 'bin' and n.a in ('+', '-'):
            a, b = self.lin(n.ch[0], depth + 1), self.lin(n.ch[1], depth + 1)
            if a is None or b is None:
                return None
            return lin_add(a, b, 1 if n.a == '+' else -1)
        if k == 'opcall' and n.a[1] in ('+', '-') and len(n.ch) == 2 and ('LayerIndex' in n.t):
            a, b = self.lin(n.ch[0], depth + 1), self.lin(n.ch[1], depth + 1)
            if a is None or b is None:
                return None
            return lin_add(a, b, 1 if n.a[1] == '+' else -1)
        if k == 'bin' and n.a in ('*', '/'):
            a, b = self.lin(n.ch[0], depth + 1), self.lin(n.ch[1], depth + 1)
            if a is None or b is None:
                return None
            if n.a == '*':
                if a[1] and b[1]:
                    return None
                if not b[1]:
                    a, b = b, a
                return (a[0] * b[0], tuple((s, v * a[0]) for s, v in b[1] if a[0]))
            if b[1] or b[0] <= 0 or a[0] % b[0] or any(v % b[0] for _, v in a[1]):
                return None
            return (a[0] // b[0], tuple((s, v // b[0]) for s, v in a[1]))
        if k == 'mcall' and n.cname().startswith('operator') and not n.ch[1:]:
            return self.lin(n.ch[0], depth + 1)
        if k == 'mem' and n.ch and n.ch[0].k == 'this' and self.fn.D(n.a).k == 'Field' and (n.t.replace('const ', '') in INTT or n.t.endswith('LayerIndex')):
            d = self.fn.D(n.a)
            if d.u not in self.E.written_fields():
                return (0, (((('T',), d.n), 1),))
            return None
        if k == 'mem' and self.fn.D(n.a).n in ('value', 'value_') and 'LayerIndex' in (n.ch[0].t or ''):
            return self.lin(n.ch[0], depth + 1)
        if k == 'ref':
            d = self.fn.D(n.a)
            if d.k == 'EnumConstant':
                return None
            if d.is_local():
                if n.a in self.lamparam or n.a in self.pidx:
                    w = (0, ((self.root(n.a), 1),))
                    na = self.assigned.get(n.a, 0)
                    if na == 0:
                        return w
                    if na == 1:
                        # a single affine update at the top of the body: value before / after it
                        a = self.asgnode(n.a)
                        if a is None or a.p is None or a.p.k != 'block' or (a.p.p is not None and a.p.p.k not in ('lambda',)):
                            return None
                        if n.id <= a.ch[0].id + 0 or any(y is a for y in n.ancestors()):
                            return w
                        if n.id < a.id:
                            return w
                        if a.k == 'asg':
                            return self.lin(a.ch[1], depth + 1)
                        r = self.lin(a.ch[1], depth + 1)
                        if r is None:
                            return None
                        if a.a == '*=' and not r[1]:
                            return (0, ((self.root(n.a), r[0]),)) if r[0] else None
                        if a.a in ('+=', '-='):
                            return lin_add(w, r, 1 if a.a == '+=' else -1)
                    return None
                if self.assigned.get(n.a, 0) == 0:
                    ini = self.init.get(n.a)
                    if ini is not None:
                        r = self.lin(ini, depth + 1)
                        if r is not None:
                            return r
                    # immutable local of unknown value: a symbol, invariant only outside of the lambda that declares it
                    return (0, ((self.root(n.a), 1),))
                return None
        return None


def _ret_build(E, fn):
    env = E.env(fn)
    out = set()
    rt = fn.r['rt']
    for n in fn.walk(False):
        if n.k == 'return' and n.ch and n.ch[0] is not None:
            for p in env.paths(n.ch[0]):
                if p[0][0] in ('P', 'T', 'G'):
                    out.add(strip_conds(p))
    return out


def retpaths(self, fn):
    r = self.rets.get(fn.u)
    if r is None:
        self.rets[fn.u] = set()     # recursion guard
        r = self.rets[fn.u] = _ret_build(self, fn)
    return r


Effects.retpaths = retpaths


# ---------------------------------------------------------------------- locks held at each node
class Locks:
    """must-held lock paths at every CFG event of a function/lambda body"""

    def __init__(self, env, lam=None):
        self.env = env
        self.at = {}       # node id -> frozenset(lock paths)
        self.acq = []      # (node, lockpaths, held before)
        self.exit_held = None
        cfg = env.fn.cfg(lam)
        if cfg is None:
            return
        self.cfg = cfg
        self.run(cfg)

    def lockpath(self, n):
        """a lock is the set of mutexes the expression may denote, each with the branch conditions under which it does"""
        ps = self.env.paths(n)
        return frozenset(ps) if ps else None

    def run(self, cfg):
        fn = self.env.fn
        IN = {cfg.entry: frozenset()}
        guards = {}     # decl idx -> lock paths
        order = cfg.order()
        changed = True
        it = 0
        res = {}
        while changed and it < 20:
            changed = False
            it += 1
            for b in order:
                if b not in IN:
                    continue
                held = IN[b]
                for kind, x in cfg.events(cfg.b[b]):
                    held = self.step(kind, x, held, guards)
                res[b] = held
                for s in cfg.b[b].succ:
                    if s < 0:
                        continue
                    o = IN.get(s)
                    nw = held if o is None else (o & held)
                    if nw != o:
                        IN[s] = nw
                        changed = True
        # final pass: record
        self.acq = []
        for b in order:
            if b not in IN:
                continue
            held = IN[b]
            for kind, x in cfg.events(cfg.b[b]):
                if kind == 'n':
                    self.at[x.id] = held
                held = self.step(kind, x, held, guards, True)
        self.exit_held = IN.get(cfg.exit)

    def step(self, kind, x, held, guards, rec=False):
        if kind == 'D':
            ps = guards.get(x.i)
            if ps:
                return frozenset(h for h in held if h not in ps)
            return held
        if kind != 'n':
            return held
        n = x
        fn = self.env.fn
        var = None
        if n.k == 'decl':
            for v in n.ch:
                if v is not None and v.k == 'var' and LOCKT.match(fn.D(v.a).t):
                    held = self.decl_guard(v, held, guards, rec)
            return held
        if n.k == 'var' and LOCKT.match(fn.D(n.a).t):
            return self.decl_guard(n, held, guards, rec)
        if n.k == 'mcall':
            nm = n.cname()
            if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock') and n.ch and n.ch[0] is not None:
                t = n.ch[0].t
                ps = None
                if MUTEXT.search(t) and not LOCKT.match(t):
                    lp = self.lockpath(n.ch[0])
                    ps = {lp} if lp else set()
                elif LOCKT.match(t) or 'lock' in t:
                    b = n.ch[0]
                    if b.k == 'ref':
                        ps = guards.get(b.a)
                        if ps is None and b.a in self.env.pidx:
                            ps = {frozenset({self.env.root(b.a) + ('<lock>',)})}
                    if ps is None:
                        lp = self.lockpath(b)
                        ps = {frozenset(x + ('<lock>',) for x in lp)} if lp else None
                if ps is not None:
                    if nm.startswith('lock'):
                        if rec:
                            self.acq.append((n, frozenset(ps), held))
                        return held | ps
                    if nm.startswith('unlock'):
                        return frozenset(h for h in held if h not in ps)
        return held

    def decl_guard(self, v, held, guards, rec):
        ps = set()
        c = v.ch[0] if v.ch else None
        deferred = False
        if c is not None:
            args = [c]
            if c.k in ('ctor', 'init') or c.k == 'call':
                args = c.ch
            for a in args:
                if a is None:
                    continue
                if 'defer_lock' in a.t or 'try_to_lock' in a.t:
                    deferred = True
                    continue
                if 'adopt_lock' in a.t:
                    continue
                lp = self.lockpath(a)
                if lp:
                    ps.add(lp)
        guards[v.a] = ps
        if deferred:
            return held
        if rec:
            self.acq.append((v, frozenset(ps), held))
        return held | ps


def locks_of(self, fn, lam=None):
    if not hasattr(self, '_lk'):
        self._lk = {}
    k = (fn.u, lam.id if lam is not None else None)
    if k not in self._lk:
        self._lk[k] = Locks(self.env(fn), lam)
    return self._lk[k]


Effects.locks_of = locks_of


# ---------------------------------------------------------------------- effect collection
EXT_WRITERS = {'swap', 'exchange', 'getline', 'merge', 'splice', 'iter_swap', 'swap_ranges', 'operator>>', 'from_chars'}
WRITE_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=', '++', '--'}
EXTEND = {'mem', 'sub'}


def split_params(t):
    """parameter type strings of a function type string"""
    i = t.find('(')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    # find the parameter list: last balanced (...) group at depth 0 before cv/noexcept
    j = i + 1
    depth = 1
    while j < len(t) and depth:
        c = t[j]
        if c in '(<[{':
            depth += 1
        elif c in ')>]}':
            if c == '>' and t[j - 1] == '-':
                pass
            else:
                depth -= 1
        if depth == 1 and c == ',':
            out.append(cur.strip())
            cur = ''
        elif depth:
            cur += c
        j += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def nonconst_ref(pt):
    pt = pt.strip()
    if pt.endswith('&&'):
        return False
    if pt.endswith('&'):
        return not pt.startswith('const ')
    if is_ptr_t(pt):
        return not pt.startswith('const ')
    return False


def resolve_locks(tokens, cs):
    """mutexes certainly held given the branch conditions under which an access happens"""
    out = set()
    for t in tokens:
        if isinstance(t, tuple):       # already a plain path
            out.add(t)
            continue
        alts = {strip_conds(p) for p in t if consistent(conds_of(p), cs)}
        if len(alts) == 1:
            out |= alts
    return frozenset(out)


class Unit:
    """a function body or a lambda body"""
    __slots__ = ('fn', 'lam')

    def __init__(self, fn, lam=None):
        self.fn, self.lam = fn, lam

    @property
    def key(self):
        return (self.fn.u, self.lam.id if self.lam is not None else None)


def summary(self, fn, lam=None, stack=()):
    """list of Eff for a unit (function or lambda body); nested lambdas are included where they are invoked or passed"""
    key = (fn.u, lam.id if lam is not None else None)
    s = self.sums.get(key)
    if s is not None:
        return s
    if key in stack or len(stack) > 60:
        self._hit_rec = True
        return []
    s = collect(self, fn, lam, stack + (key,))
    # cycles: a summary computed while one of its callees was on the stack is cached all the same after a second round
    self.sums[key] = s
    return s


Effects.summary = summary


def collect(E, fn, lam, stack):
    env = E.env(fn)
    lk = E.locks_of(fn, lam)
    out = {}
    P = E.P
    E.stats['lambdas' if lam is not None else 'functions'] += 1

    def held(n):
        x = n
        while x is not None:
            if x.id in lk.at:
                return lk.at[x.id]
            x = x.p
            if x is not None and x.k == 'lambda' and x is not lam:
                pass
            if x is lam:
                break
        return frozenset()

    def emit(paths, w, n, locks=None, chain=None, pc=frozenset()):
        locks0 = held(n) if locks is None else locks
        if boolparams:
            pc = pc | param_conds(env, n, lam)
        for p in paths:
            locks = resolve_locks(locks0, conds_of(p))
            p = strip_conds(p)
            r = p[0]
            if r[0] == 'F':
                continue
            if r[0] == 'L':
                if lam is None:
                    continue
                if not declared_outside(r):
                    continue
            if r[0] == 'P' and lam is None:
                if not byref_param(r[1]) and len(p) >= 1:
                    # a by-value parameter object: only what it points to is visible outside
                    continue
            k = (p, w, locks, pc)
            if k not in out and len(out) < E.maxeff:
                out[k] = Eff(p, w, locks, (chain or ()) if chain is not None else ((n.loc(),)), pc)
            elif k not in out:
                E.overflow = True

    pt = [fn.D(i).t for i in fn.r['p']]
    boolparams = any(t in ('bool', 'const bool') for t in pt)

    def byref_param(i):
        return i < len(pt) and bool(PTRLIKE.search(pt[i]))

    def declared_outside(r):
        if r[1] != fn.u:
            return True
        i = r[2]
        if lam is not None:
            if i in lam.a[1]:
                return True    # work item itself: kept, filtered by the consumer
            l2 = env.scope.get(i)
            lp = env.lamparam.get(i)
            if lp is not None:
                # parameter of some lambda: outside iff that lambda encloses lam
                return lp[0] is not lam and any(a is lp[0] for a in lam.ancestors())
            # declared in l2 (lambda) or function
            x = l2
            while x is not None:
                if x is lam:
                    return False
                nx = None
                for a in x.ancestors():
                    if a.k == 'lambda':
                        nx = a
                        break
                x = nx
            # bindings have no scope entry of their own: look at alias
            if i not in env.scope:
                return False
            return True
        return False

    def lam_effects(l, n, args=None, extra=frozenset()):
        for e in E.summary(fn, l, stack):
            ps = {e.path}
            # parameters of the lambda replaced by the actual arguments
            if e.path[0][0] == 'L' and e.path[0][1] == fn.u and e.path[0][2] in l.a[1]:
                if args is None:
                    continue
                pos = l.a[1].index(e.path[0][2])
                if pos >= len(args) or args[pos] is None:
                    continue
                d = fn.D(e.path[0][2])
                if not PTRLIKE.search(d.t):
                    continue
                ps = {trunc(b + e.path[1:]) for b in env.paths(args[pos])}
            if args is not None:
                ps2 = set()
                for p in ps:
                    ps2.add(tuple([p[0]] + [relin(s, l, args) for s in p[1:]]))
                ps = ps2
            emit(ps, e.w, n, held(n) | e.locks | extra, (n.loc(),) + e.chain[:5], e.pc)

    def map_pc(pc, args):
        """None when the branch cannot be taken with these arguments"""
        out = set()
        for i, v in pc:
            a = args[i] if i < len(args) else None
            c = const_bool(a)
            if c is not None:
                if c != v:
                    return None
                continue
            while a is not None and a.k in ('icast', 'cast') and a.ch:
                a = a.ch[0]
            if a is not None and a.k == 'ref' and a.a in env.pidx and not env.assigned.get(a.a):
                out.add((env.pidx[a.a], v))
        return frozenset(out)

    def relin(s, l, args):
        if not isinstance(s, tuple) or s[0] != '[':
            return s

        def f(q):
            if q[0][0] == 'L' and q[0][1] == fn.u and q[0][2] in l.a[1] and len(q) == 1:
                pos = l.a[1].index(q[0][2])
                return env.lin(args[pos]) if pos < len(args) else None
            return (0, ((q, 1),))
        r = sub_lin(s[1], f)
        return ('[', r) if r is not None else '[*]'

    def find_lambda(a):
        """lambda node an argument denotes (directly or through a local variable)"""
        x = a
        for _ in range(8):
            if x is None:
                return None
            if x.k == 'lambda':
                return x
            if x.k in ('icast', 'cast') and x.ch:
                x = x.ch[0]
            elif x.k == 'ctor' and len(x.ch) >= 1:
                x = x.ch[0]
            elif x.k == 'ref' and x.a in env.lamvars:
                return env.lamvars[x.a]
            elif x.k == 'call' and x.cname() in ('move', 'forward', 'ref', 'cref') and x.ch:
                x = x.ch[0]
            else:
                return None
        return None

    def isatomic(n):
        return bool(ATOMIC.match(n.t or ''))

    def visit(n, ctx):
        """ctx: 'r' value read, 'w' written, 'rw', 'n' neutral (address / designator only)"""
        if n is None:
            return
        k = n.k
        if k == 'lambda':
            for (ci, byref), c in zip(n.a[0], n.ch):
                if ci >= 0 and not byref and c is not None:
                    visit(c, 'r')
            return
        if k == 'ref':
            d = fn.D(n.a)
            if d.k in ('Var', 'ParmVar', 'Decomposition', 'Binding') and ctx not in ('n', 'nw') and not isatomic(n):
                if d.fl and 'X' in d.fl:
                    return
                ptr = is_ptr_t(d.t) or (PTRLIKE.search(d.t) and not d.t.endswith('&'))
                if ptr and ctx in ('r', 'w', 'rw'):
                    # the pointer variable itself
                    emit({env.root(n.a)}, ctx != 'r', n)
                    if ctx in ('w', 'rw'):
                        return
                    return
                E.stats['accesses'] += 1
                emit(env.paths(n), ctx != 'r', n)
                if ctx == 'rw':
                    pass
            return
        if k == 'mem':
            d = fn.D(n.a)
            if d.k in ('Field', 'Var') and ctx not in ('n', 'nw') and not isatomic(n):
                E.stats['accesses'] += 1
                emit(env.paths(n), ctx != 'r', n)
            b = n.ch[0] if n.ch else None
            if b is not None and b.k != 'this':
                visit(b, 'nw' if ctx in ('w', 'rw', 'nw') else 'n')
            return
        if k == 'sub':
            if ctx not in ('n', 'nw') and not isatomic(n):
                emit(env.paths(n), ctx != 'r', n)
            visit(n.ch[0], 'nw' if ctx in ('w', 'rw', 'nw') else 'n')
            visit(n.ch[1], 'r')
            return
        if k == 'un':
            if n.a in ('++', '--', 'p++', 'p--'):
                visit(n.ch[0], 'w')
            elif n.a == '*':
                c = n.ch[0]
                if ctx not in ('n', 'nw') and not isatomic(n):
                    emit(env.paths(c), ctx != 'r', n)
                visit(c, 'n')
            elif n.a == '&':
                visit(n.ch[0], 'nw' if ctx in ('nw', 'w') else 'n')
            else:
                visit(n.ch[0], 'r')
            return
        if k == 'asg':
            visit(n.ch[1], 'r')
            visit(n.ch[0], 'w')
            return
        if k == 'casg':
            visit(n.ch[1], 'r')
            visit(n.ch[0], 'w')
            return
        if k == 'cond':
            visit(n.ch[0], 'r')
            visit(n.ch[1], ctx)
            visit(n.ch[2], ctx)
            return
        if k in ('icast', 'cast', 'defarg', 'definit'):
            for c in n.ch:
                visit(c, ctx)
            return
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            visit_call(n, ctx)
            return
        if k == 'var':
            d = fn.D(n.a)
            for c in n.ch:
                visit(c, 'n' if d.t.endswith('&') else 'r')
            if 'G' in d.fl and 'S' in d.fl and n.ch and not d.t.startswith('const'):
                pass
            return
        if k == 'rfor':
            for i, c in enumerate(n.ch):
                if i == 1 and c is not None:
                    for v in c.walk(False):
                        if v.k == 'var' and v.ch:
                            visit(v.ch[0], 'n')
                            ps = env.paths(v.ch[0])
                            emit(ext(ps, '#'), False, n)
                elif i in (2, 3, 4, 5):
                    continue
                elif i == 6 and c is not None:
                    for v in c.walk(False):
                        if v.k == 'var':
                            d = fn.D(v.a)
                            if not d.t.endswith('&') and c is not None:
                                rv = next((x for x in n.ch[1].walk(False) if x.k == 'var'), None)
                                if rv is not None and rv.ch:
                                    emit(ext(env.paths(rv.ch[0]), '[*]'), False, n)
                else:
                    visit(c, 'r')
            return
        if k == 'delete':
            visit(n.ch[0], 'w')
            return
        if k == 'return' and lam is None and re.search(r'[&*]$', fn.r['rt'].strip()):
            for c in n.ch:
                visit(c, 'n')
            return
        for c in n.ch:
            visit(c, 'r')

    def visit_args(n, args, ptypes):
        d = n.callee()
        fwd = d is not None and d.n not in EXT_WRITERS and bool(re.match(r'(std|ranges|fmt|spdlog|boost|__gnu_cxx|rapidjson|tl|range)::', d.q))
        for i, a in enumerate(args):
            if a is None:
                continue
            t = ptypes[i] if i < len(ptypes) else ''
            l = find_lambda(a)
            if l is not None and a.k != 'ref':
                visit(a, 'n')
            if t and nonconst_ref(t) and not fwd:
                visit(a, 'w' if not is_ptr_t(t) else 'n')
                if is_ptr_t(t):
                    emit(env.paths(a), True, n)
            elif t.endswith('&') or t.endswith('&&'):
                visit(a, 'r')
            else:
                visit(a, 'r')

    def visit_call(n, ctx):
        E.stats['calls'] += 1
        d = n.callee()
        args = env.callargs(n)
        objn = None
        if n.k == 'mcall':
            objn = n.ch[0]
        elif n.k == 'opcall' and d is not None and d.k == 'CXXMethod':
            objn = n.ch[0]
        # call of a lambda held in a local, or of a callable parameter
        if n.k == 'opcall' and n.a[1] == '()' and n.ch and n.ch[0] is not None:
            l = find_lambda(n.ch[0])
            if l is not None:
                for a in args:
                    visit(a, 'r')
                lam_effects(l, n, args)
                return
        if d is not None and d.n in E.parallel:
            # the work runs inside the call: its effects are effects of this function too
            site = (fn, n)
            if not any(s[1] is n for s in E.sites):
                E.sites.append(site)
            for a in args:
                l = find_lambda(a)
                if l is not None:
                    lam_effects(l, n, None)
                else:
                    visit(a, 'r')
            return
        targets = P.resolve(n) if d is not None else []
        if targets:
            ptypes = split_params(d.t)
            if objn is not None:
                visit(objn, 'n' if 'c' in d.fl else 'nw')
            for i, a in enumerate(args):
                if a is None:
                    continue
                t = ptypes[i] if i < len(ptypes) else ''
                if PTRLIKE.search(t):
                    visit(a, 'nw' if nonconst_ref(t) else 'n')
                else:
                    visit(a, 'r')
                l = find_lambda(a)
                if l is not None:
                    lam_effects(l, n, None)
            h = held(n)
            for g in targets:
                for e in E.summary(g, None, stack):
                    if e.path[0][0] == 'L':
                        continue
                    pc = map_pc(e.pc, args)
                    if pc is None:
                        continue
                    ps = env.subst(e.path, n)
                    if not ps:
                        continue
                    lks = set(h)
                    for q in e.locks:
                        s = env.subst(q, n)
                        if s:
                            lks.add(frozenset(s))
                    emit(ps, e.w, n, frozenset(lks), (n.loc(),) + e.chain[:5], pc)
            return
        # external callee
        E.stats['external_calls'] += 1
        if d is None:
            for c in n.ch:
                visit(c, 'r')
            return
        if n.k == 'opcall' and re.match(r'(std::)?ranges::', d.q):
            # building a view touches no element
            for c in n.ch:
                visit(c, 'n' if c is not None and c.k != 'lambda' else 'r')
            for a in n.ch:
                l = find_lambda(a) if a is not None else None
                if l is not None:
                    lam_effects(l, n, None)
            return
        ptypes = split_params(d.t)
        if objn is not None:
            nm = d.n
            ot = objn.t or ''
            cst = 'c' in d.fl
            ops = env.paths(objn)
            visit(objn, 'n' if cst else 'nw')
            if ATOMIC.match(ot) or LOCKT.match(ot):
                pass
            elif nm in ('operator*', 'operator->', 'get', 'operator bool', 'has_value', 'value') and re.search(r'unique_ptr|shared_ptr|optional|reference_wrapper|iterator|_Iter', ot):
                if objn.k in ('mem', 'sub'):
                    emit(ext(ops, '#'), False, n)
                if ctx not in ('n', 'nw') and nm in ('operator*', 'value', 'get') and not isatomic(n):
                    emit(ops, ctx != 'r', n)
            elif nm in STD_ACCESS or nm == 'at' or (nm == 'operator[]' and not re.search(r'\b(unordered_)?map<', strip_head(ot))):
                emit(ext(ops, '#'), False, n)
                if ctx not in ('n', 'nw') and not (PTRLIKE.search(n.t) and nm not in ('operator[]', 'at', 'front', 'back')):
                    emit(env.paths(n), ctx != 'r', n)
                if re.search(r'vector<bool', ot) and ctx not in ('n', 'nw') and ctx != 'r':
                    emit(ops, True, n)
            elif nm == 'operator[]':
                # reading through operator[] of an existing key changes nothing; a written element may be a new one
                emit(ext(ops, '#'), ctx in ('w', 'rw', 'nw'), n)
                if ctx not in ('n', 'nw'):
                    emit(env.paths(n), ctx != 'r', n)
            elif nm in ('size', 'empty', 'count', 'contains', 'capacity', 'length'):
                emit(ext(ops, '#'), False, n)
            elif cst:
                if ctx == 'r' or True:
                    emit(ops, False, n)
            elif nm in ('operator++', 'operator--', 'operator+=', 'operator=') and PTRLIKE.search(ot):
                if objn.k in ('mem', 'sub'):
                    emit(ext(ops, '#'), True, n)
                elif objn.k == 'ref':
                    emit({env.root(objn.a)}, True, n)
            elif n.k == 'opcall' and n.a[1] == '()':
                pass
            elif nm in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'insert_or_assign') and re.search(r'\b(unordered_)?(multi)?(map|set)<', strip_head(ot)):
                # node based: other elements stay where they are; only the structure (and, for insert_or_assign, one element) changes
                emit(ext(ops, '#'), True, n)
                if nm == 'insert_or_assign':
                    emit(ext(ops, '[*]'), True, n)
            else:
                emit(ops, True, n)
            visit_args(n, args, ptypes)
        elif n.k == 'ctor':
            visit_args(n, args, ptypes)
        else:
            if n.k == 'opcall' and n.a[1] in WRITE_OPS:
                visit(n.ch[0], 'w')
                for a in n.ch[1:]:
                    visit(a, 'r')
            else:
                visit_args(n, args, ptypes)
                if d.n in ('sort', 'stable_sort', 'reverse', 'fill', 'shuffle', 'iota', 'transform', 'for_each', 'remove_if', 'remove', 'unique', 'nth_element',
                           'partition', 'partial_sort', 'rotate', 'stable_partition'):
                    if d.n not in ('for_each', 'transform') and args and args[0] is not None:
                        emit(env.paths(args[0]), True, n)
                if d.n in ('transform', 'copy', 'move', 'copy_if'):
                    pass
        if d.n == 'call_once':
            return        # executed once, and every caller returns only after it is complete
        for a in args:
            l = find_lambda(a) if a is not None else None
            if l is not None:
                lam_effects(l, n, None)

    def strip_head(t):
        return t.split('<')[0] + '<' if '<' in t else t

    if lam is None:
        for f, _, _, b in fn.inits:
            visit(b, 'n' if f is not None and f.t.endswith('&') else 'r')
        visit(fn.body, 'r')
    else:
        visit(lam.x, 'r')
    return list(out.values())


# ---------------------------------------------------------------------- conflicts between two items of one parallel section
def covers(a, b):
    """may two paths (same root) touch overlapping storage?  returns (overlap, divergence info)"""
    for x, y in zip(a[1:], b[1:]):
        if x == '~' or y == '~':
            return True
        xi, yi = isinstance(x, tuple) or x == '[*]', isinstance(y, tuple) or y == '[*]'
        if xi and yi:
            if isinstance(x, tuple) and isinstance(y, tuple) and not x[1][1] and not y[1][1] and x[1][0] != y[1][0]:
                return False       # two different constants
            continue
        if xi != yi:
            # element vs the container's own structure ('#') or a field: different storage, unless a pointer-ish step
            if x == '#' or y == '#':
                return False
            return False
        if x != y:
            return False
    return True


def item_unique(p, unique_sym):
    """does the path contain an index that differs between any two work items?"""
    for s in p[1:]:
        if isinstance(s, tuple) and unique_sym(s[1]):
            return s
    return None
