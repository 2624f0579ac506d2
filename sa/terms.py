"""Hash-consed terms, polynomial arithmetic over the reals/integers and multi-terminal decision diagrams (MTBDDs).

A value is a leaf Tm or an Ite node.  Decisions are
  GE(L,k)   integer linear form L (coprime integer coefficients, positive leading one) >= k       kids (F,T)
  SG(L,t)   sign of the real form L - t                                                           kids (neg,zero,pos)
  B(atom)   truth of an opaque boolean term                                                       kids (F,T)
Nodes are ordered by (group, rank); decisions of one group (same linear form, same compared object) are adjacent, which
lets implied decisions be collapsed while combining."""
import hashlib
from fractions import Fraction
from math import gcd, floor, ceil


class Undecided(Exception):
    pass


class Tm:
    __slots__ = ('op', 'args', 'uid', 'sort', '_h')

    def __repr__(self):
        return show(self)


class Ite:
    __slots__ = ('dec', 'kids', 'uid', 'ord', '_h')

    def __repr__(self):
        return show(self)


_tab = {}
_itab = {}
_n = [0]
BUDGET = [0]


def T(op, *args, sort=None):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Tm()
        t.op = op
        t.args = args
        _n[0] += 1
        t.uid = _n[0]
        t.sort = sort
        t._h = None
        _tab[k] = t
    elif sort is not None and t.sort is None:
        t.sort = sort
    return t


TRUE = T('true', sort='b')
FALSE = T('false', sort='b')
NONE = T('none')          # no exception / absent value of an effect
NULL = T('null')
UNDEF = T('undef')
VOID = T('void')


# ------------------------------------------------------------------ structural hash (name independent of creation order)
def shash(x):
    if isinstance(x, (Tm, Ite)):
        if x._h is None:
            if isinstance(x, Tm):
                if x.op == 'poly':
                    parts = sorted('%s*%s' % (shash_mono(m), c) for m, c in x.args[0])
                    s = 'poly(' + '|'.join(parts) + ')'
                elif x.op == 'eq':
                    s = 'eq(' + ','.join(sorted(shash(a) for a in x.args)) + ')'
                else:
                    s = x.op + '(' + ','.join(shash(a) for a in x.args) + ')'
            else:
                s = 'ite(' + shash(x.dec) + ';' + ','.join(shash(k) for k in x.kids) + ')'
            x._h = hashlib.md5(s.encode()).hexdigest()
        return x._h
    if isinstance(x, tuple):
        return '(' + ','.join(shash(a) for a in x) + ')'
    return repr(x)


def shash_mono(m):
    return '.'.join(sorted('%s^%d' % (shash(a), e) for a, e in m))


# ------------------------------------------------------------------ polynomials
def const(c):
    c = Fraction(c)
    if c == 0:
        return T('poly', ())
    return T('poly', (((), c),))


ZERO = const(0)
ONE = const(1)


def pdict(t):
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def mono_key(m):
    return tuple((a.uid, e) for a, e in m)


def mk(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T('poly', tuple(sorted(d.items(), key=lambda x: mono_key(x[0]))))


def isconst(t):
    return isinstance(t, Tm) and t.op == 'poly' and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def cval(t):
    return t.args[0][0][1] if t.args[0] else Fraction(0)


def padd(a, b):
    d = pdict(a)
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + c
    return mk(d)


def pscale(a, k):
    return mk({m: c * k for m, c in pdict(a).items()})


def psub(a, b):
    return padd(a, pscale(b, Fraction(-1)))


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # sqrt(x)^2 -> keep (NaN domain aside it is x, but keep opaque)
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def pmul(a, b):
    da, db = pdict(a), pdict(b)
    if len(da) * len(db) > 400:
        raise Undecided('polynomial too large')
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk(d)


def lead(d):
    """coefficient used for normalising: that of the monomial with the smallest structural hash (stable)"""
    m = min((m for m in d if m != ()), key=mono_key)
    return d[m]


def pdiv(a, b):
    """real division"""
    if isconst(b):
        c = cval(b)
        if c == 0:
            return T('div0', a)
        return pscale(a, 1 / c)
    db = pdict(b)
    if len(db) == 1:
        (m, c), = db.items()
        inv = mk({tuple((x, -e) for x, e in m): 1 / c})
        return pmul(a, inv)
    # a is a constant multiple of b?
    k = lead(db)
    bn = pscale(b, 1 / k)
    da = pdict(a)
    if any(m != () for m in da):
        ka = lead(da)
        if pscale(a, 1 / ka) is bn:
            return const(ka / k)
    s = T('sum', bn, sort='f')
    return pmul(pscale(a, 1 / k), mk({((s, -1),): Fraction(1)}))


def isint(t):
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and isint(x) for x, e in m) for m, c in t.args[0])
    return t.sort in ('i', 'u', 'b')


def idiv(a, b):
    if isconst(b):
        k = cval(b)
        if k == 0:
            return T('div0', a)
        if isconst(a):
            q = cval(a) / k
            return const(int(q))
        if k == 1:
            return a
        q = pscale(a, 1 / k)
        if isint(q):
            return q
    if a is b:
        return ONE
    return T('idiv', a, b, sort='i')


def imod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        x, y = int(cval(a)), int(cval(b))
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r)
    if isconst(b) and abs(cval(b)) == 1:
        return ZERO
    return T('mod', a, b, sort='i')


def trunc(a):
    if isconst(a):
        return const(int(cval(a)))
    if isint(a):
        return a
    return T('trunc', a, sort='i')


# ------------------------------------------------------------------ decisions
def dec_ord(dec):
    op = dec.op
    if op in ('GE', 'SG'):
        return (dec.args[0].uid, dec.args[1])
    at = dec.args[0]
    if at.op == 'eq':
        x, c = at.args
        if is_lit(c):
            return (T('eqg', x).uid, Fraction(c.uid))
        if is_lit(x):
            return (T('eqg', c).uid, Fraction(x.uid))
    return (at.uid, Fraction(0))


def is_lit(t):
    return t.op == 'str'


def node(dec, kids):
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    key = (dec, kids)
    r = _itab.get(key)
    if r is None:
        r = boundary(dec, kids)
        if r is not None:
            _itab[key] = r
            return r
        r = Ite()
        r.dec = dec
        r.kids = kids
        r.ord = dec_ord(dec)
        r._h = None
        _n[0] += 1
        r.uid = _n[0]
        _itab[key] = r
    return r


def boundary(dec, kids):
    """one form for choices that agree where the comparison is an equality: a < b ? b : a  is  a <= b ? b : a"""
    if dec.op == 'B':
        return None
    for k in kids:
        if not isinstance(k, Tm) or k.op != 'poly' and k.sort not in ('i', 'u', 'f'):
            return None
    L, c = dec.args
    if dec.op == 'GE':
        if multiple(psub(kids[1], kids[0]), psub(L, const(c - 1))):
            r = ge(L, c - 1)
            return kids[1] if r is TRUE else node(r.dec, kids) if isinstance(r, Ite) else None
        return None
    z = kids[1]
    for o in (2, 0):
        if z is kids[o]:
            return None
        if multiple(psub(z, kids[o]), psub(L, const(c))):
            return node(dec, (kids[0], kids[o], kids[2]))
    return None


def multiple(d, p):
    """d is a constant multiple of p"""
    a, b = pdict(d), pdict(p)
    if len(a) != len(b) or not a or set(a) != set(b):
        return False
    k = None
    for m, c in a.items():
        q = c / b[m]
        if k is None:
            k = q
        elif q != k:
            return False
    return True


def implied(dec, d1, o1):
    """outcome of dec implied by d1 having outcome o1 (same group, d1 before dec), or None"""
    if d1.op == 'GE' and dec.op == 'GE' and d1.args[0] is dec.args[0]:
        if o1 == 0 and dec.args[1] >= d1.args[1]:
            return 0
        if o1 == 1 and dec.args[1] <= d1.args[1]:
            return 1
    elif d1.op == 'SG' and dec.op == 'SG' and d1.args[0] is dec.args[0]:
        if o1 <= 1 and dec.args[1] > d1.args[1]:
            return 0
        if o1 >= 1 and dec.args[1] < d1.args[1]:
            return 2
    elif d1.op == 'B' and dec.op == 'B':
        a, b = d1.args[0], dec.args[0]
        if a.op == 'eq' and b.op == 'eq' and o1 == 1:
            # same left side, different literals
            for x, c in (a.args, a.args[::-1]):
                for y, e in (b.args, b.args[::-1]):
                    if x is y and is_lit(c) and is_lit(e) and c is not e:
                        return 0
    return None


def cof(v, dec, o, order):
    while isinstance(v, Ite):
        if v.dec is dec:
            v = v.kids[o]
        elif v.ord[0] == order[0]:
            i = implied(v.dec, dec, o)
            if i is None:
                return v
            v = v.kids[i]
        else:
            return v
    return v


def nkids(dec):
    return 3 if dec.op == 'SG' else 2


class Big(Exception):
    pass


CAP = [400]


def lift(f, *vals, early=None):
    """apply f to the leaves of the values; operands that would blow up are kept as opaque case distinctions"""
    try:
        return lift0(f, vals, early, [CAP[0]])
    except Big:
        pass
    return lift0(f, embed(vals), early, [1 << 40])


def dsize(v, most=1 << 30):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, Ite):
            continue
        seen.add(x)
        if len(seen) > most:
            return len(seen)
        st.extend(x.kids)
    return len(seen)


def mk_cases(v):
    """the value v as one opaque term (None if its leaves have to stay visible)"""
    if isinstance(v, Tm):
        return v
    ls = leaves(v)
    if any(x.op in ('addr', 'clos', 'L', 'cell') for x in ls):
        return None
    if all(x is TRUE or x is FALSE for x in ls):
        return batom(T('cases', v, sort='b'))
    s = None
    if all(isnum(x) for x in ls):
        s = 'f' if not all(isint(x) for x in ls) else 'u' if all(uge0(x) if not isconst(x) else cval(x) >= 0 for x in ls) else 'i'
    return T('cases', v, sort=s)


def embed(vals):
    out = list(vals)
    size = [dsize(v) for v in vals]
    left = 1
    for n in size:
        left *= max(n, 1)
    for k in sorted(range(len(vals)), key=lambda k: -size[k]):
        if size[k] < 4 or (size[k] <= 24 and left <= CAP[0]):
            break
        e = mk_cases(vals[k])
        if e is not None:
            out[k] = e
            left //= size[k]
    return tuple(out)


def lift0(f, vals, early, cap):
    memo = {}

    def go(vs):
        if early is not None:
            r = early(vs)
            if r is not None:
                return r
        best = None
        for v in vs:
            if isinstance(v, Ite) and (best is None or v.ord < best.ord):
                best = v
        if best is None:
            return f(*vs)
        r = memo.get(vs)
        if r is not None:
            return r
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise Undecided('value graph too large')
        cap[0] -= 1
        if cap[0] < 0:
            raise Big()
        dec, od = best.dec, best.ord
        kids = tuple(go(tuple(cof(v, dec, o, od) for v in vs)) for o in range(nkids(dec)))
        r = select(dec, od, kids, cap)
        memo[vs] = r
        return r
    return go(tuple(vals))


_leafsel = [const(0), const(1), const(2)]


def select(dec, od, kids, cap=None):
    if all(not isinstance(k, Ite) or k.ord > od for k in kids):
        # kids in the same group may still be implied
        if any(isinstance(k, Ite) and k.ord[0] == od[0] for k in kids):
            kids = tuple(cof(k, dec, o, od) for o, k in enumerate(kids))
        return node(dec, kids)
    s = node(dec, tuple(_leafsel[:len(kids)]))

    def early(vs):
        if isinstance(vs[0], Tm):
            return vs[1 + int(cval(vs[0]))]
        return None
    return lift0(None, (s,) + tuple(kids), early, cap or [1 << 40])


def bleaf(dec):
    return node(dec, (FALSE, TRUE))


def batom(t):
    """boolean value of an opaque boolean term"""
    return bleaf(T('B', t))


def bnot(v):
    return lift(lambda x: FALSE if x is TRUE else TRUE if x is FALSE else T('not', x), v)


def band(a, b):
    def early(vs):
        if vs[0] is FALSE or vs[1] is FALSE:
            return FALSE
        if vs[0] is TRUE:
            return vs[1]
        if vs[1] is TRUE or vs[0] is vs[1]:
            return vs[0]
        return None
    return lift(lambda x, y: T('and', x, y), a, b, early=early)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    if a is b:
        return a

    def early(vs):
        if vs[0] is TRUE:
            return vs[1]
        if vs[0] is FALSE:
            return vs[2]
        if vs[1] is vs[2]:
            return vs[1]
        return None
    return lift(lambda c, x, y: T('ite', c, x, y), c, a, b, early=early)


def normlin(d):
    """split polynomial d into (L, c, g): d = g*L + c"""
    dd = pdict(d)
    c = dd.pop((), Fraction(0))
    rest = mk(dd)
    if isint(rest):
        g = 0
        for k in dd.values():
            g = gcd(g, abs(int(k)))
        g = Fraction(g)
    else:
        g = abs(lead(dd))
    if lead(dd) < 0:
        g = -g
    return pscale(rest, 1 / g), c, g


def sgn(d):
    """decision on the sign of d -> (dec, outcome classes for neg, zero, pos) ; or constant sign"""
    if isconst(d):
        c = cval(d)
        return -1 if c < 0 else 1 if c > 0 else 0
    return None


def uge0(L):
    """L known to be non-negative"""
    if L.op != 'poly':
        return L.sort in ('u', 'b') or L.op in ('size',)
    return all(c >= 0 and all((x.sort in ('u', 'b') and e > 0) or e % 2 == 0 for x, e in m) for m, c in L.args[0])


def lt(a, b):
    d = psub(a, b)
    s = sgn(d)
    if s is not None:
        return TRUE if s < 0 else FALSE
    L, c, g = normlin(d)
    if isint(L):
        if g > 0:
            k = ceil(-c / g)
            return bnot(ge(L, k))
        k = floor(-c / g) + 1
        return ge(L, k)
    dec = T('SG', L, -c / g)
    if uge0(L) and -c / g < 0:
        return FALSE if g > 0 else TRUE
    return node(dec, (TRUE, FALSE, FALSE) if g > 0 else (FALSE, FALSE, TRUE))


def ge(L, k):
    if uge0(L) and k <= 0:
        return TRUE
    if L.sort == 'b' and k > 1:
        return FALSE
    return bleaf(T('GE', L, Fraction(k)))


HASHES = {}          # hash -> text, for texts that occur as option literals


def djb2a(s):
    h = 5381
    for c in s.encode('utf8'):
        h = ((h * 33) ^ c) & 0xFFFFFFFFFFFFFFFF
    return h


def text_hash(s):
    """cura::utils::hash_enum of a literal"""
    h = djb2a('plugin' if len(s) > 6 and s[6] == ':' else s)
    HASHES.setdefault(h, s)
    return h


def hash_eq(d):
    """equality of hashed texts: hash(x) == hash("lit")  is  x == "lit" (the hash is injective on the option texts)"""
    ms = [(m, c) for m, c in d.items() if m]
    if not all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'strhash' and abs(c) == 1 for m, c in ms):
        return None
    k = d.get((), 0)
    if len(ms) == 1:
        k = -k * ms[0][1]
        if k in HASHES:
            return eqval(ms[0][0][0][0].args[0], T('str', HASHES[k]))
    elif len(ms) == 2 and k == 0 and ms[0][1] == -ms[1][1]:
        return eqval(ms[0][0][0][0].args[0], ms[1][0][0][0].args[0])
    return None


def eqnum(a, b):
    d = psub(a, b)
    s = sgn(d)
    if s is None:
        pd = d if isinstance(d, dict) else pdict(d)
        if len(pd) <= 3 and any(m and m[0][0].op == 'strhash' for m in pd):
            r = hash_eq(pd)
            if r is not None:
                return r
    if s is not None:
        return TRUE if s == 0 else FALSE
    L, c, g = normlin(d)
    if isint(L):
        k = -c / g
        if k.denominator != 1:
            return FALSE
        return band(ge(L, k), bnot(ge(L, k + 1)))
    return node(T('SG', L, -c / g), (FALSE, TRUE, FALSE))


def isnum(t):
    return t.op == 'poly' or t.sort in ('i', 'u', 'f')


def eqval(a, b):
    """equality of two leaf terms"""
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if isnum(a) or isnum(b):
        return eqnum(a, b)
    bools = (TRUE, FALSE)
    if a in bools and b in bools:
        return FALSE
    if a is NULL or b is NULL:
        x = b if a is NULL else a
        return bnot(nonnull(x))
    if a.op == 'find' and b.op == 'endit' or a.op == 'endit' and b.op == 'find':
        f = a if a.op == 'find' else b
        e = b if a.op == 'find' else a
        if f.args[0] is e.args[0]:
            return bnot(has(f.args[1], f.args[2]))
    if a.uid > b.uid:
        a, b = b, a
    if a.op == 'addr' and b.op == 'addr' and a.args[0] is b.args[0]:
        return FALSE
    return batom(T('eq', a, b))


def has(cont, key):
    return batom(T('has', cont, key))


def nonnull(x):
    if x is NULL:
        return FALSE
    if x.op in ('addr', 'new', 'some', 'make', 'str', 'lam', 'this'):
        return TRUE
    return batom(T('nonnull', x))


def nodes(v):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Ite):
            st.extend(x.kids)
    return seen


def leaves(v):
    return [x for x in nodes(v) if isinstance(x, Tm)]


def subterms(v):
    """every Tm/Ite inside v"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Tm, Ite)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Ite):
            st.append(x.dec)
            st.extend(x.kids)
        else:
            st.extend(x.args)
    return seen


# ------------------------------------------------------------------ rewriting
def rewrite(v, leaf, memo=None):
    """rebuild v bottom-up; leaf(tm) may return a replacement value for an atom term (or None).
    Requires every operator to be reconstructible through REBUILD."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Tm, Ite)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Ite):
            r = redecide(x.dec, [go(k) for k in x.kids], go)
        else:
            r = leaf(x)
            if r is None:
                r = rebuild(x, go)
        memo[x] = r
        return r
    return go(v)


def redecide(dec, kids, go):
    op = dec.op
    if op == 'GE':
        L = go(dec.args[0])
        c = lift(lambda a: bnot(lt(a, const(dec.args[1]))), L)
        return ite(c, kids[1], kids[0])
    if op == 'SG':
        L = go(dec.args[0])
        t = const(dec.args[1])
        return ite(lift(lambda a: lt(a, t), L), kids[0], ite(lift(lambda a: eqnum(a, t), L), kids[1], kids[2]))
    at = go_atom(dec.args[0], go)
    return ite(at, kids[1], kids[0])


def go_atom(at, go):
    op = at.op
    args = [go(a) for a in at.args]
    if op == 'eq':
        return lift(eqval, *args)
    if op == 'nonnull':
        return lift(nonnull, *args)
    r = go(at)
    if r is TRUE or r is FALSE:
        return r
    return lift(lambda a: a if a in (TRUE, FALSE) else batom(a), r)


def rebuild(x, go):
    if not x.args:
        return x
    if x.op == 'poly':
        out = ZERO
        for m, c in x.args[0]:
            t = const(c)
            for a, e in m:
                b = go(a)
                for _ in range(abs(e)):
                    t = lift(pmul if e > 0 else pdiv, t, b)
            out = lift(padd, out, t)
        return out
    args = tuple(go(a) for a in x.args)
    if args == x.args:
        return x
    op = x.op
    if op == 'idiv':
        return lift(idiv, *args)
    if op == 'mod':
        return lift(imod, *args)
    if op == 'trunc':
        return lift(trunc, *args)
    if op == 'sum':
        return args[0]
    if op == 'not':
        return bnot(args[0])
    if op == 'cases':
        if isinstance(args[0], Tm) or dsize(args[0], 4) < 4:
            return args[0]
        r = mk_cases(args[0])
        return args[0] if r is None else r
    if op == 'obj' and isinstance(args[0], Tm):
        return OBJ[0](*args)
    if x.op in BINDERS:
        return T(op, *args, sort=x.sort)
    flat = [a for a in args if isinstance(a, Ite)]
    if flat:
        idx = [i for i, a in enumerate(args) if isinstance(a, Ite)]

        def f(*vs):
            l = list(args)
            for i, v in zip(idx, vs):
                l[i] = v
            return mkterm(op, tuple(l), x.sort)
        return lift(f, *flat)
    return mkterm(op, args, x.sort)


BINDERS = {'lam', 'loop', 'loopout', 'obj', 'call', 'mut', 'out', 'loopret', 'loopexit'}
MAKERS = {}
OBJ = []          # constructor of record values


def mkterm(op, args, sort=None):
    m = MAKERS.get(op)
    if m:
        return m(*args)
    return T(op, *args, sort=sort)


# ------------------------------------------------------------------ printing
def show(v, d=0):
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, d) for x in v) + ')'
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else ('%g' % float(v))
    if not isinstance(v, (Tm, Ite)):
        return str(v)
    if d > 9:
        return '…'
    if isinstance(v, Ite):
        return '{%s ? %s}' % (show(v.dec, d + 1), ' : '.join(show(k, d + 1) for k in reversed(v.kids)))
    if v.op == 'poly':
        if not v.args[0]:
            return '0'
        out = []
        for m, c in v.args[0]:
            s = '*'.join(show(a, d + 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            out.append(show(c) + ('*' + s if s else '') if c != 1 or not s else s)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if v.op == 'GE':
        return '%s>=%s' % (show(v.args[0], d + 1), show(v.args[1]))
    if v.op == 'SG':
        return 'sign(%s - %s)' % (show(v.args[0], d + 1), show(v.args[1]))
    if v.op == 'B':
        return show(v.args[0], d + 1)
    if v.op == 'str':
        return '"%s"' % v.args[0]
    if v.op == 'fld':
        return '%s.%s' % (show(v.args[1], d + 1), v.args[0].split('::')[-1])
    if v.op == 'deref':
        return show(v.args[0], d + 1) if v.args[0].op == 'this' else '*' + show(v.args[0], d + 1)
    if v.op == 'param':
        return 'arg%s' % v.args[0]
    if v.op == 'at':
        return '%s[%s]' % (show(v.args[0], d + 1), show(v.args[1], d + 1))
    if v.op == 'obj':
        return '{%s%s}' % (show(v.args[0], d + 1) + ' with ' if v.args[0] is not None else '', ', '.join('%s=%s' % (f.split('::')[-1] if isinstance(f, str) else show(f, d + 1), show(x, d + 1)) for f, x in v.args[1]))
    if not v.args:
        return v.op
    return '%s(%s)' % (v.op, ', '.join(show(a, d + 1) for a in v.args))
