"""Equal keys have equal hashes: everything a hash reads is fixed by the equality of its key."""
import facts, spec, equiv, terms
from core import strip_targs

WHOLE = ['G01/LayerIndex_h', 'G06/VoxelGrid_h', 'TS1/TreeSupportElement_h', 'AP1/MeshMaterialSplitter', 'L01/slicer_h', 'I03/infill', 'U01/UnionFind_h']
REFS = ['G01.cpp', 'G02.cpp', 'X01.cpp', 'G05.cpp', 'G06.cpp', 'TS1.cpp', 'GF1.cpp'] + ['whole/%s.cpp' % w for w in WHOLE]
TUS = lambda: facts.tu_list() + ['@ref/' + r for r in REFS + ['V02.cpp']]
ONLY = r'hash::operator\(\)|hash_value|::operator[=!]=$|hash_djb2a|^cura::UnionFind::|::pointHash$'
LIBRARY = ('ClipperLib::operator==',)


def path(t):
    """(root, members) of a member of one of the two objects"""
    names = []
    while isinstance(t, terms.Tm) and t.op == 'fld':
        names.append(t.args[0])
        t = t.args[1]
    if not isinstance(t, terms.Tm):
        return None
    if t.op == 'deref' and isinstance(t.args[0], terms.Tm) and t.args[0].op == 'this':
        return 'this', tuple(reversed(names))
    if t.op == 'param':
        return t.args[0], tuple(reversed(names))
    return None


def reads(v):
    """the members of the key a hash depends on"""
    out, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, (terms.Tm, terms.Ite)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, terms.Ite):
            todo.append(x.dec)
            todo.extend(x.kids)
            continue
        p = path(x)
        if p is not None:
            out.add(p[1])
        else:
            todo.extend(x.args)
    return out


def pair(a, b):
    p, q = path(a), path(b)
    if p and q and p[0] != q[0] and p[1] == q[1]:
        return p[1]
    return None


def difference(L):
    """the member whose two values a linear form subtracts"""
    if not (isinstance(L, terms.Tm) and L.op == 'poly') or len(L.args[0]) != 2:
        return None
    (m, c), (n, d) = L.args[0]
    if c + d != 0 or len(m) != 1 or len(n) != 1 or m[0][1] != 1 or n[0][1] != 1:
        return None
    return pair(m[0][0], n[0][0])


def held(dec, k):
    """('same', member) | ('part', ...) | None: what taking this branch says"""
    if dec[0] == 'SG':
        p = difference(dec[1])
        return ('same', p) if p is not None and k == 1 and dec[2] == 0 else ('other', p)
    if dec[0] == 'GE':
        p = difference(dec[1])
        return ('ge', p, dec[2], k) if p is not None else ('other', None)
    t = dec[1]
    if t.op == 'eq' and len(t.args) == 2:
        p = pair(*t.args)
        return ('same', p) if p is not None and k == 1 else ('other', p)
    if t.op == 'call' and t.args[0] in LIBRARY and len(t.args) >= 3:
        p = pair(t.args[1], t.args[2])
        return ('same', p) if p is not None and k == 1 else ('other', p)
    return ('other', None)


def equalities(v):
    """for every way to be equal: members that are then equal, and whether something was not understood"""
    out = []

    def go(x, facts, odd):
        if len(out) > 4096:
            raise terms.Undecided('too many cases')
        if isinstance(x, terms.Tm):
            if x is terms.TRUE:
                lo = {f[1] for f in facts if f[0] == 'ge' and f[2] == 0 and f[3] == 1}
                hi = {f[1] for f in facts if f[0] == 'ge' and f[2] == 1 and f[3] == 0}
                out.append(({f[1] for f in facts if f[0] == 'same'} | (lo & hi), odd))
            elif x is not terms.FALSE:
                raise terms.Undecided('the comparison is not a truth value')
            return
        d = (x.dec.op,) + x.dec.args
        for k, kid in enumerate(x.kids):
            f = held(d, k)
            go(kid, facts + [f], odd or f[0] == 'other' and f[1] is None)
    go(v, [], False)
    return out


class Types:
    def __init__(self, P):
        self.P = P

    def fields(self, t):
        t = t.replace('const ', '').rstrip('& ')
        r = self.P.record_of(t) or (self.P.rec_by_q.get(strip_targs(t)) or [None])[0]
        if r is None or r['bases'] or not r['fields']:
            return None
        return r

    def type_of(self, name):
        q, n = name.rsplit('::', 1)
        for r in self.P.rec_by_q.get(q) or []:
            for fl in r['fields']:
                if fl[0] == n:
                    return fl[1]
        return ''

    def covered(self, p, eqs, rec=None, depth=0):
        if any(p[:k] in eqs for k in range(len(p) + 1)):
            return True
        if depth > 4:
            return False
        r = rec if rec is not None and not p else self.fields(self.type_of(p[-1])) if p else None
        if r is None:
            return False
        return all(self.covered(p + (strip_targs(r['q']) + '::' + fl[0],), eqs, None, depth + 1) for fl in r['fields'] if 's' not in (fl[2] or ''))


def key_type(f):
    return f.params[0].t.replace('const ', '').rstrip('& ')


def hashes(P):
    for f in P.fns.values():
        if f.dep or f.body is None or f.f.startswith('@ref'):
            continue
        if f.n == 'operator()' and f.sq.startswith('std::hash') and len(f.params) == 1 or f.n == 'hash_value' and len(f.params) == 1:
            yield f


def comparison(P, ty):
    """the equality of a key: (function, 'defaulted' or None)"""
    base = strip_targs(ty)
    for f in P.by_sq.get(base + '::operator==', []):
        if len(f.params) == 1 and key_type(f) == ty and not f.dep:
            return f
    for f in P.fns.values():
        if f.n == 'operator==' and not f.dep and len(f.params) == 2 and all(p.t.replace('const ', '').rstrip('& ') == ty for p in f.params):
            return f
    return None


def check(rep, P):
    ty = Types(P)
    seen = set()
    for h in hashes(P):
        key = key_type(h)
        if (h.q, h.f, h.l) in seen:
            continue
        seen.add((h.q, h.f, h.l))
        rep.count('hashed_keys')
        try:
            s = equiv.summarize(P, h)
        except (terms.Undecided, AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError) as x:
            rep.undec('%s: %s' % (h.where(), x))
            continue
        state = [str(k) for k in s.out if k not in ('return', 'exception')]
        if state:
            rep.violation('hash-state:' + key, h.where(), 'the hash of %s changes %s' % (key, state[0][:80]))
            continue
        need = reads(s.out['return'])
        rep.sample('hash of %s reads %s' % (key, ', '.join('.'.join(n.split('::')[-1] for n in p) or 'the key' for p in sorted(need))))
        if key.startswith('std::'):
            # the library compares pairs and tuples member by member
            rep.count('pairs_proved')
            rep.ok()
            continue
        e = comparison(P, key)
        if e is None and key == 'ClipperLib::IntPoint':
            eqs = [({('ClipperLib::IntPoint::X',), ('ClipperLib::IntPoint::Y',)}, False)]
        elif e is None or e.body is None or 'd' in e.fl and not list(e.body.ch):
            d = e is not None or any(m for m in (ty.fields(key) or {}).get('methods', []) if 'operator==' in str(m))
            if not d:
                rep.undec('%s: no equality of %s in the program' % (h.where(), key))
                continue
            rep.count('pairs_proved')       # a defaulted comparison compares every member
            rep.ok()
            continue
        else:
            try:
                v = equiv.summarize(P, e).out['return']
                eqs = equalities(v)
            except (terms.Undecided, AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError) as x:
                rep.undec('%s: %s' % (e.where(), x))
                continue
        rec = ty.fields(key)
        bad = odd = None
        for have, unknown in eqs:
            for p in need:
                if not ty.covered(p, have, rec):
                    if unknown:
                        odd = p
                    else:
                        bad = p
        if bad is not None:
            rep.violation('hash:' + key, h.where(), 'the hash of %s depends on %s, which equal objects may differ in (equality: %s)'
                          % (key, '.'.join(n.split('::')[-1] for n in bad) or 'all of it', e.where() if e else 'library'))
        elif odd is not None:
            rep.undec('%s: equality of %s not understood' % (h.where(), key))
        else:
            rep.count('pairs_proved')
            rep.ok()
    rep.need('hashed_keys', 6)
    spec.run(rep, P, REFS, only=ONLY)
    rep.need('functions_compared', 8)
    return ('for every hash, the members it reads were collected from its normalised result and shown to be fixed in every case in which the equality of the key holds; '
            'the hashes, equalities and the union-find index themselves were compared with their reference by the normal form of sa/equiv.py')
