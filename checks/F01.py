"""No result depends on an uninitialised value: members left open by construction, locals and structures used before they are filled."""
import os
import facts, definit
from core import strip_targs

TUS = lambda: facts.tu_list()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    fields, undecided = {}, set()
    with open(os.path.join(ROOT, 'ref', 'fields.txt')) as h:
        for l in h:
            if not l.strip() or l.startswith('#'):
                continue
            p = l.rstrip('\n').split('\t')
            if p[0] == 'local':
                undecided.add(p[1])
            else:
                fields[(p[0], p[1])] = p[2] == 'set'
    return fields, undecided


def members(P, O):
    """(class, member, where left open or None)"""
    for q in sorted(P.rec_by_q):
        if not q.startswith('cura::') or '(lambda' in q:
            continue
        for r in P.rec_by_q[q]:
            own = [fl for fl in O.own_fields(r) if 's' not in str(fl[2] or '')]
            if not own:
                continue
            cs = O.ctors(r)
            open_ = {}
            for f in cs:
                if f.clsq and O.record(f.clsq) is not r:
                    continue
                for m in O.after(f, r):
                    open_.setdefault(m, f.where())
            if not cs:
                for fl in own:
                    if fl[3] is None:
                        open_[fl[0]] = '%s:%s %s::%s' % (r.get('f', ''), fl[4], q, fl[0])
            for fl in own:
                yield q, fl[0], open_.get(fl[0])


def locals_(P, O, rep=None):
    seen = set()
    for f in P.fns.values():
        if f.dep or f.body is None or f.f.startswith('@ref'):
            continue
        for lam in [None] + [x for x in f.walk() if x.k == 'lambda' and x.x is not None]:
            try:
                L = definit.Local(O, f, lam)
            except (KeyError, IndexError, TypeError, AttributeError):
                continue
            if rep is not None:
                rep.count('locals_without_initialiser', L.tracked)
                rep.count('bodies')
            for x, d, m in L.bad:
                k = (f.f, f.sq, d.n, m)
                if k not in seen:
                    seen.add(k)
                    yield f, x, d, m


def check(rep, P):
    O = definit.Open(P)
    T, undecided = table()
    classes = {c for c, _ in T}
    done = set()
    for q, m, where in members(P, O):
        rep.count('members')
        t = T.get((q, m))
        if where is None:
            rep.ok()
        elif t:
            if (q, m) not in done:
                done.add((q, m))
                rep.violation('member:%s::%s' % (q, m), where, 'member %s of %s is left without a value' % (m, q))
        elif t is None:
            rep.count('members_not_listed')
        else:
            rep.count('members_filled_later')
    for f, x, d, m in locals_(P, O, rep):
        if f.sq in undecided:
            rep.count('locals_decided_by_related_conditions')
            continue
        rep.violation('local:%s:%s' % (f.sq, d.n), '%s:%s %s' % (f.f, x.l, f.q), '%s%s can be used here before anything was stored in it' % (d.n, '.' + m if m else ''))
    rep.ok(rep.cov.get('locals_without_initialiser', 0))
    rep.need('members', 500)
    rep.need('bodies', 2000)
    return ('every constructor was followed along its control flow (members stored by it, its initialisers, default initialisers and the member functions it calls), every scalar member listed as set in '
            'ref/fields.txt must have a value afterwards; every local or default-made structure without a value was followed along the control flow of its function to each use that reads or copies it')
