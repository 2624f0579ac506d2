"""C05 state that the program protects with a lock is never touched without that lock"""
import re
import effects, races
from core import strip_targs
from C01 import pp


def check(rep, P):
    E = effects.Effects(P)
    classes = {}
    conc = concurrent_functions(P)
    for r in P.recs.values():
        fields = r['fields']
        mut = [f for f in fields if effects.MUTEXT.search(f[1])]
        if mut and 'cura::' in r['q']:
            classes[strip_targs(r['q'])] = r
    # callers inside the class: accesses of helpers are judged where an entry point reaches them
    for cls in sorted(classes):
        ms = [f for f in P.fns.values() if strip_targs(f.cls) == cls and not f.dep]
        if not ms:
            ms = [f for f in P.fns.values() if strip_targs(f.cls) == cls]
        mutexes = [f[0] for f in classes[cls]['fields'] if effects.MUTEXT.search(f[1])]

        def norm(q):
            if q[0] == ('T',):
                return q
            if q[-1] == '<lock>' and len(mutexes) == 1:
                return (('T',), mutexes[0])       # a lock handed in by the caller: the class has only one mutex
            return None
        acc = {}
        for f in ms:
            if f.n.startswith('~') or f.n == cls.split('::')[-1]:
                continue      # construction / destruction is not concurrent
            if f.u not in conc:
                continue      # only called while no other thread is at work
            rep.count('entry_methods')
            for e in E.summary(f):
                if e.path[0] != ('T',) or len(e.path) < 2 or not isinstance(e.path[1], str):
                    continue
                fld = e.path[1]
                lk = frozenset(x for x in map(norm, e.locks or ()) if x)
                part = e.path[2] if len(e.path) > 2 else ''
                acc.setdefault(fld, []).append((f, e, lk, part))
        for fld, l in sorted(acc.items()):
            if is_lock_field(classes[cls], fld):
                continue
            ft = next((f[1] for f in classes[cls]['fields'] if f[0] == fld), '')
            if strip_targs(ft).replace('const ', '').rstrip('& *') in classes:
                continue      # an object with locks of its own is judged by itself
            guards = [x for x in l if x[2]]
            if not guards:
                continue
            wr = [x for x in l if x[1].w]
            if not wr:
                continue
            # the lock under which it is written
            common = None
            for x in wr:
                common = x[2] if common is None else common & x[2]
            rep.count('guarded_fields')
            rep.sample('%s::%s guarded by %s (%d accesses)' % (cls, fld, [pp(wr[0][0], q) for q in (common or ())], len(l)))
            for f, e, lk, part in l:
                rep.ok()
                if lk:
                    bad = not any(lk & y[2] for y in wr) if not e.w else not common
                elif not e.w and len(e.path) > 3 and part != '#':
                    bad = False        # contents of an entry handed out by reference: judged by the race analysis (C01)
                elif not e.w and part == '[*]':
                    bad = False
                else:
                    bad = True
                if bad:
                    rep.violation('%s::%s' % (cls, fld), e.chain[0] if e.chain else f.where(),
                                  '%s %s %s holding %s, while it is modified under %s elsewhere' % (
                                      f.sq, 'writes' if e.w else 'reads', pp(f, e.path), [pp(f, q) for q in lk] or 'no lock',
                                      sorted({pp(y[0], q) for y in wr for q in y[2]})))
    rep.count('classes_with_locks', len(classes))
    rep.need('classes_with_locks', 1)
    rep.need('guarded_fields', 8)
    return ('Every class that owns a mutex is enumerated; for each entry method the interprocedural effects on the members are computed with the locks held. '
            'A member that is modified under a lock after construction must be accessed with a lock in common with its writers everywhere.')


def concurrent_functions(P):
    """methods called directly from the body of some parallel section, or from a function reached from one that belongs to another class"""
    bodies = []
    for fn, n in races.find_sites(P):
        for a in n.walk():
            if a.k == 'lambda':
                bodies.append(a.x)
        env_lams = {v.a: v.ch[0] for v in fn.walk() if v.k == 'var' and v.ch and v.ch[0] is not None}
        for a in n.ch:
            while a is not None and a.k in ('icast', 'cast', 'ctor') and a.ch:
                a = a.ch[0]
            if a is not None and a.k == 'ref' and a.a in env_lams:
                for l in env_lams[a.a].walk():
                    if l.k == 'lambda':
                        bodies.append(l.x)
    out, seen, st = set(), set(), [(b, '') for b in bodies]
    while st:
        b, cls = st.pop()
        if b is None:
            continue
        for c in b.walk():
            if c.k in ('call', 'mcall', 'ctor', 'opcall') and c.callee() is not None:
                for g in P.resolve(c):
                    gc = strip_targs(g.cls)
                    if gc and gc != cls:
                        out.add(g.u)
                    if (g.u, gc) not in seen:
                        seen.add((g.u, gc))
                        st.append((g.body, gc))
    return out


def is_lock_field(r, fld):
    for f in r['fields']:
        if f[0] == fld:
            return bool(effects.ATOMIC.match(f[1]) or effects.MUTEXT.search(f[1]))
    return False
