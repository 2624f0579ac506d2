"""C02 parallel sections run every item exactly once and then finish"""
import facts, locks, spec

REFS = ['C02.cpp'] + spec.whole('C02')
TUS = lambda: spec.tus('C02', REFS)


def check(rep, P):
    A = locks.Analysis(P)
    fns = [f for f in P.fns.values() if not f.u.startswith('ref:') and 'cura::' in f.q]
    locks.wait_rules(rep, A, fns)
    locks.handed_rules(rep, A, fns)
    rep.need('waits', 3)
    rep.need('handed_locks', 5)
    return spec.standard(rep, P, REFS, 'C02', 8, 'in addition every wait is inside a loop that looks again, and work handed a held lock touches shared counters only under it, '
                         'works on items without it and holds it again at the end')
