"""B01 wrapped wall strategies answer like what they wrap unless they refine it"""
import facts, spec

REFS = ['B.cpp'] + spec.whole('B')
TUS = lambda: spec.tus('B01', REFS)
BASE = 'cura::BeadingStrategy'


def check(rep, P):
    base = P.rec_by_q[BASE][0]
    virt = sorted({m[0] for m in base['methods'] if 'v' in m[3] and not m[0].startswith('~')})
    for r in P.recs.values():
        if not any(b[0] == BASE for b in r['bases']):
            continue
        if not any('unique_ptr<cura::BeadingStrategy' in f[1] or 'BeadingStrategyPtr' in f[1] for f in r['fields']):
            continue
        rep.count('wrapper_classes')
        own = {m[0] for m in r['methods']}
        cls = r['q'].split('::')[-1]
        for m in virt:
            rep.count('virtual_queries')
            if m in own:
                rep.ok()
                rep.sample('%s answers %s itself (see its reference function)' % (cls, m))
            else:
                rep.violation('%s::%s' % (cls, m), r['q'], 'the question is answered by the default of BeadingStrategy instead of the wrapped strategy')
    rep.need('wrapper_classes', 5)
    rep.need('virtual_queries', 35)
    return spec.standard(rep, P, REFS, 'B01', 40, 'In addition every wrapper class has to override every virtual query of the base class.')
