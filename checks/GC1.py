import facts, spec

REFS = ['GC1.cpp'] + spec.whole('GC1')
TUS = lambda: spec.tus('GC1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'GC1', 54)
