import facts, spec

REFS = ['GC2.cpp'] + spec.whole('GC2')
TUS = lambda: spec.tus('GC2', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'GC2', 54)
