import facts, spec

REFS = ['GC3.cpp'] + spec.whole('GC3')
TUS = lambda: spec.tus('GC3', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'GC3', 54)
