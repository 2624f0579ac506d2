import facts, spec

REFS = ['P01.cpp'] + spec.whole('P01')
TUS = lambda: spec.tus('P01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'P01', 6)
