import facts, spec

REFS = ['M01.cpp'] + spec.whole('M01')
TUS = lambda: spec.tus('M01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'M01', 28)
