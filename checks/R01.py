import facts, spec

REFS = ['R01.cpp'] + spec.whole('R01')
TUS = lambda: spec.tus('R01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'R01', 10)
