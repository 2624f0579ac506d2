import facts, spec

REFS = ['H01.cpp'] + spec.whole('H01')
TUS = lambda: spec.tus('H01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'H01', 4)
