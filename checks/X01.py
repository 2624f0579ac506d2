import facts, spec

REFS = ['X01.cpp'] + spec.whole('X01')
TUS = lambda: spec.tus('X01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'X01', 22)
