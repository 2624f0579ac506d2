import facts, spec

REFS = ['K01.cpp'] + spec.whole('K01')
TUS = lambda: spec.tus('K01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'K01', 9)
