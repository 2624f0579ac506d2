import facts, spec

REFS = ['A01.cpp'] + spec.whole('A01')
TUS = lambda: spec.tus('A01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'A01', 31)
