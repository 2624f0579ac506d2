import facts, spec

REFS = ['Q01.cpp'] + spec.whole('Q01')
TUS = lambda: spec.tus('Q01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'Q01', 45)
