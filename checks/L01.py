import facts, spec

REFS = ['L01.cpp'] + spec.whole('L01')
TUS = lambda: spec.tus('L01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'L01', 31)
