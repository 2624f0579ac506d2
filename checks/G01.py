import facts, spec

REFS = ['G01.cpp'] + spec.whole('G01')
TUS = lambda: spec.tus('G01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G01', 150)
