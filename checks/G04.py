import facts, spec

REFS = ['G04.cpp'] + spec.whole('G04')
TUS = lambda: spec.tus('G04', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G04', 23)
