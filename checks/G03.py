import facts, spec

REFS = ['G03.cpp'] + spec.whole('G03')
TUS = lambda: spec.tus('G03', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G03', 24)
