import facts, spec

REFS = ['S03.cpp'] + spec.whole('S03')
TUS = lambda: spec.tus('S03', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'S03', 15)
