import facts, spec

REFS = ['B.cpp'] + spec.whole('B')
TUS = lambda: spec.tus('B02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'B02', 6)
