import facts, spec

REFS = ['S01.cpp'] + spec.whole('S01')
TUS = lambda: spec.tus('S01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'S01', 6)
