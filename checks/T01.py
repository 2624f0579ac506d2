import facts, spec

REFS = ['T01.cpp'] + spec.whole('T01')
TUS = lambda: spec.tus('T01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'T01', 13)
