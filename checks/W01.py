import facts, spec

REFS = ['W01.cpp'] + spec.whole('W01')
TUS = lambda: spec.tus('W01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'W01', 18)
