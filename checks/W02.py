import facts, spec

REFS = ['W02.cpp'] + spec.whole('W02')
TUS = lambda: spec.tus('W02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'W02', 15)
