import facts, spec

REFS = ['SK1.cpp'] + spec.whole('SK1')
TUS = lambda: spec.tus('SK1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'SK1', 5)
