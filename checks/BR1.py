import facts, spec

REFS = ['BR1.cpp'] + spec.whole('BR1')
TUS = lambda: spec.tus('BR1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'BR1', 22)
