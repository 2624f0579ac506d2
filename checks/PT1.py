import facts, spec

REFS = ['PT1.cpp'] + spec.whole('PT1')
TUS = lambda: spec.tus('PT1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'PT1', 10)
