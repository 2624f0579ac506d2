import facts, spec

REFS = ['I01.cpp'] + spec.whole('I01')
TUS = lambda: spec.tus('I01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'I01', 30)
