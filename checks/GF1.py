import facts, spec

REFS = ['GF1.cpp'] + spec.whole('GF1')
TUS = lambda: spec.tus('GF1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'GF1', 13)
