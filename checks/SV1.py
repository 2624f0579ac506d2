import facts, spec

REFS = ['SV1.cpp'] + spec.whole('SV1')
TUS = lambda: spec.tus('SV1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'SV1', 24)
