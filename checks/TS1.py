import facts, spec

REFS = ['TS1.cpp'] + spec.whole('TS1')
TUS = lambda: spec.tus('TS1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'TS1', 48)
