import facts, spec

REFS = ['U01.cpp', 'U01_inst.cpp'] + spec.whole('U01')
TUS = lambda: spec.tus('U01', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'U01', 23)
