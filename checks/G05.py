import facts, spec

REFS = ['G05.cpp', 'G05_inst.cpp'] + spec.whole('G05')
TUS = lambda: spec.tus('G05', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G05', 54)
