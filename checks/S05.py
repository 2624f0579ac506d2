import facts, spec

REFS = ['S05.cpp'] + spec.whole('S05')
TUS = lambda: spec.tus('S05', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'S05', 13)
