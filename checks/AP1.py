import facts, spec

REFS = ['AP1.cpp'] + spec.whole('AP1')
TUS = lambda: spec.tus('AP1', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'AP1', 19)
