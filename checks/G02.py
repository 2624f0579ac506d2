import facts, spec

REFS = ['G02.cpp'] + spec.whole('G02')
TUS = lambda: spec.tus('G02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G02', 91)
