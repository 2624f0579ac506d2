import facts, spec

REFS = ['G06.cpp'] + spec.whole('G06')
TUS = lambda: spec.tus('G06', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'G06', 30)
