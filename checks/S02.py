import facts, spec

REFS = ['S02.cpp'] + spec.whole('S02')
TUS = lambda: spec.tus('S02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'S02', 20)
