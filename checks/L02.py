import facts, spec

REFS = ['L02.cpp'] + spec.whole('L02')
TUS = lambda: spec.tus('L02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'L02', 21)
