import facts, spec

REFS = ['I02.cpp'] + spec.whole('I02')
TUS = lambda: spec.tus('I02', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'I02', 16)
