import facts, spec

REFS = ['I03.cpp'] + spec.whole('I03')
TUS = lambda: spec.tus('I03', REFS)


def check(rep, P):
    return spec.standard(rep, P, REFS, 'I03', 19)
