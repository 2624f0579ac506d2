"""Removes from the reference units of the given checks what cannot be decided on the current tree.  python3 tools/wprune.py CHECK..."""
import os, re, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(60000)
import core, facts, spec


def main():
    for c in sys.argv[1:]:
        names = spec.whole(c)
        P = core.program(facts.tu_list() + ['@ref/' + n for n in names])
        for n in names:
            rep = core.Report('X')
            E = spec.entries(P, n)
            bad = {}
            keep = 0
            for e in E:
                if e.ref is None:
                    bad[e.line] = (e.q, 'no reference')
                    continue
                I = spec.implementations(P, e)
                if not I:
                    bad[e.line] = (e.q, 'no implementation')
                for f in I:
                    r, m = spec.decide(P, f, e, set(), set())
                    if r != 'equal':
                        bad[e.line] = (e.q, r + ' ' + m[:100])
                    else:
                        keep += 1
            p = os.path.join(V, 'ref', n)
            L = open(p).read().split('\n')
            for l in bad:
                L[l - 1] = '//= skip ' + L[l - 1][4:]
                print('  ', n, *bad[l])
            open(p, 'w').write('\n'.join(L))
            print(n, 'kept', keep)


threading.stack_size(512 << 20)
t = threading.Thread(target=main)
t.start()
t.join()
