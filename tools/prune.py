"""Removes from reference files the blocks that the engine cannot decide on the current tree.  python3 tools/prune.py FILE.cpp..."""
import os, re, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(60000)
import core, facts, spec


def main():
    from multiprocessing import Pool
    for name in sys.argv[1:]:
        P = core.program(facts.tu_list() + ['@ref/' + name])
        rep = core.Report('X')
        verd = {}
        keep, drop = 0, []
        spec.run(rep, P, [name], verdicts=verd)
        lines = open(os.path.join(V, 'ref', name)).read().split('\n')
        bl = spec.blocks(name)
        out, i = [], 0
        cut = set()
        for k, (ln, text) in enumerate(bl):
            if text is None:
                continue
            q = text.split('|')[0].strip().split('::')
            ctor = len(q) > 1 and q[-1] == q[-2]
            if verd.get(ln, 'undecided') != 'equal' and (ctor or verd.get(ln) != 'violation'):
                drop.append(text)
                cut |= set(range(ln - 1, bl[k + 1][0] - 1))
            else:
                keep += 1
                if verd.get(ln) == 'violation':
                    print('VIOLATION', name, ln, text)
        with open(os.path.join(V, 'ref', name), 'w') as f:
            f.write('\n'.join(l for i, l in enumerate(lines) if i not in cut))
        print(name, 'kept', keep, 'dropped', len(drop), '%.0fs' % (core.time.time() - rep.t0))
        for d in drop:
            print('   dropped', d[:110])


threading.stack_size(512 << 20)
t = threading.Thread(target=main)
t.start()
t.join()
