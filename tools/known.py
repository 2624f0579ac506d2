"""ref/known.txt: the functions of the base tree that are large enough to be treated as units (one template-free name per line)."""
import os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(60000)
import core, facts, spec


def size(n):
    c, st = 0, [n]
    loop = False
    while st:
        x = st.pop()
        if x is None:
            continue
        c += 1
        if x.k in ('for', 'while', 'do', 'rfor', 'try', 'switch'):
            loop = True
        st.extend(x.ch)
        if x.x is not None and hasattr(x.x, 'ch'):
            st.append(x.x)
    return 1000 if loop else c


def main():
    P = core.program(facts.tu_list())
    out = set()
    for f in P.fns.values():
        if f.body is None or f.dep and not f.body:
            continue
        if not (f.q.startswith('cura::')):
            continue
        if f.n.startswith('operator()') and '(anonymous' in f.q or 'lambda' in f.q:
            continue
        if size(f.body) > 25:
            out.add(spec.signature(f))
    with open(os.path.join(V, 'ref', 'known.txt'), 'w') as f:
        f.write(''.join(x + '\n' for x in sorted(out)))
    print(len(out))


threading.stack_size(512 << 20)
t = threading.Thread(target=main)
t.start()
t.join()
