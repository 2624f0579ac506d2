"""Adds reference blocks for functions that have none.  python3 tools/more.py FIRSTNUMBER [regex]"""
import glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'sa'), os.path.join(V, 'tools')]
sys.setrecursionlimit(60000)
import core, facts, spec, mkref
from core import strip_targs

K = int(sys.argv[1])
PAT = sys.argv[2] if len(sys.argv) > 2 else '.*'
refs = [os.path.relpath(x, os.path.join(V, 'ref')) for x in sorted(glob.glob(os.path.join(V, 'ref/*.cpp')) + glob.glob(os.path.join(V, 'ref/whole/*/*.cpp')))]
P = core.program(facts.tu_list() + ['@ref/' + r for r in refs])
P.enum_names = set(P.enums)
mkref.GV = {strip_targs(v['q']) for v in P.gvs.values()}
cov, home = set(), {}
for r in refs:
    for e in spec.entries(P, r):
        for f in spec.implementations(P, e):
            cov.add((f.f, f.l))
            hr = r if '/' not in r else r.split('/')[1] + '.cpp'
            home.setdefault(f.f, {}).setdefault(hr, 0)
            home[f.f][hr] += 1
for r, fs in json.load(open(os.path.join(V, 'tools/reffiles.json'))).items():
    for f in fs:
        if f not in home:
            home[f] = {r: 1}
todo = {}
inst = {}
for f in sorted(P.fns.values(), key=lambda f: (f.f, f.l)):
    if f.body is None or f.dep or f.f.startswith('@ref') or f.r['k'] != 'fn' or f.n.startswith('~') or 'd' in f.fl or 'i' in f.fl:
        continue
    if not (f.f.startswith('src/') or f.f.startswith('include/')) or (f.f, f.l) in cov:
        continue
    if not re.search(PAT, f.f + ' ' + f.sq):
        continue
    inst[(f.f, f.l)] = inst.get((f.f, f.l), 0) + 1
    if inst[(f.f, f.l)] > 2:
        continue
    h = home.get(f.f)
    if not h:
        print('no home', f.f, f.sq)
        continue
    try:
        s = mkref.draft(P, f, K)
    except ValueError as x:
        s = None
    if s is None:
        print('no draft', f.f, f.sq)
        continue
    s = s.replace('//= ', '//= ', 1)
    todo.setdefault(max(h, key=h.get), []).append((K, f.sq, s))
    K += 1
print('next number', K)


def add(r, blocks):
    p = os.path.join(V, 'ref', r)
    text = open(p).read()
    head, tail = text.split('//END')
    head = head.rstrip('\n') + '\n'
    t2 = [x for x in json.load(open(os.path.join(V, 'tools/reffiles.json'))).get(r, [])]
    while True:
        out = head
        spans = []
        for b in blocks:
            a = out.count('\n') + 1
            out += '\n' + b[2].rstrip('\n') + '\n'
            spans.append((a, out.count('\n'), b))
        open(p, 'w').write(out + '//END' + tail)
        c = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-w', '-fno-access-control'] + facts.flags('main') + ['-I' + os.path.join(V, 'ref'), p], capture_output=True, text=True, cwd='/repo')
        bad = set()
        lines = c.stderr.split('\n')
        for i, l in enumerate(lines):
            m = re.search(re.escape(r) + r':(\d+):\d+: (?:fatal )?error: (.*)', l)
            n = [int(m.group(1))] if m else []
            if 'error' in l and not m:
                for l2 in lines[i:i + 40]:
                    m2 = re.search(re.escape(r) + r':(\d+):\d+: note', l2)
                    if m2:
                        n.append(int(m2.group(1)))
                        break
            for x in n:
                for a, z, b in spans:
                    if a <= x <= z and b[0] not in bad:
                        bad.add(b[0])
                        print('  drop', r, b[1], '|', (m.group(2) if m else l)[:120])
        if not bad:
            if c.returncode:
                print('!!', r, c.stderr[:600])
            break
        blocks = [b for b in blocks if b[0] not in bad]
    print(r, 'added', len(blocks))


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda x: add(*x), todo.items()))
