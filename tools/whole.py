"""Reference units for functions that have no block in ref/*.cpp: ref/whole/CHECK/FILE.cpp.  python3 tools/whole.py [regex]"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'sa'), os.path.join(V, 'tools')]
sys.setrecursionlimit(60000)
import core, facts, spec
from core import strip_targs

PAT = sys.argv[1] if len(sys.argv) > 1 else '.*'
refs = [os.path.basename(x) for x in sorted(glob.glob(os.path.join(V, 'ref/*.cpp')))]
P = core.program(facts.tu_list() + ['@ref/' + r for r in refs])
cov, home = set(), {}
for r in refs:
    for e in spec.entries(P, r):
        for f in spec.implementations(P, e):
            cov.add((f.f, f.l))
            home.setdefault(f.f, {}).setdefault(r, 0)
            home[f.f][r] += 1
for r, fs in json.load(open(os.path.join(V, 'tools/reffiles.json'))).items():
    for f in fs:
        if f not in home:
            home[f] = {r: 1}
for x in ('include/utils/ThreadPool.h', 'src/utils/ThreadPool.cpp'):
    home[x] = {'C02.cpp': 1}
byfile, insts = {}, {}
for f in sorted(P.fns.values(), key=lambda f: (f.f, f.l)):
    if f.body is None or f.f.startswith('@ref') or not re.match('src/|include/', f.f) or f.r['k'] != 'fn':
        continue
    if f.f == 'include/BoostInterface.hpp' or f.f.startswith('include/plugins'):
        continue
    byfile.setdefault(f.f, {}).setdefault((f.l, f.le), f)
    if f.f.startswith('include/') and not f.dep:
        insts.setdefault((f.f, f.l), set()).add(f)


def blank(text):
    """comments away, line structure kept; strings respected"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            while i < n and text[i] != '\n':
                i += 1
        elif text.startswith('/*', i):
            j = text.index('*/', i) + 2
            out.append('\n' * text.count('\n', i, j))
            i = j
        elif text.startswith('R"', i) and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == '_')):
            m = re.match(r'R"([^(\s]*)\(', text[i:])
            j = text.index(')' + m.group(1) + '"', i) + len(m.group(1)) + 2
            out.append(text[i:j])
            i = j
        elif c == '"' or c == "'" and not (i and text[i - 1].isdigit() and text[i + 1].isdigit()):
            j = i + 1
            while text[j] != c:
                j += 2 if text[j] == '\\' else 1
            out.append(text[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


n = 0
for src, fns in sorted(byfile.items()):
    h = home.get(src)
    todo = {k: f for k, f in fns.items() if (src, f.l) not in cov and not f.n.startswith('~') and 'd' not in f.fl and 'i' not in f.fl}
    if not todo or not re.search(PAT, src):
        continue
    if not h:
        print('no home', src, len(todo))
        continue
    check = max(h, key=h.get)[:-4]
    hdr = src.startswith('include/')
    L = blank(open('/repo/' + src).read()).split('\n')
    pre, post = {}, {}
    for (a, z), f in fns.items():
        while a > 1 and re.match(r'\s*(template\b.*|\[\[.*|inline|static)\s*$', L[a - 2]):
            a -= 1
        if (f.l, f.le) in todo:
            pre[a] = '//= ' + f.sq
            post[z] = '//END'
        else:
            rec = (P.rec_by_q.get(strip_targs(f.cls)) or [None])[0] if f.cls else None
            static = hdr or not f.cls or rec and rec['f'] == src
            if not static and not any(re.match(r'\s*template', L[i - 1]) for i in range(a, f.l + 1)):
                for i in range(a, z + 1):
                    L[i - 1] = ''
    out = ['// What the functions of this unit compute.']
    for i, l in enumerate(L, 1):
        if i in pre:
            out.append(pre[i])
        m = re.match(r'\s*#\s*include\s+"(.*)"', l)
        if m:
            p = os.path.normpath(os.path.join(os.path.dirname(src), m.group(1)))
            if os.path.exists('/repo/' + p) and p.startswith('include/'):
                l = '#include "%s"' % p[8:]
        if l.strip() or i in pre or i in post:
            out.append(l.rstrip())
        if i in post:
            out.append(post[i])
    if hdr:
        # the instances the code uses
        ex = set()
        for (a, z) in todo:
            for f in insts.get((src, a), ()):
                if f.clsq and '<' in f.clsq and '(lambda' not in f.clsq and '(anonymous' not in f.clsq:
                    ex.add('template struct %s;' % f.clsq)
                elif f.ta and '(lambda' not in f.ta + f.q and '(anonymous' not in f.ta:
                    rt = f.r['rt']
                    if rt:
                        ex.add('template %s %s<%s>(%s)%s;' % (rt if isinstance(rt, str) else f.r['T'][rt], f.sq, f.ta, ', '.join(p_.t for p_ in f.params), ' const' if 'c' in f.fl else ''))
        if ex:
            out += ['#include "%s.h"' % x for x in ('Application', 'Slice', 'Scene', 'sliceDataStorage', 'LayerPlan', 'FffGcodeWriter', 'TreeSupport', 'SkirtBrim', 'MeshGroup', 'utils/polygonUtils', 'utils/ExtrusionLine', 'slicer', 'infill', 'infill/LightningTreeNode', 'utils/PolygonsSegmentIndex', 'PathOrderOptimizer')]
            for x in sorted(ex):
                out += ['//= instance', x, '//END']
    d = os.path.join(V, 'ref/whole', check)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, os.path.basename(src).replace('.h', '_h.cpp') if hdr else os.path.basename(src)), 'w') as o:
        o.write('\n'.join(out) + '\n')
    n += len(todo)
print(n, 'functions')
