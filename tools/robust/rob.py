"""rob.py SEED [kinds-regex] [per-function] : applies random rewrites to a scratch copy and compares everything with the references"""
import sys, os, json, re, random, subprocess, collections, time, threading
sys.path.insert(0, '/verif/sa'); sys.path.insert(0, '/verif/checks')
R = os.environ.get('ROB', '/tmp/rob'); 
os.environ['SA_REPO'] = R + '/repo'; os.environ['SA_CACHE'] = R + '/cache'
sys.setrecursionlimit(60000)
seed = int(sys.argv[1]); kinds = re.compile(sys.argv[2] if len(sys.argv) > 2 else 'r:'); per = int(sys.argv[3]) if len(sys.argv) > 3 else 1
qre = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
rnd = random.Random(seed)
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
os.makedirs(R, exist_ok=True)
if not os.path.exists(R + '/repo/src'):
    sh('mkdir -p %s/repo; cp -a /repo/src /repo/include /repo/CMakeLists.txt /repo/Cura.proto %s/repo/' % (R, R))
if not os.path.exists(R + '/cache'):
    sh('cp -a /verif/.cache %s/cache' % R)
C = [json.loads(l) for l in open(os.environ.get('CANDS', '/tmp/cands.jsonl'))]
C = [c for c in C if kinds.match(c['k']) and (not qre or qre.search(c['q']))]
byfn = collections.defaultdict(list)
for c in C: byfn[(c['f'], c['q'])].append(c)
cnt = collections.Counter(c['k'] for c in C)
sel = collections.defaultdict(list)
def span(c): return [(o, o + max(l, 0)) for o, l, t in c['e']]
def clash(a, b): return any(x0 < y1 and y0 < x1 or (x0 == x1 and y0 == y1 and x0 == y0 and False) for x0, x1 in span(a) for y0, y1 in span(b))
frac = float(os.environ.get('FRAC', 1))
for key, cs in sorted(byfn.items()):
    if frac < 1 and (rnd.random() > frac or len(cs) < 6): continue
    for _ in range(per):
        w = [1.0 / (50 + cnt[c['k']]) for c in cs]
        c = rnd.choices(cs, w)[0]
        if not any(clash(c, d) for d in sel[key[0]]): sel[key[0]].append(c)
def text(f, cs):
    s = open('/repo/' + f, 'rb').read()
    ed = sorted([(o, l, t.encode(), i) for i, c in enumerate(cs) for o, l, t in c['e']], key=lambda x: (x[0], x[1]))
    out, pos, lines, spans = [], 0, 1, []
    for o, l, t, i in ed:
        seg = s[pos:o]; out.append(seg); lines += seg.count(b'\n'); a = lines; out.append(t); lines += t.count(b'\n'); spans.append((a, lines, i)); pos = o + l
    out.append(s[pos:])
    return b''.join(out), spans
def write(f, b):
    p = R + '/repo/' + f
    if not os.path.exists(p) or open(p, 'rb').read() != b: open(p, 'wb').write(b)
# every file as in /repo, or rewritten
spans = {}
for root in ('src', 'include'):
    for d, _, fs in os.walk('/repo/' + root):
        for x in fs:
            f = os.path.join(d, x)[6:]
            if sel.get(f): b, spans[f] = text(f, sel[f])
            else: b = open('/repo/' + f, 'rb').read()
            write(f, b)
import facts, core, spec
from concurrent.futures import ThreadPoolExecutor
# parse, dropping what does not compile
for it in range(8):
    tool = facts.ensure_tool()[0]; fl = facts.flags('main')
    try:
        facts.extract_all(facts.tu_list()); break
    except facts.AnalysisError as e: pass
    # all errors
    pch = facts.ensure_pch('main', facts.tree_hash('/verif/stubs') + facts.tree_hash('/verif/stubs_fast'))
    bad = [t for t in facts.tu_list() if not os.path.exists(facts.CACHE + '/tu/main/' + t.replace('/', '__') + '.key')]
    from concurrent.futures import ThreadPoolExecutor
    def errs(t):
        r = sh(' '.join("'%s'" % x for x in ['clang++', '-fsyntax-only', '-ferror-limit=0', '-include-pch', pch] + fl + [R + '/repo/' + t]))
        return re.findall(r'([^\s:]+):(\d+):\d+: (?:fatal )?error', r.stderr) + re.findall(r'([^\s:]+):(\d+):\d+: note: in instantiation', r.stderr)
    drop = collections.defaultdict(set)
    with ThreadPoolExecutor(8) as ex:
        for es in ex.map(errs, bad):
            for f, l in es:
                f = os.path.normpath(f)
                if f.startswith(R + '/repo/'): f = f[len(R + '/repo/'):]
                if f not in spans: continue
                hit = [i for a, b, i in spans[f] if a - 1 <= int(l) <= b + 1]
                if not hit:
                    near = [(abs(int(l) - a), i) for a, b, i in spans[f] if a <= int(l)]
                    hit = [min(near)[1]] if near else []
                drop[f] |= set(hit)
    if not drop: print('cannot repair', bad[:5]); sys.exit(3)
    for f, ds in drop.items():
        sel[f] = [c for i, c in enumerate(sel[f]) if i not in ds]
        b, spans[f] = text(f, sel[f]); write(f, b)
    print('dropped', sum(map(len, drop.values())), 'of', len(spans), 'files', flush=True)
applied = [c for f in sel for c in sel[f]]
print('applied', len(applied), collections.Counter(c['k'] for c in applied).most_common(60), flush=True)
json.dump(applied, open(R + '/applied.json', 'w'))
byq = collections.defaultdict(list)
for c in applied: byq[re.sub(r'<.*?>', '', c['q'])].append(c)

CK = """
import sys, os, json; sys.path[:0] = ['/verif/sa', '/verif/checks']; sys.setrecursionlimit(60000)
import core, importlib, threading
threading.stack_size(512 << 20)
def main():
    pid = sys.argv[1]; m = importlib.import_module(pid); rep = core.Report(pid); t = getattr(m, 'TUS', None); t = t() if callable(t) else t
    m.check(rep, core.program(list(t) if t else None)); known = core.load_known(pid)
    print('RES ' + json.dumps({'eq': rep.cov.get('proved_equal', 0), 'viol': ['%s @ %s :: %s' % v for v in rep.viol if v[0] not in known], 'und': [str(u) for u in rep.undecided]}))
th = threading.Thread(target=main); th.start(); th.join()
"""
open(R + '/ck.py', 'w').write(CK)
tot = collections.Counter(); bad = []; und = []
only = os.environ.get('ROBCHECKS')
ids = [m[:-3] for m in sorted(os.listdir('/verif/checks')) if re.match(r'[A-Z].*\.py$', m) and (not only or re.match(only, m))]
def ck(pid):
    t0 = time.time()
    r = subprocess.run([sys.executable, R + '/ck.py', pid], capture_output=True, text=True, env=dict(os.environ, SPEC_J='3', SA_REPO=R + '/repo', SA_CACHE=R + '/cache'))
    l = [x for x in r.stdout.split('\n') if x.startswith('RES ')]
    return pid, time.time() - t0, json.loads(l[0][4:]) if l else None, r.stderr[-300:]
# extraction of the reference units first (one lock)
with ThreadPoolExecutor(5) as ex:
    for pid, dt, d, err in ex.map(ck, ids):
        if d is None: print(pid, 'NO ANSWER', err, flush=True); continue
        tot['eq'] += d['eq']; tot['und'] += len(d['und']); tot['viol'] += len(d['viol'])
        bad += [(pid, v) for v in d['viol']]; und += [(pid, v) for v in d['und']]
print(dict(tot))
with open(R + '/result.txt', 'w') as h:
    for p, v in bad: h.write('VIOL %s %s\n' % (p, v[:2500]))
    for p, v in und: h.write('UND %s %s\n' % (p, v[:400]))
for p, v in bad[:60]:
    print('VIOL', p, v[:200])
    for q, cs in byq.items():
        if v.startswith(q + '('):
            for c in cs: print('      rewritten by', c['k'], 'line', c['l'])
