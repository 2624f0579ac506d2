"""mut.py SEED [kinds] : one random mutation per function in a scratch copy (ROB=/tmp/mutt); which mutated functions the references catch.
Writes missed.txt / undecided.txt / unreferenced.txt in $ROB."""
import os, sys, json, re, subprocess, collections
R = os.environ.setdefault('ROB', '/tmp/mutt')
seed = sys.argv[1]; kinds = sys.argv[2] if len(sys.argv) > 2 else 'm:'
here = os.path.dirname(os.path.abspath(__file__))
r = subprocess.run([sys.executable, here + '/rob.py', seed, kinds, '1'] + sys.argv[3:], capture_output=True, text=True)
print('\n'.join(l[:300] for l in r.stdout.split('\n')[:6]), r.stderr[-300:])
applied = json.load(open(R + '/applied.json'))
refq = collections.defaultdict(list)
names = [os.path.relpath(os.path.join(d, f), '/verif/ref') for d, _, fs in os.walk('/verif/ref') for f in sorted(fs)]
for f in names:
    if f.endswith('.cpp'):
        for i, l in enumerate(open('/verif/ref/' + f), 1):
            m = re.match(r'//=\s*([^|]*)', l)
            if m: refq[m.group(1).strip()].append('%s:%d' % (f, i))
viol, und = [], []
for l in open(R + '/result.txt'):
    if not re.match(r'(VIOL|UND) \w+ ', l): continue
    k, p, v = l.rstrip('\n').split(' ', 2)
    (viol if k == 'VIOL' else und).append((p, v))
def noise(c):
    s = open('/repo/' + c['f'], 'rb').read()
    o = c['e'][0][0]; a = s.rfind(b';', 0, o); b = s.find(b';', o)
    return any(w in s[a:b] for w in (b'spdlog', b'logEvent', b'logWarning', b'logError', b'logProgress', b'reserve'))
applied = [c for c in applied if not noise(c)]
tot = collections.Counter(); bykind = collections.defaultdict(collections.Counter)
out = {k: open(R + '/%s.txt' % k, 'w') for k in ('missed', 'undecided', 'unreferenced')}
for c in applied:
    q = re.sub(r'<.*?>', '', c['q'])
    w = 'unreferenced'
    if q in refq: w = 'missed'
    if any(v.startswith(q + ':') or v.startswith(q + ' [') for _, v in und): w = 'undecided'
    if any(v.startswith(q + '(') for _, v in viol) or any(' %s @' % q in v or ('@ ' in v and q in v.split('::')[0]) for _, v in viol): w = 'caught'
    tot[w] += 1; bykind[c['k']][w] += 1
    if w in out: out[w].write('%s %s %s:%s %s %s\n' % (c['k'], q, c['f'], c['l'], refq.get(q, '')[:2], json.dumps(c['e'])[:200]))
print(dict(tot))
for k, v in bykind.items(): print(' ', k, dict(v))
