"""all rewrite candidates of the code base -> /tmp/cands.jsonl"""
import sys, os, json, subprocess
sys.path.insert(0, '/verif/sa')
import facts
from concurrent.futures import ThreadPoolExecutor
os.makedirs('/tmp/cand.d', exist_ok=True)
fl = facts.flags('main')
pch = facts.ensure_pch('main', facts.tree_hash('/verif/stubs') + facts.tree_hash('/verif/stubs_fast'))
def one(t):
    o = '/tmp/cand.d/' + t.replace('/', '__')
    r = subprocess.run(['/tmp/cand', o, '/repo/', '/repo/' + t, '--', '-include-pch', pch] + fl, capture_output=True, text=True)
    return t, r.returncode, o, r.stderr[-300:]
seen = {}
with ThreadPoolExecutor(8) as ex:
    for t, rc, o, err in ex.map(one, facts.tu_list()):
        if rc: print(t, rc, err)
        for l in open(o):
            d = json.loads(l)
            key = (d['f'], d['k'], d['e'][-1][0], d['e'][-1][1])
            if key not in seen: seen[key] = d
with open('/tmp/cands.jsonl', 'w') as h:
    for d in seen.values(): h.write(json.dumps(d) + '\n')
import collections
print(collections.Counter(d['k'] for d in seen.values()))
