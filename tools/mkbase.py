"""ref/base.json: run the reference checks with SA_BASE_REC=FILE on the base tree, then `mkbase.py FILE`."""
import json, sys
out = {}
for l in open(sys.argv[1]):
    k, v = json.loads(l)
    if v is None:
        continue
    if k in out and out[k] != v:
        print('two values', k)
    out[k] = v
json.dump(out, open('/verif/ref/base.json', 'w'), indent=0, sort_keys=True)
print(len(out))
