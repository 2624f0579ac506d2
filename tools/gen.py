"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (one place for statements, techniques and reasons)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA


def main():
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            r = {k: p[k] for k in ('id', 'title', 'statement')}
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            r['quantifier'] = {'over': p['over'], 'text': p['quant']}
            r['why_tests_cant'] = p['why']
            r['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
            f.write(json.dumps(r) + '\n')
            if p in NA:
                na.append({'property': p['id'], 'reason': p['reason']})
            elif os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
                checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py ' + p['id'],
                               'thorough_cmd': 'python3 checks/run.py ' + p['id'],
                               'evidence_file': 'evidence/%s.json' % p['id'],
                               'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
            else:
                na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    m = {'version': 1, 'setup_cmd': 'python3 sa/facts.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed,', len(na), 'not applicable')


main()
