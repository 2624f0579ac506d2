"""A setting means the same quantity wherever it is read."""
import collections, os
import facts, keys
from core import AnalysisError

TUS = lambda: facts.tu_list()
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'keys.txt')


def table():
    out = {}
    with open(TABLE) as h:
        for l in h:
            if l.strip() and not l.startswith('#'):
                k, q = l.rstrip('\n').split('\t')
                out[k] = set(q.split(','))
    return out


def check(rep, P):
    T = table()
    sites = collections.defaultdict(lambda: collections.defaultdict(list))
    dynamic = 0
    for f, x, ks, q, t in keys.readings(P):
        rep.count('readings')
        if ks is None:
            dynamic += 1
            continue
        for k in ks:
            sites[k][q].append((f, x))
    rep.cov['readings_with_computed_key'] = dynamic
    for k in sorted(sites):
        rep.count('keys')
        want = T.get(k)
        here = set(sites[k]) - {'text'}
        if want is None:
            # a setting the list does not know: its readings have to agree with each other
            if len(here) > 1:
                a, b = sorted(here)[:2]
                f, x = sites[k][b][0]
                rep.violation('key:%s:%s' % (k, b), '%s:%s %s' % (f.f, x.l, f.q), 'setting %s is read as %s here and as %s at %s:%s' % (k, b, a, sites[k][a][0][0].f, sites[k][a][0][1].l))
            else:
                rep.count('keys_agree')
                rep.ok()
            continue
        bad = sorted(here - want)
        for q in bad:
            for f, x in sites[k][q]:
                rep.violation('key:%s:%s' % (k, q), '%s:%s %s' % (f.f, x.l, f.q), 'setting %s is read as %s here but is %s' % (k, q, ' or '.join(sorted(want))))
        if not bad:
            rep.count('keys_agree')
            rep.ok()
        if len(here) > 1:
            rep.sample('%s: %s' % (k, ', '.join('%s x%d' % (q, len(sites[k][q])) for q in sorted(here))))
    rep.need('readings', 1000)
    rep.need('keys', 400)
    return ('every reading of a setting with a constant key (choices between constants included) was collected from the type-checked program with the quantity its result type stands for; '
            'ref/keys.txt states what each setting is, and no reading may take it for another kind of quantity')
