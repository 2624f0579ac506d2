"""Values of default arguments, named constants and default member initialisers as the references mean them.

A reference that leaves an argument to its default, names a constant or default-constructs an object would otherwise be
evaluated with whatever the code under analysis says today, so that both sides change together.  ref/base.json keeps the
folded values; the reference side uses them, the code side its own."""
import json, os
from fractions import Fraction
import terms
from terms import T

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'base.json')
_tab = None
REC = {} if os.environ.get('SA_BASE_REC') else None
OPS = {'poly', 'str', 'true', 'false', 'null', 'undef', 'void', 'list', 'inf', 'obj', 'make', 'fn', 'upd', 'call', 'inf', 'nan', 'glob', 'fn2', 'limit'}


class Open(Exception):
    pass


def enc(v):
    if isinstance(v, terms.Tm):
        if v.op not in OPS:
            raise Open(v.op)
        if v.op == 'poly' and any(m for m, _ in v.args[0]):
            return ['p'] + [[str(c)] + [[enc(x), str(e)] for x, e in m] for m, c in v.args[0]]
        return ['t', v.op, v.sort] + [enc(a) for a in v.args]
    if isinstance(v, Fraction):
        return ['q', str(v)]
    if isinstance(v, tuple):
        return ['l'] + [enc(a) for a in v]
    if v is None or isinstance(v, (str, bool, int)):
        return v
    raise Open(type(v).__name__)


def dec(x):
    if isinstance(x, list):
        if x[0] == 'q':
            return Fraction(x[1])
        if x[0] == 'l':
            return tuple(dec(a) for a in x[1:])
        if x[0] == 'p':
            r = terms.ZERO
            for m in x[1:]:
                k = terms.const(Fraction(m[0]))
                for y, e in m[1:]:
                    y = dec(y)
                    for _ in range(abs(int(e))):
                        k = terms.pmul(k, y) if int(e) > 0 else terms.pdiv(k, y)
                r = terms.padd(r, k)
            return r
        if x[1] in ('true', 'false'):
            return terms.TRUE if x[1] == 'true' else terms.FALSE
        return T(x[1], *[dec(a) for a in x[3:]], sort=x[2])
    return x


def table():
    global _tab
    if _tab is None:
        try:
            with open(FILE) as h:
                _tab = json.load(h)
        except OSError:
            _tab = {}
    return _tab


def get(key):
    x = table().get(key)
    return None if x is None else dec(x)


def record(key, v):
    if REC is None:
        return
    try:
        REC[key] = enc(v)
    except Open as x:
        if os.environ.get('SA_BASE_DBG'):
            print('open', key, x, terms.show(v)[:150] if not isinstance(v, str) else v)
        REC.setdefault(key, None)


def save():
    if REC is None:
        return
    import fcntl
    p = os.environ['SA_BASE_REC']
    with open(p, 'a') as h:
        fcntl.flock(h, fcntl.LOCK_EX)
        for k, v in REC.items():
            h.write(json.dumps([k, v]) + '\n')
    REC.clear()
