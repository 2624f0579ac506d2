"""Readings of settings: which key is read as which kind of quantity, and where."""
from core import strip_targs

READERS = ('cura::Settings::get',)
COUNT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'cura::LayerIndex', 'unsigned long long'}


def quantity(t):
    """the kind of quantity a result type stands for"""
    t = t.replace('const ', '').strip()
    if t in COUNT:
        return 'count'
    if t == 'long long':
        return 'length'
    if t in ('double', 'float'):
        return 'plain'
    if t.startswith('cura::Angle'):
        return 'angle'
    if t.startswith('std::basic_string') or t == 'std::string':
        return 'text'
    if 'ExtruderTrain' in t:
        return 'extruder'
    if t.startswith('std::vector<'):
        return 'list of ' + quantity(t[len('std::vector<'):].split(',')[0].rstrip('>'))
    return t.split('::')[-1]


def strings(n, depth=0):
    """the texts an expression can be; None if it is not known"""
    if n is None or isinstance(n, str) or depth > 12:
        return None
    if n.k == 'str':
        return {n.a}
    if n.k == 'cond':
        a, b = strings(n.ch[-2], depth + 1), strings(n.ch[-1], depth + 1)
        return a | b if a is not None and b is not None else None
    if n.k in ('ctor', 'cast', 'icast', 'stdinit', 'init'):
        ch = [c for c in n.ch if c is not None and c.k != 'defarg']
        return strings(ch[0], depth + 1) if len(ch) == 1 else None
    if n.k == 'ref':
        d = n.decl()
        if d is None or not d.is_local() or 'P' in d.fl:
            return None
        found = None
        for x in d.fn.walk():
            if x.k == 'var' and x.decl() is not None and x.decl().i == d.i:
                if x.x or not x.ch:
                    return None
                found = x.ch[0]
            elif x.k in ('asg', 'casg', 'opcall') and x.ch and x.ch[0] is not None and x.ch[0].k == 'ref' and x.ch[0].decl() is not None and x.ch[0].decl().i == d.i and not (x.k == 'opcall' and x.a[1] not in ('=', '+=')):
                return None
        return strings(found, depth + 1) if found is not None else None
    return None


def result_type(x):
    d = x.decl()
    ta = d.ta
    if isinstance(ta, (list, tuple)):
        ta = ta[0] if ta else ''
    return str(ta or '')


def readings(P):
    """(function, node, keys or None, quantity, type)"""
    for f in P.fns.values():
        if f.dep or f.body is None or f.f.startswith('@ref'):
            continue
        for x in f.walk():
            if x.k != 'mcall':
                continue
            d = x.decl()
            if d is None or strip_targs(d.q) not in READERS or len(x.ch) < 2:
                continue
            t = result_type(x)
            yield f, x, strings(x.ch[1]), quantity(t), t
