"""Draft of reference blocks from the current code (to be reviewed and reworded by hand).
python3 tools/mkref.py FILE-OR-NAME-REGEX..."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import core
from core import strip_targs


def draft(P, f, k):
    src = open('/repo/' + f.f).read().split('\n')
    text = '\n'.join(src[f.l - 1:f.le])
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    text = re.sub(r'//[^\n]*', '', text)
    cls = strip_targs(f.cls)
    tcls = f.clsq if f.clsq and '<' in f.clsq else None
    nm = f.n
    m = re.search(r'(?:\b\w+(?:<[^<>()]*>)?::)*' + re.escape(nm) + r'\s*\(', text)
    if not m:
        return None
    rt = text[:m.start()]
    i = m.end() - 1
    d = 0
    j = i
    while j < len(text):
        if text[j] == '(':
            d += 1
        elif text[j] == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    params = text[i + 1:j]
    rest = text[j + 1:]
    if nm == 'operator':
        return None
    b = rest.index('{')
    quals = rest[:b]
    body = rest[b:]
    ctor = f.n == strip_targs(f.cls).split('::')[-1]
    if ctor:
        # member initialisers become assignments
        c = rest.find(':')
        asg = ''
        if c >= 0 and rest[:c].strip() in ('', 'noexcept'):
            x, pos = [], c + 1
            while True:
                mm = re.match(r'\s*([\w:<>, ]+?)\s*([({])', rest[pos:])
                if not mm:
                    break
                st = pos + mm.end() - 1
                dd, e = 0, st
                while True:
                    if rest[e] in '({':
                        dd += 1
                    elif rest[e] in ')}':
                        dd -= 1
                        if dd == 0:
                            break
                    e += 1
                x.append((mm.group(1), rest[st + 1:e].strip(), rest[st]))
                pos = e + 1
                mm = re.match(r'\s*,', rest[pos:])
                if not mm:
                    break
                pos += mm.end()
            body = rest[pos:].lstrip()
            fl = {y[0] for y in (P.record_of(f.clsq) or (P.rec_by_q.get(cls) or [{'fields': []}])[0])['fields']}
            for n_, v_, br in x:
                if n_ in fl:
                    asg += '\n        member(this->%s) = {%s};' % (n_, v_) if (br == '{' or v_ == '' or ',' in v_) else '\n        member(this->%s) = %s;' % (n_, v_)
                else:
                    asg += '\n        ::cura::base<@%s>(*this) = ::cura::@%s(%s);' % (n_.split('::')[-1], n_.split('::')[-1], v_)
            body = '{' + asg + body[1:]
        rt = 'void'
    rt = re.sub(r'\b(inline|static|virtual|constexpr|explicit|friend)\b|\[\[.*?\]\]|template\s*<>', '', rt).strip() or 'void'
    params = re.sub(r'\s+', ' ', params).strip()
    # default arguments
    params = re.sub(r'\s*=\s*[^,()]*(\([^()]*\))?[^,()]*(?=,|$)', '', params)
    static = 's' in f.fl or not f.cls
    if not f.cls:
        selfp = ''
    else:
        const = 'const ' if 'c' in f.fl else ''
        selfp = '' if static else '%s%s& self' % (const, cls)
        names, seen, todo = set(), set(), [f.clsq]
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            r = P.record_of(q) or (P.rec_by_q.get(strip_targs(q)) or [None])[0]
            if r is None:
                continue
            names |= {x[0] for x in r['fields']} | {x[0] for x in r['methods']}
            names |= {g.split('::')[-1] for g in GV if g.startswith(strip_targs(r['q']) + '::') and '::' not in g[len(strip_targs(r['q'])) + 2:]}
            todo += [x[0] if isinstance(x, (list, tuple)) else x for x in r['bases']]
        names = {n for n in names if re.match(r'^[A-Za-z_]\w*$', n)}
        locs = {p.n for p in f.params}
        for n in f.walk():
            if n.k == 'var':
                locs.add(n.decl().n)
        names -= locs
        names -= {strip_targs(q).split('::')[-1] for q in seen}
        pre = 'self.' if not static else cls + '::'

        def sub(m):
            w = m.group(0)
            return pre + w if w in names else w
        body = re.sub(r'\bthis->', 'self.', body)
        body = re.sub(r'\*this\b', 'self', body)
        body = re.sub(r'\[([^\[\]]*)(?<!\*)\bthis\b([^\[\]]*)\]', r'[\1&self\2]', body)
        body = re.sub(r'\bthis\b', '(&self)', body)
        body = re.sub(r'(?<![\w.>:"@])[A-Za-z_]\w*(?!\w|::)', lambda m: m.group(0) if body[max(0, m.start() - 2):m.start()] in ('->', '::') or body[max(0, m.start() - 1):m.start()] == '.' else sub(m), body)
    body = body.replace('@', '').replace('::cura::base<', 'base<')
    sig = ', '.join(x for x in (selfp, params) if x)
    body = re.sub(r'\n\s*spdlog::[^;]*;', '', body)
    body = re.sub(r'\n\s*assert\([^;]*;', '', body)
    body = re.sub(r'\n\s*\n', '\n', body)
    # dedent
    lines = body.split('\n')
    ind = len(lines[-1]) - len(lines[-1].lstrip())
    lines = [lines[0]] + [l[ind:] if l[:ind].strip() == '' else l for l in lines[1:]]
    body = '\n'.join(lines)
    pre, post = '', ''
    us = usings(P, f, src, sig + body + rt)
    if us is None:
        return None
    if us:
        pre = 'namespace n%d\n{\n%s\n' % (k, '\n'.join(us))
        post = '} // namespace n%d\n' % k
    if tcls:
        sig = sig.replace(cls + '& self', tcls + '& self')
    if f.n.startswith('operator ') and f.n[9:10].isalpha():
        rt = f.n[9:]
    ta = ' | ta=' + f.ta if f.ta and not f.dep else ''
    if tcls:
        ta += ' | ' + tcls
    return '//= %s%s\n%s%s r%d(%s)\n%s\n%s' % (f.sq, ta, pre, rt, k, sig, body, post)


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<({[':
            d += 1
        if c in '>)}]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def tparams(src, line):
    """names of the template parameters declared just above (or on) this line (1-based)"""
    for i in range(line - 1, max(-1, line - 6), -1):
        l = src[i]
        if i < line - 1 and (l.strip().endswith((';', '}')) or l.strip() == ''):
            return []
        m = re.search(r'template\s*<(.*)>\s*$', l.strip()) or re.search(r'template\s*<(.*?)>\s+\w', l)
        if m:
            return [re.sub(r'=.*', '', a).strip().split()[-1].strip('.&*') for a in split_args(m.group(1)) if a]
    return []


def usings(P, f, src, text):
    out = []
    words = set(re.findall(r'[A-Za-z_]\w*', text))
    if f.ta:
        if '(lambda)' in f.ta:
            return None
        for nme, val in zip(tparams(src, f.l), split_args(f.ta)):
            if nme in words and re.match(r'[A-Za-z_:]', val) and val != nme:
                out.append('using %s = %s;' % (nme, val))
    full = f.q[:f.q.rfind('::')] if '::' in f.q else ''
    if f.clsq and '<' in f.clsq:
        r = P.record_of(f.clsq)
        head = f.clsq
        args = split_args(head[head.index('<') + 1:head.rindex('>')])
        cn = strip_targs(f.cls).split('::')[-1]
        for i, l in enumerate(src):
            if re.match(r'\s*(class|struct)\s+%s\b' % cn, l):
                for nme, val in zip(tparams(src, i), args):
                    if nme in words:
                        out.append('using %s = %s;' % (nme, val))
                break
        out.append('using %s = %s;' % (cn, f.clsq))
    for v in P.gvs.values():
        if v['f'] == f.f and f.f.endswith('.cpp') and v['n'] in words and not P.rec_by_q.get(strip_targs(v['q'].rsplit('::', 1)[0])):
            t_ = src[v['l'] - 1]
            j = v['l']
            while ';' not in t_ and j < v['l'] + 30:
                t_ += ' ' + src[j].strip()
                j += 1
            t_ = re.sub(r'//.*', '', t_).strip()
            if '=' in t_ or '{' in t_:
                out.append(t_)
    for l in src:
        m = re.match(r'#\s*define\s+(\w+)\b(?!\()', l)
        if m and m.group(1) in words:
            out.append(l)
    cls = f.clsq or ''
    seen = set()
    todo = [cls]
    while todo:
        q = todo.pop()
        if not q or q in seen:
            continue
        seen.add(q)
        r = P.record_of(q) or (P.rec_by_q.get(strip_targs(q)) or [None])[0]
        if r is None:
            continue
        sq = strip_targs(r['q'])
        nm = {x.split('::')[-1] for x in list(P.rec_by_q) if x.startswith(sq + '::') and '::' not in x[len(sq) + 2:]}
        nm |= {x.split('::')[-1] for x in P.enum_names if x.startswith(sq + '::') and '::' not in x[len(sq) + 2:]}
        nm |= aliases(r, sq.split('::')[-1])
        nm &= words
        nm -= {x.split(' ')[1] for x in out if x.startswith('using')}
        nm -= {sq.split('::')[-1]}
        for x in sorted(nm):
            if re.match(r'^[A-Za-z_]\w*$', x):
                out.append('using %s = %s::%s;' % (x, q, x))
        todo += [x[0] if isinstance(x, (list, tuple)) else x for x in r['bases']]
    return out


def aliases(r, cn):
    f = r.get('f') or r.get('file')
    try:
        s = open('/repo/' + f).read()
    except (TypeError, OSError):
        return set()
    m = re.search(r'(class|struct)\s+%s\b[^;{]*\{' % cn, s)
    if not m:
        return set()
    d, j = 0, m.end() - 1
    while j < len(s):
        d += (s[j] == '{') - (s[j] == '}')
        if d == 0:
            break
        j += 1
    body = s[m.end():j]
    return set(re.findall(r'\busing\s+(\w+)\s*=', body)) | set(re.findall(r'\btypedef\s[^;]*?(\w+)\s*;', body))


if __name__ == '__main__':
    P = core.program()
    k = int(os.environ.get('K', '1'))
    P.enum_names = set(P.enums)
    inst = {}
    GV = {strip_targs(v['q']) for v in (P.gvs.values() if isinstance(P.gvs, dict) else P.gvs)}
    for pat in sys.argv[1:]:
        for f in sorted(P.fns.values(), key=lambda f: (f.f, f.l)):
            if f.dep or f.body is None or not re.fullmatch(pat, f.f) and not re.fullmatch(pat, f.sq):
                continue
            if f.r['k'] != 'fn' or f.n.startswith('~'):
                continue
            if 'd' in f.fl or 'i' in f.fl:
                continue
            if (f.ta or '<' in (f.clsq or '')):
                key = (f.f, f.l)
                inst[key] = inst.get(key, 0) + 1
                if inst[key] > 2:
                    continue
            try:
                s = draft(P, f, k)
            except ValueError:
                s = None
            if s is None:
                print('// could not draft %s' % f.sq, file=sys.stderr)
                continue
            print(s)
            k += 1
