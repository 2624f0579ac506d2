"""Reference functions (/verif/ref/*.cpp) and the comparison of the code's functions with them.

A reference file is a list of blocks, each introduced by a line
    //= cura::Class::method [| text in the template arguments or signature] [| ignore=root,root] [| budget=N]
followed by the function that states what that one must compute.  A first parameter called `self` stands for the object."""
import os, re, time
import basetab, equiv, facts, hunk, terms, vg
from vg import VG
from core import strip_targs
from facts import AnalysisError, VERIF, CACHE

MARK = re.compile(r'//=\s*(.*)$')


class Entry:
    pass


def blocks(name):
    """[(line, text)] of the markers"""
    out = []
    with open(os.path.join(VERIF, 'ref', name)) as f:
        for i, l in enumerate(f, 1):
            m = MARK.match(l.strip())
            if m:
                out.append((i, m.group(1).strip()))
            elif l.startswith('//END'):
                out.append((i, None))
    return out


def entries(P, name):
    bl = blocks(name)
    fns = sorted([f for f in P.fns.values() if f.f in ('@ref/' + name, name) or f.f.endswith('/ref/' + name)], key=lambda f: f.l)
    out = []
    for k, (line, text) in enumerate(bl):
        if text is None:
            continue
        end = bl[k + 1][0] if k + 1 < len(bl) else 1 << 30
        e = Entry()
        parts = [p.strip() for p in text.split('|')]
        e.q = parts[0]
        e.filt, e.ignore, e.budget, e.prop, e.pin = [], [], 80000, None, False
        for p in parts[1:]:
            if p.startswith('ignore='):
                e.ignore = p[7:].split(',')
            elif p.startswith('budget='):
                e.budget = int(p[7:])
            elif p.startswith('prop='):
                e.prop = p[5:]
            elif p:
                e.filt.append(p)
        if text == 'instance' or text.startswith('skip '):
            continue
        e.line = line
        e.file = name
        e.ref = None
        e.whole = name.startswith('whole/')
        if e.whole:
            # definitions under their own names, one per instance
            cand = [f for f in fns if line < f.l < end and not f.dep and f.body is not None and f.sq == e.q]
            for f in cand or [None]:
                x = Entry()
                x.__dict__.update(e.__dict__)
                x.ref = f
                out.append(x)
            continue
        cand = [f for f in fns if line < f.l < end and not f.dep and f.body is not None and f.q.startswith('ref::')]
        if cand:
            e.ref = cand[0]
        out.append(e)
    return out


def ptypes(f, self_first=False):
    ps = [p.t for p in f.params]
    return ps[1:] if self_first else ps


def whole(check):
    d = os.path.join(VERIF, 'ref', 'whole', check)
    return ['whole/%s/%s' % (check, x) for x in sorted(os.listdir(d))] if os.path.isdir(d) else []


def cross(pid):
    """[(other check, its reference files, functions)]: parts of other references the property's statement rests on as well"""
    import importlib
    out = []
    with open(os.path.join(VERIF, 'ref', 'cross.txt')) as h:
        for l in h:
            w = l.split(None, 2)
            if len(w) == 3 and w[0] == pid:
                out.append((w[1], importlib.import_module(w[1]).REFS, w[2].strip()))
    return out


def tus(pid, refs):
    import facts
    out = facts.tu_list() + ['@ref/' + r for r in refs]
    for _, rs, _ in cross(pid):
        out += ['@ref/' + r for r in rs if '@ref/' + r not in out]
    return out


def implementations(P, e):
    if e.whole:
        f = P.fns.get(e.ref.u[4:]) if e.ref is not None else None
        return [f] if f is not None and f.body is not None else []
    c = [f for f in P.by_sq.get(e.q, []) if not f.dep and f.body is not None and not f.f.startswith('@ref')]
    for s in e.filt:
        c = [f for f in c if (f.ta == s[3:] if s.startswith('ta=') else s in f.ta or s in f.q)]
    if e.ref is not None:
        sf = bool(e.ref.params) and e.ref.params[0].n == 'self'
        pt = ptypes(e.ref, sf)
        c = [f for f in c if ptypes(f) == pt]
        if sf and len(c) > 1:
            cv = e.ref.params[0].t.startswith('const ')
            cc = [f for f in c if ('c' in f.fl) == cv]
            c = cc or c
    return c


def specified_calls(v, names):
    out = set()
    for x in terms.subterms(tuple(v.out.values())):
        if isinstance(x, terms.Tm) and x.op in ('call', 'mut', 'out', 'make') and x.args and isinstance(x.args[0], str) and strip_targs(x.args[0]) in names:
            out.add(strip_targs(x.args[0]))
    return out


def compare(P, impl, e, opaque, ctor=False):
    sf = bool(e.ref.params) and e.ref.params[0].n == 'self'
    a = equiv.summarize(P, impl, opaque=opaque, budget=e.budget)
    ct = sf and bool(impl.cls) and impl.n == strip_targs(impl.cls).split('::')[-1]
    b = equiv.summarize(P, e.ref, opaque=opaque, self_first=sf, budget=e.budget, ctor_of=impl.clsq if ct else None)
    if ct:
        split_fields(P, impl, a, b)
    r = equiv.check(a, b, ignore=e.ignore)
    return r, a, b


def split_fields(P, f, a, b):
    """constructors: the members the reference mentions, one by one"""
    T = terms.T
    root = T('D', T('this'))
    va = a.out.pop(root, None)
    vb = b.out.pop(root, None)
    if va is None:
        va = equiv.default_root(root)
    if vb is None:
        vb = equiv.default_root(root)
    this = equiv.default_root(root)
    rec = P.record_of(f.clsq) or (P.rec_by_q.get(f.cls) or [None])[0]
    ref = VG(P)
    ref.refside = True
    start = ref.default_obj(rec, f.clsq) if rec is not None else None
    todo, seen = [f.clsq], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        r = P.record_of(q) or (P.rec_by_q.get(strip_targs(q)) or [None])[0]
        if r is None:
            continue
        for fl in r['fields']:
            fq = strip_targs(r['q'] + '::' + fl[0])
            x = terms.lift(lambda v: equiv.get_field(v, fq) if isinstance(v, terms.Tm) and v not in (terms.TRUE, terms.FALSE) else v, vb)
            untouched = terms.lift(lambda v: equiv.get_field(v, fq), this)
            first = terms.lift(lambda v: equiv.get_field(v, fq) if isinstance(v, terms.Tm) else v, start) if start is not None else None
            scalar = VG(P).sort(fl[1]) is not None
            if not scalar and (x is first or x is untouched):
                continue          # the reference leaves this member alone
            if x is untouched or x is terms.UNDEF or isinstance(x, terms.Tm) and x.op == 'fld' and x.args and x.args[0] is terms.UNDEF:
                if fl[3] is None:
                    continue
                x = ref.default_init(r, fl)
            y = terms.lift(lambda v: equiv.get_field(v, fq) if isinstance(v, terms.Tm) and v not in (terms.TRUE, terms.FALSE) else v, va)
            a.out['member ' + fq] = y
            b.out['member ' + fq] = x
        todo += [x[0] if isinstance(x, (list, tuple)) else x for x in r['bases']]


def signature(f):
    r = f.r['rt']
    return '%s(%s)%s%s' % (f.sq, ','.join(ptypes(f)), 'c' if 'c' in f.fl else '', (' ' + f.r['T'][r]) if isinstance(r, int) and r >= 0 else '')


def units(P):
    """functions of the base tree that are large enough to be kept as calls; new ones are always substituted"""
    with open(os.path.join(VERIF, 'ref', 'known.txt')) as h:
        known = set(h.read().split('\n'))
    return {f.u for f in P.fns.values() if f.body is not None and not f.f.startswith('@ref') and signature(f) in known and not small(f)}


def small(f):
    """a function so simple that a call of it and its text are interchangeable"""
    n = 0
    for x in f.walk():
        n += 1
        if n > 16 or x.k in ('for', 'while', 'do', 'rfor', 'lambda', 'try'):
            return False
    return True


def building(a):
    """a member function runs on an object whose members are only partly initialised"""
    def partial(y):
        return isinstance(y, terms.Tm) and (y.op == 'undef' or y.op == 'obj' and y.args[0] is None and not set(dict(y.args[1])) <= vg.POINT)
    return any(x.op in ('mut', 'call') and len(x.args) > 1 and partial(x.args[1]) for x in terms.subterms(tuple(a.out.values())) if isinstance(x, terms.Tm))


def attempt(P, impl, e, opq):
    return safely(compare, P, impl, e, opq)


CONCURRENT = ('cura::parallel_for', 'cura::run_multiple_producers_ordered_consumer', 'cura::ThreadPool::push', 'cura::ThreadPool::work_while')


def within(v, w):
    """everything v is made of (members, calls, loops) occurs in w"""
    def parts(x):
        out, loops = set(), 0
        for y in terms.subterms(tuple(x.out.values())):
            if isinstance(y, terms.Tm):
                if y.op == 'loop':
                    loops += 1
                elif y.args and isinstance(y.args[0], str):
                    out.add((y.op, y.args[0]) if y.op not in ('call', 'mut', 'out') else strip_targs(y.args[0]))
                else:
                    out.add(y.op)
        return out, loops
    (a, n), (b, m) = parts(v), parts(w)
    return a <= b and n <= m


_foot = {}


def footprint(P):
    """what a member function may write ('w') or read ('r') of its own object; None if that is not known member by member"""
    import effects
    E = []

    def members(name, what):
        k = (strip_targs(name), what)
        if k not in _foot:
            if not E:
                E.append(effects.Effects(P))
            out = set()
            fs = [f for f in P.by_sq.get(k[0], []) if f.body is not None and not f.f.startswith('@ref')]
            for f in fs:
                for e in E[0].summary(f):
                    if e.path[0] != ('T',) or what == 'w' and not e.w:
                        continue
                    if len(e.path) < 2 or not isinstance(e.path[1], str) or e.path[1] in ('#', '~', '[*]'):
                        out = None
                        break
                    out.add(e.path[1])
                if out is None:
                    break
            _foot[k] = out if fs else None
        return _foot[k]
    return members


def rounds(P, attempt, opq, always):
    """first result, the violation found, the violation by a call that is not made; functions called on one side only are substituted in turn"""
    res, found, lost = None, None, None
    for _ in range(5):
        r, a, b = attempt(opq)
        res = res or r
        if r[0] == 'equal':
            return r, None, None
        if r[0] == 'undecided':
            break
        names = {P.fns[u].sq for u in opq if u in P.fns}
        ca, cb = specified_calls(a, names), specified_calls(b, names)
        diff = ca ^ cb
        if diff and lost is None and not (building(a) or building(b)) and (ca > cb and within(b, a) or cb > ca and within(a, b)):
            lost = r        # a call that is simply not made: nothing on the other side could be what it stands for
        if not diff:
            if not (any(str(k).startswith('member ') for k in a.out) and (building(a) or building(b))):
                found = r
            break
        nxt = {u for u in opq if u in always or P.fns[u].sq not in diff}
        if nxt == opq:
            break
        opq = nxt
    return res, found, lost


def safely(fn, *args):
    try:
        return fn(*args)
    except terms.Undecided as x:
        return ('undecided', str(x)), None, None
    except RecursionError:
        return ('undecided', 'recursion'), None, None
    except (AttributeError, TypeError, IndexError, KeyError, ValueError) as x:
        if os.environ.get('SPEC_X'):
            raise
        return ('undecided', 'construct outside the fragment (%s: %s)' % (type(x).__name__, x)), None, None


def differing(P, impl, e):
    """the parts in which the function and its reference differ, widest first; None if they cannot be aligned"""
    if impl.body is None or e.ref.body is None:
        return None, None
    ctor = impl.inits or impl.n == strip_targs(impl.cls or '').split('::')[-1]
    if ctor and not e.whole:
        return None, None
    try:
        al = hunk.Align(P, impl, e.ref)
        if ctor and not al.same_inits(impl.inits, e.ref.inits):
            return None, None
        return al, al.difference()
    except (AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError):
        if os.environ.get('SPEC_X'):
            raise
        return None, None


NARROW = os.environ.get('SPEC_NARROW', '1') != '0'     # a part that differs counts when the whole cannot be decided


def decide(P, impl, e, modular, unit):
    """equality under any choice of functions kept as calls proves equality; a difference counts when both sides call the same functions"""
    # work handed to other threads is only visible while the hand-over stays a call
    always = {f.u for q in CONCURRENT for f in P.by_sq.get(q, [])} | {impl.u}
    al, parts = differing(P, impl, e)
    if parts == [] and basetab.REC is None:
        return ('equal', '')
    results = []
    for h in reversed(parts or []):
        pt = hunk.Parts(P, impl, e, al, h)
        res, found, lost = rounds(P, lambda opq: safely(pt.attempt, opq), unit | modular | always, always)
        if res[0] == 'equal':
            return res
        v = found or lost
        if v is not None:
            # the same with the constants declared outside of the part by their values
            r2, _, _ = rounds(P, lambda opq: safely(lambda o: pt.attempt(o, True), opq), unit | modular | always, always)
            if r2[0] == 'equal':
                v, res = None, ('undecided', 'equal if the constants around it are what they were initialised with')
        if os.environ.get('SPEC_H'):
            print('   part', h.kind, [x.l for x in h.A], [x.l for x in h.B], (v or res)[0], (v or res)[1][:300])
        if v is None and 'too large' in res[1]:
            results.append((h, None))
            break
        results.append((h, v))
    whole = decide_whole(P, impl, e, modular, unit, always)
    if whole[0] != 'undecided' or not results:
        return whole
    # the widest part that can be decided
    for h, v in reversed(results):
        if v is not None:
            ls = [x.l for x in h.A] or [h.where[0].l]
            return ('violation', 'line %d: %s' % (ls[0], v[1]))
        if 'large' not in whole[1]:
            break
    if NARROW:
        # the widest part that can be decided
        for h, v in reversed(results):
            if v is not None:
                return ('violation', 'line %d: %s' % (h.A[0].l if h.A else h.where[0].l, v[1]))
    return whole


def decide_whole(P, impl, e, modular, unit, always):
    res, found, lost = rounds(P, lambda opq: attempt(P, impl, e, opq), unit | modular | always, always)
    if res[0] == 'equal':
        return res
    r1, a1, b1 = attempt(P, impl, e, modular | always)
    if r1[0] == 'equal':
        return r1
    r2, a2, b2 = attempt(P, impl, e, always)
    if r2[0] == 'equal':
        return r2
    if found:
        return found
    if lost and 'undecided' in (r1[0], r2[0]):
        return lost
    names = {P.fns[u].sq for u in modular if u in P.fns}
    if res[0] == 'violation' and r2[0] == 'undecided':
        return ('undecided', r2[1])
    if r1[0] == 'violation' and r2[0] == 'violation':
        return r2 if len(r2[1]) < len(r1[1]) else r1
    if r1[0] == 'violation' and specified_calls(a1, names) == specified_calls(b1, names):
        return r1
    if r2[0] == 'violation' and r1[0] == 'undecided' and 'too large' in r1[1]:
        return r2
    return ('undecided', ([x for x in (res, r1, r2) if x[0] == 'undecided'] or [res])[0][1])


def workers(fn, jobs):
    """[(verdict, message, seconds)] computed by forked processes"""
    import multiprocessing
    n = min(int(os.environ.get('SPEC_J', os.cpu_count() or 1)), (len(jobs) + 5) // 6)
    res = [None] * len(jobs)

    def one(k):
        t0 = time.time()
        r, msg = fn(jobs[k])
        return r, msg, time.time() - t0
    if n <= 1:
        res = [one(k) for k in range(len(jobs))]
        basetab.save()
        return res
    ctx = multiprocessing.get_context('fork')
    nxt = ctx.Value('i', 0)
    procs = []

    def work(conn):
        out = []
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(jobs):
                break
            out.append((k, one(k)))
        basetab.save()
        conn.send(out)
        conn.close()
    for _ in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=work, args=(b,))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        try:
            for k, r in a.recv():
                res[k] = r
        except EOFError:
            pass
        p.join()
    # what a lost process left over is done here
    return [r if r is not None else one(k) for k, r in enumerate(res)]


def run(rep, P, files, only=None, prop=None, verdicts=None):
    """decide every block of the given reference files"""
    equiv.FRAME[0] = footprint(P)
    allE = []
    for name in files:
        allE += entries(P, name)
    modular = set()
    impls = {}
    for e in allE:
        if e.whole and e.ref is None:
            continue
        impls[id(e)] = implementations(P, e)
        modular |= {f.u for f in impls[id(e)] if not small(f)}
    unit = units(P)
    jobs = []
    for e in allE:
        if only and not re.search(only, e.q) or prop and e.prop and e.prop != prop:
            continue
        rep.count('reference_functions')
        tag = e.q + (' [%s]' % ', '.join(e.filt) if e.filt else '')
        if e.ref is None:
            rep.undec('%s: the reference does not fit the current interface' % tag)
            continue
        if not impls[id(e)]:
            rep.undec('%s: no implementation with this signature' % tag)
            continue
        jobs += [(e, f, tag) for f in impls[id(e)]]
    for (e, f, tag), (r, msg, dt) in zip(jobs, workers(lambda j: decide(P, j[1], j[0], modular, unit), jobs)):
        rep.count('functions_compared')
        if verdicts is not None and verdicts.get(e.line, 'equal') == 'equal':
            verdicts[e.line] = r
        if os.environ.get('SPEC_V'):
            print('%-10s %5.1fs %s %s' % (r, dt, tag, msg[:1500] if r != 'equal' else ''))
        if r == 'equal':
            rep.ok()
            rep.count('proved_equal')
            rep.sample('%s == ref/%s:%d' % (f.where(), e.file, e.line))
        elif r == 'violation':
            sig = ','.join(ptypes(f))
            rep.violation('%s(%s)%s' % (e.q, sig, ' [%s]' % ', '.join(e.filt) if e.filt else ''), f.where(),
                          'does not compute what ref/%s:%d requires; %s' % (e.file, e.line, msg))
        else:
            rep.undec('%s: %s' % (tag, msg[:300]))
    tot = rep.cov.get('reference_functions', 0)
    return tot


METHOD = ('every listed function is turned into a gated value graph (what it returns, which exception leaves it and what it writes, as expressions over '
          'its inputs, with every branch as a decision) and compared with the graph of the reference function of the property; a difference that cannot be '
          'reached, or that involves a construct outside the modelled fragment, is never reported')


def standard(rep, P, files, pid, least, text=''):
    n = run(rep, P, files, prop=pid)
    for other, refs, rx in cross(pid):
        run(rep, P, refs, only=rx, prop=other)
    if rep.cov.get('functions_compared', 0) == 0 or n < least:
        raise AnalysisError('%s: only %d reference functions apply, at least %d expected' % (pid, rep.cov.get('functions_compared', 0), least))
    rep.assumptions += ['library containers, algorithms and number parsing behave as modelled in sa/stdmodel.py',
                        'two parameters of reference type do not refer to overlapping objects unless a reference function says so']
    return METHOD + ('. ' + text if text else '')
