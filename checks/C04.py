"""C04 nothing that ends up in the output depends on shared random state, the clock, object addresses, the order in which
threads finish or what an earlier run left behind"""
import re
import effects, races
from core import strip_targs
from C01 import pp

RANDOM = re.compile(r'^(std::)?(rand|random|drand48|lrand48|mrand48|rand_r|random_shuffle)$|^std::random_device::')
CLOCK = re.compile(r'^(std::)?(time|clock|gettimeofday|clock_gettime|localtime|gmtime|getpid|gettid|pthread_self)$|^std::chrono::(_V2::)?\w+_clock::now$|'
                   r'^std::this_thread::get_id$|^std::thread::(get_id|hardware_concurrency)$|^omp_get_|^std::filesystem::(last_write_time|temp_directory_path)$')
LOGS = re.compile(r'^(spdlog::|fmt::|cura::logError|cura::Date::)')
POINTER = r'(?:[^<>,]|<[^<>]*(?:<[^<>]*>[^<>]*)*>)*?(?:\*|std::(?:shared_ptr|unique_ptr|weak_ptr)<[^<>]*>)(?: const)?'
KEYED = re.compile(r'std::(unordered_)?(multi)?(set|map)<(' + POINTER + r')(?=,|>)')
APPEND = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'append', 'resize', 'add', 'addLine', 'push_back_range', 'insert_range', 'operator+='}


def callee(n):
    d = n.callee() if n.k in ('call', 'mcall', 'opcall', 'ctor') else None
    return strip_targs(d.q) if d is not None else ''


def place(f):
    return f.f


def only_logged(f, n, depth=0):
    """the value of n reaches nothing but messages"""
    if depth > 8:
        return False
    x = n
    while x.p is not None:
        p = x.p
        q = callee(p)
        if q and LOGS.match(q):
            return True
        if p.k == 'var' or p.k in ('bin', 'asg', 'casg') and p.a == '=' and p.ch[0] is not x:
            if p.k == 'var':
                did = p.a
            elif p.ch[0].k == 'ref':
                did = p.ch[0].a
            else:
                return False
            uses = [m for m in f.walk() if m.k == 'ref' and m.a == did and m is not (p.ch[0] if p.k != 'var' else None)]
            return all(only_logged(f, u, depth + 1) for u in uses)
        if p.k in ('block', 'if', 'for', 'while', 'return', 'lambda', 'rfor', 'switch', 'do'):
            return p.k == 'block'           # the value is dropped
        if p.k in ('mem', 'icast', 'cast', 'bin', 'un', 'cond', 'ctor', 'init', 'opcall', 'call', 'mcall', 'defarg'):
            if p.k in ('call', 'mcall', 'opcall', 'ctor') and not q.startswith(('std::chrono', 'std::operator', 'std::max', 'std::min', 'std::move')):
                return False
            x = p
            continue
        if p.k == 'decl':
            return True
        x = p
    return False


def own(P):
    """functions of the engine once each (one instance of a template)"""
    seen = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.f, f.l, f.u)):
        if f.body is None or f.dep or not re.match('src/|include/', f.f) or f.f.startswith('include/plugins'):
            continue
        if (f.f, f.l, f.n) in seen and not KEYED.search(str(f.q)):
            continue
        seen.add((f.f, f.l, f.n))
        yield f


def check(rep, P):
    fns = list(own(P))
    rep.count('functions', len(fns))
    # ---- shared random state and clocks -----------------------------------------------------------------------------------
    rnd, seeds = {}, {}
    for f in fns:
        for n in f.walk():
            q = callee(n)
            if not q:
                continue
            if re.match(r'(std::)?s(rand|random)$', q):
                seeds[place(f)] = n
            elif RANDOM.search(q) or re.match(r'^std::(_V2::)?random_device', q):
                rnd.setdefault(place(f), []).append((n, f, q))
            elif CLOCK.search(q):
                rep.count('clock_and_thread_sources')
                if only_logged(f, n) or '%s uses %s' % (place(f), q) in HARMLESS:
                    rep.ok()
                    rep.sample('%s %s: only reported' % (n.loc(), q))
                else:
                    rep.violation('%s uses %s' % (place(f), q), n.loc(), 'the value of %s in %s reaches more than messages' % (q, f.sq))
    table = dict((k, v) for k, v in RANDOM_SITES.items())
    for file, l in sorted(rnd.items()):
        rep.count('random_calls', len(l))
        most = table.get(file, 0)
        key = '%s shared random numbers' % file
        if len(l) > most:
            key += ' (%d uses)' % len(l)
        n, f, q = l[-1]
        if file in SEEDED and file not in seeds:
            key += ' without a seed'
        rep.violation(key, n.loc(), '%s draws from the process-wide random state (%s), which other threads and earlier runs also advance' % (f.sq, q))
    # ---- addresses --------------------------------------------------------------------------------------------------------
    for f in fns:
        done = set()
        for n in f.walk():
            if n.k in ('cast', 'icast') and n.a == 'PointerToIntegral':
                rep.violation('%s address as number' % place(f), n.loc(), '%s uses an address as a number' % f.sq)
            elif n.k == 'bin' and n.a in ('<', '>', '<=', '>=') and all(str(c.t or '').rstrip().endswith('*') for c in n.ch[:2]):
                rep.violation('%s compares addresses' % place(f), n.loc(), '%s orders objects by their address' % f.sq)
            elif n.k in ('call', 'opcall') and SORTS.search(callee(n)) and by_address(n):
                rep.violation('%s sorts by address' % place(f), n.loc(), '%s orders objects by their address' % f.sq)
            t, body = None, None
            if n.k == 'rfor':
                t = of_range(n.ch[1])
                body = n.ch[-1]
            elif n.k == 'mcall' and n.cname() in ('begin', 'cbegin', 'rbegin') and n.ch:
                p = n.p
                while p is not None and p.k in ('icast', 'ctor', 'cast', 'init'):
                    p = p.p
                if p is not None and p.k == 'rfor':
                    continue
                t = str(n.ch[0].t or '')
                body = loop_of(n)
            if not t:
                continue
            m = KEYED.search(strip_std(t))
            if not m or m.group(2) and m.start() > 0 and 'vector<' in t[:m.start()]:
                continue
            rep.count('walks_over_addresses')
            key = '%s walks over %s' % (place(f), short(m.group(0)) if not f.ta and '<' not in f.q else short(m.group(0)).split('<')[0] + '<T *')
            if key in done:
                continue
            done.add(key)
            if key in HARMLESS:
                rep.ok()
                rep.sample('%s: %s' % (key, HARMLESS[key]))
            elif key in KNOWN_WALKS or ordered_effect(body):
                rep.violation(key, n.loc(), '%s goes through elements in the order of their addresses and what it does depends on the order' % f.sq)
            else:
                rep.undec('%s in %s: no effect of the order seen' % (key, f.sq))
    # ---- state that outlives a run ---------------------------------------------------------------------------------------
    for f in fns:
        for n in f.walk():
            if n.k != 'var':
                continue
            d = n.decl()
            if d is None or not ('S' in d.fl or 'T' in d.fl) or 'X' in d.fl:
                continue
            t = str(d.t)
            rep.count('static_locals')
            if re.search(r'cura::Application$|std::(mutex|once_flag)|std::atomic<bool>', t):
                continue            # the application itself; "warn once" flags
            written = any(m.k in ('asg', 'casg', 'un', 'bin') and writes(m, n.a) for m in f.walk()) or any(
                m.k in ('mcall', 'opcall') and m.ch and m.ch[0].k == 'ref' and m.ch[0].a == n.a and not const_call(P, m) for m in f.walk())
            runtime = any(m.k == 'this' or m.k == 'ref' and outer(f, m) or m.k in ('call', 'mcall') and callee(m).startswith('cura::') for m in n.walk())
            if written or runtime:
                rep.violation('%s static %s' % (place(f), short(t)), n.loc(), 'the static variable %s in %s keeps a value of an earlier run' % (d.n, f.sq))
            else:
                rep.ok()
                rep.sample('%s static %s in %s: a constant' % (n.loc(), d.n, f.sq))
    # ---- globals that a run changes
    for f in fns:
        for n in f.walk():
            if n.k not in ('asg', 'casg', 'un', 'bin', 'mcall', 'opcall') or not n.ch:
                continue
            if n.k == 'un' and '++' not in str(n.a) and '--' not in str(n.a) or n.k == 'bin' and n.a != '=':
                continue
            if n.k in ('mcall', 'opcall') and const_call(P, n):
                continue
            x = n.ch[0]
            while x is not None and x.k in ('mem', 'icast', 'cast', 'sub') and x.ch and x.k != 'mem':
                x = x.ch[0]
            d = x.decl() if x is not None and x.k in ('ref', 'mem') else None
            if d is None or d.k != 'Var' or 'G' not in d.fl or 'S' in d.fl or 'T' in d.fl:
                continue
            if re.search(r'std::(mutex|once_flag|atomic)', str(d.t)) or not d.q.startswith('cura::'):
                continue
            rep.count('writes_of_globals')
            if d.q in REFRESHED:
                rep.ok()
                rep.sample('%s: %s' % (d.q, REFRESHED[d.q]))
                continue
            rep.violation('%s writes %s' % (place(f), d.q), n.loc(), '%s changes the global %s, which the next run finds changed' % (f.sq, d.q))
    # ---- the order in which threads finish --------------------------------------------------------------------------------
    E = effects.Effects(P)
    nsec = 0
    appended = {}
    seen = set()
    for fn, n in races.find_sites(P):
        env = E.env(fn)
        lams = [l for l in (races.lambda_of(env, a) for a in env.callargs(n) if a is not None) if l is not None]
        if not lams:
            continue
        nsec += 1
        for m in lams[0].walk():
            if m.k in ('mcall', 'opcall') and m.ch and 'std::atomic' in strip_std(str(m.ch[0].t or '')) and m.cname() in ('fetch_add', 'fetch_sub', 'operator++', 'operator--'):
                p = m.p
                while p is not None and p.k in ('icast', 'cast', 'bin'):
                    p = p.p
                if p is not None and (p.k == 'sub' or p.k == 'opcall' and p.cname() == 'operator[]' or p.k == 'mcall' and p.cname() == 'at'):
                    rep.violation('%s: place by arrival' % fn.f, m.loc(), 'items of the parallel section in %s take places in the order in which they arrive' % fn.sq)
        for e, u in races.items(E, fn, env, lams[0]):
            if not e.w or not e.locks or u:
                continue
            rep.count('shared_writes')
            kind = sequence(P, fn, e.path)
            what = (fn.sq, tuple(x for x in e.path if x not in ('#', '~', '[*]') and not (isinstance(x, tuple) and x and x[0] == 'i')))
            if what in seen:
                continue
            seen.add(what)
            if not kind:
                rep.ok()
                rep.sample('%s: %s is keyed or a total' % (fn.sq, pp(fn, e.path)))
                continue
            fields = [x for x in e.path[1:] if isinstance(x, str) and x not in ('#', '~', '[*]', 'lines_', 'points_')]
            label = fields[-1] if fields else short(typ(fn, e.path)).rstrip(' &')
            appended.setdefault('%s: parallel items append to %s' % (fn.f, label), []).append((e, fn))
    for key, l in sorted(appended.items()):
        e, fn = l[-1]
        if len(l) > APPENDED.get(key, 0):
            key += ' (%d)' % len(l)
        rep.violation(key, e.chain[-1], 'items of the parallel section in %s append to %s in the order in which they finish' % (fn.sq, pp(fn, e.path)))
    rep.count('parallel_sections', nsec)
    rep.need('parallel_sections', 20)
    rep.need('functions', 1500)
    rep.need('shared_writes', 20)
    rep.assumptions = ['the library iterates ordered and unordered containers of values the same way in every run of the same binary',
                       'a keyed entry that several items write holds the same value whichever writes it (C05/TS1 state what is stored)']
    return ('Every source of variation is enumerated from the resolved program: draws from the process-wide random state, clocks and thread identities (followed to what '
            'their values reach), walks over containers ordered or hashed by address, addresses compared or turned into numbers, static variables that keep run-time '
            'values, and writes of parallel items into shared sequences under a lock. None may exist besides the listed findings; walks whose result cannot depend on the '
            'order are listed with the reason.')


SORTS = re.compile(r'^std::(sort|stable_sort|partial_sort|nth_element|(min|max|minmax)_element|lower_bound|upper_bound|make_heap|push_heap|pop_heap)$|^std::less::operator|'
                   r'^std::priority_queue::(push|emplace)$')


def by_address(n):
    """an ordering call without a comparator whose elements are, or contain as part of a pair, addresses"""
    args = [a for a in n.ch if a is not None]
    ts = [re.sub(r', std::(allocator|less|vector)<.*$', '', strip_std(str(a.t or ''))) for a in args]
    if not ts or any(a.k == 'lambda' or 'lambda' in t or 'Function' in t for a, t in zip(args, ts)):
        return False
    m = re.search(r'__normal_iterator<(.*?), std::(vector|array|deque)', strip_std(str(args[0].t or '')))
    if m:
        n_it = sum('iterator' in t for t in ts)
        if len(ts) > n_it and not callee(n).endswith('bound'):
            return False            # a comparator object
        e = m.group(1)
        return e.endswith('**') or e.endswith('* *') or bool(re.match(r'(const )?std::(pair|tuple)<.*\*>\s*\*$', e)) or bool(re.search(r'std::(shared|unique)_ptr<.*>\s*\*$', e))
    return False


def strip_std(t):
    return re.sub(r'std::__cxx11::', 'std::', t)


def short(t):
    t = strip_std(t)
    out = re.sub(r', std::(hash|equal_to|less|allocator)<.*$', '', t)
    return out.replace('cura::', '').replace('const ', '')


def of_range(x):
    """type of the container a range-for walks over; wrapped views count as what they wrap"""
    best = ''
    for c in x.walk():
        t = str(c.t or '')
        if KEYED.search(strip_std(t)) and (not best or len(t) < len(best)) and not re.match(r'(const )?std::vector<', t):
            best = t
    return best if direct(x) else ''


def direct(x):
    while x.k in ('icast', 'cast', 'init') and x.ch:
        x = x.ch[-1]
    if x.k in ('ref', 'mem', 'un'):
        t = strip_std(str(x.t or ''))
        return bool(re.match(r'(const )?' + KEYED.pattern, t))
    if x.k == 'opcall' and callee(x).endswith('operator[]') or x.k == 'mcall':
        t = strip_std(str(x.t or ''))
        return bool(re.match(r'(const )?' + KEYED.pattern, t))
    return any(c.k in ('ref', 'mem') and re.match(r'(const )?' + KEYED.pattern, strip_std(str(c.t or ''))) for c in x.walk())


def loop_of(n):
    for a in n.ancestors():
        if a.k in ('for', 'while', 'do', 'block'):
            return a
    return None


def ordered_effect(body):
    if body is None:
        return False
    for m in body.walk():
        if m.k in ('mcall', 'opcall') and m.cname() in APPEND:
            return True
        if m.k in ('return', 'break') and m.k == 'return' and m.ch and m.ch[0] is not None and m.ch[0].k not in ('bool', 'int'):
            return True
        if m.k == 'mcall' and m.cname() == 'insert' and 'vector<' in str(m.ch[0].t or ''):
            return True
    return False


def writes(m, did):
    if m.k == 'un' and m.a not in ('++', '--', 'p++', 'p--', '++p', '--p'):
        return False
    if m.k == 'bin' and m.a != '=':
        return False
    x = m.ch[0] if m.ch else None
    while x is not None and x.k in ('mem', 'icast', 'cast', 'sub', 'opcall') and x.ch:
        x = x.ch[0] if x.k != 'opcall' else x.ch[0]
    return x is not None and x.k == 'ref' and x.a == did


def const_call(P, m):
    d = m.callee()
    return d is None or 'c' in d.fl or m.cname() in ('begin', 'end', 'size', 'empty', 'at') or 's' in d.fl


def outer(f, m):
    """a variable or parameter of the function around"""
    d = m.decl()
    return d is not None and d.k in ('Var', 'ParmVar') and not set(d.fl) & set('SXG') and not str(d.t).startswith('const ')


def typ(fn, p):
    r = p[0]
    if r[0] == 'L':
        f = fn.P.fns.get(r[1])
        return str(f.D(r[2]).t) if f else ''
    if r[0] == 'P':
        return str(fn.params[r[1]].t)
    return ''


def sequence(P, fn, path):
    """the written place is a list whose order is the order of the writes"""
    names = [x for x in path[1:] if isinstance(x, str) and x not in ('#', '~', '[*]')]
    if len(path) == 1:
        return bool(re.match(r'(const )?std::(vector|deque|list|basic_string)<', strip_std(typ(fn, path))))
    if '#' not in path and not (names and names[-1] == 'lines_' or names and names[-1] == 'points_'):
        return False
    t = ''
    if names:
        if names[-1] in ('lines_', 'points_'):
            return True
        for r in P.recs.values():
            for f in r['fields']:
                if f[0] == names[-1]:
                    t = str(f[1])
    else:
        t = typ(fn, path)
    t = strip_std(t).replace('const ', '')
    for x in path[1:]:
        if x == '[*]' or isinstance(x, tuple):
            m = re.match(r'std::(vector|deque|array)<(.*?)(, std::allocator.*)?>[ &*]*$', t) or re.match(r'cura::LayerVector<(.*)>', t)
            if m:
                t = m.group(2) if m.lastindex and m.lastindex >= 2 else m.group(1)
    return bool(re.match(r'std::(vector|deque|list|forward_list|basic_string|queue|stack)<', t)) or bool(re.match(r'cura::(Shape|LinesSet|PointsSet|OpenLinesSet|MixedLinesSet|Polyline|Polygon)', t))


# draws that are recorded as findings; one more in the same file is another finding
RANDOM_SITES = {
    'include/utils/math.h': 1,
    'src/FffGcodeWriter.cpp': 1,
    'src/FffPolygonGenerator.cpp': 3,
    'src/InfillOrderOptimizer.cpp': 4,
    'src/infill/LightningTreeNode.cpp': 1,
}
SEEDED = {'src/FffGcodeWriter.cpp', 'src/InfillOrderOptimizer.cpp'}      # drawn anew for every layer
# globals that every use sets before it reads them, or that do not reach the output
REFRESHED = {
    'cura::TreeSupportBaseCircle::base_circle': 'set once, from constants only',
    'cura::SubDivCube::radius_addition_': 'set anew for each mesh before its octree is built',
    'cura::SubDivCube::infill_rotation_matrix_': 'set anew for each mesh before its octree is built',
    'cura::SubDivCube::rotation_matrix_': 'set anew for each mesh before its octree is built',
    'cura::Progress::total_timing': 'only progress messages; set anew at the start',
    'cura::Progress::first_skipped_layer': 'only progress messages',
    'cura::Progress::accumulated_times': 'only progress messages; set anew at the start',
}
KNOWN_WALKS = {
    'src/TreeSupport.cpp walks over std::set<TreeSupportElement *',
    'src/TreeSupport.cpp walks over std::unordered_map<TreeSupportElement *',
    'src/TreeSupportTipGenerator.cpp walks over std::set<TreeSupportElement *',
}
HARMLESS = {
    'src/Application.cpp uses std::thread::hardware_concurrency': 'only the number of workers; how work is divided among them decides nothing (C01, C02)',
    'include/utils/views/dfs.h walks over std::unordered_multimap<T *': 'only the entries of one key, which keep their order of insertion',
}
# lists that parallel items append to, recorded as findings; one more in the same file is another finding
APPENDED = {
    'src/TreeSupport.cpp: parallel items append to std::vector<TreeSupportElement *': 1,
    'src/TreeSupportTipGenerator.cpp: parallel items append to roof_tips_drawn_': 1,
    'src/TreeSupportTipGenerator.cpp: parallel items append to std::vector<Shape': 2,
    'src/TreeSupportTipGenerator.cpp: parallel items append to support_roof_drawn_fractional_': 1,
}
