"""C01 two work items of one parallel section never touch the same data unprotected when one of them writes it"""
import effects, races


def pp(fn, p):
    def root(r):
        if r[0] == 'L':
            f = fn.P.fns.get(r[1])
            return f.D(r[2]).n if f else '?'
        if r[0] == 'G':
            return r[1].split('@')[-1]
        if r[0] == 'P':
            return fn.params[r[1]].n
        return 'this'
    s = root(p[0])
    for x in p[1:]:
        if isinstance(x, tuple):
            s += '[%s]' % '+'.join(['%s%s' % ('' if c == 1 else '%d*' % c, pp(fn, q)) for q, c in x[1][1]] + ([str(x[1][0])] if x[1][0] or not x[1][1] else []))
        elif x == '[*]':
            s += x
        elif x == '#':
            s += '(container)'
        elif x == '~':
            s += '...'
        else:
            s += '.' + x
    return s


def tail(p):
    """stable identity of the storage, without local names or positions"""
    return '.'.join(x if isinstance(x, str) else '[i]' for x in p[1:])


def check(rep, P):
    E = effects.Effects(P)
    nsites = 0
    for fn, n in races.find_sites(P):
        nsites += 1
        bad = False
        for kind, d in races.analyse_site(E, fn, n):
            if kind == 'nolambda':
                # forwarding overload: the range itself is analysed at its callers
                rep.undec('%s: body of the parallel section is not visible here' % n.loc())
            elif kind == 'stats':
                rep.count('effects_compared', d[0] * d[1])
                rep.ok(d[0])
            elif kind == 'chunked':
                rep.count('ordered_inside_chunk_pairs')
            elif kind == 'race':
                a, b = d
                rep.violation('%s:%s' % (fn.sq, tail(a.path)), n.loc(),
                              'work items of the parallel section in %s: %s is written (via %s, holding %s) and %s is %s (via %s, holding %s) by another item' % (
                                  fn.sq, pp(fn, a.path), ' > '.join(a.chain), [pp(fn, x) for x in a.locks] or 'no lock', pp(fn, b.path),
                                  'written' if b.w else 'read', ' > '.join(b.chain), [pp(fn, x) for x in b.locks] or 'no lock'))
                bad = True
        if not bad:
            rep.sample('%s in %s: no conflicting pair' % (n.loc(), fn.sq))
    rep.count('parallel_sections', nsites)
    rep.cov.update({'functions_analysed': E.stats['functions'] + E.stats['lambdas'], 'accesses': E.stats['accesses'], 'call_sites': E.stats['calls']})
    rep.need('parallel_sections', 30)
    rep.need('effects_compared', 10000)
    rep.assumptions = ['containers of pointers: two elements never alias the same object unless reached through the same index expression',
                       'library functions only modify the arguments their signature or the container model says they modify']
    return ('For every parallel section (parallel_for and the ordered producer/consumer) the read and write effects of the body are computed '
            'interprocedurally as access paths with the set of locks held; every pair of effects of two different items (and of producer vs consumer) '
            'that may overlap and contains a write must share a lock or go through an index that differs per item.')
