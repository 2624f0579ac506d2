"""Squared lengths, areas and products of coordinates keep their width."""
import facts, degree

TUS = lambda: facts.tu_list()

# values that only look like higher powers: a scaled direction divided by its scale, a length scaled in a loop
SCALED = {'cura::LinearAlg2D::getPointOnLineWithDist', 'cura::SierpinskiFill::generateCross'}


def check(rep, P):
    D = degree.Degrees(P)
    done = set()
    for f in D.fns:
        rep.count('functions')
        for x in f.walk():
            t = degree.bare(x.t)
            if x.k not in ('icast', 'cast', 'bin') or t not in degree.NUM:
                continue
            if x.k == 'bin' and x.a != '*':
                continue
            rep.count('conversions_and_products')
            why = degree.squeezed(D, x)
            if why is None:
                continue
            if f.sq in SCALED:
                rep.count('scaled_directions')
                continue
            k = (f.f, f.sq, x.l)
            if k in done:
                continue
            done.add(k)
            rep.violation('%s' % f.sq, '%s:%s %s' % (f.f, x.l, f.q), why)
    for k, n in sorted(((k, v) for k, v in D.ret.items() if v >= 2 and k in P.fns), key=lambda y: -y[1])[:6]:
        rep.sample('%s returns a product of %d lengths' % (P.fns[k].q, n))
    rep.cov['values_of_higher_degree'] = sum(1 for v in list(D.var.values()) + list(D.fld.values()) + list(D.ret.values()) if v >= 2)
    rep.ok(rep.cov['conversions_and_products'] - len(done))
    rep.need('functions', 2000)
    rep.need('conversions_and_products', 4000)
    rep.need('values_of_higher_degree', 80)
    return ('the number of lengths multiplied in every variable, member and result was inferred over the whole program (coordinates and length settings count one, products add, quotients subtract, '
            'square roots halve); no value of two or more may be converted to a 32-bit integer or float, no product of two may be formed in one, and no product of four in 64 bits')
