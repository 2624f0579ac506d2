"""debug helper: print the resolved tree of a function"""
import sys
import core


def dump(n, ind=0, out=sys.stdout):
    if n is None:
        out.write('  ' * ind + '-\n')
        return
    d = n.decl()
    out.write('%s%s #%d l%d a=%s %s :: %s\n' % ('  ' * ind, n.k, n.id, n.l, n.a, (d.q + ' ' + d.k + ' ' + d.fl) if d else '', n.t))
    for c in n.ch:
        dump(c, ind + 1, out)
    if n.k == 'lambda':
        out.write('  ' * ind + ' BODY\n')
        dump(n.x, ind + 1, out)


if __name__ == '__main__':
    P = core.program()
    for q in sys.argv[1:]:
        for f in P.find(q):
            print('=== ', f.where(), f.fl, f.r['p'], 'dep' if f.dep else '')
            for fld, w, b, body in f.inits:
                print('  init', fld, w, b)
                dump(body, 2)
            dump(f.body)
