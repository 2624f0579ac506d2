"""C03 locks are taken in one order and always released"""
import facts, locks

REFS = ['C02.cpp']
TUS = lambda: facts.tu_list() + ['@ref/' + r for r in REFS]


def check(rep, P):
    A = locks.Analysis(P)
    fns = [f for f in P.fns.values() if not f.u.startswith('ref:')]
    locks.order_rules(rep, A, fns)
    locks.handed_rules(rep, A, [f for f in fns if f.clsq and 'cura' in f.q or 'cura::' in f.q])
    rep.need('acquisitions', 25)
    rep.need('handed_locks', 5)
    return ('for every function and lambda the locks that may be held at each call and acquisition are computed over its control flow graph, and the locks each callee may take over the call graph '
            '(virtual calls, lambdas and guards that are returned or handed on included); an order that is used both ways, a lock taken twice, sleeping under another lock, a way out that keeps a lock and '
            'work on an item under the lock of the queue are reported')
