"""python3 checks/run.py <property id>...   decides the property on /repo's current source (exit 0 / 1 / 2 = analysis impossible)"""
import importlib, os, sys, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
import core
from facts import AnalysisError


def main():
    rc = 0
    progs = {}
    for pid in sys.argv[1:]:
        try:
            m = importlib.import_module(pid)
            rep = core.Report(pid)
            tus = getattr(m, 'TUS', None)
            if callable(tus):
                tus = tus()
            key = tuple(tus) if tus else None
            if key not in progs:
                progs[key] = core.program(list(tus) if tus else None)
            expl = m.check(rep, progs[key])
            r = rep.finish(expl)
        except AnalysisError as e:
            print('%s: cannot decide: %s' % (pid, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)
