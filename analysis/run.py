import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
import lib


def main():
    if sys.argv[1] == 'setup':
        print(lib.dump())
        g = lib.graphs()
        print('%d contexts analysed' % len(g))
        return 0
    pid = sys.argv[1]
    rep = lib.Report(pid)
    try:
        m = importlib.import_module(pid.lower())
        try:
            m.run(rep)
        except lib.Broken as e:
            if not rep.viol:
                raise
            print('%s: incomplete: %s' % (pid, e))
        return rep.finish(getattr(m, 'LEVEL', 'other'))
    except lib.Broken as e:
        print('%s: no answer: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
