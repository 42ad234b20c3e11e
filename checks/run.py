"""Entry point of every check: python3 -B checks/run.py <ID>"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import facts


def main():
    pid = sys.argv[1]
    mod = __import__(pid.lower())
    try:
        F = facts.load()
        return mod.run(F)
    except facts.AnalysisBroken as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
