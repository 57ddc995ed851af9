"""usage: run.py <property id>   (environment: VERIF_SEED, VERIF_TIER)"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import common

if __name__ == "__main__":
    prop = sys.argv[1]

    def fn(c):
        m = importlib.import_module(prop)
        c.assumptions.extend(getattr(m, "ASSUME", []))
        m.check(c)
    common.main(prop, fn)
