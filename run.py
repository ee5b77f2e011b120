#!/opt/venv/bin/python
"""run.py P01 [--tier quick|thorough] [--only harness] [-v]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=int)
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    from symex import runner

    code = runner.main(
        a.property,
        a.tier,
        int(os.environ.get("VERIF_SEED", "1")),
        jobs=a.jobs,
        only=a.only,
        verbose=a.v,
        budget=a.budget,
    )
    sys.stdout.flush()
    os._exit(code)
