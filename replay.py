#!/opt/venv/bin/python
"""Re-run a harness concretely on the unpatched package.

replay.py FILE.json     exit 1 when the recorded inputs violate the property
replay.py --serve PID   JSON lines on stdin, results on stdout
"""
import importlib
import io
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")


def run(check, req):
    from symex.harness import Concrete, Skip, Violation

    h = {x.name: x for x in check.HARNESSES}[req["harness"]]
    c = Concrete(req["env"], req["choices"])
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.fn(c)
        return dict(status="ok", checked=len(c.checked))
    except Skip as e:
        return dict(status="skip", detail=str(e))
    except Violation as e:
        return dict(status="violation", label=e.label, detail=str(e.detail)[:2000])
    except Exception as e:
        return dict(
            status="violation",
            label=f"unexpected {type(e).__name__}",
            detail="\n".join(traceback.format_exc().splitlines()[-6:]),
        )
    finally:
        c.close()
        sys.stdout = out


def main():
    if sys.argv[1] == "--serve":
        check = importlib.import_module(f"checks.{sys.argv[2]}")
        import logging

        logging.disable(logging.CRITICAL)
        import threading
        import time

        def orphan(parent=os.getppid()):
            # the checker may be ended while the code under test does not end
            while os.getppid() == parent:
                time.sleep(1)
            os._exit(2)

        threading.Thread(target=orphan, daemon=True).start()
        for line in sys.stdin:
            r = run(check, json.loads(line))
            sys.stdout.write(json.dumps(r) + "\n")
            sys.stdout.flush()
        return 0
    req = json.load(open(sys.argv[1]))
    check = importlib.import_module(f"checks.{req['property']}")
    r = run(check, req)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
