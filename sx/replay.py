"""Run harness inputs against the real, unmodified code (fresh interpreter, no instrumentation).

usage: replay.py FILE.json      one counterexample: exit 1 if the property fails on it, 0 if it holds
       replay.py --batch FILE   many samples: prints JSON results on stdout
"""
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
SITE = "/opt/venv/lib/python3.12/site-packages"
if SITE not in sys.path:
    sys.path.append(SITE)


def run_one(mod, case, inputs, listed):
    from sx.ctx import ConcreteCtx, ReplayViolation, ReplaySkip
    cx = ConcreteCtx(inputs, listed)
    try:
        mod.harness(cx, case)
    except ReplayViolation as e:
        return {"status": "violation", "msg": e.msg, "obs": cx.obs}
    except ReplaySkip:
        return {"status": "skip", "msg": "precondition does not hold", "obs": cx.obs}
    except RecursionError as e:
        return {"status": "exception", "msg": "RecursionError", "obs": cx.obs}
    except (Exception, SystemExit) as e:
        return {"status": "exception", "msg": "%s: %s" % (type(e).__name__, str(e)[:300]), "obs": cx.obs}
    finally:
        cx.cleanup()
    return {"status": "missing" if cx.missing else "ok", "msg": "", "obs": cx.obs, "checks": cx.nchecks}


def main():
    from loguru import logger
    logger.remove()
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    batch = sys.argv[1] == "--batch"
    with open(sys.argv[-1]) as f:
        d = json.load(f)
    real_out = sys.stdout
    sys.stdout = io.StringIO()
    mod = importlib.import_module("props." + d["property"].lower())
    if batch:
        res = [run_one(mod, s["case"], s["inputs"], d.get("listed", [])) for s in d["samples"]]
        sys.stdout = real_out
        json.dump(res, sys.stdout)
        return 0
    r = run_one(mod, d["case"], d["inputs"], d.get("listed", []))
    sys.stdout = real_out
    print("replay of %s on %s: %s %s" % (d["property"], REPO, r["status"], r["msg"]))
    print("inputs:", json.dumps(d.get("readable", d["inputs"])))
    return 1 if r["status"] in ("violation", "exception") else 0


if __name__ == "__main__":
    sys.exit(main())
