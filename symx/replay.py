"""Runs a harness on concrete values against the unpatched package.

  /opt/venv/bin/python /verif/symx/replay.py FILE.json      replays one counterexample
  /opt/venv/bin/python /verif/symx/replay.py --serve        one JSON request per line
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def run(rt, req):
    import importlib
    from symx.harness import ConCtx, Stop, Done
    mod = importlib.import_module("props." + req["module"])
    fn = getattr(mod, req["fn"])
    ctx = ConCtx(rt, req["values"])
    out = {"status": "ok", "violations": [], "obs": [], "labels": []}
    try:
        fn(ctx, *req["args"])
    except Stop:
        out["status"] = "assumption"
    except Done:
        pass
    except Exception as e:
        out["status"] = "exception"
        out["exception"] = type(e).__name__
        out["text"] = str(e)
        out["traceback"] = traceback.format_exc()[-1500:]
    finally:
        ctx.cleanup()
    out["violations"] = ctx.violations
    out["obs"] = ctx.obs
    out["labels"] = ctx.labels
    return out


def main():
    from symx import sandboxhome, loader
    import atexit
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    home = os.environ.get("SYMX_HOME")
    if not home:
        home = sandboxhome.make()
        atexit.register(sandboxhome.remove, home)
        os.environ["SYMX_HOME"] = home
    os.environ["HOME"] = home
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    rt = loader.load(symbolic=False)
    import time
    time.sleep = lambda s: None      # as in the symbolic run; save() waits for the file to settle
    if sys.argv[1] == "--serve":
        for line in sys.stdin:
            line = line.strip()
            if not line:
                continue
            out.write(json.dumps(run(rt, json.loads(line)), default=str) + "\n")
            out.flush()
        return 0
    with open(sys.argv[1]) as f:
        req = json.load(f)
    res = run(rt, req)
    if "--json" in sys.argv:
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
        return 0
    bad = confirm(req, res)
    out.write(f"property {req['property']}, case {req['case']}, claim: {req['label']}\n")
    out.write("inputs: " + json.dumps(req["values"]) + "\n")
    out.write(("VIOLATED: " + bad if bad else "not reproduced") + "\n")
    out.flush()
    return 1 if bad else 0


def confirm(req, res):
    """what the concrete run violates, or '' """
    if res["violations"]:
        for l, t in res["violations"]:
            if l == req["label"]:
                return f"{l}: {t}"
        l, t = res["violations"][0]
        return f"{l}: {t}"
    if res["status"] == "exception":
        return f"exception {res['exception']}: {res['text']}"
    return ""


if __name__ == "__main__":
    sys.exit(main())
