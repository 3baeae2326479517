"""Runs one section of one check in its own process; writes a JSON report."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    spec = json.loads(sys.argv[1])
    out = spec["out"]
    res = {"section": spec["section"], "status": "error", "error": None}
    t0 = time.time()
    try:
        import numpy  # noqa: F401

        if spec.get("preload"):
            importlib.import_module(spec["preload"]).install(spec)
        import thewalrus

        real = os.path.realpath(thewalrus.__file__)
        if not real.startswith(os.path.realpath(REPO) + "/"):
            raise RuntimeError(f"wrong library under test: {real}")
        from vlib import core, jitlock

        jitlock.install()
        mod = importlib.import_module("checks." + spec["module"])
        fn = [f for f in core.sections_of(mod) if f._section["name"] == spec["section"]][0]
        ctx = core.Ctx(spec["prop"], spec["section"], spec["seed"], spec["tier"], spec.get("scale", 1.0),
                       crumbs=out + ".crumb", only_case=spec.get("only_case"))
        try:
            fn(ctx)
            res["status"] = "done"
        except core.Stop:
            res["status"] = "stopped"
        except core.Missing as e:
            res["status"] = "missing"
            res["error"] = str(e)
        except Exception as e:  # harness error: never a verdict
            res["status"] = "error"
            res["error"] = "".join(traceback.format_exc(limit=-8))
            if core.raised_inside(e):
                # the API raised outside a case: still an observed failure on a valid input
                ctx.cur = "outside case"
                ctx._skip = False
                try:
                    ctx.violate("exception", f"{e._vcall} raised {type(e).__name__}: {e}", trace=res["error"])
                except core.Stop:
                    pass
                res["status"] = "stopped"
        res.update(ctx.report())
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    res["wall_s"] = time.time() - t0
    res["cpu_s"] = round(sum(os.times()[:4]), 1)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
