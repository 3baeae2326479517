"""Re-runs the workloads of other checks under a monitor that looks at something else.

`drive(ctx, modules, hook, ...)` executes the sections of the named check modules with their value oracles switched
off; every call of a public entry point goes through `hook(probe, args, kw)`, which does its own observing and reports
through `ctx`.  Sections end when their time budget is used up.
"""
import importlib
import time
import warnings

from . import core


class Budget(BaseException):
    """The time budget of one derived section is used up."""


CAP = 0.15
SKIP = {  # sections whose workload is a plain repetition of sampling, or which rely on special environments
}


def drive(ctx, modules, hook, budget, scale=1.0, only=None, skip=()):
    """Run the sections of the modules; `budget` seconds each."""
    for mod in modules:
        m = importlib.import_module("checks." + mod)
        for f in core.sections_of(m):
            name = f._section["name"]
            if (only and name not in only) or name in skip or ctx.tier not in f._section["tiers"]:
                continue
            sub = core.Ctx(mod.upper(), name, ctx.seed, "quick", scale)
            sub.judge = False
            sub.trace_calls = ctx.crumb_path is not None
            sub.crumb_path = ctx.crumb_path
            left = [budget, time.time()]
            label = f"{mod}.{name}"

            def guarded(probe, args, kw, sub=sub, left=left, label=label):
                # a call takes at most CAP off the budget: what is more is mostly compilation
                now = time.time()
                left[0] -= min(now - left[1], CAP)
                left[1] = now
                if left[0] < 0:
                    raise Budget()
                ctx.last_call = (probe.name, args, kw)
                ctx.cur = f"{label} case {sub.case_no}: {str(sub.cur)[:200]}"
                ctx.events[probe.name] = ctx.events.get(probe.name, 0) + 1
                return hook(probe, args, kw, sub)

            sub.call_hook = guarded
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    f(sub)
                ctx.count("derived sections run to the end")
            except Budget:
                ctx.count("derived sections ended by their budget")
            except (core.Missing, core.Stop) as e:
                if any(v["kind"] in ("purity", "memory") for v in ctx.violations):
                    raise
                ctx.count("derived sections ended early")
            except Exception as e:  # noqa: BLE001  (judged by the check the workload belongs to)
                ctx.count("derived sections ended by an exception")
                ctx.note(f"{label}: {type(e).__name__}: {str(e)[:80]}")
            ctx.cur = None
