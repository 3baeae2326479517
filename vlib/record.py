"""Child process of C18: runs derived workloads and records (call, digest of arguments, occurrence) -> result."""
import json
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def simple(r):
    import numpy as np

    if isinstance(r, (list, tuple)):
        return ("seq", [simple(x) for x in r])
    if isinstance(r, (np.ndarray, np.generic, int, float, complex, bool)):
        a = np.asarray(r)
        if a.dtype == object or a.dtype.kind in "USO":
            return ("rep", repr(r)[:300])
        if a.size <= 3000:
            return ("arr", a)
        return ("arr", np.array([a.sum(), np.abs(a).sum(), np.abs(a).max()]))
    return ("none", None)


def noise(args, kw):
    """Rounding noise to be allowed for a value that cancels: 1e-14 times a typical matching-sum of such arguments."""
    import numpy as np

    m, N = 1.0, 2
    for a in list(args) + list(kw.values()):
        try:
            x = np.asarray(a)
            if x.dtype.kind not in "iufc" or x.size == 0:
                continue
            if x.ndim == 1 and x.dtype.kind in "iu" and x.min() >= 0:
                N = max(N, int(x.sum()))
            else:
                m = max(m, float(np.nanmax(np.abs(x))))
                if x.ndim:
                    N = max(N, x.shape[0])
        except Exception:  # noqa: BLE001
            pass
    return float(min(1e200, 1e-14 * np.exp(min(450, 0.5 * N * np.log(1 + m * N / np.e) + 0.24 * N))))


def main():
    spec = json.loads(sys.argv[1])
    import numpy as np

    if spec.get("poison"):
        real_empty, real_like = np.empty, np.empty_like

        def fill(a):
            if a.dtype.kind in "fc":
                a.fill(np.nan)
            elif a.dtype.kind in "iu":
                a.fill(np.iinfo(a.dtype).max)
            return a

        np.empty = lambda *x, **k: fill(real_empty(*x, **k))
        np.empty_like = lambda *x, **k: fill(real_like(*x, **k))
    from vlib import core, derive, jitlock

    jitlock.install()
    ctx = core.Ctx("C18", "record", spec["seed"], "quick")
    ctx.judge = False
    seen, out, errors = {}, {}, {}

    def hook(probe, args, kw, sub):
        k = (probe.name, core.digest([list(args), kw]))
        mod = getattr(probe.fn, "__module__", "") or ""
        rnd = mod.startswith(("thewalrus.samples", "thewalrus.random", "thewalrus.csamples", "thewalrus.grouped")) or kw.get("approx") or "approx" in probe.name
        try:
            r = probe.fn(*args, **kw)
        except Exception as e:
            errors[k] = f"{type(e).__name__}: {str(e)[:200]}"
            raise
        if not rnd and k not in out:
            out[k] = (simple(r), noise(args, kw), [core.brief(a) for a in args][:4], {q: core.brief(v) for q, v in kw.items()})
        return r

    derive.drive(ctx, spec["modules"], hook, spec["budget"], scale=spec["scale"], only=spec.get("only"))
    with open(spec["out"], "wb") as f:
        pickle.dump(dict(results=out, errors=errors, events=ctx.events, notes=ctx.notes, counters=ctx.counters), f)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
