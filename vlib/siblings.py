"""Child process of C19: runs derived workloads; some calls are accompanied by sibling calls that differ in exactly one
argument, either after the call or before it.  The parent compares what the two orders give."""
import copy
import json
import os
import pickle
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def perturb(x):
    """A value of the same kind that differs from x, or None."""
    import numpy as np

    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, (int, np.integer)):
        return x + 1 if abs(x) <= 12 else None
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return x * 0.9 if x == x and abs(x) < 1e300 and x != 0 else None
    if isinstance(x, np.ndarray) and x.size:
        if x.dtype.kind in "fc":
            y = x * 1.25 if x.ndim != 1 else x[::-1] * 0.8
        elif x.dtype.kind in "iu" and x.ndim == 1:
            y = x[::-1].copy()
        elif x.dtype.kind in "iu":
            y = x * 2
        else:
            return None
        return None if np.array_equal(x, y) else np.ascontiguousarray(y)
    if isinstance(x, (list, tuple)) and len(x) > 1 and all(isinstance(v, (int, float, np.integer, np.floating)) for v in x):
        y = type(x)(reversed(x))
        return None if list(y) == list(x) else y
    return None


def main():
    spec = json.loads(sys.argv[1])
    import numpy as np

    from vlib import core, derive, jitlock
    from vlib.record import noise, simple

    jitlock.install()
    ctx = core.Ctx("C19", "orders", spec["seed"], "quick")
    ctx.judge = False
    count, spent = {}, {}
    before = spec["order"] == "before"
    pick = np.random.default_rng(spec["seed"])
    start = time.time()
    stream = open(spec["out"], "wb")

    def emit(key, value):
        pickle.dump((key, value), stream)
        stream.flush()

    def hook(probe, args, kw, sub):
        n = count[probe.name] = count.get(probe.name, 0) + 1
        if time.time() - start > spec["wall"]:
            stream.close()
            os._exit(0)
        u = pick.random()
        group = None
        if (n <= spec["first"] or u < spec["share"]) and not kw.get("approx") and "approx" not in probe.name and spent.get(probe.name, 0) < spec["cost"]:
            try:
                keep = copy.deepcopy((args, kw))
                group = [keep]
                for i in range(len(args)):
                    p = perturb(args[i])
                    if p is not None:
                        group.append((tuple(p if j == i else a for j, a in enumerate(keep[0])), keep[1]))
                for k in kw:
                    p = perturb(kw[k])
                    if p is not None:
                        group.append((keep[0], {**keep[1], k: p}))
                size = max([v.size for v in (*args, *kw.values()) if isinstance(v, np.ndarray)] + [0])
                group = group[:6] if size <= 144 else None
            except Exception:  # noqa: BLE001
                group = None

        def go(i):
            a, k = copy.deepcopy(group[i])
            st = np.random.get_state()
            np.random.seed(4711)
            try:
                v = ("ok", simple(probe.fn(*a, **k)))
            except Exception as e:  # noqa: BLE001
                v = ("raised", type(e).__name__)
            finally:
                np.random.set_state(st)
            emit((f"{sub.sect} {probe.name} {n}", i), (v, noise(*group[i]), [core.brief(x) for x in group[i][0]][:4], {q: core.brief(x) for q, x in group[i][1].items()}))

        def siblings():
            t0 = time.time()
            for i in reversed(range(len(group))) if before else range(len(group)):
                go(i)
            spent[probe.name] = spent.get(probe.name, 0) + max(0.0, time.time() - t0 - (3 if n == 1 else 0))

        if group and before:
            siblings()
        try:
            return probe.fn(*args, **kw)
        finally:
            if group and not before:
                siblings()

    derive.drive(ctx, spec["modules"], hook, spec["budget"], scale=spec["scale"])
    stream.close()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
