"""C18: memory safety and schedule independence of the compiled kernels.

The workloads of the other checks run again in differently instrumented processes:
 - `bounds_*`: every kernel compiled with numba's bounds checker (NUMBA_BOUNDSCHECK); an out-of-range access anywhere in a
   kernel, also inside a prange body, is a violation;
 - `poison_*`: the C allocator fills fresh and freed memory with garbage (glibc MALLOC_PERTURB_, two patterns), so a value
   that depends on uninitialised memory differs from the undisturbed run; a run with 4 worker threads must agree as well;
 - `interpreted`: the kernels run as plain Python with np.empty filled with NaN and numpy's own index checks;
 - `concurrent`: recorded calls are repeated from eight threads at once, with injected delays and a tiny switch interval,
   and must give what they gave one after the other; `cold` does the same in a fresh process, first compilation included.
A process that dies on a signal is a violation in all of them."""
import json
import os
import pickle
import subprocess
import sys
import threading
import time

import numpy as np

from vlib import derive, gen
from vlib.core import section, digest

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRASH = {-4, -6, -7, -8, -11}


# ---------------------------------------------------------------------------------------------------- bounds checker
class Capture:
    """Reads what the compiled code prints on fd 1 (the bounds checker reports there from worker threads)."""

    def __init__(self):
        self.path = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"fd1-{os.getpid()}")
        self.pos = 0
        fd = os.open(self.path, os.O_CREAT | os.O_RDWR | os.O_TRUNC | os.O_APPEND)
        os.dup2(fd, 1)

    def news(self):
        size = os.path.getsize(self.path)
        if size == self.pos:
            return ""
        with open(self.path, "rb") as f:
            f.seek(self.pos)
            s = f.read().decode("utf8", "replace")
        self.pos = size
        return "\n".join(x for x in s.splitlines() if "IndexError" in x)[:300]


def bounds(ctx, modules, budget, **kw):
    cap = Capture()

    def hook(probe, args, kws, sub):
        ctx.evals += 1
        try:
            r = probe.fn(*args, **kws)
        except SystemError as e:
            ctx.violate("memory", f"{probe.name}: {str(e)[:200]} {cap.news()}")
            raise
        except IndexError as e:
            if "index is out of bounds" in str(e):
                ctx.violate("memory", f"{probe.name}: bounds checker: {e} {cap.news()}")
            raise
        n = cap.news()
        if n:
            ctx.violate("memory", f"{probe.name}: bounds checker: {n}")
        ctx.nontrivial(probe.name, digest([list(args), kws]))
        return r

    derive.drive(ctx, modules, hook, budget if ctx.quick else budget * 8, scale=0.6 if ctx.quick else 2, **kw)


def B(cache):
    return {"NUMBA_BOUNDSCHECK": "1", "NUMBA_FULL_TRACEBACKS": "1", "NUMBA_CACHE_DIR": cache, "NUMBA_NUM_THREADS": "2"}


@section(env=B("bc"), weight=5)
def bounds_permanent(ctx):
    """Permanents, torontonians, charpoly."""
    bounds(ctx, ["c02", "c03"], 1.5)


@section(env=B("bc"), weight=5)
def bounds_batch(ctx):
    """Batched kernels, Hermite recursions and gradients."""
    bounds(ctx, ["c04", "c05", "c16"], 1.2)


@section(env=B("bc"), weight=8)
def bounds_hafnian(ctx):
    """Hafnian kernels, Fock tensors and probabilities."""
    bounds(ctx, ["c01"], 1.5)
    bounds(ctx, ["c06", "c07", "c08"], 1)


@section(env=B("bc"), weight=5, tiers=("thorough",))
def bounds_samplers(ctx):
    """Samplers."""
    bounds(ctx, ["c15"], 2)


@section(env=B("bc"), weight=4)
def bounds_rest(ctx):
    """Everything else."""
    bounds(ctx, ["c09", "c11", "c12", "c13", "c14", "c17"], 0.7)


@section(env=B("bc"), weight=4)
def bounds_tiny(ctx):
    """Empty and size-one arguments, and sizes round the block boundaries, straight into the kernels."""
    cap = Capture()
    rng = ctx.rng
    K = "thewalrus."
    names = [
        ("_hafnian.recursive_hafnian", lambda n: (gen.sym(rng, 2 * n, "real"),)),
        ("hafnian", lambda n: (gen.sym(rng, n, "complex"),)),
        ("loop_hafnian", None), ("perm", lambda n: (rng.normal(size=(n, n)),)),
        ("_permanent.perm_ryser", lambda n: (rng.normal(size=(n, n)),)),
        ("_permanent.perm_bbfg", lambda n: (rng.normal(size=(n, n)),)),
        ("_permanent.ubrs", lambda n: (rng.normal(size=(n, n + 1)),)),
        ("_permanent.brs", lambda n: (rng.normal(size=(n, n)), 0.1 * np.eye(n))),
        ("tor", lambda n: (np.eye(2 * n) * 0.3,)), ("ltor", lambda n: (np.eye(2 * n) * 0.3, np.ones(2 * n) * 0.1)),
        ("_torontonian.numba_tor", lambda n: (np.eye(2 * n) * 0.3,)),
        ("_torontonian.rec_torontonian", lambda n: (np.eye(2 * n) * 0.3,)),
        ("charpoly.charpoly", lambda n: (rng.normal(size=(n, n)),)),
        ("charpoly.powertrace", lambda n: (rng.normal(size=(n, n)), n + 1)),
        ("_montrealer.mtl", lambda n: (gen.sym(rng, 2 * n, "real") * 0.1,)),
        ("hafnian_approx", lambda n: (np.abs(gen.sym(rng, 2 * n, "real")),)),
        ("hafnian_banded", lambda n: (gen.sym(rng, n, "real"),)),
        ("hafnian_sparse", lambda n: (gen.sym(rng, n, "real"),)),
        ("hermite_multidimensional", lambda n: (gen.sym(rng, n, "complex"), 2 if n > 4 else 3)),
        ("hafnian_batched", lambda n: (gen.sym(rng, n, "real"), 2 if n > 4 else 3)),
        ("fock_gradients.displacement", lambda n: (0.3, 0.1, n + 1)), ("fock_gradients.squeezing", lambda n: (0.3, 0.1, n + 1)),
        ("fock_gradients.beamsplitter", lambda n: (0.3, 0.1, n + 1)), ("fock_gradients.two_mode_squeezing", lambda n: (0.3, 0.1, n + 1)),
        ("fock_gradients.mzgate", lambda n: (0.3, 0.1, n + 1)),
    ]
    for n in range(0, 8 if ctx.quick else 11):
        for name, mk in names:
            if mk is None:
                continue
            f = ctx.api(K + name, optional=True)
            if f is None:
                continue
            with ctx.case(dict(fn=name, n=n)):
                args = mk(n)
                ctx.evals += 1
                try:
                    f(*args)
                except (IndexError, SystemError) as e:
                    if "index is out of bounds" in str(e) or isinstance(e, SystemError):
                        ctx.violate("memory", f"{name} at size {n}: {type(e).__name__}: {str(e)[:200]} {cap.news()}")
                except Exception:  # noqa: BLE001  (whether it may raise is judged elsewhere)
                    ctx.count("raised at a small size: " + name)
                s = cap.news()
                if s:
                    ctx.violate("memory", f"{name} at size {n}: bounds checker: {s}")
                ctx.nontrivial(name, n)


# ------------------------------------------------------------------------------------------------ differential configs
def child(ctx, tag, modules, env, budget, scale, poison=False, only=None):
    out = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"rec-{ctx.sect}-{tag}.pkl")
    spec = dict(modules=modules, seed=ctx.seed, budget=budget, scale=scale, out=out, poison=poison, only=only)
    e = dict(os.environ)
    e.update(env)
    log = open(out + ".log", "wb")
    return out, subprocess.Popen([sys.executable, os.path.join(HERE, "vlib", "record.py"), json.dumps(spec)], env=e,
                                 stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)


def gather(ctx, tag, out, p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise RuntimeError(f"recording process {tag} did not end in time")
    if p.returncode in CRASH:
        log = open(out + ".log", "rb").read()[-800:].decode("utf8", "replace")
        ctx.violate("memory", f"the process running configuration '{tag}' died with signal {-p.returncode}: {log}")
        return None
    if p.returncode or not os.path.exists(out):
        raise RuntimeError(f"recording process {tag} ended with {p.returncode}: " + open(out + ".log", "rb").read()[-1500:].decode("utf8", "replace"))
    return pickle.load(open(out, "rb"))


def differ(a, b, tol, floor=1e-13):
    """None if two recorded results agree."""
    ka, va = a
    kb, vb = b
    if ka != kb:
        return f"{ka} and {kb}"
    if ka == "seq":
        if len(va) != len(vb):
            return f"lengths {len(va)} and {len(vb)}"
        for x, y in zip(va, vb):
            d = differ(x, y, tol, floor)
            if d:
                return d
        return None
    if ka == "rep":
        return None if va == vb else f"{va[:100]} and {vb[:100]}"
    if ka == "none":
        return None
    if va.shape != vb.shape:
        return f"shapes {va.shape} and {vb.shape}"
    if va.size == 0 or np.array_equal(va, vb, equal_nan=va.dtype.kind in "fc" and vb.dtype.kind in "fc"):
        return None
    fa, fb = np.isfinite(va), np.isfinite(vb)
    if not (fa.all() and fb.all()):
        return None if np.array_equal(fa, fb) and tol > 0 and False else f"finite entries {fa.sum()} and {fb.sum()} of {fa.size}"
    va, vb = va.astype(complex), vb.astype(complex)
    e, s = np.max(np.abs(va - vb)), max(1e-9, np.max(np.abs(va)), np.max(np.abs(vb)))
    return None if e <= max(tol * s, floor) else f"values differ by {e:.3g} (size {s:.3g})"


def compare(ctx, base, other, tag, tol):
    n = 0
    for k, (r, floor, args, kw) in other["results"].items():
        if k not in base["results"]:
            if k in base["errors"]:
                ctx.count("raised in the undisturbed configuration only")
            continue
        n += 1
        ctx.evals += 1
        ctx.events[k[0]] = ctx.events.get(k[0], 0) + 1
        ctx.distinct.add(digest([tag, *k]))
        d = differ(base["results"][k][0], r, tol, max(1e-13, floor) if tol > 1e-9 else 1e-13)
        if d:
            ctx.last_call = (k[0], args, kw)
            ctx.cur = f"configuration {tag}"
            ctx.known = None
            ctx.violate("memory", f"{k[0]}({', '.join(args)}, {kw}) depends on the configuration '{tag}': {d}")
    for k, e in other["errors"].items():
        if k in base["results"]:
            ctx.evals += 1
            if tag == "interpreted":
                ctx.count("calls that do not run interpreted")
                ctx.note(f"interpreted {k[0]}: {e[:100]}")
                continue
            ctx.last_call = (k[0], base["results"][k][2], base["results"][k][3])
            ctx.violate("memory", f"{k[0]} raised in configuration '{tag}' only: {e}")
    ctx.count(f"results compared: {tag}", n)
    if n == 0:
        raise RuntimeError(f"configuration {tag} has no call in common with the undisturbed run")


def poison(ctx, modules, budget):
    scale = 0.5 if ctx.quick else 2
    budget = budget if ctx.quick else budget * 6
    tmo = 380 * (1 if ctx.quick else 6)
    o0, p0 = child(ctx, "base", modules, {"NUMBA_NUM_THREADS": "1"}, budget, scale)
    base = gather(ctx, "base", o0, p0, tmo)
    if base is None:
        return
    jobs = [("garbage 0x7f", {"NUMBA_NUM_THREADS": "1", "MALLOC_PERTURB_": "128"}, 1e-9),
            ("4 threads, garbage 0xfe", {"NUMBA_NUM_THREADS": "4", "MALLOC_PERTURB_": "1"}, 1e-6)]
    if not ctx.quick:
        jobs += [("garbage 0xfe", {"NUMBA_NUM_THREADS": "1", "MALLOC_PERTURB_": "1"}, 1e-9), ("4 threads", {"NUMBA_NUM_THREADS": "4"}, 1e-6),
                 ("3 threads, garbage", {"NUMBA_NUM_THREADS": "3", "MALLOC_PERTURB_": "165"}, 1e-6),
                 ("7 threads", {"NUMBA_NUM_THREADS": "7"}, 1e-6), ("2 threads", {"NUMBA_NUM_THREADS": "2"}, 1e-6)]
    procs = [(t, tol, *child(ctx, t.replace(" ", "_").replace(",", ""), modules, e, budget, scale)) for t, e, tol in jobs]
    for t, tol, o, p in procs:
        other = gather(ctx, t, o, p, tmo)
        if other is not None:
            compare(ctx, base, other, t, tol)


def P(cache):
    return {"NUMBA_CACHE_DIR": cache}


@section(env=P("pc"), weight=9)
def poison_hafnian(ctx):
    """C01 workload: garbage-filled allocations, thread counts."""
    poison(ctx, ["c01"], 0.8)


@section(env=P("pc"), weight=9)
def poison_permanent(ctx):
    """C02, C03 workloads."""
    poison(ctx, ["c02", "c03"], 0.8)


@section(env=P("pc"), weight=9)
def poison_batch(ctx):
    """C04, C05, C16 workloads."""
    poison(ctx, ["c04", "c05", "c16"], 0.8)


@section(env=P("pc"), weight=8)
def poison_fock(ctx):
    """C07, C08 workloads."""
    poison(ctx, ["c07", "c08"], 0.8)


@section(env=P("pc"), weight=8)
def poison_rest(ctx):
    """Other deterministic workloads."""
    poison(ctx, ["c06", "c09", "c10", "c11", "c12", "c14"], 0.4)


@section(env=P("pc"), weight=6)
def interpreted(ctx):
    """Kernels as plain Python with np.empty filled with NaN; compared with the compiled results."""
    scale = 0.3 if ctx.quick else 1.5
    budget = 1 if ctx.quick else 20
    tmo = 380 * (1 if ctx.quick else 6)
    mods = ["c01", "c02", "c03", "c04", "c09"]
    o1, p1 = child(ctx, "interpreted", mods, {"NUMBA_DISABLE_JIT": "1"}, budget, scale, poison=True)
    o0, p0 = child(ctx, "base", mods, {"NUMBA_NUM_THREADS": "1"}, budget * 1.5, scale)
    base = gather(ctx, "base", o0, p0, tmo)
    other = gather(ctx, "interpreted", o1, p1, tmo)
    if base is not None and other is not None:
        compare(ctx, base, other, "interpreted", 1e-4)


# --------------------------------------------------------------------------------------------------------- concurrency
def together(ctx, bag, rounds, nthreads=8):
    """Run the recorded calls from several threads; compare with the sequential results."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    lock = threading.Lock()
    try:
        for rd in range(rounds):
            order = [ctx.rng.permutation(len(bag)) for _ in range(nthreads)]
            same = rd % 2 == 0  # all threads in the same order: several threads inside the same function at once
            bad, done = [], [0]
            barrier = threading.Barrier(nthreads)
            t_end = time.time() + (5 if ctx.quick else 30)

            def work(t):
                rng = np.random.default_rng([ctx.seed, rd, t])
                barrier.wait()
                for q in (order[0] if same else order[t]):
                    if time.time() > t_end:
                        break
                    fn, name, args, kw, want, floor = bag[q]
                    if rng.random() < 0.1:
                        time.sleep(rng.uniform(0, 0.002))
                    try:
                        r = fn(*args, **kw)
                    except Exception as e:  # noqa: BLE001
                        with lock:
                            bad.append((q, f"{name} raised {type(e).__name__}: {str(e)[:200]} when called from several threads"))
                        continue
                    d = differ(want, _simple(r), 1e-7, floor)
                    with lock:
                        done[0] += 1
                        if d:
                            bad.append((q, f"{name} gave another result when called from several threads: {d}"))

            ts = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            ctx.evals += done[0]
            ctx.count("concurrent calls compared", done[0])
            ctx.count("concurrent rounds")
            for q, what in bad[:5]:
                ctx.last_call = (bag[q][1], bag[q][2], bag[q][3])
                ctx.cur = f"concurrent round {rd}"
                ctx.known = None
                ctx.violate("memory", what)
    finally:
        sys.setswitchinterval(old)


def _simple(r):
    from vlib.record import simple

    return simple(r)


def collect(ctx, modules, budget, per=12, only=None):
    """Calls of deterministic entry points, some of every function, with their sequential results."""
    import copy

    from vlib.record import noise

    bag, cnt = [], {}

    def hook(probe, args, kw, sub):
        t = time.time()
        keep = None
        mod = getattr(probe.fn, "__module__", "") or ""
        rnd = mod.startswith(("thewalrus.samples", "thewalrus.random", "thewalrus.csamples", "thewalrus.grouped")) or kw.get("approx") or "approx" in probe.name
        if cnt.get(probe.name, 0) < per and not rnd:
            try:
                keep = copy.deepcopy((args, kw))
            except Exception:
                keep = None
        r = probe.fn(*args, **kw)
        s = _simple(r)
        if keep is not None and s[0] in ("arr", "seq") and time.time() - t < 3:
            cnt[probe.name] = cnt.get(probe.name, 0) + 1
            bag.append([probe.fn, probe.name, keep[0], keep[1], s, max(1e-13, noise(*keep))])
        return r

    derive.drive(ctx, modules, hook, budget, scale=0.4, only=only)
    # drop calls that are slow even when compiled
    keep = []
    for b in bag:
        t = time.time()
        b[0](*b[2], **b[3])
        if time.time() - t < 0.05:
            keep.append(b)
            ctx.nontrivial(b[1], digest([list(b[2]), b[3]]))
    ctx.count("functions called concurrently", len({b[1] for b in keep}))
    return keep


@section(env={"NUMBA_NUM_THREADS": "4", "NUMBA_CACHE_DIR": "pc"}, weight=7)
def concurrent(ctx):
    """Matrix functions, batch kernels, Hermite recursions, Fock-space and phase-space functions from eight threads at once."""
    mods = ["c01", "c02", "c03", "c04", "c05", "c07", "c08", "c09", "c11", "c16"] + ([] if ctx.quick else ["c06", "c12", "c14"])
    together(ctx, collect(ctx, mods, 0.4 if ctx.quick else 2), 6 if ctx.quick else 40)


@section(env={"NUMBA_NUM_THREADS": "2", "NUMBA_CACHE_DIR": "cold", "VERIF_NOJITLOCK": "1"}, weight=10, must=("cold calls",))
def cold(ctx):
    """First use (compilation) of functions from eight threads at once, and the memoised reference generators."""
    import thewalrus as tw
    from thewalrus import reference as rf
    from thewalrus import charpoly

    from vlib import oracles as O

    rng = ctx.rng
    sys.setswitchinterval(1e-6)
    n = 6
    Ms = [gen.sym(rng, n, "real") for _ in range(8)]
    want = {("haf", i): O.haf(A) if hasattr(O, "haf") else rf.hafnian(A) for i, A in enumerate(Ms)}
    bad, lock, done = [], threading.Lock(), [0]
    barrier = threading.Barrier(8)

    def work(i):
        A = Ms[i]
        barrier.wait()
        jobs = [("hafnian", lambda: tw.hafnian(A), ("haf", i)),
                ("hafnian recursive", lambda: tw.hafnian(A, method="recursive"), ("haf", i)),
                ("hafnian_sparse", lambda: tw.hafnian_sparse(A), ("haf", i)),
                ("reference.hafnian", lambda: rf.hafnian(A), ("haf", i)),
                ("hafnian_repeated", lambda: tw.hafnian_repeated(A, [1] * n), ("haf", i)),
                ("hafnian_banded", lambda: tw.hafnian_banded(A), ("haf", i)),
                ("charpoly", lambda: charpoly.powertrace(A, 3)[1], ("tr", i))]
        r = np.random.default_rng(i)
        for rep in range(3):
            for q in r.permutation(len(jobs)):
                name, f, k = jobs[q]
                try:
                    v = f()
                except Exception as e:  # noqa: BLE001
                    with lock:
                        bad.append((name, i, f"{name} raised {type(e).__name__}: {str(e)[:200]} on first use from several threads"))
                    continue
                w = np.trace(A) if k[0] == "tr" else want[k]
                with lock:
                    done[0] += 1
                    if not abs(v - w) <= 1e-7 * (1 + abs(w)):
                        bad.append((name, i, f"{name} gave {v} instead of {w} from several threads"))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ctx.evals += done[0]
    ctx.count("cold calls", done[0])
    for i in range(8):
        ctx.nontrivial(Ms[i])
    for name, i, what in bad[:5]:
        ctx.last_call = (name, (Ms[i],), {})
        ctx.violate("memory", what)
    # reference generators, all sizes, from eight threads
    for rd in range(ctx.n(4, 30)):
        errs = []
        sizes = [int(x) for x in rng.integers(3, 8, size=6)]
        mats = [gen.sym(rng, m, "int") for m in sizes]

        def ref(i):
            for A in mats:
                try:
                    v = rf.hafnian(A, loop=True)
                except Exception as e:  # noqa: BLE001
                    errs.append((A, f"reference.hafnian raised {type(e).__name__}: {e} when called from several threads"))
                    continue
                res.setdefault(id(A), []).append(v)

        res = {}
        ts = [threading.Thread(target=ref, args=(i,)) for i in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for A in mats:
            w = tw.hafnian(A.astype(float), loop=True)
            for v in res.get(id(A), []):
                ctx.evals += 1
                if abs(v - w) > 1e-6 * (1 + abs(w)):
                    errs.append((A, f"reference.hafnian gave {v} instead of {w} from several threads"))
            ctx.nontrivial(A)
        for A, what in errs[:3]:
            ctx.last_call = ("reference.hafnian", (A,), {})
            ctx.violate("memory", what)
