"""C19: purity.  The workloads of the other checks run again with their value oracles off; round every call of a public
entry point the monitor
 - compares the arguments (arrays, lists, dictionaries, seen through to the base of a view) before and after,
 - keeps the results of the last calls and looks whether later calls change them,
 - repeats the call: from the same arguments, with another state of the global random stream, after other calls, and from
   equal values in another memory layout or read-only - and compares the results,
 - looks whether a call that is not documented to draw random numbers advanced the global stream, and at numpy's error state.
At the end recorded calls are replayed in a shuffled order."""
import copy
import json
import os
import pickle
import subprocess
import sys
import time

import numpy as np

from vlib import derive, gen
from vlib.core import section, digest, brief

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RANDOM_MODULES = ("thewalrus.samples", "thewalrus.random", "thewalrus.csamples", "thewalrus.grouped_click_probabilities",
                  "thewalrus.quantum.distinguishable_squeezers")
# the directions returned for degenerate input, or the drawn values, legitimately depend on the last bit of the input
UNSTABLE = {"takagi", "williamson", "blochmessiah", "iwasawa", "pre_iwasawa", "decompose_cov", "adj_to_qmat", "rescale_adjacency_matrix_thermal",
            "rescale_adjacency_matrix", "photon_means_order"}


def is_data(x):
    return isinstance(x, (np.ndarray, list, tuple, dict, int, float, complex, np.generic, str, bool, type(None)))


def flat(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            flat(y, out)
    return out


def shares(r, args):
    a, b = flat(r, []), flat(args, [])
    return any(x.size and y.size and np.may_share_memory(x, y) for x in a for y in b)


def same(r, s, tol):
    """None if equal within tol, else a description."""
    if isinstance(r, (list, tuple)) and isinstance(s, (list, tuple)):
        if len(r) != len(s):
            return f"lengths {len(r)} and {len(s)}"
        for x, y in zip(r, s):
            d = same(x, y, tol)
            if d:
                return d
        return None
    if isinstance(r, dict) and isinstance(s, dict):
        if list(r) != list(s):
            return "keys differ"
        return same(list(r.values()), list(s.values()), tol)
    try:
        a, b = np.asarray(r), np.asarray(s)
        if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
            return None if repr(r) == repr(s) else f"{brief(r)} and {brief(s)}"
    except Exception:
        return None if repr(r) == repr(s) else f"{brief(r)} and {brief(s)}"
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    if a.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
        return None
    if not tol:
        return f"{brief(r)} and {brief(s)}"
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa.all() and fb.all()):
        return None if np.array_equal(fa, fb) else f"{brief(r)} and {brief(s)}"
    e, sc = np.max(np.abs(a - b)), max(np.max(np.abs(a)), 1e-12)
    return None if e <= tol * sc + 1e-12 else f"{brief(r)} and {brief(s)} (difference {e:.3g})"


def relayout(rng, x, kind):
    if isinstance(x, np.ndarray) and x.dtype != object:
        if kind == "fortran":
            return np.asfortranarray(x.copy())
        if kind == "strided" and x.ndim >= 1:
            big = np.full(tuple(2 * k + 1 for k in x.shape), 77, dtype=x.dtype)
            v = big[tuple(slice(0, 2 * k, 2) for k in x.shape)]
            v[...] = x
            return v
        if kind == "reversed" and x.ndim >= 1:
            return np.array(x[::-1], copy=True)[::-1]
        y = np.array(x, copy=True, order="C")
        if kind == "readonly":
            y.setflags(write=False)
        return y
    if isinstance(x, list):
        return [relayout(rng, y, kind) for y in x]
    if isinstance(x, tuple):
        return tuple(relayout(rng, y, kind) for y in x)
    if isinstance(x, dict):
        return {k: relayout(rng, v, kind) for k, v in x.items()}
    return x


def scribble(x):
    """Overwrite everything the owner of a result can overwrite; the number of places written."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "iufcb":
            x[...] = 77 if x.dtype.kind != "b" else ~x
            return 1
        return 0
    n = 0
    if isinstance(x, (list, tuple)):
        n = sum(scribble(y) for y in x)
        if isinstance(x, list):
            x.clear()
            n += 1
    elif isinstance(x, dict):
        n = sum(scribble(y) for y in x.values())
        x.clear()
        n += 1
    return n


def reverse_contents(x):
    """Reverse arrays (all axes: covariances, unitaries, symplectics stay what they are) and lists of numbers in place."""
    n = 0
    if isinstance(x, np.ndarray):
        if x.size > 1 and x.flags.writeable and x.dtype.kind in "iufc":
            y = x[(slice(None, None, -1),) * x.ndim].copy()
            n = int(not np.array_equal(x, y))
            x[...] = y
    elif isinstance(x, list) and x and all(isinstance(y, (int, float, complex, np.generic)) for y in x):
        n = int(x != x[::-1])
        x.reverse()
    elif isinstance(x, (list, tuple)):
        n = sum(reverse_contents(y) for y in x)
    return n


class Monitor:
    def __init__(self, ctx, repeat, layout_every):
        self.ctx, self.rng = ctx, np.random.default_rng(ctx.seed + 12345)
        self.ring, self.calls = [], {}
        self.repeat, self.layout_every = repeat, layout_every
        self.log = []
        self.cost = {}

    def is_random(self, probe, args, kw):
        mod = getattr(probe.fn, "__module__", "") or ""
        return mod.startswith(RANDOM_MODULES) or probe.name in ("hafnian_approx",) or kw.get("approx")

    def numba_random(self, probe, kw):
        return kw.get("approx") or probe.name == "hafnian_approx"

    def __call__(self, probe, args, kw, sub):
        ctx, rng = self.ctx, self.rng
        n = self.calls[probe.name] = self.calls.get(probe.name, 0) + 1
        data = all(is_data(a) or callable(a) or isinstance(a, (np.random.RandomState, np.random.Generator)) for a in list(args) + list(kw.values()))
        keep = None
        if data:
            try:
                keep = copy.deepcopy((args, kw))
            except Exception:
                keep = None
        before = digest([list(args), kw])
        bases = [(a.base, digest(a.base)) for a in flat([list(args), kw], []) if isinstance(a.base, np.ndarray)]
        st0 = np.random.get_state()
        g0 = digest(list(st0))
        err0 = np.geterr()
        t0 = time.time()
        exc = None
        try:
            r = probe.fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            exc, r = e, None
        dt = time.time() - t0
        ctx.evals += 1
        if digest([list(args), kw]) != before:
            ctx.violate("purity", f"{probe.name} changed its arguments")
        for b, d in bases:
            if digest(b) != d:
                ctx.violate("purity", f"{probe.name} wrote into the array its argument is a view of")
        if np.geterr() != err0:
            ctx.violate("purity", f"{probe.name} changed numpy's error state")
        random = self.is_random(probe, args, kw)
        if not random and digest(list(np.random.get_state())) != g0:
            ctx.violate("purity", f"{probe.name} advanced the global random stream")
        if exc is not None:
            raise exc
        ctx.nontrivial(probe.name, before)
        ctx.sample(call=probe.name, args=[brief(a) for a in args][:3])
        # results of earlier calls
        for q in ([rng.integers(len(self.ring))] if self.ring else []):
            self.verify(q)
        if is_data(r) and r is not None:
            if not shares(r, [args, kw]):
                self.ring.append((r, digest(r), probe.name))
                if len(self.ring) > 60:
                    self.verify(0)
                    self.ring.pop(0)
            else:
                ctx.count("results that share memory with the arguments")
        # repetition
        if keep is not None and not self.numba_random(probe, kw) and is_data(r) and dt < 0.5 and (n <= 6 or rng.random() < self.repeat):
            self.again(probe, keep, st0, r, random, "called again")
            if dt < 0.2 and (n <= 4 or rng.random() < self.repeat / 4):
                self.scribbled(probe, keep, st0, r, random)
                if not random:
                    self.reused(probe, keep)
            if n % self.layout_every == 1 and n < 40 and self.cost.get(probe.name, 0) < (6 if ctx.quick else 60) and not random:
                kinds = ["fortran", "strided", "reversed", "readonly"]
                kind = kinds[int(rng.integers(4))]
                t1 = time.time()
                a2, k2 = relayout(rng, keep[0], kind), {k: relayout(rng, v, kind) for k, v in keep[1].items()}
                self.layout(probe, a2, k2, r, kind)
                self.cost[probe.name] = self.cost.get(probe.name, 0) + time.time() - t1
            if len(self.log) < 400 or rng.random() < 0.1:
                self.log.append((probe, keep, st0 if random else None, copy.deepcopy(r), random))
                if len(self.log) > 400:
                    self.log.pop(int(rng.integers(len(self.log))))
        return r

    def verify(self, q):
        r, d, name = self.ring[q]
        self.ctx.evals += 1
        self.ctx.count("earlier results looked at again")
        if digest(r) != d:
            self.ring[q] = (r, digest(r), name)
            self.ctx.violate("purity", f"an earlier result of {name} was changed by a later call (now after {self.ctx.last_call[0]})")

    def again(self, probe, keep, st0, r, random, how):
        ctx = self.ctx
        args, kw = copy.deepcopy(keep)
        now = np.random.get_state()
        if random:
            np.random.set_state(st0)
        else:
            np.random.seed(int(self.rng.integers(2**31)))
        try:
            r2 = probe.fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            ctx.violate("purity", f"{probe.name} {how} with equal arguments raised {type(e).__name__}: {e}")
            return
        finally:
            np.random.set_state(now)
        ctx.evals += 1
        ctx.count("repeated calls compared")
        d = same(r, r2, 0 if random else 1e-7)
        if d:
            ctx.violate("purity", f"{probe.name} {how} with equal arguments gave another result: {d}")

    def scribbled(self, probe, keep, st0, r, random):
        """A caller may do what it likes with a result: overwrite one, then ask again."""
        args, kw = copy.deepcopy(keep)
        now = np.random.get_state()
        try:
            np.random.set_state(st0)
            junk = probe.fn(*args, **kw)
            self.ctx.count("results overwritten by the caller" if scribble(junk) else "results that cannot be overwritten")
        except Exception:  # noqa: BLE001  ("again" reports a call that fails the second time)
            return
        finally:
            np.random.set_state(now)
        self.again(probe, keep, st0, r, random, "called again after an earlier result was overwritten by its owner,")

    def reused(self, probe, keep):
        """The same objects with new contents: as good as fresh ones."""
        args, kw = copy.deepcopy(keep)
        now = np.random.get_state()

        def call(a, k):
            try:
                return probe.fn(*a, **k), None
            except Exception as e:  # noqa: BLE001
                return None, f"{type(e).__name__}: {str(e)[:200]}"

        try:
            call(args, kw)
            if not reverse_contents([list(args), list(kw.values())]):
                return
            fresh = copy.deepcopy((args, kw))
            r1, e1 = call(args, kw)
            r2, e2 = call(*fresh)
        finally:
            np.random.set_state(now)
        self.ctx.evals += 1
        self.ctx.count("argument objects used again with new contents")
        if (e1 is None) != (e2 is None):
            self.ctx.violate("purity", f"{probe.name} on argument objects whose contents were changed in place: {e1 or 'no error'}; on fresh ones: {e2 or 'no error'}")
            return
        d = same(r2, r1, 1e-7) if is_data(r1) and e1 is None else None
        if d:
            self.ctx.violate("purity", f"{probe.name} on argument objects whose contents were changed in place between calls gave another result than on fresh ones: {d}")

    def layout(self, probe, args, kw, r, kind):
        ctx = self.ctx
        now = np.random.get_state()
        try:
            r2 = probe.fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            ctx.violate("purity", f"{probe.name} raised for equal values in memory layout '{kind}': {type(e).__name__}: {str(e)[:300]}")
            return
        finally:
            np.random.set_state(now)
        ctx.evals += 1
        ctx.count("memory layouts compared: " + kind)
        if probe.name in UNSTABLE:
            return
        d = same(r, r2, 1e-5)
        if d:
            ctx.violate("purity", f"{probe.name} gave another result for equal values in memory layout '{kind}': {d}")

    def finish(self):
        for q in range(len(self.ring)):
            self.verify(q)
        order = self.rng.permutation(len(self.log))
        t_end = time.time() + (8 if self.ctx.quick else 60)
        for q in order:
            if time.time() > t_end:
                break
            probe, keep, st0, r, random = self.log[q]
            self.ctx.last_call = (probe.name, keep[0], keep[1])
            self.ctx.cur = "replay in a shuffled history"
            self.again(probe, keep, st0, r, random, "replayed after other calls")
            self.ctx.count("calls replayed in a shuffled history")
        for q in range(len(self.ring)):
            self.verify(q)


def run(ctx, modules, budget, **kw):
    mon = Monitor(ctx, 0.15, 4 if ctx.quick else 2)
    derive.drive(ctx, modules, mon, budget if ctx.quick else budget * 8, scale=0.5 if ctx.quick else 2, **kw)
    mon.finish()


E1 = {"NUMBA_NUM_THREADS": "1"}


@section(env=E1, weight=3)
def hafnians(ctx):
    """Workload of the hafnian checks."""
    run(ctx, ["c01"], 2.25)


@section(env=E1, weight=3)
def permanents(ctx):
    """Workloads of the permanent, torontonian and charpoly checks."""
    run(ctx, ["c02", "c03"], 2.25)


@section(env=E1, weight=3)
def kernels(ctx):
    """Workloads of C04 and C05."""
    run(ctx, ["c04", "c05"], 2.25)


@section(env=E1, weight=5)
def phasespace(ctx):
    """Workloads of C06, C07 and C10."""
    run(ctx, ["c06", "c10"], 2.25)


@section(env=E1, weight=3)
def fock(ctx):
    """Workload of C07 and C08."""
    run(ctx, ["c07", "c08"], 1.8)


@section(env=E1, weight=3)
def quantum(ctx):
    """Workloads of C09, C11 and C12."""
    run(ctx, ["c09", "c11", "c12"], 1.57)


@section(env=E1, weight=3)
def graphs(ctx):
    """Workloads of C13, C14, C16 and C17."""
    run(ctx, ["c13", "c14", "c16", "c17"], 1.8)


@section(env=E1, weight=6)
def sampling(ctx):
    """Workload of the sampler checks."""
    run(ctx, ["c15"], 1.35)


@section(env=E1, weight=5)
def rejected(ctx):
    """The ill-formed calls of C20: a rejected call leaves everything untouched as well."""
    run(ctx, ["c20"], 1.35, skip=("samplers",))


def orders(ctx, modules, budget):
    """Calls and siblings that differ in one argument, in two processes in opposite order: same values."""
    from checks.c18 import differ

    q = ctx.quick
    procs = []
    for order in ("after", "before"):
        out = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"ord-{ctx.sect}-{order}.pkl")
        spec = dict(modules=modules, seed=ctx.seed, budget=budget if q else 8 * budget, scale=0.5 if q else 2, wall=80 if q else 1500, out=out, order=order,
                    first=3 if q else 20, share=0.02 if q else 0.1, cost=1.0 if q else 30)
        log = open(out + ".log", "wb")
        procs.append((out, subprocess.Popen([sys.executable, os.path.join(HERE, "vlib", "siblings.py"), json.dumps(spec)],
                                            stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
    res = []
    for out, p in procs:
        try:
            p.wait(150 if q else 2000)  # (a process ends by itself at the limit; one slow call may delay that)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            ctx.count("sibling processes ended by force")
        if p.returncode not in (0, -9) or not os.path.exists(out):
            raise RuntimeError(f"sibling process ended with {p.returncode}: " + open(out + ".log", "rb").read()[-1500:].decode("utf8", "replace"))
        got = {}
        with open(out, "rb") as f:
            while True:
                try:
                    k, v = pickle.load(f)
                except (EOFError, pickle.UnpicklingError, AttributeError, ValueError, IndexError):
                    break  # the end, or a record cut short
                got[k] = v
        res.append(got)
    a, b = res
    for k in sorted(set(a) & set(b)):
        (ka, va), floor, args, kw = a[k]
        kb, vb = b[k][0]
        name = k[0].split()[1]
        if args != b[k][2] or kw != b[k][3]:
            ctx.count("calls whose arguments depend on the run")
            continue
        ctx.evals += 1
        ctx.events[name] = ctx.events.get(name, 0) + 1
        ctx.count("calls compared between two orders of sibling calls")
        ctx.distinct.add(digest([k[0], k[1]]))
        d = f"{ka} ({va}) and {kb} ({vb})" if ka != kb or ka == "raised" and va != vb else None if ka == "raised" else differ(va, vb, 1e-7, max(1e-12, floor))
        if d:
            ctx.last_call = (name, args, kw)
            ctx.cur = f"sibling {k[1]} of {k[0]}"
            ctx.known = None
            ctx.violate("purity", f"{name}({', '.join(args)}, {kw}) depends on whether calls with another value of one argument came before: {d}")


@section(env=E1, weight=5)
def orders_matrices(ctx):
    """Workloads of C01-C06."""
    orders(ctx, ["c03", "c02", "c05", "c06", "c01", "c04"], 1.5)


@section(env=E1, weight=5)
def orders_fock(ctx):
    """Workloads of C07 and C13."""
    orders(ctx, ["c07", "c13"], 2.0)


@section(env=E1, weight=5)
def orders_moments(ctx):
    """Workloads of C08 and C09."""
    orders(ctx, ["c08", "c09"], 2.0)


@section(env=E1, weight=5)
def orders_states(ctx):
    """Workloads of C10-C12 and C14."""
    orders(ctx, ["c10", "c11", "c12", "c14"], 1.5)


@section(must=("partitions", "T"))
def generators(ctx):
    """Memoised generators: partly consumed, interleaved and repeated; the result depends on the argument alone."""
    rng = ctx.rng
    R = lambda nm: ctx.api("thewalrus.reference." + nm)
    P, T, spm, pmp, haf = R("partitions"), R("T"), R("spm"), R("pmp"), R("hafnian")

    import importlib.util
    import thewalrus.reference as mod

    fresh = {}

    def pristine(name, *a):
        """The listing given by a copy of the module that was never used before."""
        if (name, a) not in fresh:
            spec = importlib.util.spec_from_file_location("pristine_reference", mod.__file__)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            fresh[name, a] = [repr(x) for x in getattr(m, name)(*a)]
        return fresh[name, a]

    norm = lambda lst: [repr(x) for x in lst]
    open_gens = []
    for _ in range(ctx.n(300, 3000)):
        n = int(rng.integers(3, 7))
        base = [0, 10, 5][rng.integers(3)]
        s = tuple(range(base, base + n))
        kind = rng.integers(4)
        singles, pairs = [(True, True), (False, True), (True, False), (True, True)][rng.integers(4)]
        with ctx.case(dict(s=s, kind=int(kind), singles=singles, pairs=pairs)):
            if kind == 0:
                if not singles and n % 2:
                    continue
                g, want = P(s, singles, pairs), pristine("partitions", s, singles, pairs)
            elif kind == 1:
                g, want = spm(s), pristine("spm", s)
            elif kind == 2 and n % 2 == 0:
                g, want = pmp(s), pristine("pmp", s)
            else:
                k = int(rng.integers(0, 25))
                a, b = 1, 1
                for j in range(2, k + 1):
                    a, b = b, b + (j - 1) * a
                ctx.check(T(k) == b, f"T({k}) is wrong after other calls")
                continue
            ctx.nontrivial(s, int(kind), singles, pairs, len(open_gens))
            act = rng.random()
            if act < 0.4:  # leave it half consumed
                part = [next(g) for _ in range(int(rng.integers(1, max(2, len(want)))))] if want else []
                open_gens.append((g, part, want))
            else:
                ctx.check(norm(list(g)) == want, "a memoised generator gives another listing after other calls")
            if open_gens and rng.random() < 0.4:
                g, part, want = open_gens.pop(int(rng.integers(len(open_gens))))
                ctx.check(norm(part + list(g)) == want, "an interrupted generator does not continue where it stopped")
    for g, part, want in open_gens:
        ctx.cur = "resume"
        ctx._skip = False
        ctx.known = None
        ctx.check(norm(part + list(g)) == want, "an interrupted generator does not continue where it stopped")
