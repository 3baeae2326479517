"""Worker-side core: probes (event recording), cases, oracles' verdicts, counters.

A *section* is a function f(ctx) that drives the real code through probes
(`ctx.api(module, name)`), and judges what it observed (`ctx.close`, `ctx.check`,
`ctx.raises`).  Nothing here looks at source text; everything is decided on
observed arguments, results and exceptions.
"""
import contextlib
import hashlib
import importlib
import inspect
import json
import os
import sys
import traceback
import warnings
import zlib

import numpy as np

MAX_VIOL = 8


class Missing(Exception):
    """An optional (non-documented) entry point is not there any more."""


class Stop(Exception):
    """Enough violations were recorded; stop the section."""


def section(func=None, *, env=None, timeout=400, must=(), share=None, weight=1, tiers=("quick", "thorough")):
    """Declare a section of a check."""

    def deco(f):
        f._section = dict(
            name=f.__name__, env=dict(env or {}), timeout=timeout, must=tuple(must),
            tiers=tuple(tiers), weight=weight,
        )
        return f

    return deco(func) if func is not None else deco


def sections_of(module):
    return [f for f in vars(module).values() if callable(f) and hasattr(f, "_section")]


def digest(x, h=None, depth=0):
    """Value digest of nested python/numpy data (layout independent)."""
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=8)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(b"o" + repr(x.tolist()).encode())
        else:
            h.update(str((x.dtype.str, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(("L" if isinstance(x, list) else "T").encode() + str(len(x)).encode())
        for y in x:
            digest(y, h, depth + 1)
    elif isinstance(x, dict):
        h.update(b"D" + str(len(x)).encode())
        for k in x:
            digest(k, h, depth + 1)
            digest(x[k], h, depth + 1)
    elif isinstance(x, (set, frozenset)):
        h.update(b"S" + repr(sorted(map(repr, x))).encode())
    elif callable(x):
        h.update(getattr(x, "__name__", "callable").encode())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def brief(x, lim=160):
    """Short printable description of an argument or value."""
    try:
        if isinstance(x, np.ndarray):
            if x.size <= 6:
                return f"array{x.shape}{x.dtype.name}{np.array2string(x.ravel(), precision=5, separator=',', max_line_width=10**6)}"
            return f"array{x.shape}{x.dtype.name}#{digest(x)}"
        if isinstance(x, (list, tuple)) and len(x) > 16:
            return f"{type(x).__name__}[{len(x)}]#{digest(x)}"
        s = repr(x)
        return s if len(s) <= lim else s[: lim - 3] + "..."
    except Exception:  # pragma: no cover
        return f"<{type(x).__name__}>"


def in_walrus(tb):
    """Does the traceback pass through the library under test?"""
    return any("/thewalrus/" in f.filename for f in traceback.extract_tb(tb))


def raised_inside(exc):
    """The exception came out of an API call (not out of the harness)."""
    return getattr(exc, "_vprobe", False)


def arg_names(fn):
    f = getattr(fn, "py_func", fn)
    f = inspect.unwrap(f) if callable(f) else f
    try:
        return [p.name for p in inspect.signature(f).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    except (TypeError, ValueError):
        return []


def traits(x):
    """Coarse description of an argument: (type, size or value, flags)."""
    if isinstance(x, np.ndarray):
        fl = set()
        if not x.flags.c_contiguous:
            fl.add("strided")
        if x.ndim and x.size and x.dtype.kind in "iufc":
            z = x == 0
            if z.all():
                fl.add("all zero")
            elif z.any():
                fl.add("some zeros")
            if x.dtype.kind == "c":
                if not np.any(x.imag):
                    fl.add("complex type, real values")
                elif not np.any(x.real):
                    fl.add("imaginary")
            elif (x < 0).any():
                fl.add("negative entries")
            if x.dtype.kind in "iu" and x.size:
                fl.add(f"entries up to {int(x.max())}" if x.max() < 12 else "entries of 12 and more")
                if x.ndim == 1 and x.size > 1:
                    fl.add("sorted" if np.all(np.diff(x) >= 0) else "unsorted")
        return f"array {x.ndim}d {x.dtype}", (x.shape[0] if x.ndim else 0), fl
    if isinstance(x, (list, tuple)):
        fl = set()
        if x and all(isinstance(v, (int, np.integer)) for v in x):
            m = int(max(x))
            fl.add(f"entries up to {m}" if m < 12 else "entries of 12 and more")
            if len(x) > 1:
                fl.add("sorted" if all(a <= b for a, b in zip(x, x[1:])) else "unsorted")
            if len(set(x)) < len(x):
                fl.add("repeated")
        return type(x).__name__, len(x), fl
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, str):
        return repr(x)[:20], None, ()
    if isinstance(x, (int, float, np.integer, np.floating)):
        return type(x).__name__, (float(x) if x == x and abs(x) < 1e300 else None), (("negative",) if x < 0 else ("zero",) if x == 0 else ())
    if isinstance(x, dict):
        return "dict", len(x), ()
    return type(x).__name__, None, ()


class Probe:
    """Callable wrapper round one public entry point: records call/return events."""

    __slots__ = ("ctx", "name", "fn", "label", "params")

    def __init__(self, ctx, name, fn):
        self.ctx, self.name, self.fn = ctx, name, fn
        self.label = name
        self.params = arg_names(fn)

    def profile(self, args, kw):
        """What the monitor saw go in: part of the evidence."""
        rec = self.ctx.inputs.setdefault(self.name, {})
        named = [(self.params[i] if i < len(self.params) else f"*{i}", a) for i, a in enumerate(args)] + list(kw.items())
        for k, a in named:
            t, v, fl = traits(a)
            d = rec.setdefault(k, {"types": {}, "range": None, "flags": {}})
            d["types"][t] = d["types"].get(t, 0) + 1
            if v is not None:
                d["range"] = [v, v] if d["range"] is None else [min(d["range"][0], v), max(d["range"][1], v)]
            for f in fl:
                d["flags"][f] = d["flags"].get(f, 0) + 1

    def __call__(self, *args, **kw):
        ctx = self.ctx
        ev = ctx.events
        ev[self.name] = ev.get(self.name, 0) + 1
        hook = ctx.call_hook
        if ctx.trace_calls:
            ctx.crumb(call=self.name, args=[brief(a) for a in args], kw={k: brief(v) for k, v in kw.items()})
        ctx.last_call = (self.name, args, kw)
        if hook is None and (ev[self.name] <= 400 or ev[self.name] % 16 == 0):
            self.profile(args, kw)
        try:
            if hook is not None:
                return hook(self, args, kw)
            return self.fn(*args, **kw)
        except BaseException as e:
            try:
                e._vprobe = True
                e._vcall = self.name
            except Exception:
                pass
            raise


class Ctx:
    def __init__(self, prop, sect, seed, tier, scale=1.0, crumbs=None, only_case=None):
        self.prop, self.sect, self.seed, self.tier, self.scale = prop, sect, seed, tier, scale
        key = zlib.crc32(f"{prop}/{sect}".encode())
        self.rng = np.random.default_rng([seed, key])
        np.random.seed((seed * 7919 + key) % (2**32))
        self.events = {}
        self.inputs = {}
        self.evals = 0
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.worst = {}
        self.notes = []
        self.counters = {}
        self.case_no = 0
        self.cur = None
        self.call_hook = None
        self.trace_calls = True
        self.last_call = None
        self.crumb_path = crumbs
        self.only_case = only_case
        self.missing = set()
        self.judge = True  # derived modes may switch the value oracles off
        self.sample_every = 1

    # ------------------------------------------------------------------ sizes
    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough=None):
        k = quick if self.quick else (thorough if thorough is not None else quick * 6)
        return max(1, int(round(k * self.scale)))

    # ---------------------------------------------------------------- probing
    def api(self, module, name=None, optional=False):
        if name is None:
            module, name = module.rsplit(".", 1)
        try:
            m = importlib.import_module(module)
            fn = getattr(m, name)
        except (ImportError, AttributeError):
            self.missing.add(f"{module}.{name}")
            if optional:
                return None
            raise Missing(f"{module}.{name}")
        return Probe(self, name, fn)

    def crumb(self, **kw):
        if self.crumb_path is None:
            return
        kw["case_no"] = self.case_no
        kw["case"] = self.cur
        with open(self.crumb_path, "w") as f:
            json.dump(kw, f, default=str)

    # ------------------------------------------------------------------ cases
    @contextlib.contextmanager
    def case(self, desc, known=None, sig=None):
        """One judged input.  Any exception out of the API is a violation."""
        self.case_no += 1
        self.cur = desc
        self.known = known
        sk = self.only_case is not None and self.case_no != self.only_case
        self._skip = sk
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield self
        except (Stop, MemoryError, KeyboardInterrupt, Missing):
            raise
        except Exception as e:  # noqa: BLE001
            if raised_inside(e):
                what = f"{e._vcall} raised {type(e).__name__}: {e}"
            else:
                what = f"result could not be judged: {type(e).__name__}: {e}"
            self.evals += 1
            self.violate("exception", what, trace=traceback.format_exc(limit=-6))
        finally:
            self.cur = None

    def nontrivial(self, *parts):
        """Count the current case as a distinct non-trivial one."""
        self.distinct.add(digest(list(parts)))

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append({"section": self.sect, "case": str(self.cur)[:200], **{k: brief(v, 200) for k, v in kw.items()}})

    def violate(self, kind, what, **extra):
        if not self.judge and kind != "purity" and kind != "memory":
            return
        if getattr(self, "_skip", False):
            return
        name, args, kw = self.last_call or ("?", (), {})
        v = {
            "kind": kind, "what": what[:1500], "case_no": self.case_no, "case": str(self.cur)[:600],
            "known": self.known if hasattr(self, "known") else None,
            "call": name, "args": [_dump(a) for a in args][:8], "kw": {k: _dump(x) for k, x in kw.items()},
        }
        v.update(extra)
        self.violations.append(v)
        unknown = [x for x in self.violations if not x["known"]]
        if len(unknown) >= MAX_VIOL or len(self.violations) > 200:
            raise Stop()

    # ----------------------------------------------------------------- oracles
    def check(self, cond, what, **extra):
        self.evals += 1
        if not cond:
            self.violate("check", what if isinstance(what, str) else what(), **extra)
            return False
        return True

    def close(self, what, got, want, rtol=1e-7, atol=1e-9, scale=None, key=None):
        """|got-want| <= atol + rtol*max(scale, |want|max), shapes equal, no NaN."""
        self.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.violate("shape", f"{what}: shape {g.shape}, expected {w.shape}")
            return False
        if g.dtype == object:
            g = g.astype(np.complex128)
        if w.dtype == object:
            w = w.astype(np.complex128)
        if g.size == 0:
            return True
        if not np.all(np.isfinite(g)):
            self.violate("nonfinite", f"{what}: non-finite value {brief(g)}; expected {brief(w)}")
            return False
        s = float(np.max(np.abs(w))) if scale is None else float(scale)
        tol = atol + rtol * s
        d = np.abs(g - w)
        err = float(np.max(d))
        k = key or what
        r = err / tol if tol > 0 else (0.0 if err == 0 else np.inf)
        if r > self.worst.get(k, -1.0):
            self.worst[k] = r
        if not err <= tol:
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
            self.violate(
                "value",
                f"{what}: got {g[i]!r} want {w[i]!r} at {tuple(int(q) for q in i)} (error {err:.3g}, allowed {tol:.3g})",
            )
            return False
        return True

    def raises(self, what, exc, fn, *args, **kw):
        """The call must raise (an instance of) exc."""
        self.evals += 1
        try:
            out = fn(*args, **kw)
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.violate("wrong-exception", f"{what}: raised {type(e).__name__}: {e}; expected {exc}")
            return False
        self.violate("no-exception", f"{what}: returned {brief(out)} instead of raising {exc}")
        return False

    def note(self, s):
        if s not in self.notes and len(self.notes) < 30:
            self.notes.append(s)

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    # ------------------------------------------------------------------ report
    def report(self):
        return {
            "section": self.sect, "events": self.events, "inputs": self.inputs, "evaluations": self.evals, "cases": self.case_no,
            "distinct": sorted(self.distinct), "violations": self.violations, "samples": self.samples,
            "worst": {k: (round(v, 6) if np.isfinite(v) else str(v)) for k, v in self.worst.items()},
            "notes": self.notes, "counters": self.counters, "missing": sorted(self.missing),
        }


def _dump(x, lim=4000):
    """Full value if small (for the replay file), digest otherwise."""
    try:
        if isinstance(x, np.ndarray):
            if x.size <= 200:
                if np.iscomplexobj(x):
                    return {"re": x.real.tolist(), "im": x.imag.tolist(), "dtype": x.dtype.name}
                return {"array": x.tolist(), "dtype": x.dtype.name}
            return brief(x)
        s = repr(x)
        return s if len(s) < lim else s[:lim]
    except Exception:  # pragma: no cover
        return "?"
