#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--section NAME]

Runs the sections of one check in parallel worker processes against /repo's
current working tree, with a fresh numba cache, and gives a three-valued verdict:
exit 0 held on everything explored, exit 1 violated (VIOLATION line), exit 3
inconclusive / error of the check.
"""
import argparse
import glob
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def known_findings():
    """(property, key) -> text of every 'known:' line."""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m[1], m[2])] = m[3]
    return out


def base_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "OMP_", "OPENBLAS_", "DASK_", "PYTHON"))}
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
        DASK_NUM_WORKERS="1", MPLBACKEND="Agg", TMPDIR=scratch, HOME=scratch, PYTHONWARNINGS="ignore",
        PYTHONFAULTHANDLER="1",
    )
    return e


HANG_CPU = 200  # seconds of processor time one call may take on the quick tier (the slowest take 40, compiling)


def cpu_of(pid):
    """Processor time used so far by a process of ours."""
    try:
        x = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:  # noqa: BLE001
        return 0.0


class Progress:
    """Watches the call a worker is in (its crumb file)."""

    def __init__(self, pid, crumb):
        self.pid, self.crumb, self.mark, self.cpu, self.next, self.peak = pid, crumb, None, 0.0, 0.0, 0.0

    def hung(self, limit):
        if time.time() < self.next:
            return False
        self.next = time.time() + 2
        try:
            m = os.stat(self.crumb).st_mtime_ns
        except OSError:
            return False
        c = cpu_of(self.pid)
        if self.mark is not None:
            self.peak = max(self.peak, c - self.cpu)
        if m != self.mark:
            self.mark, self.cpu = m, c
            return False
        return c - self.cpu > limit


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--section")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first section with a violation (mutation testing)")
    a = ap.parse_args()
    t0 = time.time()
    prop, only_case = a.prop, None
    if a.replay:
        r = json.load(open(a.replay))
        prop, a.tier, a.seed, a.section = r["property"], r["tier"], r["seed"], r["section"]
        only_case = r.get("case_no")
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    sections = list_sections(prop, a.tier)
    if a.section:
        sections = [s for s in sections if s["name"] == a.section]
    if not sections:
        print("INCONCLUSIVE no sections")
        return 3

    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    reports, running, todo = [], [], sorted(sections, key=lambda s: -s["weight"])
    try:
        n = 0
        while todo or running:
            while todo and len(running) < a.jobs:
                s = todo.pop(0)
                out = os.path.join(scratch, f"{n}.json")
                n += 1
                spec = dict(prop=prop, module=s["module"], section=s["name"], seed=a.seed, tier=a.tier, out=out,
                            only_case=only_case, preload=s["env"].get("VERIF_PRELOAD"), scale=float(s["env"].get("VERIF_SCALE", 1)))
                env = base_env(scratch)
                env.update({k: str(v) for k, v in s["env"].items()})
                if s["env"].get("NUMBA_CACHE_DIR"):
                    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, s["env"]["NUMBA_CACHE_DIR"])
                log = open(out + ".log", "wb")
                p = subprocess.Popen([PY, os.path.join(HERE, "vlib", "worker.py"), json.dumps(spec)],
                                     stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                                     cwd=scratch, start_new_session=True)
                running.append((p, s, out, log, time.time(), Progress(p.pid, out + ".crumb")))
            time.sleep(0.05)
            for item in list(running):
                p, s, out, log, started, prog = item
                timeout = s["timeout"] * (1 if a.tier == "quick" else 8)
                timed_out = hung = False
                if p.poll() is None:
                    hung = prog.hung(HANG_CPU * (1 if a.tier == "quick" else 6))
                    if time.time() - started < timeout and not hung:
                        continue
                    timed_out = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                log.close()
                running.remove(item)
                reports.append(collect(p, s, out, timed_out, hung))
                if a.v:
                    r = reports[-1]
                    print(f"  [{time.time()-t0:6.1f}s] {s['name']}: {r['status']} evals={r.get('evaluations')} viol={len(r.get('violations', []))} wall={r.get('wall_s', 0):.1f} cpu={r.get('cpu_s')} longest={prog.peak:.0f}")
                    if r.get("error"):
                        print(r["error"])
                if a.first and any(not v.get("known") for v in reports[-1].get("violations", [])):
                    todo.clear()
                    for q, _, _, lg, _, _ in running:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        q.wait()
                        lg.close()
                    running.clear()
                    break
        return verdict(prop, a, reports, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def list_sections(prop, tier):
    """Section declarations, obtained without importing the library under test."""
    code = (
        "import sys,json,importlib; sys.path.insert(0,%r)\n"
        "from vlib import core\n"
        "m=importlib.import_module('checks.'+%r)\n"
        "print(json.dumps([dict(f._section, module=%r) for f in core.sections_of(m)]))\n"
    ) % (HERE, prop.lower(), prop.lower())
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-c", code], capture_output=True, text=True, env=env, cwd=HERE)
    if r.returncode:
        print(r.stderr, file=sys.stderr)
        return []
    return [s for s in json.loads(r.stdout) if tier in s["tiers"]]


def collect(p, s, out, timed_out, hung=False):
    crumb = None
    try:
        crumb = json.load(open(out + ".crumb"))
    except Exception:
        pass
    try:
        log = open(out + ".log", "rb").read()[-3000:].decode("utf8", "replace")
    except Exception:
        log = ""
    if os.path.exists(out):
        r = json.load(open(out))
        r["log"] = log
    elif hung:
        r = {"section": s["name"], "status": "hung", "violations": [{
            "kind": "hang", "what": f"{crumb and crumb.get('call')} did not return within {HANG_CPU} s of processor time or more",
            "case": crumb and crumb.get("case"), "case_no": crumb and crumb.get("case_no"), "call": crumb and crumb.get("call"),
            "args": crumb and crumb.get("args"), "kw": crumb and crumb.get("kw"), "known": None, "log": log}],
            "evaluations": 1, "events": {}, "distinct": []}
    elif timed_out:
        r = {"section": s["name"], "status": "timeout", "error": f"no verdict within the watchdog; last: {crumb}", "log": log}
    elif p.returncode < 0 and -p.returncode in CRASH:
        # the process running the real code died on a fault: an observed violation with the last call as witness
        r = {"section": s["name"], "status": "crashed", "violations": [{
            "kind": "crash", "what": f"process died with signal {-p.returncode} during {crumb and crumb.get('call')}",
            "case": crumb and crumb.get("case"), "case_no": crumb and crumb.get("case_no"), "call": crumb and crumb.get("call"),
            "args": crumb and crumb.get("args"), "kw": crumb and crumb.get("kw"), "known": None, "log": log}],
            "evaluations": 1, "events": {}, "distinct": []}
    else:
        r = {"section": s["name"], "status": "error", "error": f"worker ended with {p.returncode}: {log}"}
    r["must"] = s["must"]
    return r


def verdict(prop, a, reports, t0):
    known = known_findings()
    reports.sort(key=lambda r: r["section"])
    viol, seen_known, problems = [], {}, []
    events, distinct, samples, worst, counters, notes, inputs = {}, set(), [], {}, {}, [], {}
    evals = cases = 0
    for r in reports:
        for v in r.get("violations", []):
            v["section"] = r["section"]
            k = v.get("known")
            if k and (prop, k) in known:
                seen_known.setdefault(k, v)
            else:
                viol.append(v)
        for k, c in (r.get("events") or {}).items():
            events[k] = events.get(k, 0) + c
        for k, c in (r.get("inputs") or {}).items():
            for q, d in c.items():
                e = inputs.setdefault(k, {}).setdefault(q, {"types": {}, "range": None, "flags": {}})
                for w in ("types", "flags"):
                    for x, m in d[w].items():
                        e[w][x] = e[w].get(x, 0) + m
                if d["range"]:
                    e["range"] = d["range"] if e["range"] is None else [min(e["range"][0], d["range"][0]), max(e["range"][1], d["range"][1])]
        for k, c in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + c
        distinct.update(r.get("distinct") or [])
        samples += (r.get("samples") or [])[:2]
        evals += r.get("evaluations") or 0
        cases += r.get("cases") or 0
        for k, w in (r.get("worst") or {}).items():
            worst[f"{r['section']}:{k}"] = w
        notes += r.get("notes") or []
        if r["status"] in ("error", "timeout", "missing"):
            problems.append(f"{r['section']}: {r['status']}: {r.get('error')}")
        elif r["status"] == "done" and not r.get("evaluations"):
            problems.append(f"{r['section']}: monitors judged nothing")
        elif r["status"] == "done":
            for m in r.get("must", ()):
                if not (r.get("events") or {}).get(m) and not (r.get("counters") or {}).get(m):
                    problems.append(f"{r['section']}: monitor of {m} never reached")

    worst = dict(sorted(worst.items(), key=lambda kv: -float(kv[1]))[:40])
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": "evaluations = oracle judgements of observed results; distinct_nontrivial = different digests of (call, "
                    "arguments) of cases whose expected result is not forced by triviality (see the section docstrings in checks/)",
            "samples": samples[:16], "cases": cases, "calls_observed": events, "monitor_counters": counters,
            "sections": {r["section"]: {"status": r["status"], "evaluations": r.get("evaluations"), "cases": r.get("cases"),
                                         "wall_s": round(r.get("wall_s") or 0, 1)} for r in reports},
            "largest_error_over_tolerance": worst, "notes": notes[:20],
            "known_findings_seen": sorted(seen_known),
            "inputs_observed": {k: {q: "; ".join([", ".join(f"{x} ({m})" for x, m in sorted(d["types"].items(), key=lambda t: -t[1])[:12])]
                                                 + ([f"size or value {d['range'][0]:.4g} to {d['range'][1]:.4g}"] if d["range"] else [])
                                                 + [", ".join(f"{x} ({m})" for x, m in sorted(d["flags"].items())[:24])])
                                    for q, d in c.items()} for k, c in sorted(inputs.items())},
        },
        "assumptions": ["held on the executions observed in this run; nothing is claimed about inputs not driven"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if not a.replay and not a.section:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1, default=str)
        if len(s) > 120000:
            ev["coverage"]["largest_error_over_tolerance"] = {}
            ev["coverage"]["samples"] = ev["coverage"]["samples"][:4]
            s = json.dumps(ev, default=str)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            f.write(s)
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[(prop, k)]}")
    print(f"{prop} tier={a.tier} seed={a.seed}: {evals} judgements, {len(distinct)} distinct non-trivial cases, "
          f"{sum(events.values())} calls of {len(events)} entry points, {time.time()-t0:.1f} s")
    for p in problems:
        print("PROBLEM", p)
    if viol:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for old in glob.glob(os.path.join(d, f"{prop}-*.json")):
            if not a.replay:
                os.remove(old)
        for i, v in enumerate(viol[:12]):
            path = a.replay if a.replay else os.path.join(d, f"{prop}-{i}.json")
            if not a.replay:
                json.dump(dict(property=prop, tier=a.tier, seed=a.seed, **v), open(path, "w"), indent=1, default=str)
            print(f"  {v['section']} case {v.get('case_no')} [{v['kind']}] {str(v['what'])[:400]} :: {str(v.get('case'))[:200]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        print(f"INCONCLUSIVE property={prop}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
