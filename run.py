"""Run one property check:  run.py C01 [--tier quick|thorough] [--scenario NAME]
or replay a recorded violation:  run.py --replay replays/C01-0.json
"""

from __future__ import annotations

import argparse
import concurrent.futures as cf
import contextlib
import ctypes
import gc
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = os.environ.get("VERIF_REPO", "/repo")

os.environ.update(
    JAX_PLATFORMS="cpu",
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    TQDM_DISABLE="1",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    WANDB_MODE="offline",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    # XLA's constant folding miscompiles some closed-over data in jaxlib 0.6.1 (DESIGN.md)
    "--xla_disable_hlo_passes=constant_folding",
)
sys.dont_write_bytecode = True
sys.path.insert(0, str(VERIF))
sys.path.insert(0, REPO)


def load(prop):
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    from loguru import logger

    logger.remove()
    cache = os.environ.get("VERIF_JAX_CACHE")
    if cache:
        jax.config.update("jax_compilation_cache_dir", cache)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    import laplax

    got = Path(laplax.__file__).resolve()
    if not str(got).startswith(str(Path(REPO).resolve()) + os.sep):
        raise SystemExit(f"laplax imported from {got}, not from {REPO}")
    return importlib.import_module(f"checks.{prop.lower()}")


# ----------------------------------------------------------------- worker side
_MOD = None
_SCEN = None
_COUNT = 0


def _init(prop, tier):
    global _MOD, _SCEN
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    _MOD = load(prop)
    _SCEN = {s.name: s for s in _MOD.scenarios(tier)}


def _set_x64(scen):
    import jax

    if scen.x64 is not None:
        jax.config.update("jax_enable_x64", bool(scen.x64))


RSS_LIMIT_MB = 1300


def _rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6


def _housekeep():
    global _COUNT
    import jax

    _COUNT += 1
    if _COUNT % 10 == 0 and _rss_mb() > RSS_LIMIT_MB:
        jax.clear_caches()
        gc.collect()
        with contextlib.suppress(Exception):  # give the freed arenas back to the system
            ctypes.CDLL("libc.so.6").malloc_trim(0)


def _exec_one(scen, fn):
    """Run fn(); return (obs, violation dict or None)."""
    from mc.core import Divergence, Violation

    import jax

    _set_x64(scen)
    ctx = jax.disable_jit() if getattr(scen, "disable_jit", False) else contextlib.nullcontext()
    try:
        with ctx:
            return fn(), None
    except Violation as v:
        return None, {"msg": str(v)[:2000], "sig": v.sig}
    except Divergence:
        raise
    except Exception as e:  # an exception escaping a legal use is a violation
        tb = traceback.format_exc(limit=-4)
        return None, {
            "msg": f"unexpected {type(e).__name__}: {str(e)[:500]}\n{tb[-1500:]}",
            "sig": f"exc:{type(e).__name__}",
        }


def _work(task):
    from mc.core import Chooser, digest, jsonable, next_prefix

    kind, name, payload = task
    scen = _SCEN[name]
    out = {
        "name": name,
        "executions": 0,
        "points": 0,
        "digests": set(),
        "violations": [],
        "samples": [],
        "extra": {},
        "capped": False,
    }
    if kind == "enum":
        for trace in payload:
            c = Chooser(trace)
            cfg = scen.plan(c)
            obs, viol = _exec_one(scen, lambda: scen.check(cfg))
            _housekeep()
            out["executions"] += 1
            if viol:
                viol.update(scenario=name, trace=trace, labels=jsonable(c.labels), kind=kind)
                out["violations"].append(viol)
                if len(out["violations"]) >= 25:
                    break
            else:
                out["digests"].add(digest(obs))
                if len(out["samples"]) < 1:
                    out["samples"].append(
                        {"scenario": name, "choices": jsonable(c.labels), "observed": str(jsonable(obs))[:400]}
                    )
    elif kind == "dyn":
        pi = payload
        prefix = []
        states = set()
        trans = 0
        while prefix is not None:
            c = Chooser(prefix)
            obs, viol = _exec_one(scen, lambda: scen.body(c, scen.params[pi]))
            _housekeep()
            out["executions"] += 1
            tr = tuple(c.trace)
            for k in range(len(prefix) if prefix else 0, len(tr) + 1):
                states.add(tr[:k])
            trans += max(0, len(tr) - (len(prefix) - 1 if prefix else 0))
            if viol:
                viol.update(
                    scenario=name, trace=c.trace, labels=jsonable(c.labels), kind=kind, param=pi,
                    param_repr=repr(scen.params[pi])[:300],
                )
                out["violations"].append(viol)
                if len(out["violations"]) >= 5:
                    break
            else:
                out["digests"].add(digest(obs))
                if len(out["samples"]) < 1:
                    out["samples"].append(
                        {"scenario": name, "param": repr(scen.params[pi])[:200],
                         "choices": jsonable(c.labels), "observed": str(jsonable(obs))[:400]}
                    )
            if out["executions"] >= scen.max_exec:
                out["capped"] = True
                break
            prefix = next_prefix(c.points)
        out["extra"] = {"states": len(states), "transitions": trans}
    elif kind == "search":
        pi = payload
        res = {}

        def go():
            res.update(scen.run(scen.params[pi]))
            return res.get("outcomes")

        obs, viol = _exec_one(scen, go)
        _housekeep()
        if viol:
            viol.update(scenario=name, trace=[], labels=[], kind=kind, param=pi,
                        param_repr=repr(scen.params[pi])[:300])
            out["violations"].append(viol)
        out["executions"] += int(res.get("executions", 1))
        out["digests"] |= {digest(o) for o in (res.get("outcomes") or [])}
        out["extra"] = {"states": res.get("states", 0), "transitions": res.get("transitions", 0)}
        if res.get("sample") is not None:
            out["samples"].append({"scenario": name, "param": repr(scen.params[pi])[:200],
                                   "sample": jsonable(res["sample"])})
    return out


# ----------------------------------------------------------------- parent side
def known_findings(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"]
            if e["property"] == prop and e.get("status") == "open"]


def matches(entry, viol):
    m = entry["match"]
    if m.get("scenario") is not None and m["scenario"] != viol["scenario"]:
        return False
    if m.get("sig") is not None and m["sig"] != viol.get("sig"):
        return False
    lab = {k: v for k, v in viol["labels"]}
    for k, want in (m.get("labels") or {}).items():
        if lab.get(k) not in (want if isinstance(want, list) else [want]):
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "8")))
    ap.add_argument("--plan", action="store_true", help="only count the space")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        return replay(a)
    t0 = time.time()
    prop = a.prop
    scratch = tempfile.mkdtemp(prefix="verif_jc_")
    os.environ["VERIF_JAX_CACHE"] = scratch
    try:
        return check(prop, a, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "12"))


def results_of(tasks, ctx, nproc, initargs, deadline):
    """Results of all tasks as they come in; None once the deadline has passed.

    When a worker is ended from outside (out of memory), what was not finished
    is run again with fewer workers.
    """
    todo = dict(enumerate(tasks))
    retries = 4
    while todo:
        ex = cf.ProcessPoolExecutor(nproc, mp_context=ctx, initializer=_init, initargs=initargs)
        try:
            futures = {ex.submit(_work, t): i for i, t in todo.items()}
            while futures:
                ready, _ = cf.wait(futures, max(1.0, deadline - time.time()), cf.FIRST_COMPLETED)
                if not ready:
                    yield None
                    return
                for f in ready:
                    i = futures.pop(f)
                    r = f.result()
                    del todo[i]
                    yield r
        except BrokenProcessPool:
            retries -= 1
            if not retries:
                raise
            print(f"a worker ended unexpectedly; {len(todo)} tasks run again", flush=True)
            nproc = max(1, nproc // 2)
        finally:
            if todo:
                for p in list((ex._processes or {}).values()):
                    p.kill()
            ex.shutdown(wait=True, cancel_futures=True)


def check(prop, a, t0):
    from mc.core import Chooser, enumerate_plan

    mod = load(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scens = [s for s in mod.scenarios(a.tier) if not a.scenario or s.name == a.scenario]
    tasks = []
    plan_states = plan_trans = 0
    per = {}
    for s in scens:
        if s.kind == "enum":
            traces = []
            seen = -1  # nodes of the current path already counted (root included); only paths that are executed count
            for c, cfg, skip, plen in enumerate_plan(s.plan):
                seen = min(seen, plen) if plen else seen
                if not skip:
                    new = len(c.trace) + 1 - max(seen, 0)
                    plan_states += new
                    plan_trans += new - (seen < 0)
                    seen = len(c.trace) + 1
                    traces.append(c.trace)
            per[s.name] = {"planned": len(traces)}
            size = max(1, min(getattr(mod, "CHUNK", 40), -(-len(traces) // (a.procs * 4))))
            for i in range(0, len(traces), size):
                tasks.append(("enum", s.name, traces[i : i + size]))
        else:
            per[s.name] = {"planned": len(s.params)}
            for i in range(len(s.params)):
                tasks.append((s.kind, s.name, i))
    if a.plan:
        print(json.dumps(per, indent=1))
        return 0
    # spread: interleave scenarios so slow ones start early
    ctx = mp.get_context("spawn")
    digests, samples, viols = {}, [], []
    execs = states = trans = 0
    capped = False
    stopped = False
    limit = float(os.environ.get("VERIF_WALL", "780" if a.tier == "quick" else "14400"))
    nproc = max(1, min(a.procs, len(tasks)))
    done = 0
    for r in results_of(tasks, ctx, nproc, (prop, a.tier), t0 + limit):
        if r is None:
            stopped = True
            break
        done += 1
        execs += r["executions"]
        digests.setdefault(r["name"], set()).update(r["digests"])
        per[r["name"]]["executed"] = per[r["name"]].get("executed", 0) + r["executions"]
        states += r["extra"].get("states", 0)
        trans += r["extra"].get("transitions", 0)
        capped |= r["capped"]
        if sum(1 for x in samples if x["scenario"] == r["name"]) < 2:
            samples += r["samples"]
        viols += r["violations"]
        unlisted = [v for v in viols if not any(matches(k, v) for k in known_findings(prop))]
        if len(unlisted) >= MAX_VIOLATIONS and not os.environ.get("VERIF_ALL"):
            stopped = True
            break
    known = known_findings(prop)
    hit = {}
    unlisted = []
    for v in viols:
        for i, k in enumerate(known):
            if matches(k, v):
                hit.setdefault(i, []).append(v)
                break
        else:
            unlisted.append(v)
    for i, vs in hit.items():
        print(f"KNOWN-FINDING: property={prop} {known[i]['what']} ({len(vs)} executions)")
    for i, k in enumerate(known):
        if i not in hit:
            print(f"note: listed finding not observed in this run: {k['what']}")
    nd = sum(len(d) for d in digests.values())
    per_out = {n: {**d, "distinct_outcomes": len(digests.get(n, ()))} for n, d in per.items()}
    cov = {
        "evaluations": execs,
        "distinct_nontrivial": nd,
        "rule": getattr(mod, "RULE", "every choice sequence of the scenario; distinct = distinct observed outcomes of the implementation (rounded digest)"),
        "states": states + plan_states,
        "transitions": trans + plan_trans,
        "traces_validated_against_impl": execs - len(viols),
        "scenarios": per_out,
        "exhaustive": not (stopped or capped) and done == len(tasks),
        "samples": samples[:8],
        "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, "") if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", ""),
    }
    if hit:
        cov["known_findings_observed"] = [
            {"what": known[i]["what"], "executions": len(vs)} for i, vs in hit.items()
        ]
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unlisted),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(
        f"{prop} tier={a.tier} executions={execs} states={cov['states']} transitions={cov['transitions']} "
        f"outcomes={nd} exhaustive={cov['exhaustive']} violations={len(unlisted)} wall={ev['wall_s']}s"
    )
    if os.environ.get("VERIF_DEBUG") or os.environ.get("VERIF_ALL"):
        print(json.dumps(per_out, indent=1))
    if unlisted:
        unlisted.sort(key=lambda v: (len(v["trace"]), v["trace"]))
        groups = {}
        for v in unlisted:
            groups.setdefault((v["scenario"], v.get("sig")), []).append(v)
        (VERIF / "replays").mkdir(exist_ok=True)
        for n, ((sc, sig), vs) in enumerate(list(groups.items())[:8]):
            v = vs[0]
            path = VERIF / "replays" / f"{prop}-{n}.json"
            path.write_text(json.dumps({"property": prop, "tier": a.tier, **v}, indent=1, default=str))
            print(f"--- {sc} sig={sig} x{len(vs)}")
            print("    choices:", json.dumps(v["labels"], default=str)[:600], v.get("param_repr", ""))
            print("    " + v["msg"][:1200].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if stopped:
        print("time limit reached before the space was covered")
    return 0


def replay(a):
    global _MOD, _SCEN
    from mc.core import Chooser

    rec = json.loads(Path(a.replay).read_text())
    _MOD = load(rec["property"])
    _SCEN = {s.name: s for s in _MOD.scenarios(rec["tier"])}
    s = _SCEN[rec["scenario"]]
    c = Chooser(rec["trace"])
    if rec["kind"] == "enum":
        cfg = s.plan(c)
        obs, v = _exec_one(s, lambda: s.check(cfg))
    elif rec["kind"] == "dyn":
        obs, v = _exec_one(s, lambda: s.body(c, s.params[rec["param"]]))
    else:
        obs, v = _exec_one(s, lambda: s.run(s.params[rec["param"]]))
    print("choices:", c.labels)
    if v:
        print(v["msg"])
        print(f"VIOLATION property={rec['property']} replay={a.replay}")
        return 1
    print("holds on this execution; observed:", obs)
    return 0


if __name__ == "__main__":
    sys.exit(main())
