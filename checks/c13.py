"""C13 grid search over prior precisions: every objective sequence against a reference state machine."""

import itertools
import math

import jax.numpy as jnp
import numpy as np

from laplax.eval.calibrate import grid_search, optimize_prior_prec
from mc.core import Enum, Search, bfs
from mc.lib import close, fail

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of the search loop: every objective history (values, ties, nan, +-inf, failures) x patience x iteration limit replayed on the real loop and a reference automaton"
RULE = "the state is (evaluated objective history, patience, limit); every history over the alphabet up to the depth is executed on the real grid_search and compared with the reference automaton (which candidates are evaluated, in which order, which one is returned)"
BOUNDS = {
    "quick": "histories of length 1..5 over {1, 2, 3, nan, +inf, -inf, ValueError}, patience in {None,1,2,3,4}, max_iterations in {None,1..6}; grids of 1..9 points",
    "thorough": "histories of length 1..6",
}
ALPHA = [1.0, 2.0, 3.0, "nan", "inf", "-inf", "error"]


def reference(hist, patience, limit):
    """-> (number of evaluations, set of acceptable indices)."""
    val = [math.inf if h in ("nan", "inf", "error") else -math.inf if h == "-inf" else h for h in hist]
    n = len(val) if limit is None else min(limit, len(val))
    rises = 0
    for i in range(1, n):
        rises = rises + 1 if val[i] > val[i - 1] else 0
        if patience is not None and rises >= patience:
            n = i + 1
            break
    best = min(val[:n])
    return n, [i for i in range(n) if val[i] == best]


def run_one(hist, patience, limit, grid, conv):
    seen = []

    def objective(args):
        if set(args) != {"prior_prec"}:
            fail(f"objective received {args}")
        i = len(seen)
        seen.append(float(args["prior_prec"]))
        h = hist[i]
        if h == "error":
            raise ValueError("bad candidate")
        return conv(float(h))

    kw = {}
    if patience is not None:
        kw["patience"] = patience
    if limit is not None:
        kw["max_iterations"] = limit
    got = grid_search(grid, objective, **kw)
    n, ok = reference(hist, patience, limit)
    what = f"objective history {list(hist)} patience={patience} max_iterations={limit}"
    want = [float(g) for g in grid[:n]]
    if seen != want:
        fail(f"{what}: evaluated candidates {seen}, expected {want}", "evaluated")
    if float(got) not in [float(grid[i]) for i in ok]:
        fail(f"{what}: returned {float(got)}, the best evaluated candidates are {[float(grid[i]) for i in ok]}", "best")
    return n, ok[0]


def histories(param):
    first, length, conv, limits = param
    cv = {"float": float, "np": np.float64, "jnp": jnp.asarray}[conv]
    grid = np.array([0.5 * 3.0**i for i in range(length)])
    if conv == "jnp":
        grid = jnp.asarray(grid)
    out = set()
    n = 0
    for rest in itertools.product(ALPHA, repeat=length - len(first)):
        hist = tuple(first) + rest
        for patience in [None, 1, 2, 3, 4][: length + 1]:
            for limit in limits if limits else [None, *range(1, length + 2)]:
                out.add(run_one(hist, patience, limit, grid, cv))
                n += 1
    return {"states": n, "transitions": n, "executions": n, "outcomes": sorted(out), "sample": {"hist": list(hist), "evaluated,best": list(max(out))}}


FINE = [1.0, 1.0 + 1e-12, 1.0 + 1e-4, 1e30, -1e30, 0.0, "error"]


def fine(param):
    """objective values that differ by little or by a lot."""
    first, length = param
    grid = np.array([0.5 * 3.0**i for i in range(length)])
    out, n = set(), 0
    for rest in itertools.product(FINE, repeat=length - 1):
        hist = (first, *rest)
        for patience in [None, 1, 2, 3]:
            for limit in (None, length - 1) if length > 1 else (None,):
                out.add(run_one(hist, patience, limit, grid, float))
                n += 1
    return {"states": n, "transitions": n, "executions": n, "outcomes": sorted(out), "sample": {"hist": list(hist)}}


def long(param):
    """long searches: every shape x dip position x patience x limit."""
    N, shape = param
    grid = np.logspace(-3, 3, N)
    out, n = set(), 0
    for at in range(0, N, max(1, N // 23)):
        d = np.arange(N) - at
        hist = {
            "valley": np.abs(d) * 1.0,
            "plateau": np.where(np.abs(d) < 6, 1.0, 2.0 + np.abs(d)),
            "late": np.where(d == 0, -5.0, 10.0 + np.arange(N)),  # rising throughout, with one dip
            "saw": np.where(np.arange(N) % 7 == 0, 0.0, np.arange(N) * 1.0) - 3.0 * (d == 0),
            "falling": -np.arange(N) * 1.0 + 3.5 * (d == 0),
        }[shape].tolist()
        for patience in (None, 1, 4, 5, 6, 10, 20, 60):
            for limit in (None, 1, 5, 10, 50, 100, N - 1, N, N + 5):
                if limit == 0:
                    continue
                out.add(run_one(hist, patience, limit, grid, float))
                n += 1
    return {"states": n, "transitions": n, "executions": n, "outcomes": sorted(out), "sample": {"N": N, "shape": shape}}


def plan_grid(c):
    lo, hi = c.choose("range", [(-3.0, 3.0), (-5.0, 6.0), (0.0, 0.0), (-1.0, 2.0), (2.0, -1.0)])
    n = c.choose("points", [1, 2, 3, 4, 7, 9, 120])
    best = c.choose("best", [0, n // 2, n - 1])
    opt = c.choose("options", ["none", "patience", "limit", "defaults"])
    return lo, hi, n, best, opt


def check_grid(cfg):
    lo, hi, n, best, opt = cfg
    seen = []

    def objective(a):
        seen.append(float(a["prior_prec"]))
        return abs(len(seen) - 1 - best) * 1.0

    kw = {"none": {}, "patience": {"patience": 1}, "limit": {"max_iterations": 2}, "defaults": {}}[opt]
    if opt == "defaults":
        got = optimize_prior_prec(objective)
        want = np.logspace(-5, 6, 300)
        close(seen, want, "default grid", rtol=1e-6)
        close(got, want[best], "returned candidate", rtol=1e-6)
        return float(got)
    got = optimize_prior_prec(objective, log_prior_prec_min=lo, log_prior_prec_max=hi, grid_size=n, **kw)
    want = 10.0 ** np.linspace(lo, hi, n)
    m = n
    if opt == "limit":
        m = min(2, n)
    elif opt == "patience":
        m = min(n, best + 2)
    close(seen, want[:m], f"candidates for log range [{lo}, {hi}] with {n} points, {opt}", rtol=1e-6)
    close(got, want[min(best, m - 1)], "returned candidate", rtol=1e-6)
    return float(got)


def scenarios(tier):
    q = tier == "quick"
    params = []
    for conv in ("float", "np", "jnp"):
        deep = (5 if q else 6) if conv == "float" else 3 if q else 4
        for length in range(1, deep + 1):
            k = max(0, length - 3)
            for first in itertools.product(ALPHA, repeat=min(k, 2)):
                params.append((first, length, conv, None))
    fines = [(a, n) for n in range(1, 5 if q else 6) for a in FINE]
    longs = [(n, s) for n in ([2, 12, 40, 130, 310] if q else [2, 5, 12, 25, 40, 75, 130, 310, 1000]) for s in ("valley", "plateau", "late", "saw", "falling")]
    return [Search("histories", histories, params), Search("fine", fine, fines), Search("long", long, longs), Enum("grid", plan_grid, check_grid)]
