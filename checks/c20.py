"""C20 evaluation metrics equal their definitions."""

import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from laplax.eval.metrics import (
    DEFAULT_REGRESSION_METRICS, DEFAULT_REGRESSION_METRICS_DICT, accuracy, chi_squared, chi_squared_zero, correctness, cross_entropy,
    crps_gaussian, estimate_rmse, multiclass_brier, nll_gaussian,
)
from mc.core import Enum, Search, Skip
from mc.lib import A, close, equal, fail, norm_cdf, norm_pdf, raises

LEVEL = "exploration"
RULE = "every batch of predictions and targets over the value alphabet (ties, zeros, ones, extremes included), every target coding and every option of each metric; reference = pure-Python definition"
BOUNDS = {
    "quick": "classification: 2-4 classes, batches of 1-3, scores over 3 levels, all k tuples; regression: 1-4 entries in shapes (), (n,), (2,2), means/targets over 3-4 values, stds over 3",
    "thorough": "one more class / batch element / level",
}


# ---------------------------------------------------------------- classification
def rows(C, levels):
    return list(itertools.product(levels, repeat=C))


def batches(C, n, levels, cap=None):
    rs = rows(C, levels)
    if n == 1:
        return [(r,) for r in rs]
    if n == 2:
        return [(a, b) for a in rs for b in rs[:: max(1, len(rs) // 27)]]
    pick = rs[:: max(1, len(rs) // 9)]
    return list(itertools.product(pick, repeat=n))


def run_scores(param):
    C, n, levels = param
    P = np.array(batches(C, n, levels), float)  # (B, n, C)
    T = np.array(list(itertools.product(range(C), repeat=n)))  # (Q, n)
    onehot = np.eye(C)[T]
    Pj, Tj, Oj = jnp.asarray(P), jnp.asarray(T), jnp.asarray(onehot)
    grid = lambda f, t: A(jax.jit(jax.vmap(jax.vmap(f, (None, 0)), (0, None)))(Pj, t))  # noqa: E731
    count = 0
    best = P.argmax(-1)
    want = best[:, None, :] == T[None]
    for t, nm in ((Tj, "index"), (Oj, "one-hot")):
        got = grid(lambda p, y: correctness(p, y), t)
        if got.dtype != np.bool_:
            fail(f"correctness has dtype {got.dtype}")
        equal(got, want, f"correctness ({nm} targets, {C} classes)")
        count += want.size
    # top-k accuracy
    order = np.argsort(-P, axis=-1, kind="stable")
    hit = order[:, None, :, :] == T[None, :, :, None]  # (B, Q, n, C)
    ks = [(1,)] + [tuple(s) for r in (1, 2, 3) for s in itertools.permutations(range(1, C + 2), r) if r < 3 or s == (1, 2, C + 1)]
    for k in ks:
        wantk = [100.0 * hit[..., : min(kk, C)].any(-1).mean(-1) for kk in k]
        for t in (Tj, Oj):
            got = jax.jit(jax.vmap(jax.vmap(lambda p, y: accuracy(p, y, top_k=k), (None, 0)), (0, None)))(Pj, t)  # noqa: B023
            if len(got) != len(k):
                fail(f"accuracy(top_k={k}) returned {len(got)} values")
            for g, w, kk in zip(got, wantk, k):
                close(A(g).astype(float), w, f"top-{kk} accuracy of {C} classes within top_k={k}", rtol=1e-5)
            count += w.size * len(k)
    got = accuracy(Pj[0], Tj[0])
    close(A(got[0]).astype(float), 100.0 * want[0, 0].mean(), "default accuracy", rtol=1e-5)
    return {"states": count, "transitions": count, "executions": count, "outcomes": [int(want.sum()), len(ks)], "sample": {"pred": P[-1].tolist(), "correct": want[-1].tolist()}}


def simplex(C, m):
    if C == 1:
        return [(m,)]
    return [(i, *r) for i in range(m + 1) for r in simplex(C - 1, m - i)]


def run_probs(param):
    C, n, m = param
    pts = np.array(simplex(C, m), float) / m
    if n == 1:
        B = pts[:, None]
    else:
        sub = pts[:: max(1, len(pts) // 12)]
        B = np.array(list(itertools.product(sub, repeat=n)))
    T = np.array(list(itertools.product(range(C), repeat=n)))
    onehot = np.eye(C)[T]
    Bj = jnp.asarray(B)
    grid = lambda f, t: A(jax.jit(jax.vmap(jax.vmap(f, (None, 0)), (0, None)))(Bj, t))  # noqa: E731
    want = ((B[:, None] - onehot[None]) ** 2).mean((-1, -2))
    for t, nm in ((jnp.asarray(T), "index"), (jnp.asarray(onehot), "one-hot")):
        close(grid(lambda p, y: multiclass_brier(p, y), t), want, f"Brier score ({nm} targets, {C} classes, {n} samples)", rtol=1e-9)
    # cross entropy between all pairs of distributions, every axis
    if n == 1:
        def ce(p, q):
            return sum(0.0 if a == 0 else math.inf if b == 0 else -a * math.log(b) for a, b in zip(p, q))

        W = np.array([[ce(p, q) for q in pts] for p in pts])
        g = A(jax.jit(jax.vmap(jax.vmap(cross_entropy, (None, 0)), (0, None)))(jnp.asarray(pts), jnp.asarray(pts)))
        close(g, W, f"cross entropy of {C} classes", rtol=1e-9)
        inner = pts[(pts > 0).all(-1)]
        if len(inner) > 1:
            Q = inner[: len(inner) // 2 * 2]
            R = Q[::-1]
            for axis in (-1, 1, 0, -2):
                a, b = (Q, R) if axis in (-1, 1) else (Q.T, R.T)
                w = np.array([ce(p, q) for p, q in zip(Q, R)])
                close(cross_entropy(jnp.asarray(a), jnp.asarray(b), axis=axis), w, f"cross entropy along axis {axis}", rtol=1e-9)
    return {"states": want.size, "transitions": want.size, "executions": want.size, "outcomes": [round(float(want.sum()), 6)], "sample": {"prob": B[-1].tolist()}}


# ---------------------------------------------------------------- regression
SHAPES = {"scalar": (), "one": (1,), "two": (2,), "three": (3,), "square": (2, 2)}


def run_regression(param):
    shape, vals_, sds = param
    sh = SHAPES[shape]
    n = int(np.prod(sh))
    if n <= 2:
        cells = list(itertools.product(itertools.product(vals_, repeat=n), itertools.product(vals_, repeat=n), itertools.product(sds, repeat=n)))
    else:
        two = vals_[:2] if n > 3 else vals_[:3]
        cells = list(itertools.product(itertools.product(two, repeat=n), itertools.product(vals_[1:3], repeat=n), list(itertools.product(sds[:2], repeat=n)) + [tuple(sds[i % len(sds)] for i in range(n))]))
    F, Y, S = (np.array([c[i] for c in cells], float).reshape((-1,) + sh) for i in range(3))
    ax = tuple(range(1, F.ndim))
    args = dict(pred_mean=jnp.asarray(F), pred_std=jnp.asarray(S), target=jnp.asarray(Y))
    z2 = (F - Y) ** 2 / S**2
    nll = np.log(S) + 0.5 * np.log(2 * np.pi) + 0.5 * z2
    z = (Y - F) / S
    crps = S * (z * (2 * norm_cdf(z) - 1) + 2 * norm_pdf(z) - 1 / np.sqrt(np.pi))

    def go(fn, **kw):
        return A(jax.jit(jax.vmap(lambda a: fn(**a, **kw)))(args))

    def red(a, mean):
        return a.mean(ax) if mean else a.sum(ax)

    tol = dict(rtol=1e-7, atol=1e-9)
    for flag in (None, True, False):
        mean = flag is not False
        kw = {} if flag is None else {"averaged": flag}
        close(go(chi_squared, **kw), red(z2, mean), f"chi_squared({kw}) for shape {sh}", **tol)
        close(go(chi_squared_zero, **kw), np.abs(red(z2, mean) - 1), f"chi_squared_zero({kw}) for shape {sh}", **tol)
        kw = {} if flag is None else {"scaled": flag}
        close(go(nll_gaussian, **kw), red(nll, mean), f"nll_gaussian({kw}) for shape {sh}", **tol)
        close(go(crps_gaussian, **kw), red(crps, mean), f"crps_gaussian({kw}) for shape {sh}", **tol)
    close(go(estimate_rmse), np.sqrt(((F - Y) ** 2).mean(ax) if n else 0), f"rmse for shape {sh}", **tol)
    # default tables deliver the same functions under the same names
    want = {"rmse": np.sqrt(((F - Y) ** 2).mean(ax)), "chi^2": red(z2, True), "nll": red(nll, True), "crps": red(crps, True)}
    if set(DEFAULT_REGRESSION_METRICS_DICT) != set(want):
        fail(f"default metric names {set(DEFAULT_REGRESSION_METRICS_DICT)}")
    for k, fn in DEFAULT_REGRESSION_METRICS_DICT.items():
        close(go(fn), want[k], f"default metric {k}", **tol)

    def table(a):
        res, aux = {}, {**a, "extra": jnp.zeros(3)}
        for f in DEFAULT_REGRESSION_METRICS:
            res, aux = f(results=res, aux=aux)
        return res

    got = jax.jit(jax.vmap(table))(args)
    if set(got) != set(want):
        fail(f"default metric table computes {set(got)}")
    for k in want:
        close(got[k], want[k], f"default metric table entry {k}", **tol)
    return {"states": len(cells), "transitions": len(cells), "executions": len(cells), "outcomes": [round(float(crps.sum()), 5)],
            "sample": {"mean": F[-1].tolist(), "std": S[-1].tolist(), "target": Y[-1].tolist(), "crps": float(crps[-1].sum())}}


# ---------------------------------------------------------------- large batches, many classes, extreme values
def plan_large(c):
    what = c.choose("what", ["scores", "probs", "regression"])
    N = c.choose("N", [7, 129, 300, 2000] if what != "scores" else [7, 129, 300, 70000])
    C = c.choose("C", [3, 20, 150]) if what != "regression" else c.choose("shape", ["flat", "columns", "cube"])
    if N == 70000 and C != 3:
        raise Skip
    var = c.choose("variant", {"scores": ["int32", "int64", "uint8", "onehot", "onehot_f32"], "probs": ["int32", "onehot"], "regression": ["unit", "tiny", "huge", "mixed", "f32"]}[what])
    return what, N, C, var


def irr(n, seed):
    return np.mod(np.arange(1, n + 1) * 0.6180339887498949 + 0.31 * seed, 1.0)


def check_large(cfg):
    what, N, C, var = cfg
    if what == "regression":
        sh = {"flat": (N,), "columns": (N, 3), "cube": (N, 2, 2)}[C]
        n = int(np.prod(sh))
        ft = np.float32 if var == "f32" else np.float64
        F, Y = ((irr(n, i) * 6 - 3).reshape(sh).astype(ft) for i in (1, 2))
        S = {"tiny": 1e-5, "huge": 1e7, "mixed": 10.0 ** (irr(n, 3) * 10 - 5)}.get(var, 0.2 + irr(n, 3)) * np.ones(n)
        S = S.reshape(sh).astype(ft)
        F64, Y64, S64 = (a.astype(float) for a in (F, Y, S))
        z = (Y64 - F64) / S64
        nll = np.log(S64) + 0.5 * np.log(2 * np.pi) + 0.5 * z**2
        crps = S64 * (z * (2 * norm_cdf(z) - 1) + 2 * norm_pdf(z) - 1 / np.sqrt(np.pi))
        args = dict(pred_mean=jnp.asarray(F), pred_std=jnp.asarray(S), target=jnp.asarray(Y))
        rt = 2e-4 if var == "f32" else 1e-8
        obs = []
        for nm, fn, kw, w in [("chi^2", chi_squared, {}, (z**2).mean()), ("chi^2 sum", chi_squared, {"averaged": False}, (z**2).sum()), ("chi^2-1", chi_squared_zero, {}, abs((z**2).mean() - 1)),
                              ("rmse", estimate_rmse, {}, np.sqrt(((F64 - Y64) ** 2).mean())), ("nll", nll_gaussian, {}, nll.mean()), ("nll sum", nll_gaussian, {"scaled": False}, nll.sum()),
                              ("crps", crps_gaussian, {}, crps.mean()), ("crps sum", crps_gaussian, {"scaled": False}, crps.sum())]:
            obs.append(float(close(fn(**args, **kw), w, f"{nm} of {sh} predictions ({var})", rtol=rt, atol=rt * (1e-3 if "sum" not in nm else n))))
        return obs
    T = (irr(N, 4) * C).astype(int)
    if what == "probs":
        P = irr(N * C, 2).reshape(N, C) + 0.01
        P = P / P.sum(-1, keepdims=True)
        t = jnp.asarray(T, jnp.int32) if var == "int32" else jnp.asarray(np.eye(C)[T])
        a = close(multiclass_brier(jnp.asarray(P), t), ((P - np.eye(C)[T]) ** 2).mean(), f"Brier score of {N} predictions of {C} classes", rtol=1e-9)
        b = close(cross_entropy(jnp.asarray(P), jnp.asarray(P[::-1])), -(P * np.log(P[::-1])).sum(-1), "cross entropy", rtol=1e-9)
        return [float(a), float(b.sum())]
    P = np.floor(irr(N * C, 7) * 40).reshape(N, C)  # many ties
    P[np.arange(0, N, 3), T[::3]] += 50.0
    tj = {"onehot": lambda: jnp.asarray(np.eye(C, dtype=int)[T]), "onehot_f32": lambda: jnp.asarray(np.eye(C, dtype=np.float32)[T])}.get(var, lambda: jnp.asarray(T.astype(var if not var.startswith("one") else int)))()
    ok = P.argmax(-1) == T
    equal(correctness(jnp.asarray(P), tj), ok, f"correctness of {N} predictions of {C} classes ({var})")
    order = np.argsort(-P, axis=-1, kind="stable")
    hit = order == T[:, None]
    ks = (1, 2, 5, 12, C, C + 3)
    for k in (ks, ks[::-1], (5,)):
        got = accuracy(jnp.asarray(P), tj, top_k=k)
        for g, kk in zip(got, k):
            close(A(g).astype(float), 100.0 * hit[:, :kk].any(-1).mean(), f"top-{kk} accuracy of {N} predictions of {C} classes within top_k={k} ({var})", rtol=1e-5)
    return int(ok.sum())


def plan_integral(c):
    return c.choose("mean", [-1.0, 0.0, 2.5]), c.choose("std", [0.2, 1.0, 3.0]), c.choose("target", [-2.0, 0.0, 2.4])


def check_integral(cfg):
    """CRPS against its integral definition, NLL against the density."""
    m, s, y = cfg
    from scipy.integrate import quad

    cdf = lambda t: 0.5 * (1 + math.erf((t - m) / s / math.sqrt(2)))  # noqa: E731
    a, b = min(m - 12 * s, y - 1), max(m + 12 * s, y + 1)
    v = quad(lambda t: cdf(t) ** 2, a, y, limit=200, points=[m] if a < m < y else None)[0] + quad(lambda t: (1 - cdf(t)) ** 2, y, b, limit=200, points=[m] if y < m < b else None)[0]
    args = dict(pred_mean=jnp.array([m]), pred_std=jnp.array([s]), target=jnp.array([y]))
    close(crps_gaussian(**args), v, "CRPS against its integral", rtol=1e-5, atol=1e-6)
    close(nll_gaussian(**args), -math.log(math.exp(-((m - y) ** 2) / (2 * s * s)) / math.sqrt(2 * math.pi * s * s)), "NLL against the density")
    return v


def plan_shape(c):
    fn = c.choose("metric", [nll_gaussian, crps_gaussian])
    a = c.choose("mean", [(), (1,), (2,), (2, 1), (1, 2)])
    b = c.choose("std", [(), (1,), (2,), (2, 1), (1, 2)])
    t = c.choose("target", [(), (1,), (2,), (2, 1), (1, 2)])
    return fn, a, b, t


def check_shape(cfg):
    fn, a, b, t = cfg
    go = lambda: fn(pred_mean=jnp.zeros(a), pred_std=jnp.ones(b), target=jnp.zeros(t))  # noqa: E731
    if a == b == t:
        v = float(go())
        if not math.isfinite(v):
            fail("metric of equal shapes")
        return round(v, 6)
    return raises(ValueError, go, f"{fn.__name__} with shapes {a} {b} {t}")


def scenarios(tier):
    q = tier == "quick"
    lv = [0.0, 0.5, 1.0]
    scores = [(C, n, lv if C < 4 else lv[:2]) for C in ((2, 3, 4) if q else (2, 3, 4, 5)) for n in ((1, 2, 3) if C < 4 or not q else (1, 2))] + [(3, 1, [-3.0, -1.0, 0.0, 7.0]), (1, 2, lv)]
    probs = [(C, n, m) for C, n, m in [(2, 1, 8), (2, 2, 8), (2, 3, 4), (3, 1, 5), (3, 2, 4), (4, 1, 4), (4, 2, 3)]]
    reg = [(s, [-1.0, 0.0, 2.0, 40.0], [0.1, 1.0, 5.0]) for s in SHAPES]
    return [Search("scores", run_scores, scores), Search("probabilities", run_probs, probs), Search("regression", run_regression, reg),
            Enum("large", plan_large, check_large), Enum("definitions", plan_integral, check_integral), Enum("shapes", plan_shape, check_shape)]
