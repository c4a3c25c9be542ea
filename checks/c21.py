"""C21 calibration bins: every prediction in exactly one bin; ECE / MCE from the bins."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.enums import CalibrationErrorNorm
from laplax.eval.metrics import calculate_bin_metrics, calibration_error, expected_calibration_error, maximum_calibration_error
from mc.core import Enum, Search, Skip
from mc.lib import A, close, equal, fail

LEVEL = "exploration"
RULE = "every sequence of (confidence, outcome) pairs up to the length over an alphabet with all bin edges, bin centres, 0, 1 and values just outside [0, 1], x bin count x outcome type x precision; reference = pure numpy binning"
BOUNDS = {
    "quick": "1..5, 8 and 15 bins; sequences of length 1..3 over all edges/centres (up to 4 over a reduced alphabet); outcomes as bool, int32, float; confidences float32 and float64",
    "thorough": "sequences of length 1..4 over the full alphabet, up to 5 over the reduced one; 1..6, 8, 10, 15, 16 bins",
}
EPS = 3e-6


def alphabet(B, small):
    """(value, admissible bins); an inner edge that is not exact in binary may round to either side."""
    dyadic = B & (B - 1) == 0
    out = [(0.0, (0,)), (1.0, (B - 1,))]
    for k in range(B):
        out.append(((k + 0.4) / B, (k,)))
        if k:
            out.append((k / B, (k,) if dyadic else (k - 1, k)))
    if small:
        keep = [0, 1] + sorted({2, 3 % len(out), len(out) - 1, len(out) - 2} - {0, 1})
        out = [out[i] for i in keep if i < len(out)]
    out.append((1.0 + EPS, (B - 1,)))
    if not small:
        out.append((-EPS, (0,)))
        if B > 1:
            out += [(1 / B - EPS, (0,)), (1 / B + EPS, (1,))]
    return out


def oracle(V, O, I, B):
    """V, O, I: (S, n) values, outcomes, bins -> proportions, mean confidence, mean outcome: (S, B)."""
    S, n = V.shape
    hot = (I[..., None] == np.arange(B)).astype(float)  # (S, n, B)
    cnt = hot.sum(1)
    den = np.where(cnt > 0, cnt, 1)
    return cnt / n, (hot * V[..., None]).sum(1) / den, (hot * O[..., None]).sum(1) / den


TYPES = {"bool": bool, "int": np.int32, "float": float, "f32": np.float32}


def run(param):
    B, n, small, otype, f32 = param
    al = alphabet(B, small)
    idx = np.array(list(itertools.product(range(len(al)), repeat=n)))
    outs = np.array(list(itertools.product((0, 1), repeat=n)))
    vals = np.array([a for a, _ in al])
    ft = np.float32 if f32 else np.float64
    V = np.repeat(vals[idx], len(outs), 0)
    O = np.tile(outs, (len(idx), 1))
    idx = np.repeat(idx, len(outs), 0)
    cj, oj = jnp.asarray(V.astype(ft)), jnp.asarray(O.astype(TYPES[otype]))
    f = lambda c, o: (  # noqa: E731
        calculate_bin_metrics(c, o, B), expected_calibration_error(c, o, num_bins=B), maximum_calibration_error(c, o, num_bins=B),
        calibration_error(c, o, B, CalibrationErrorNorm.L1), calibration_error(confidence=c, correctness=o, num_bins=B, norm=CalibrationErrorNorm.INF))
    (gp, gc, ga), e, m, e2, m2 = jax.tree.map(A, jax.jit(jax.vmap(f))(cj, oj))
    for a in (gp, gc, ga):
        if a.shape != (len(V), B):
            fail(f"bin metrics of shape {a.shape[1:]}, expected {(B,)}")
    tol = 2e-5 if f32 else 1e-9
    ambiguous = [i for i, (_, b) in enumerate(al) if len(b) > 1]
    ok = np.zeros(len(V), bool)
    pend = np.arange(len(V))
    first = None
    for pick in itertools.product((1, 0), repeat=len(ambiguous)):  # the convention at inexact edges
        bins = np.array([b[-1] for _, b in al])
        for i, s in zip(ambiguous, pick):
            bins[i] = al[i][1][s]
        used = pend if not ok.any() else np.flatnonzero(~ok)
        if not len(used):
            break
        wp, wc, wa = oracle(V[used], O[used], bins[idx[used]], B)
        gap = np.abs(wa - wc)
        we, wm = (wp * gap).sum(-1), gap.max(-1)
        good = np.ones(len(used), bool)
        for g, w in ((gp, wp), (gc, wc), (ga, wa)):
            d = np.abs(g[used].astype(float) - w)
            good &= np.all(d <= tol, -1)
        for g, w in ((e, we), (m, wm), (e2, we), (m2, wm)):
            d = np.abs(g[used].astype(float) - w)
            good &= d <= tol
        if first is None:
            first = (used, wp, wc, wa, we, wm)
        ok[used[good]] = True
    if not ok.all():
        k = int(np.flatnonzero(~ok)[0])
        j = int(np.flatnonzero(first[0] == k)[0])
        fail(f"{B} bins, confidences {V[k].tolist()}, outcomes {O[k].tolist()} ({otype}): proportions {gp[k].tolist()} (expected {first[1][j].tolist()}), "
             f"confidences {gc[k].tolist()} ({first[2][j].tolist()}), accuracies {ga[k].tolist()} ({first[3][j].tolist()}), ECE {e[k]} ({first[4][j]}), MCE {m[k]} ({first[5][j]}); {int((~ok).sum())} cases")
    return {"states": len(V), "transitions": len(V) * n, "executions": len(V),
            "outcomes": np.unique(np.round(np.stack([e, m], 1).astype(float), 4), axis=0).tolist()[:2000],
            "sample": {"confidence": V[-1].tolist(), "outcome": O[-1].tolist(), "ece": float(e[-1]), "mce": float(m[-1])}}


# --------------------------------------------------- longer histories, eager use, permutations
def plan(c):
    B = c.choose("bins", [1, 3, 15, "default"])
    n = c.choose("length", [5, 7])
    pat = c.choose("pattern", ["same", "spread", "edges"])
    mask = c.choose("outcomes", range(0, 2**n, 5))
    ot = c.choose("type", ["bool", "int", "f32"])
    return B, n, pat, mask, ot


def check(cfg):
    B, n, pat, mask, ot = cfg
    nb = 15 if B == "default" else B
    v = {"same": np.full(n, 0.45), "spread": (np.arange(n) * 0.37 + 0.05) % 1.0, "edges": np.array([0.0, 1.0] * n)[:n]}[pat]
    o = np.array([(mask >> i) & 1 for i in range(n)])
    bins = np.minimum((v * nb).astype(int), nb - 1)
    wp, wc, wa = (a[0] for a in oracle(v[None], o[None], bins[None], nb))
    cj, oj = jnp.asarray(v), jnp.asarray(o.astype(TYPES[ot]))
    kw = {} if B == "default" else {"num_bins": B}
    snap = A(cj).copy(), A(oj).copy()
    for perm in (np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), 2)):
        gp, gc, ga = calculate_bin_metrics(cj[perm], oj[perm], ignored=1, **kw)
        close(gp, wp, "bin proportions")
        close(gc, wc, "bin confidences")
        close(ga, wa, f"bin accuracies ({ot} outcomes {o.tolist()})", rtol=1e-6)
        e = expected_calibration_error(cj[perm], oj[perm], num_bins=nb)
        m = maximum_calibration_error(cj[perm], oj[perm], num_bins=nb)
        close(e, (wp * abs(wa - wc)).sum(), "ECE", rtol=1e-6)
        close(m, abs(wa - wc).max(), "MCE", rtol=1e-6)
    equal(cj, snap[0], "confidences unchanged")
    equal(oj, snap[1], "outcomes unchanged")
    return [float(e), float(m)]


def plan_large(c):
    B = c.choose("bins", [1, 10, 15, 16, 100, "default"])
    n = c.choose("length", [40, 127, 128, 129, 300, 70000])
    pat = c.choose("pattern", ["one_bin", "spread", "skewed"])
    ot = c.choose("type", ["bool", "int", "float", "f32"])
    f32 = c.choose("f32", [False, True])
    rate = c.choose("rate", [0.0, 0.4, 1.0])
    if n == 70000 and (ot in ("int", "float") or rate == 0.0) or f32 and ot != "bool":
        raise Skip
    return B, n, pat, ot, f32, rate


def check_large(cfg):
    """many predictions, also all in one bin; values well inside their bins, so that the bin is unambiguous."""
    B, n, pat, ot, f32, rate = cfg
    nb = 15 if B == "default" else B
    k = np.arange(n)
    irr = np.mod((k + 1) * 0.6180339887498949, 1.0)
    bins = {"one_bin": np.full(n, nb // 2), "spread": k % nb, "skewed": (irr**4 * nb).astype(int)}[pat]
    v = (bins + 0.1 + 0.8 * np.mod(irr * 7.3, 1.0)) / nb
    o = (np.mod(irr * 3.1, 1.0) < rate).astype(int)
    wp, wc, wa = (a[0] for a in oracle(v[None], o[None], bins[None], nb))
    cj, oj = jnp.asarray(v.astype(np.float32 if f32 else np.float64)), jnp.asarray(o.astype(TYPES[ot]))
    kw = {} if B == "default" else {"num_bins": B}
    tol = dict(rtol=1e-2 if n > 1000 else 1e-4, atol=1e-5) if f32 else dict(rtol=1e-9, atol=1e-11)
    what = f"{B} bins, {n} predictions ({pat}), {ot} outcomes at rate {rate}, {'single' if f32 else 'double'} precision"
    gp, gc, ga = calculate_bin_metrics(cj, oj, **kw)
    close(gp, wp, f"bin proportions: {what}", **tol)
    close(gc, wc, f"bin confidences: {what}", **tol)
    close(ga, wa, f"bin accuracies: {what}", **tol)
    gap = abs(wa - wc)
    e = close(expected_calibration_error(cj, oj, num_bins=nb), (wp * gap).sum(), f"ECE: {what}", **tol)
    m = close(maximum_calibration_error(cj, oj, num_bins=nb), gap.max(), f"MCE: {what}", **tol)
    return [float(e), float(m)]


def scenarios(tier):
    q = tier == "quick"
    ps = []
    for B in (1, 2, 3, 4, 5, 8, 15) if q else (1, 2, 3, 4, 5, 6, 8, 10, 15, 16):
        for ot in ("bool", "int", "float"):
            for f32 in (False, True):
                full = 3 if q else 4
                if B > 5:
                    full = 2 if q else 3
                if B > 8:
                    full = 1 if q else 2
                ps += [(B, n, False, ot, f32) for n in range(1, full + 1)]
                ps += [(B, n, True, ot, f32) for n in range(full + 1, (4 if q else 5) + 1)]
    return [Search("sequences", run, ps), Enum("eager", plan, check), Enum("large", plan_large, check_large)]
