"""C10 LOBPCG low-rank decomposition."""

import itertools
import warnings

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.low_rank import create_low_rank_curvature
from laplax.enums import LowRankMethod
from mc.core import Enum, Search, Skip
from mc.lib import A, L, close, equal, fail, from_flat, raises, vals

from checks.c07 import multisets, rot, tree_mv

LEVEL = "exploration"
RULE = "every (size, requested rank, spectrum, rotation, operator form, jit mode) of the bound; oracle: orthonormality, Rayleigh quotients, Courant-Fischer bounds, exactness when the operator's rank does not exceed the used rank"
BOUNDS = {
    "quick": "10 sizes 6..21, requested ranks 1..4 (both sides of size = 5*rank), all spectra of up to 3 eigenvalues from {0.5,2,9} whose rank reaches the used rank, five of 4-6 eigenvalues, two full-rank spectra, 3 rotations; eager jit/non-jit pairs; option matrix",
    "thorough": "all sizes 6..31, ranks 1..6",
}
ASSUMPTIONS = ["operators whose rank is below the used rank (the zero operator included) are excluded: jax's own lobpcg_standard breaks down (NaN) on some of them, depending on rounding"]


def spectra(n):
    out = []
    for r in range(0, 4):  # (r = 0 is never run)
        out += [tuple(sorted(m, reverse=True)) + (0.0,) * (n - r) for m in multisets([0.5, 2.0, 9.0], r)]
    out += [tuple(t) + (0.0,) * (n - len(t)) for t in ((9.0, 2.0, 2.0, 0.5), (9.0, 9.0, 2.0, 2.0), (2.0,) * 4, (9.0, 4.0, 2.0, 1.0, 0.5), (9.0, 4.0, 2.0, 1.0, 0.5, 0.25))]
    out.append(tuple(np.linspace(5, 0.1, n)))
    out.append((1.0,) * n)
    return out


def run_batch(param):
    """jit-compatible operators: every spectrum and rotation, one vectorised execution of the real code."""
    n, k, scale = param
    ku = used_rank(n, k)
    mats = [(Q * np.array(sp)) @ Q.T * scale for sp in spectra(n) if sum(map(bool, sp)) >= ku for Q in (np.eye(n), rot(n, 2), rot(n, 4))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        go = jax.jit(jax.vmap(lambda M: lobpcg_lowrank(M, rank=k, key=jax.random.key(1))))
        t = go(jnp.asarray(np.stack(mats)))
    obs = []
    for i, Am in enumerate(mats):
        # the scale factor is a power of two: results are compared at the original magnitude
        verify(A(t.U[i]), A(t.S[i]) / scale, Am / scale, ku, f"n={n} rank={k} scale={scale}", 1e-6)
        if float(t.scalar[i]) != 0.0:
            fail("scalar part must be zero")
        obs.append(np.round(A(t.S[i]), 5))
    return {"states": len(mats), "transitions": len(mats) * ku, "executions": len(mats), "outcomes": obs, "sample": {"n": n, "requested": k, "used": ku}}


def plan_eager(sizes):
    def p(c):
        n = c.choose("n", sizes)
        k = c.choose("rank", [1, 2, 3])
        if k > 1 and n not in (5 * k, 5 * k + 1, 5 * k - 1, 7):
            raise Skip
        spec = c.choose("spectrum", [2, 8, 15, -2, -1])
        if sum(map(bool, spectra(n)[spec])) < used_rank(n, k):
            raise Skip
        form = c.choose("operator", ["array", "tree"] if n in SPECS else ["array"])
        return n, k, spec, form

    return p


def used_rank(n, k):
    return k if 5 * k < n else max(1, n // 5 - 1)


def verify(U, S, Am, k, what, tol, exact_ok=True):
    n = Am.shape[0]
    lam = np.sort(np.linalg.eigvalsh(Am))[::-1]
    sc = 1 + abs(lam[0])
    if U.shape != (n, k) or S.shape != (k,):
        fail(f"{what}: shapes {U.shape}/{S.shape}, expected rank {k} of size {n}")
    if not (np.isfinite(U).all() and np.isfinite(S).all()):
        fail(f"{what}: non-finite result")
    if np.abs(U.T @ U - np.eye(k)).max() > tol:
        fail(f"{what}: vectors not orthonormal: {(U.T @ U).tolist()}")
    if np.any(np.diff(S) > tol * sc):
        fail(f"{what}: eigenvalues not descending: {S}")
    if np.abs(np.diag(U.T @ Am @ U) - S).max() > tol * sc:
        fail(f"{what}: eigenvalues {S} are not the Rayleigh quotients of the vectors {np.diag(U.T @ Am @ U)}")
    if np.any(S > lam[:k] + tol * sc) or np.any(S < lam[-1] - tol * sc):
        fail(f"{what}: eigenvalues {S} outside the spectrum bounds {lam[:k]}")
    r = int((lam > 1e-9 * sc).sum())
    if r <= k or abs(lam[0] - lam[-1]) < 1e-12:
        close(S, lam[:k], f"{what}: eigenvalues of a rank-{r} operator", rtol=tol, atol=tol * sc)
        if r <= k:
            close((U * S) @ U.T, Am, f"{what}: reconstruction of a rank-{r} operator", rtol=tol, atol=tol * sc)
    return r


SPECS = {6: {"w": L(2, 2), "b": L(2)}, 11: {"a": L(3, 3), "c": [L(), L(1)]}}


def check_eager(cfg):
    """eager call, jit-compatible against non-jittable mode, reproducible from the key."""
    n, k, si, form = cfg
    Q = rot(n, 2)
    Am = (Q * np.array(spectra(n)[si])) @ Q.T
    ku = used_rank(n, k)
    if form == "array":
        op, lay = jnp.asarray(Am), None
    else:
        op, lay = tree_mv(Am, SPECS[n]), from_flat(SPECS[n], np.zeros(n), jnp.asarray)
    res = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for jit in (True, False):
            t = lobpcg_lowrank(op, layout=lay, rank=k, key=jax.random.key(1), mv_jit=jit)
            verify(A(t.U), A(t.S), Am, ku, f"n={n} rank={k} jit={jit}", 1e-6)
            res[jit] = A(t.S)
        t2 = lobpcg_lowrank(op, layout=lay, rank=k, key=jax.random.key(1), mv_jit=False)
        equal(t2.S, res[False], "same key, different result")
    close(res[True], res[False], "jit and non-jit eigenvalues", rtol=1e-5, atol=1e-6 * (1 + np.abs(Am).max()))
    return res[True]


def plan_opts(c):
    form = c.choose("operator", ["array", "callable_int", "tree"])
    jit = c.choose("mv_jit", [True, False])
    calc = c.choose("calc_dtype", ["default", "f8", "f4"])
    mvd = c.choose("mv_dtype", [None, "f8", "f4"])
    ret = c.choose("return_dtype", [None, "f8", "f4"])
    key = c.choose("key", [None, 3])
    amb = c.choose("ambient_x64", [True, False])
    if form != "array" and (key is None or ret == "f8" or calc == "f8"):
        raise Skip
    if mvd == "f8" and (calc == "f8" or ret == "f8"):
        raise Skip
    return form, jit, calc, mvd, ret, key, amb


def check_opts(cfg):
    form, jit, calc, mvd, ret, key, amb = cfg
    jax.config.update("jax_enable_x64", amb)
    D = {"f8": jnp.float64, "f4": jnp.float32}
    n, k = 11, 2
    Q = rot(n, 1)
    Am = (Q * np.array([6.0, 2.0] + [0.0] * (n - 2))) @ Q.T
    kw = {"rank": k, "mv_jit": jit}
    for nm, v in (("calc_dtype", calc), ("mv_dtype", mvd), ("return_dtype", ret)):
        if v not in (None, "default"):
            kw[nm] = D[v]
    if key is not None:
        kw["key"] = jax.random.key(key)
    if form == "array":
        op = jnp.asarray(Am)
    elif form == "callable_int":
        M = jnp.asarray(Am)
        op, kw["layout"] = (lambda v: M @ v), n
    else:
        op, kw["layout"] = tree_mv(Am, SPECS[n]), from_flat(SPECS[n], np.zeros(n), jnp.asarray)
    t = lobpcg_lowrank(op, **kw)
    if jax.config.jax_enable_x64 != amb:
        fail("precision mode changed")
    want_dt = np.dtype(ret) if ret else np.dtype("f8" if amb else "f4")
    for nm, x in (("U", t.U), ("S", t.S), ("scalar", t.scalar)):
        if A(x).dtype != want_dt:
            fail(f"{nm} has dtype {A(x).dtype}, requested {want_dt}")
    low = "f4" in (calc, mvd, ret) or not amb
    verify(A(t.U).astype(float), A(t.S).astype(float), Am, k, f"options {cfg}", 5e-3 if low else 1e-6)
    return t.S.shape


def plan_misc(c):
    return c.choose("case", ["no_layout", "via_low_rank", "non_jittable"]), c.choose("n", [6, 8, 12])


def check_misc(cfg):
    case, n = cfg
    Q = rot(n, 1)
    Am = (Q * np.array([3.0] + [0.0] * (n - 1))) @ Q.T
    M = jnp.asarray(Am)
    if case == "no_layout":
        return raises(TypeError, lambda: lobpcg_lowrank(lambda v: M @ v, rank=1), "callable without layout")
    if case == "via_low_rank":
        t = create_low_rank_curvature(lambda v: M @ v, layout=n, low_rank_method=LowRankMethod.LOBPCG, rank=1)
        return close((t.U * t.S) @ t.U.T, Am, "low-rank curvature", atol=1e-7)
    calls = {"n": 0}

    def op(v):  # pure numpy callback semantics are exercised through a host call
        calls["n"] += 1
        return jax.pure_callback(lambda x: np.asarray(Am @ x, dtype=np.float64), jax.ShapeDtypeStruct((n,), np.float64), v, vmap_method="sequential")

    t = lobpcg_lowrank(op, layout=n, rank=1, mv_jit=False)
    return close((t.U * t.S) @ t.U.T, Am, "host-callback operator", atol=1e-7)


def scenarios(tier):
    q = tier == "quick"
    return [
        Search("spectrum", run_batch, [(n, k, 1.0) for n in ([6, 7, 9, 10, 11, 14, 15, 16, 20, 21] if q else range(6, 32)) for k in ([1, 2, 3, 4] if q else range(1, 7))]
               + [(n, k, sc) for n, k, sc in [(11, 2, 2.0**-12), (11, 2, 2.0**16), (16, 3, 2.0**-8), (20, 9, 1.0), (33, 6, 1.0), (64, 5, 1.0), (64, 12, 1.0), (64, 40, 1.0), (121, 6, 1.0)]]),
        Enum("eager", plan_eager([6, 7, 9, 10, 11, 15] if q else list(range(6, 17))), check_eager),
        Enum("options", plan_opts, check_opts, x64=None),
        Enum("misc", plan_misc, check_misc),
    ]
