"""C09 Lanczos low-rank decomposition."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.lanczos import compute_eigendecomposition, construct_tridiagonal, lanczos_iterations, lanczos_lowrank
from laplax.curv.low_rank import create_low_rank_curvature
from mc.core import Enum, Search, Skip
from mc.lib import A, L, build, close, equal, fail, from_flat, leaves, raises, size, vals

from checks.c07 import multisets, rot, tree_mv

LEVEL = "model_checking"
RULE = (
    "every (eigenvalue multiset, support of the start vector, rotation) x rank x reorthogonalisation: the Krylov dimension takes every "
    "value from 1 to n, so breakdown happens at every step; each case is one execution compared with an exact projection reference"
)
BOUNDS = {
    "quick": "n<=4, eigenvalues from {-2,0,1,5}, every non-empty support of the start vector, rank 1..n+3, full/no reorthogonalisation; eager option matrix",
    "thorough": "n<=6, eigenvalues from {-2,0,0.25,1,5}, 3 rotations",
}


def krylov(Am, b, m):
    """Orthonormal basis of span{b, Ab, ..., A^(m-1) b}, computed with exact rank decisions."""
    V = []
    w = b / np.linalg.norm(b)
    for _ in range(m):
        V.append(w)
        w = Am @ w
        for _ in range(3):
            for v in V:
                w = w - (v @ w) * v
        if np.linalg.norm(w) <= (1e-8 * max(1.0, np.abs(Am).max()) if np.abs(Am).max() > 1e-2 else 1e-8 * np.abs(Am).max()):
            break
        w = w / np.linalg.norm(w)
    return np.stack(V, 1)


def cases(n, alpha, rots):
    """(A, b) for every eigenvalue multiset, start-vector support and rotation."""
    out = []
    for eigs in multisets(alpha, n):
        for mask in itertools.product([0, 1], repeat=n):
            if not any(mask):
                continue
            for r in range(rots):
                Q = np.eye(n) if r == 0 else rot(n, r)
                comp = np.array([(0.6 + 0.35 * i) * (-1) ** i * m for i, m in enumerate(mask)])
                out.append(((Q * np.array(eigs)) @ Q.T, Q @ comp))
    return out


def check_terms(U, S, Am, b, k, what, tol=1e-8, sc=None):
    n = len(b)
    if U.shape != (n, k) or S.shape != (k,):
        fail(f"{what}: shapes {U.shape}, {S.shape} for size {n}, rank {k}")
    if not (np.isfinite(U).all() and np.isfinite(S).all()):
        fail(f"{what}: non-finite result")
    V = krylov(Am, b, k)
    T = V.T @ Am @ V
    sc = 1 + np.abs(Am).max() if sc is None else sc
    want = V @ T @ V.T
    got = (U * S) @ U.T
    if np.abs(got - want).max() > tol * sc:
        fail(f"{what}: U S U' differs from the operator on the Krylov space (dim {V.shape[1]}): {got.tolist()} vs {want.tolist()}; A={Am.tolist()} b={b.tolist()}")
    ev = np.linalg.eigvalsh((T + T.T) / 2)
    pos = np.abs(S) > 1e-4 * sc
    G = U[:, pos].T @ U[:, pos]
    if G.size and np.abs(G - np.eye(G.shape[0])).max() > max(1e-6, tol):
        fail(f"{what}: eigenvectors not orthonormal; A={Am.tolist()} b={b.tolist()}")
    real = np.sort(ev[np.abs(ev) > 1e-4 * sc])
    if real.size != pos.sum() or (real.size and np.abs(real - np.sort(S[pos])).max() > tol * sc):
        fail(f"{what}: eigenvalues {np.sort(S).tolist()} but the Krylov space has {real.tolist()} (+zeros); A={Am.tolist()} b={b.tolist()}")
    return V.shape[1]


def run_batch(alpha, rots):
    def run(param):
        n, rank, full = param
        cs = cases(n, alpha, rots)
        As = jnp.asarray(np.stack([c[0] for c in cs]))
        bs = jnp.asarray(np.stack([c[1] for c in cs]))

        @jax.jit
        @jax.vmap
        def go(Am, b):
            t = lanczos_lowrank(Am, b=b, rank=rank, full_reorthogonalize=full)
            al, be, V = lanczos_iterations(lambda x: Am @ x, b, maxiter=rank, full_reorthogonalize=full)
            return t.U, t.S, t.scalar, al, be, V

        U, S, sc, al, be, V = (A(x) for x in go(As, bs))
        dims = {}
        for i, (Am, b) in enumerate(cs):
            # without reorthogonalisation rounding alone may delay convergence a little
            m = check_terms(U[i], S[i], Am, b, rank, f"n={n} rank={rank} full_reorth={full}", tol=1e-8 if full else 1e-6)
            dims[m] = dims.get(m, 0) + 1
            if sc[i] != 0:
                fail("scalar part must be zero")
            # three-term recurrence on the first m steps
            mm = min(m, rank)
            Vm = V[i, :mm]
            if np.abs(Vm @ Vm.T - np.eye(mm)).max() > 1e-6:
                fail(f"Lanczos vectors not orthonormal: {Vm.tolist()}")
            if np.linalg.norm(Vm[0] - b / np.linalg.norm(b)) > 1e-9:
                fail("first Lanczos vector is not the normalised start vector")
            T = np.diag(al[i, :mm]) + np.diag(be[i, : mm - 1], 1) + np.diag(be[i, : mm - 1], -1)
            if np.abs(Vm @ Am @ Vm.T - T).max() > 1e-6 * (1 + np.abs(Am).max()):
                fail("tridiagonal coefficients are not V'AV")
        return {
            "states": len(cs), "transitions": len(cs) * rank, "executions": len(cs),
            "outcomes": [(n, rank, full, d) for d in dims] + [np.round(s, 6) for s in S],
            "sample": {"krylov_dimension_histogram": {str(k): v for k, v in dims.items()}},
        }

    return run


# ------------------------------------------------------------------ option matrix
SPEC = {"w": L(2, 1), "b": [L(), L(1)]}


def plan_opts(c):
    form = c.choose("operator", ["array", "callable_int", "callable_tree", "numpy_callable"])
    mv_jit = c.choose("mv_jit", [True, False])
    if form == "numpy_callable" and mv_jit:
        raise Skip
    start = c.choose("start", ["key", "b", "both"])
    calc = c.choose("calc_dtype", ["default", "f8", "f4"])
    mvd = c.choose("mv_dtype", [None, "f8", "f4"])
    ret = c.choose("return_dtype", [None, "f8", "f4"])
    rank = c.choose("rank", [2, 6])
    amb = c.choose("ambient_x64", [True, False])
    if form in ("callable_int", "numpy_callable") and (start == "both" or ret == "f8"):
        raise Skip
    return form, mv_jit, start, calc, mvd, ret, rank, amb


def check_opts(cfg):
    form, mv_jit, start, calc, mvd, ret, rank, amb = cfg
    jax.config.update("jax_enable_x64", amb)
    D = {"f8": jnp.float64, "f4": jnp.float32}
    Q = rot(4)
    Am = A(jnp.asarray((Q * np.array([4.0, 2.0, 0.5, 0.0])) @ Q.T)).astype(float)
    b = A(jnp.asarray(Q @ np.array([1.0, -0.7, 0.8, 0.6]))).astype(float)
    kw = {"rank": rank, "mv_jit": mv_jit}
    if calc != "default":
        kw["calc_dtype"] = D[calc]
    if mvd:
        kw["mv_dtype"] = D[mvd]
    if ret:
        kw["return_dtype"] = D[ret]
    if start in ("b", "both"):
        kw["b"] = jnp.asarray(b)
    if start in ("key", "both"):
        kw["key"] = jax.random.key(5)
    if form == "array":
        op = jnp.asarray(Am)
    elif form == "callable_int":
        M = jnp.asarray(Am)
        op, kw["layout"] = (lambda v: M @ v), 4
    elif form == "numpy_callable":
        op, kw["layout"] = (lambda v: jnp.asarray(Am @ np.asarray(v))), 4
    else:
        op, kw["layout"] = tree_mv(Am, SPEC), from_flat(SPEC, np.zeros(4), jnp.asarray)
    t = lanczos_lowrank(op, **kw)
    if jax.config.jax_enable_x64 != amb:
        fail("precision mode changed")
    want_dt = np.dtype(ret) if ret else np.dtype("f8" if amb else "f4")
    for nm, x in (("U", t.U), ("S", t.S), ("scalar", t.scalar)):
        if A(x).dtype != want_dt:
            fail(f"{nm} has dtype {A(x).dtype}, requested {want_dt}")
    low = "f4" in (calc, mvd, ret) or (ret is None and not amb) or (mvd is None and not amb)
    U, S = A(t.U).astype(float), A(t.S).astype(float)
    if start == "key":
        t2 = lanczos_lowrank(op, **kw)
        equal(t2.U, t.U, "same key, different result")
        if rank < 6:
            return S.shape
        b = np.ones(4)  # generic start: full Krylov space
        want = Am
        if np.abs((U * S) @ U.T - want).max() > (5e-3 if low else 1e-7):
            fail(f"U S U' differs from the operator: {((U * S) @ U.T).tolist()}")
        return S
    check_terms(U, S, Am, b, rank, "options", tol=2e-3 if low else 1e-8)
    return S


def plan_misc(c):
    case = c.choose("case", ["no_start", "no_layout", "tridiagonal", "eig_only", "via_low_rank", "scaled", "keys_differ"])
    n = c.choose("n", [1, 2, 3, 4, 5])
    return case, n


def check_misc(cfg):
    case, n = cfg
    Q = rot(n, 1)
    e = np.arange(1.0, n + 1)
    Am = (Q * e) @ Q.T
    b = Q @ (0.5 + np.arange(n))
    M = jnp.asarray(Am)
    if case == "no_start":
        return raises(ValueError, lambda: lanczos_lowrank(M, rank=2), "neither key nor b")
    if case == "no_layout":
        return raises(TypeError, lambda: lanczos_lowrank(lambda v: M @ v, key=jax.random.key(0)), "callable without layout")
    if case == "tridiagonal":
        al, be = vals(n, 1), vals(n, 2)
        T = np.diag(al) + np.diag(be[: n - 1], 1) + np.diag(be[: n - 1], -1)
        return equal(construct_tridiagonal(jnp.asarray(al), jnp.asarray(be)), T, "tridiagonal matrix")
    if case == "eig_only":
        al, be, V = lanczos_iterations(lambda v: M @ v, jnp.asarray(b), maxiter=n)
        w = compute_eigendecomposition(al, be, V)
        w2, U = compute_eigendecomposition(al, be, V, compute_vectors=True)
        close(w, e, "eigenvalues only", rtol=1e-8)
        close(w2, e, "eigenvalues with vectors", rtol=1e-8)
        return close(M @ U, U * w2, "Ritz vectors", atol=1e-8)
    if case == "via_low_rank":
        t = create_low_rank_curvature(lambda v: M @ v, layout=n, rank=n, key=jax.random.key(1))
        return close((t.U * t.S) @ t.U.T, Am, "low-rank curvature", atol=1e-8)
    if case == "keys_differ":
        if n == 1:
            return 0
        a = lanczos_lowrank(M, key=jax.random.key(1), rank=1)
        c = lanczos_lowrank(M, key=jax.random.key(2), rank=1)
        if np.allclose(a.U, c.U):
            fail("different keys give the same start vector")
        return A(a.S)
    for s in (1e-4, 1e-3, 1e-2, 1e3, 1e5):
        for full in (True, False):
            t = lanczos_lowrank(s * M, b=jnp.asarray(b), rank=n + 1, full_reorthogonalize=full)
            check_terms(A(t.U), A(t.S), s * Am, b, n + 1, f"operator scaled by {s}, full_reorthogonalize={full}", tol=1e-6, sc=s * np.abs(Am).max())
            t2 = lanczos_lowrank(M, b=jnp.asarray(s * b), rank=n + 1, full_reorthogonalize=full)
            check_terms(A(t2.U), A(t2.S), Am, b, n + 1, f"start vector scaled by {s}, full_reorthogonalize={full}", tol=1e-6)
    return n


BIG = {
    "linear": lambda n: np.linspace(0.2, 6.0, n),
    "indefinite": lambda n: np.linspace(-3.0, 4.0, n),
    "distinct12": lambda n: 1.0 + np.arange(n) % 12,
    "lowrank": lambda n: np.where(np.arange(n) < 9, 9.0 - np.arange(n), 0.0),
    "negative": lambda n: -np.linspace(0.2, 6.0, n),
}


def plan_big(ns):
    def p(c):
        n = c.choose("n", ns)
        sp = c.choose("spectrum", list(BIG))
        rank = c.choose("rank", [None, 1, 3, 9, 12, 13, 21, 40, 70])
        if rank is not None and rank > n + 5:
            raise Skip
        form = c.choose("operator", ["array", "tree"])
        how = c.choose("how", ["jit", "nojit"])
        if how == "nojit" and (rank not in (None, 12, 40) or form == "tree"):
            raise Skip
        return n, sp, rank, form, how

    return p


def check_big(cfg):
    """operators beyond the small exhaustive sizes: many Lanczos steps, breakdown after many steps, the default rank of 20."""
    n, sp, rank, form, how = cfg
    Q = rot(n, 3)
    Am = (Q * BIG[sp](n)) @ Q.T
    b = Q @ (np.cos(np.arange(n) * 1.7) + 1.3)
    kw = {} if rank is None else {"rank": rank}
    if how == "nojit":
        kw["mv_jit"] = False
    if form == "array":
        t = lanczos_lowrank(jnp.asarray(Am), b=jnp.asarray(b), **kw)
    else:
        spec = {"w": L(2, n // 4), "b": [L(), L(n - 2 * (n // 4) - 1)]}
        t = lanczos_lowrank(tree_mv(Am, spec), b=jnp.asarray(b), layout=from_flat(spec, np.zeros(n), jnp.asarray), **kw)
    return check_terms(A(t.U), A(t.S), Am, b, 20 if rank is None else rank, f"n={n} {sp} rank={rank} {form} {how}", tol=1e-7)


def scenarios(tier):
    q = tier == "quick"
    al = [-2.0, 0.0, 1.0, 5.0] if q else [-2.0, 0.0, 0.25, 1.0, 5.0]
    nmax = 4 if q else 6
    params = [(n, r, f) for n in range(1, nmax + 1) for r in range(1, n + 4) for f in (True, False)]
    return [
        Search("krylov", run_batch(al, 2 if q else 3), params),
        Enum("options", plan_opts, check_opts, x64=None),
        Enum("misc", plan_misc, check_misc),
        Enum("large", plan_big([24, 70] if q else [24, 40, 70, 150]), check_big),
    ]
