"""C02 matrix-free densification, diagonals, basis vectors."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import mv as M
from laplax.util import tree as T
from mc.core import Dyn, Enum, Skip
from mc.lib import A, L, build, close, equal, fail, from_flat, leaves, mat, raises, same_structure, size, to_flat

LEVEL = "exploration"
RULE = "every (matrix size, layout, batch size, jit flag, precision) in the bound; distinct = distinct recovered matrices/diagonals"
BOUNDS = {
    "quick": "matrices up to 5x5 (dense entries all distinct, non-symmetric), 12 tree layouts, every batch size 1..n+2 and None, mv_jittable on/off, f32 and f64",
    "thorough": "matrices up to 8x8",
}

TREES = [
    L(3), L(), L(2, 2),
    {"a": L(2), "b": L()},
    {"b": L(2), "a": L(1, 2)},
    [L(2, 2), (L(), L(2))],
    {"a": L(1), "b": L(3)},
    {"x": {"w": L(2, 1), "b": L(2)}, "c": [L()]},
    (L(1), L(1), L(1)),
    {"a": L(2), "b": L(1, 1), "c": L(2)},
    {"W": L(1, 2, 2), "a": [None, L()]},
    [L(), L(), L(2)],
]


def dense_mv(Mx):
    Mj = jnp.asarray(Mx)
    return lambda v: Mj @ v


def tree_mv(Mx, spec_in, spec_out):
    Mj = jnp.asarray(Mx)

    def f(t):
        v = jnp.concatenate([jnp.reshape(x, -1) for x in leaves(t)])
        w = Mj @ v
        pos = [0]

        def mk(i, l):
            n = int(np.prod(l.shape))
            out = w[pos[0] : pos[0] + n].reshape(l.shape)
            pos[0] += n
            return out

        return build(spec_out, mk)

    return f


def bs(c, n):
    return c.choose("batch", [None] + list(range(1, n + 3)))


def plan_dense_int(nmax):
    def plan(c):
        n = c.choose("n", range(1, nmax + 1))
        m = c.choose("m", range(1, nmax + 1))
        b = bs(c, n)
        how = c.choose("how", ["plain", "jit"])
        return n, m, b, how

    return plan


def kw(name, b):
    return {} if b is None else {name: b}


def check_dense_int(cfg):
    n, m, b, how = cfg
    Mx = np.arange(m * n, dtype=float).reshape(m, n) + 1
    mv = dense_mv(Mx)
    if how == "jit":
        mv = jax.jit(mv)
    D = M.to_dense(mv, layout=n, **kw("to_dense_batch_size", b))
    return equal(D, Mx, "to_dense(int layout)")


def plan_dense_tree(c):
    i = c.choose("in", range(len(TREES)))
    o = c.choose("out", ["same", "vec", "tree"])
    b = c.choose("batch", [None, 1, 2, 3, 5, 9])
    return TREES[i], o, b


def check_dense_tree(cfg):
    spec, o, b = cfg
    n = size(spec)
    so = {"same": spec, "vec": L(2), "tree": {"q": L(2), "p": [L(), L(2, 2)]}}[o]
    m = size(so)
    Mx = np.arange(m * n, dtype=float).reshape(m, n) + 1
    proto = from_flat(spec, np.full(n, -3.0), jnp.asarray)
    D = M.to_dense(tree_mv(Mx, spec, so), layout=proto, **kw("to_dense_batch_size", b))
    outp = build(so, lambda i, l: np.zeros(l.shape))
    if not same_structure(outp, D):
        fail("to_dense output structure")
    row = 0
    for g, l in zip(leaves(D), leaves(so)):
        k = int(np.prod(l.shape))
        want = Mx[row : row + k]  # rows of this leaf
        # last axis indexes the basis vector; an output leaf of any rank appears axis-reversed
        g = A(g)
        if g.shape[-1:] != (n,):
            fail(f"to_dense leaf shape {g.shape}, last axis should index the {n} inputs")
        cols = [np.transpose(g[..., j]).reshape(-1) for j in range(n)]
        equal(np.stack(cols, 1) if n else np.zeros((k, 0)), want, "to_dense(tree layout) leaf")
        row += k
    return [A(x) for x in leaves(D)]


def plan_diag(c):
    kind = c.choose("layout", ["int", "tree"])
    if kind == "int":
        n = c.choose("n", [1, 2, 3, 4])
        spec = None
    else:
        spec = TREES[c.choose("tree", range(len(TREES)))]
        n = size(spec)
    b = bs(c, n)
    j = c.choose("mv_jittable", ["default", True, False])
    return n, spec, b, j


def check_diag(cfg):
    n, spec, b, j = cfg
    Mx = np.arange(n * n, dtype=float).reshape(n, n) + 1
    kws = kw("diagonal_batch_size", b)
    if j != "default":
        kws["mv_jittable"] = j
    if spec is None:
        d = M.diagonal(dense_mv(Mx), layout=n, **kws)
    else:
        proto = from_flat(spec, np.full(n, 5.0), jnp.asarray)
        d = M.diagonal(tree_mv(Mx, spec, spec), layout=proto, **kws)
    return equal(d, np.diag(Mx), "diagonal")


def plan_diag_misc(c):
    return c.choose("case", ["array1", "array2", "array3", "array4", "array_layout", "no_layout", "linear_combo"]), c.choose("dt", ["f4", "f8"])


def check_diag_misc(cfg):
    k, dt = cfg
    if k.startswith("array") and k[-1].isdigit():
        n = int(k[-1])
        Mx = A(jnp.asarray(mat(n, n, 2).astype(dt)))
        return equal(M.diagonal(jnp.asarray(Mx)), np.diag(Mx), "diagonal(array)")
    Mx = A(jnp.asarray(mat(3, 3, 2).astype(dt)))
    if k == "array_layout":
        return equal(M.diagonal(jnp.asarray(Mx), layout=3), np.diag(Mx), "diagonal(array, layout)")
    if k == "no_layout":
        return raises(TypeError, lambda: M.diagonal(dense_mv(Mx)), "diagonal(callable) without layout")
    # linearity of densification
    D1 = A(M.to_dense(lambda v: 2.0 * (jnp.asarray(Mx) @ v) - v, layout=3))
    return close(D1, 2 * Mx - np.eye(3), "to_dense of 2M-I", rtol=1e-5)


def plan_basis(c):
    i = c.choose("tree", range(len(TREES)))
    how = c.choose("how", ["eager", "jit", "traced"])
    return TREES[i], how


def check_basis(cfg):
    spec, how = cfg
    n = size(spec)
    proto = from_flat(spec, np.arange(n) * 1.0 + 3, jnp.asarray)
    if T.get_size(proto) != n:
        fail(f"get_size {T.get_size(proto)} != {n}")
    obs = []
    f = T.basis_vector_from_index
    if how == "jit":
        f = jax.jit(f)
    for i in range(n):
        e = f(jnp.asarray(i), proto) if how == "traced" else f(i, proto)
        if not same_structure(proto, e):
            fail("basis vector structure")
        for g, w in zip(leaves(e), leaves(proto)):
            if A(g).shape != A(w).shape or A(g).dtype != A(w).dtype:
                fail(f"basis vector leaf {A(g).shape}/{A(g).dtype} vs {A(w).shape}/{A(w).dtype}")
        obs.append(equal(to_flat(e), np.eye(n)[i], f"basis_vector_from_index({i})"))
        idx = jnp.asarray(i) if how == "traced" else i
        get = jax.jit(T.tree_vec_get) if how == "jit" else T.tree_vec_get
        equal(get(proto, idx), i + 3.0, f"tree_vec_get({i})")
    for name, eye in (("eye_like", T.eye_like(proto)), ("eye_like_with_basis_vector", T.eye_like_with_basis_vector(proto))):
        if not same_structure(proto, eye):
            fail(f"{name} structure")
        for g, l in zip(leaves(eye), leaves(spec)):
            if A(g).shape != (n, *l.shape):
                fail(f"{name} leaf shape {A(g).shape}")
        flat = np.concatenate([A(g).reshape(n, -1) for g in leaves(eye)], 1)
        equal(flat, np.eye(n), name)
    return obs


# ---- operators whose precision follows that of their argument ------------------
# Nothing here promotes the basis vector: a basis in a coarser format shows up.
def plan_follow(c):
    return c.choose("op", ["scale", "cumsum", "shift", "affine_tree"]), c.choose("which", ["dense", "diag"]), c.choose("n", [1, 3, 6])


def check_follow(cfg):
    op, which, n = cfg
    w = 1.0 + np.arange(n) / 7.0
    if op == "affine_tree":
        spec = {"a": L(n), "b": L(2, n)}
        m = 3 * n
        proto = from_flat(spec, np.zeros(m), jnp.asarray)
        mv = lambda t: jax.tree.map(lambda x: 1.2345678 * x, t)  # noqa: E731
        if which == "diag":
            return close(M.diagonal(mv, layout=proto), np.full(m, 1.2345678), "diagonal of a scaling", rtol=1e-6)
        D = M.to_dense(mv, layout=proto)
        flat = np.concatenate([np.stack([np.transpose(A(g)[..., j]).reshape(-1) for j in range(m)], 1) for g in leaves(D)], 0)
        return close(flat, 1.2345678 * np.eye(m), "to_dense of a scaling", rtol=1e-6)
    ws = [float(x) for x in w]
    mv, Mx = {
        "scale": (lambda v: jnp.stack([ws[i] * v[i] for i in range(n)]), np.diag(w)),
        "cumsum": (lambda v: 0.1234567 * jnp.cumsum(v), 0.1234567 * np.tril(np.ones((n, n)))),
        "shift": (lambda v: v * 1.2345678 + jnp.roll(v, 1) * 0.7654321, 1.2345678 * np.eye(n) + 0.7654321 * np.roll(np.eye(n), 1, 0)),
    }[op]
    if which == "diag":
        return close(M.diagonal(mv, layout=n), np.diag(Mx), f"diagonal of {op}", rtol=1e-6)
    return close(M.to_dense(mv, layout=n), Mx, f"to_dense of {op}", rtol=1e-6)


# ---- domains beyond the small ones ---------------------------------------------
def plan_big(c):
    lay = c.choose("layout", ["int", "many", "wide", "mixed"])
    n = c.choose("n", [37, 130, 300])
    which = c.choose("which", ["dense", "diag", "diag_nojit", "basis"])
    b = c.choose("batch", [None, 1, 32, 64, 500])
    if lay == "many" and (n > 130 or b not in (None, 32) or (n > 37 and which != "dense")):
        raise Skip
    if (which == "basis" and (b or lay == "int")) or (which == "diag_nojit" and b not in (None, 32)):
        raise Skip
    return lay, n, which, b


def check_big(cfg):
    lay, n, which, b = cfg
    spec = {
        "int": None,
        "many": [L(1 + i % 3) for i in range(n // 2)],
        "wide": {"w": L(n // 5, 5), "b": L(n - 5 * (n // 5))},
        "mixed": {"z": L(n // 2), "a": [L(), L(0), L(n - n // 2 - 2), L(1, 1, 1)]},
    }[lay]
    m = n if spec is None else size(spec)
    Mx = ((np.arange(m * m) * 7919) % 10007).reshape(m, m).astype("f4")
    proto = m if spec is None else from_flat(spec, np.zeros(m, "f4"), jnp.asarray)
    if which == "basis":
        E = T.eye_like(proto)
        E2 = T.eye_like_with_basis_vector(proto)
        for e in (E, E2):
            equal(np.concatenate([A(g).reshape(m, -1) for g in leaves(e)], 1), np.eye(m), f"identity tree of size {m}")
        return m
    Mj = jnp.asarray(Mx)
    mv = (lambda v: Mj @ v) if spec is None else (lambda t: Mj @ jnp.concatenate([jnp.reshape(x, -1) for x in leaves(t)]))
    if which == "dense":
        return equal(M.to_dense(mv, layout=proto, **kw("to_dense_batch_size", b)), Mx, f"to_dense n={m} batch={b}")[0, :5]
    if spec is not None:
        mv = tree_mv(Mx, spec, spec)
    kws = kw("diagonal_batch_size", b)
    if which == "diag_nojit":
        kws["mv_jittable"] = False
    return equal(M.diagonal(mv, layout=proto, **kws), np.diag(Mx), f"diagonal n={m} batch={b}")[:5]


# ---- one operator object, many questions: no call influences another -----------
def body_history(c, lay):
    spec = {"int": None, "tree": {"a": L(2), "b": L()}, "tree2": [L(1), L(2)]}[lay]
    proto = lambda: 3 if spec is None else from_flat(spec, np.zeros(3), jnp.asarray)  # noqa: E731
    mats = [np.arange(9.0).reshape(3, 3) + 1, np.arange(9.0).reshape(3, 3)[::-1] * 2 - 3]
    mk = (lambda Mx: dense_mv(Mx)) if spec is None else (lambda Mx: tree_mv(Mx, spec, L(3)))
    mkd = (lambda Mx: dense_mv(Mx)) if spec is None else (lambda Mx: tree_mv(Mx, spec, spec))
    cell = {"M": mats[0]}  # an operator whose meaning changes between calls
    live = mk(mats[0]), mk(mats[1]), (lambda v: mk(cell["M"])(v))
    lived = mkd(mats[0]), mkd(mats[1]), (lambda v: mkd(cell["M"])(v))
    obs = []
    for step in range(3):
        o = c.choose(f"op{step}", [0, 2] if step else [0, 1])
        q = c.choose(f"q{step}", ["dense", "diag", "flip"])
        if q == "flip":
            cell["M"] = mats[1] if cell["M"] is mats[0] else mats[0]
            continue
        want = [mats[0], mats[1], cell["M"]][o]
        if q == "dense":
            obs.append(equal(M.to_dense(live[o], layout=proto()), want, f"to_dense after {step} earlier calls"))
        else:
            obs.append(equal(M.diagonal(lived[o], layout=proto()), np.diag(want), f"diagonal after {step} earlier calls"))
    return obs


def scenarios(tier):
    nmax = 4 if tier == "quick" else 8
    out = []
    for x in (True, False):
        t = "x64" if x else "x32"
        out += [
            Enum(f"dense_tree_{t}", plan_dense_tree, check_dense_tree, x64=x),
            Enum(f"diag_{t}", plan_diag, check_diag, x64=x),
            Enum(f"basis_{t}", plan_basis, check_basis, x64=x),
            Enum(f"misc_{t}", plan_diag_misc, check_diag_misc, x64=x),
        ]
        out += [Enum(f"follow_{t}", plan_follow, check_follow, x64=x)]
    out += [Enum("large", plan_big, check_big, x64=False), Dyn("history", body_history, ["int", "tree"])]
    out.append(Enum("dense_int", plan_dense_int(nmax), check_dense_int, x64=False))
    return out
