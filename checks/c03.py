"""C03 tree arithmetic, statistics and random trees."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import tree as T
from mc.core import Enum, Skip
from mc.lib import A, L, build, close, equal, fail, from_flat, leaves, same_structure, size, to_flat, tree_close, vals

LEVEL = "exploration"
RULE = "every (operation, tree layout, operand values from the grid, precision); distinct = distinct result trees"
BOUNDS = {"quick": "10 layouts, 3 value patterns per operand, all slices 0<=a<=b<=4, keys 0..3", "thorough": "same with 6 value patterns and keys 0..15"}

TREES = [
    L(3), L(), L(2, 2),
    {"a": L(2), "b": L()},
    {"b": L(2), "a": L(1, 2)},
    [L(2, 2), (L(), L(2))],
    {"x": {"w": L(2, 1), "b": L(2)}, "c": [L()]},
    (L(1), L(1), L(1)),
    {"W": L(1, 2, 2), "a": [None, L()]},
    {"a": L(2), "z": (L(2), {"q": L(2)})},
]


def mk(spec, seed):
    v = vals(size(spec), seed) * 3
    if seed % 3 == 1:
        v = np.round(v)
    return from_flat(spec, v, jnp.asarray), from_flat(spec, v)


def tmap(f, *ts):
    """reference tree map"""
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, dict):
        return {k: tmap(f, *[x[k] for x in ts]) for k in t}
    if isinstance(t, (list, tuple)):
        return type(t)(tmap(f, *xs) for xs in zip(*ts))
    return f(*ts)


def plan_arith(npat):
    def plan(c):
        spec = TREES[c.choose("tree", range(len(TREES)))]
        op = c.choose("op", ["add", "sub", "neg", "mul", "sqrt", "ones_like", "zeros_like", "allclose"])
        s1 = c.choose("x", range(npat))
        s2 = c.choose("y", range(npat)) if op in ("add", "sub", "allclose") else 0
        sc = c.choose("scalar", [2.5, 0, -1, 1e-3]) if op == "mul" else None
        how = c.choose("how", ["eager", "jit"])
        if how == "jit" and op == "allclose":
            raise Skip
        return spec, op, s1, s2, sc, how

    return plan


def check_arith(cfg):
    spec, op, s1, s2, sc, how = cfg
    x, xr = mk(spec, s1)
    y, yr = mk(spec, s2 + 5)
    j = jax.jit if how == "jit" else (lambda f: f)
    if op in ("add", "sub"):
        got = j(getattr(T, op))(x, y)
        want = tmap((lambda a, b: a + b) if op == "add" else (lambda a, b: a - b), xr, yr)
    elif op == "neg":
        got, want = j(T.neg)(x), tmap(lambda a: -a, xr)
    elif op == "mul":
        got, want = j(T.mul)(sc, x), tmap(lambda a: sc * a, xr)
    elif op == "sqrt":
        x = tmap(lambda a: a * a, x)
        got, want = j(T.sqrt)(x), tmap(np.abs, xr)
    elif op in ("ones_like", "zeros_like"):
        got, want = j(getattr(T, op))(x), tmap(lambda a: np.full(np.shape(a), float(op == "ones_like")), xr)
        for g, l in zip(leaves(got), leaves(x)):
            if g.dtype != l.dtype:
                fail(f"{op} dtype {g.dtype}")
    else:
        obs = []
        for t2, want in ((x, True), (y, s1 == s2 + 5), (tmap(lambda a: a + 1e-12, x), True)):
            g = bool(T.allclose(x, t2))
            if g != want:
                fail(f"allclose returned {g} expected {want}")
            obs.append(g)
        # a difference in exactly one entry of one leaf must be noticed
        n = size(spec)
        for i in range(n):
            v = to_flat(xr).copy()
            v[i] += 1.0
            if bool(T.allclose(x, from_flat(spec, v, jnp.asarray))):
                fail(f"allclose blind to entry {i}")
        return obs
    return tree_close(got, want, op, rtol=1e-5, atol=1e-5)


# ---- statistics over the leading (sample) axis -------------------------------
SP_STAT = [L(4, 2), {"a": L(4, 2), "b": L(4)}, [L(4, 1, 2), (L(4),)], {"z": L(4), "a": L(4, 3)}]


def plan_stat(c):
    spec = SP_STAT[c.choose("tree", range(len(SP_STAT)))]
    op = c.choose("op", ["mean", "std", "var", "cov", "tree_slice"])
    s = c.choose("x", range(4))
    if op == "tree_slice":
        a = c.choose("a", range(0, 5))
        b = c.choose("b", range(a, 6))
        kw = (a, b)
    elif op == "cov":
        kw = c.choose("kw", [{"rowvar": False}, {"rowvar": False, "bias": True}, {}])
    else:
        kw = c.choose("kw", [{"axis": 0}, {}, {"axis": 0, "keepdims": True}] + ([{"axis": 0, "ddof": 1}] if op != "mean" else []))
    if op == "cov" and any(len(l.shape) > 2 for l in leaves(spec)):
        raise Skip
    return spec, op, s, kw


def check_stat(cfg):
    spec, op, s, kw = cfg
    x, xr = mk(spec, s)
    if op == "tree_slice":
        return tree_close(T.tree_slice(x, *kw), tmap(lambda a: a[kw[0] : kw[1]], xr), "tree_slice", rtol=1e-6)
    f = {"mean": np.mean, "std": np.std, "var": np.var, "cov": np.cov}[op]
    return tree_close(getattr(T, op)(x, **kw), tmap(lambda a: f(a, **kw), xr), op, rtol=1e-5, atol=1e-6)


# ---- block matrix-vector products --------------------------------------------
VSP = [L(2), L(1), L(3), L(2, 2), {"a": L(3)}, [[L(1, 2)]]]


def plan_mvp(c):
    return VSP[c.choose("tree", range(len(VSP)))], c.choose("x", range(4)), c.choose("fn", ["tree_matvec", "tree_partialmatvec"])


def check_mvp(cfg):
    spec, s, fn = cfg
    ls = leaves(spec)
    n = size(spec)
    v, vr = mk(spec, s)
    vf = to_flat(vr)
    if fn == "tree_partialmatvec":
        shp = build(spec, lambda i, l: L(*l.shape, n))
        t, tr = mk(shp, s + 2)
        return tree_close(T.tree_partialmatvec(t, jnp.asarray(vf)), tmap(lambda a: a @ vf, tr), fn, rtol=1e-5, atol=1e-5)
    # block (i, j) of shape out_j x in_i, stored as in jax.hessian: outer tree i, inner tree j
    Mx = vals(n * n, s + 1).reshape(n, n)
    off = np.cumsum([0] + [int(np.prod(l.shape)) for l in ls])
    blocks = {}
    for j in range(len(ls)):
        for i in range(len(ls)):
            blk = Mx[off[j] : off[j + 1], off[i] : off[i + 1]]
            blocks[i, j] = jnp.asarray(blk.reshape((*ls[j].shape, *ls[i].shape)))
    outer = build(spec, lambda i, l: build(spec, lambda j, l2: blocks[i, j]))
    got = T.tree_matvec(outer, v)
    want = from_flat(spec, Mx @ vf)
    return tree_close(got, want, "tree_matvec", rtol=1e-5, atol=1e-5)


# ---- randomness ---------------------------------------------------------------
def plan_rand(nkeys):
    def plan(c):
        spec = TREES[c.choose("tree", range(len(TREES)))]
        k = c.choose("key", range(nkeys))
        return spec, k

    return plan


def check_rand(cfg):
    spec, k = cfg
    proto = from_flat(spec, np.full(size(spec), 1e6), jnp.asarray)
    r1 = T.randn_like(jax.random.key(k), proto)
    r2 = T.randn_like(jax.random.key(k), tmap(lambda a: a * 0, proto))
    if not same_structure(proto, r1):
        fail("randn_like structure")
    for g, l in zip(leaves(r1), leaves(spec)):
        if g.shape != l.shape:
            fail("randn_like shape")
    f1 = to_flat(r1)
    equal(f1, to_flat(r2), "randn_like is a function of key and layout only")
    r3 = to_flat(T.randn_like(jax.random.key(k + 100), proto))
    if np.any(f1 == r3):
        fail("randn_like: different keys share draws")
    if len(set(f1.tolist())) != len(f1) or np.any(np.abs(f1) > 7):
        fail(f"randn_like: repeated or absurd draws {f1}")
    mean, meanr = mk(spec, k)
    s = T.normal_like(jax.random.key(k), mean, lambda t: tmap(lambda a: 2.0 * a, t))
    return tree_close(s, tmap(lambda m, z: m + 2.0 * A(z), meanr, r1), "normal_like = mean + scale(noise)", rtol=1e-5, atol=1e-5)


def plan_moments(c):
    return TREES[c.choose("tree", [0, 3, 5])]


def check_moments(spec):
    proto = from_flat(spec, np.zeros(size(spec)), jnp.asarray)
    R = np.stack([to_flat(T.randn_like(jax.random.key(k), proto)) for k in range(400)])
    m, C = R.mean(0), np.cov(R, rowvar=False)
    if np.abs(m).max() > 0.25 or np.abs(C - np.eye(len(m))).max() > 0.35:
        fail(f"randn_like over 400 keys: mean {m}, cov {C}")
    return m


# ---- many leaves, large leaves, empty leaves, offsets, magnitudes ----------------
BIG = {
    "many": [L(1 + i % 3) if i % 4 else L() for i in range(70)],
    "wide": {"w": L(70, 50), "b": L(129), "s": L()},
    "deep": {"a": {"b": {"c": [({"d": L(2)}, L())]}}, "b": (L(3), [L(1)])},
    "empty": [L(2), L(0), L(3, 0), L(1)],
    "unit": (L(1, 1, 1), L(1), [L(1, 7, 1)]),
    "long": L(5000),
}


def plan_big(c):
    t = c.choose("tree", list(BIG))
    op = c.choose("op", ["add", "sub", "neg", "mul", "sqrt", "ones_like", "zeros_like", "allclose", "get_size", "randn", "mean", "var", "std", "tree_slice"])
    mag = c.choose("magnitude", [1.0, 1e-20, 1e15] if op in ("add", "sub", "neg", "mul", "sqrt") else [1.0])
    return t, op, mag, c.choose("how", ["eager", "jit"])


def check_big(cfg):
    name, op, mag, how = cfg
    spec = BIG[name]
    n = size(spec)
    j = jax.jit if how == "jit" and op not in ("allclose", "get_size") else (lambda f: f)
    v, w = vals(n, 1) * mag, vals(n, 2) * mag
    x, xr, y = from_flat(spec, v, jnp.asarray), from_flat(spec, v), from_flat(spec, w, jnp.asarray)
    rt = dict(rtol=2e-6, atol=2e-7 * mag)
    if op in ("add", "sub"):
        return tree_close(j(getattr(T, op))(x, y), from_flat(spec, v + w if op == "add" else v - w), op, **rt)
    if op == "neg":
        return tree_close(j(T.neg)(x), from_flat(spec, -v), op, **rt)
    if op == "mul":
        for s in (1e-12, 3, -1e12, 0.0, np.float64(2.5), jnp.asarray(0.5)):
            tree_close(j(T.mul)(s, x), from_flat(spec, float(s) * v), op, rtol=2e-6, atol=1e-7 * mag * abs(float(s)))
        return n
    if op == "sqrt":
        return tree_close(j(T.sqrt)(from_flat(spec, np.abs(v), jnp.asarray)), from_flat(spec, np.sqrt(np.abs(v))), op, rtol=2e-6, atol=0)
    if op in ("ones_like", "zeros_like"):
        return tree_close(j(getattr(T, op))(x), from_flat(spec, np.full(n, float(op == "ones_like"))), op, rtol=0, atol=0)
    if op == "get_size":
        if T.get_size(x) != n:
            fail(f"get_size {T.get_size(x)} != {n}")
        return n
    if op == "allclose":
        for base, d, want in ((1.0, 0.0, True), (1.0, 1e-3, False), (1e6, 1.0, True), (1e6, 100.0, False), (0.0, 1e-6, False), (1.0, np.nan, False)):
            for at in {0, n // 2, n - 1}:
                a = np.full(n, base)
                b = a.copy()
                b[at] += d
                got = bool(T.allclose(from_flat(spec, a, jnp.asarray), from_flat(spec, b, jnp.asarray)))
                if got != want:
                    fail(f"allclose of {base} and {base + d} at entry {at} of {n} returned {got}")
        return n
    if op == "randn":
        f = j(T.randn_like)
        r = f(jax.random.key(3), x)
        if not same_structure(x, r) or [A(a).shape for a in leaves(r)] != [l.shape for l in leaves(spec)]:
            fail("randn_like layout")
        f1, f2 = to_flat(r), to_flat(f(jax.random.key(4), x))
        if np.mean(f1 == f2) > 0.01 or len(np.unique(f1)) < 0.99 * n:
            fail("randn_like: draws repeated")
        if n > 1000 and (abs(f1.mean()) > 0.1 or abs(f1.std() - 1) > 0.06):
            fail(f"randn_like: mean {f1.mean()}, std {f1.std()} of {n} draws")
        return tree_close(T.normal_like(jax.random.key(3), x, lambda t: tmap(lambda a: 3.0 * a, t)), from_flat(spec, v + 3.0 * f1), "normal_like", rtol=1e-5, atol=1e-5)
    # statistics of 41 copies of the tree, far away from zero
    m = 41
    off = 1e3 if jax.config.jax_enable_x64 else 3.0
    R = np.stack([vals(n, 3 + i) for i in range(m)]) + off
    stack = tmap(lambda *a: np.stack(a), *[from_flat(spec, r) for r in R])
    sj = tmap(jnp.asarray, stack)
    if op == "tree_slice":
        for a, b in ((0, 7), (5, 41), (40, 60), (-3, -1), (0, 0)):
            tree_close(j(lambda t: T.tree_slice(t, a, b))(sj), tmap(lambda q: q[a:b], stack), f"tree_slice({a}, {b})", rtol=1e-6)  # noqa: B023
        return n
    f = {"mean": np.mean, "std": np.std, "var": np.var}[op]
    return tree_close(j(lambda t: getattr(T, op)(t, axis=0))(sj), tmap(lambda q: f(q, axis=0), stack), op, rtol=2e-5, atol=1e-6)


def scenarios(tier):
    npat, nk = (3, 4) if tier == "quick" else (6, 16)
    out = []
    for x in (True, False):
        t = "x64" if x else "x32"
        out += [
            Enum(f"arith_{t}", plan_arith(npat), check_arith, x64=x),
            Enum(f"stat_{t}", plan_stat, check_stat, x64=x),
            Enum(f"mvp_{t}", plan_mvp, check_mvp, x64=x),
            Enum(f"large_{t}", plan_big, check_big, x64=x),
            Enum(f"rand_{t}", plan_rand(nk), check_rand, x64=x),
        ]
    out.append(Enum("moments", plan_moments, check_moments, x64=False))
    return out
