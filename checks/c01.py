"""C01 flatten / unflatten: inverse, ordered, for every small tree."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import flatten as F
from mc.core import Enum
from mc.lib import L, build, close, equal, fail, from_flat, leaves, raises, same_structure, size, to_flat, vals

LEVEL = "exploration"
RULE = (
    "every tree built from the leaf menu and container menu to the stated depth x dtype x calling mode; "
    "distinct = distinct observed flat vectors / restored trees"
)
BOUNDS = {
    "quick": "containers dict(2 insertion orders)/list/tuple/None, <=3 children, depth<=2, leaf shapes (),(1,),(2,),(0,),(2,1),(2,2),(1,2,3); dtypes f32/f64/i32",
    "thorough": "depth<=3, same menu",
}

SH1 = [(), (2,), (2, 2), (0,), (1,), (2, 1), (1, 2, 3)]
SH2 = [(), (3,), (2, 2), (0,)]
SH3 = [(), (2,)]


def gen(c, depth, top=True, tag="t"):
    kinds = ["leaf"] if depth == 0 else ["leaf", "dict1", "dict2", "dict2r", "list2", "tuple2", "list1n", "tuple3"]
    if tag.count(".") >= 1 and depth >= 2:
        kinds = ["leaf", "dict2r", "tuple2", "list1n"]
    elif tag.count(".") >= 2 and depth == 1:
        kinds = ["leaf", "dict2r", "list1n"]
    k = c.choose(tag, kinds)
    if k == "leaf":
        sh = SH1 if top else (SH3 if tag.count(".") > 1 else SH2)
        return L(*c.choose(tag + "s", sh))
    g = lambda j: gen(c, depth - 1, False, f"{tag}.{j}")
    if k == "dict1":
        return {"k": g(0)}
    if k == "dict2":
        return {"a": g(0), "b": g(1)}
    if k == "dict2r":
        return {"w": g(0), "B": g(1)}
    if k == "list2":
        return [g(0), g(1)]
    if k == "tuple2":
        return (g(0), g(1))
    if k == "list1n":
        return [None, g(0)]
    return (L(2), g(0), L(1, 2))


def plan_tree(depth):
    def plan(c):
        spec = gen(c, depth)
        dt = c.choose("dtype", ["f4", "i4"] if depth < 2 else ["f4"])
        mode = c.choose("mode", ["eager", "jit"] if depth < 2 else ["eager"])
        return spec, dt, mode

    return plan


def ramp(n, dt):
    return (np.arange(n) + 1).astype(dt) if dt == "i4" else (np.arange(n) * 1.5 - 2).astype(dt)


def check_tree(cfg):
    spec, dt, mode = cfg
    n = size(spec)
    flatv = ramp(n, dt)
    tree = from_flat(spec, flatv, jnp.asarray)
    # the layout tree used for construction holds other values: only shapes may matter
    proto = from_flat(spec, np.zeros(n, dt) - 7, jnp.asarray)
    flatten, unflatten = F.create_pytree_flattener(proto)
    if mode == "jit":
        flatten, unflatten = jax.jit(flatten), jax.jit(unflatten)
    got = equal(flatten(tree), flatv, "flatten order/values")
    if got.dtype != np.dtype(dt):
        fail(f"flatten changed dtype {dt} -> {got.dtype}")
    back = unflatten(jnp.asarray(flatv))
    if not same_structure(tree, back):
        fail(f"unflatten structure differs: {jax.tree.structure(back)} vs {jax.tree.structure(tree)}")
    for g, w in zip(leaves(back), leaves(tree)):
        equal(g, np.asarray(w), "unflatten(v) leaf")
    equal(flatten(back), flatv, "flatten(unflatten(v))")
    equal(F.full_flatten(tree), flatv, "full_flatten")
    # flatten_function: f on trees seen as f on vectors
    ff = F.flatten_function(lambda t: jax.tree.map(lambda x: 2 * x, t), layout=proto)
    equal(ff(jnp.asarray(flatv)), 2 * flatv, "flatten_function")
    return got, [np.asarray(x).shape for x in leaves(back)]


# ---- flat linear maps: differentiability / batching of unflatten -------------
def plan_batched(c):
    spec = c.choose("spec", [L(2), {"a": L(2), "b": L()}, [L(2, 2), (L(), L(1, 3))], {"z": L(2), "a": [L(3), L(0)]}])
    b = c.choose("batch", [1, 2, 3])
    dt = c.choose("dtype", ["f4", "f8"])
    return spec, b, dt


def check_batched(cfg):
    spec, b, dt = cfg
    n = size(spec)
    V = (np.arange(b * n).reshape(b, n) * 0.5).astype(dt)
    flatten, unflatten = F.create_pytree_flattener(from_flat(spec, np.zeros(n, dt), jnp.asarray))
    stacked = jax.vmap(unflatten)(jnp.asarray(V))
    for i in range(b):
        for g, w in zip(leaves(stacked), leaves(from_flat(spec, V[i]))):
            equal(np.asarray(g)[i], w, "vmap(unflatten)")
    equal(jax.vmap(flatten)(stacked), V, "vmap(flatten)")
    J = jax.jacobian(lambda v: flatten(unflatten(v)))(jnp.asarray(V[0]))
    equal(J, np.eye(n), "jacobian of flatten o unflatten")
    return V


# ---- partial flattener ------------------------------------------------------
def plan_partial(c):
    cols = c.choose("cols", [1, 2, 3])
    pre = [(2,), (1,), (2, 2), (3, 1), (0,)]
    form = c.choose("form", ["bare", "dict", "dictr", "list", "nested"])
    s1 = c.choose("s1", pre)
    s2 = c.choose("s2", pre)
    dt = c.choose("dtype", ["f4", "i4"])
    return cols, form, s1, s2, dt


def check_partial(cfg):
    cols, form, s1, s2, dt = cfg
    a, b = L(*s1, cols), L(*s2, cols)
    spec = {"bare": a, "dict": {"a": a, "b": b}, "dictr": {"b": a, "a": b}, "list": [a, b], "nested": {"p": (a, [b]), "q": a}}[form]
    n = size(spec)
    tree = from_flat(spec, ramp(n, dt), jnp.asarray)
    want = np.concatenate([np.asarray(x).reshape(-1, cols) for x in leaves(tree)], axis=0)
    flatten, unflatten = F.create_partial_pytree_flattener(tree)
    got = equal(flatten(tree), want, "partial flatten (rows in traversal order)")
    M = want[::-1].copy() if want.size else want
    back = unflatten(jnp.asarray(M))
    if not same_structure(tree, back):
        fail("partial unflatten structure")
    r = 0
    for g, w in zip(leaves(back), leaves(tree)):
        rows = int(np.prod(np.asarray(w).shape[:-1]))
        equal(g, M[r : r + rows].reshape(np.asarray(w).shape), "partial unflatten leaf")
        r += rows
    equal(flatten(back), M, "partial round trip")
    return got


# ---- unravel along an axis ---------------------------------------------------
SPECS_U = [
    L(2), L(), {"a": L(2), "b": L()}, {"b": L(2), "a": L(1, 2)}, [L(2, 2), (L(), L(3))], {"a": L(0), "b": L(2)},
    {"w": {"k": L(2, 1), "b": L(2)}, "c": [L(), L(2)]},
]


def plan_unravel(c):
    spec = c.choose("spec", range(len(SPECS_U)))
    nd = c.choose("ndim", [1, 2, 3])
    ax = c.choose("axis", list(range(-nd, nd)))
    o = c.choose("other", [1, 2, 3])
    return SPECS_U[spec], nd, ax, o


def check_unravel(cfg):
    spec, nd, ax, o = cfg
    n = size(spec)
    shape = [o] * nd
    if nd == 3:
        shape[0] = o + 1
    shape[ax] = n
    arr = np.arange(int(np.prod(shape)), dtype="f4").reshape(shape)
    proto = from_flat(spec, np.zeros(n, "f4"), jnp.asarray)
    out = F.unravel_array_into_pytree(proto, ax, jnp.asarray(arr))
    if not same_structure(proto, out):
        fail("unravel structure")
    pos, axp = 0, ax % nd
    obs = []
    for g, l in zip(leaves(out), leaves(spec)):
        k = int(np.prod(l.shape))
        sl = [slice(None)] * nd
        sl[axp] = slice(pos, pos + k)
        want = arr[tuple(sl)].reshape((*arr.shape[:axp], *l.shape, *arr.shape[axp + 1 :]))
        obs.append(equal(g, want, f"unravel axis={ax}"))
        pos += k
    return obs


# ---- wrapping ----------------------------------------------------------------
def plan_wrap(c):
    nargs = c.choose("nargs", [1, 2, 3])
    argnums = c.choose("argnums", list(range(nargs)))
    inp = c.choose("input_fn", ["none", "neg", "tuple"])
    out = c.choose("output_fn", ["none", "plus"])
    kw = c.choose("kwargs", [False, True])
    how = c.choose("how", ["wrap_function", "wrap_factory"])
    if how == "wrap_factory" and argnums != 0:
        from mc.core import Skip

        raise Skip
    return nargs, argnums, inp, out, kw, how


def check_wrap(cfg):
    nargs, argnums, inp, out, kw, how = cfg
    calls = []

    def fn(*args, extra=0):
        calls.append((args, extra))
        return [args, extra]

    fi = {"none": None, "neg": lambda x: -x, "tuple": lambda x: (x, x)}[inp]
    fo = {"none": None, "plus": lambda r: ("o", r)}[out]
    if how == "wrap_function":
        w = F.wrap_function(fn, input_fn=fi, output_fn=fo, argnums=argnums)
    else:
        made = []

        def factory(a, *, b):
            made.append((a, b))
            return fn

        w = F.wrap_factory(factory, fi, fo)("s", b=3)
        if made != [("s", 3)]:
            fail(f"wrap_factory forwarded {made}")
    args = tuple(range(1, nargs + 1))
    kwargs = {"extra": 5} if kw else {}
    res = []
    for rep in range(2):  # calling twice gives the same result: no hidden state
        r = w(*args, **kwargs)
        ta = tuple((fi(a) if fi else a) if i == argnums else a for i, a in enumerate(args))
        want = [ta, kwargs.get("extra", 0)]
        want = fo(want) if fo else want
        if r != want:
            fail(f"wrapped call returned {r}, expected {want}")
        if calls[-1] != (ta, kwargs.get("extra", 0)) or len(calls) != rep + 1:
            fail(f"underlying function saw {calls}")
        res.append(repr(r))
    return res


# ---- wrong lengths are rejected ----------------------------------------------
WL = [
    L(), L(2), L(2, 2), {"a": L(2), "b": L()}, {"b": L(2), "a": L(1, 2)}, [L(2, 2), (L(), L(3))], {"a": L(2), "b": L(0)},
    {"a": L(0), "b": L(2)}, [L(1), L(1)], (L(3, 2), L(3, 1)), [L(4), L(4)],
]


def plan_wrong(c):
    spec = c.choose("spec", range(len(WL)))
    how = c.choose("how", ["unflatten", "unflatten_jit", "unravel0", "unravel1", "unravel-1", "partial"])
    delta = c.choose("delta", ["-n", -2, -1, 1, 2, 3, "+n", "+2n"])
    return WL[spec], how, delta


def check_wrong(cfg):
    spec, how, delta = cfg
    n = size(spec)
    ls = leaves(spec)
    if how == "partial":
        if any(len(l.shape) < 2 for l in ls) or len({l.shape[-1] for l in ls}) > 1:
            cols = 2
            spec = build(spec, lambda i, l: L(*l.shape, cols))  # give every leaf a column axis
        cols = leaves(spec)[0].shape[-1]
        n = size(spec) // cols
    m = {"-n": 0, "+n": 2 * n, "+2n": 3 * n}.get(delta, n + delta if isinstance(delta, int) else None)
    if m < 0 or m == n:
        m = n + 4
    proto = from_flat(spec, np.zeros(size(spec), "f4"), jnp.asarray)
    shp = {"unravel1": (3, m), "unravel-1": (2, m), "partial": (m, leaves(spec)[0].shape[-1] if how == "partial" else 1)}.get(how, (m,))
    arr = jnp.arange(int(np.prod(shp)), dtype="f4").reshape(shp)
    call = {
        "unflatten": lambda: F.create_pytree_flattener(proto)[1](arr),
        "unflatten_jit": lambda: jax.jit(F.create_pytree_flattener(proto)[1])(arr),
        "unravel0": lambda: F.unravel_array_into_pytree(proto, 0, arr),
        "unravel1": lambda: F.unravel_array_into_pytree(proto, 1, arr),
        "unravel-1": lambda: F.unravel_array_into_pytree(proto, -1, arr),
        "partial": lambda: F.create_partial_pytree_flattener(proto)[1](arr),
    }[how]
    return [raises(Exception, call, f"{how}: array with {m} instead of {n} entries for {spec}"), m]


# ---- sizes and dtypes beyond the small trees ----------------------------------
BIG = {
    "long": {"w": L(300), "b": L(7)},
    "matrix": [L(33, 17), L(17)],
    "rank5": {"k": L(2, 3, 2, 2, 2), "a": (L(1, 1, 1, 1), L(3))},
    "many": [L(1 + i % 3) for i in range(70)],
    "manykeys": {f"p{i}": L(i % 4, 2) for i in range(12)},
    "deep": {"a": [{"b": ({"c": [L(2), {"d": (L(3), [[L()]])}]},)}]},
    "large": {"w": L(128, 130), "b": L(130)},
}


def plan_big(c):
    spec = c.choose("spec", sorted(BIG))
    dt = c.choose("dtype", ["float32", "float64", "float16", "bfloat16", "int8", "int32", "uint8", "bool", "complex64", "mixed"])
    return spec, dt, c.choose("mode", ["eager", "jit"])


def check_big(cfg):
    name, dt, mode = cfg
    spec = BIG[name]
    n = size(spec)
    base = (np.arange(n) * 7) % 113 - (0 if dt in ("uint8", "bool") else 50)
    if dt == "complex64":
        base = base + 1j * ((np.arange(n) * 3) % 17)
    if dt == "bool":
        base = base % 3 == 0
    tree = from_flat(spec, base, (lambda x: jnp.asarray(x, dtype=dt)) if dt != "mixed" else jnp.asarray)
    if dt == "mixed":
        it = iter(range(10**6))
        tree = jax.tree.map(lambda x: x.astype(["float32", "int32", "float16"][next(it) % 3]), tree)
    flatten, unflatten = F.create_pytree_flattener(tree)
    if mode == "jit":
        flatten, unflatten = jax.jit(flatten), jax.jit(unflatten)
    v = flatten(tree)
    if dt != "mixed" and v.dtype != jnp.dtype(dt):
        fail(f"flatten changed dtype {dt} -> {v.dtype}")
    asnp = lambda x: np.asarray(x.astype("float32") if x.dtype == jnp.bfloat16 else x)  # noqa: E731
    equal(asnp(v), base, f"flatten {name}/{dt}")
    back = unflatten(v)
    if not same_structure(tree, back):
        fail("unflatten structure")
    for g, w in zip(leaves(back), leaves(tree)):
        equal(asnp(g), asnp(w), "unflatten(flatten(t)) leaf")
        if dt != "mixed" and g.dtype != w.dtype:
            fail(f"unflatten leaf dtype {g.dtype} vs {w.dtype}")
    ident = jnp.stack([v, v[::-1]], 0)
    out = F.unravel_array_into_pytree(tree, 1, ident)
    p = 0
    for g, l in zip(leaves(out), leaves(spec)):
        k = int(np.prod(l.shape))
        equal(asnp(g), asnp(ident)[:, p : p + k].reshape(2, *l.shape), "unravel leaf")
        p += k
    return asnp(v)


def scenarios(tier):
    depth = 2 if tier == "quick" else 3
    out = [
        Enum("tree_depth1", plan_tree(1), check_tree, x64=False),
        Enum(f"tree_depth{depth}", plan_tree(depth), check_tree, x64=False),
        Enum("batched", plan_batched, check_batched, x64=True),
        Enum("partial", plan_partial, check_partial, x64=False),
        Enum("unravel", plan_unravel, check_unravel, x64=False),
        Enum("wrap", plan_wrap, check_wrap, x64=False),
        Enum("wrong_length", plan_wrong, check_wrong, x64=False),
        Enum("large_and_dtypes", plan_big, check_big, x64=True),
    ]
    return out
