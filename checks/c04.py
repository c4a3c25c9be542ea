"""C04 streaming a data set in batches never changes the result."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import loader as LD
from laplax.util.flatten import wrap_function
from laplax.util.mv import diagonal, to_dense
from mc.core import Dyn, Enum, Skip
from mc.lib import A, L, build, close, compositions, equal, fail, from_flat, leaves, mat, raises, same_structure, size, to_flat, tree_close, vals

LEVEL = "model_checking"
RULE = "every ordered partition of the samples x loader kind x reduction x options; every operation history on the streamed operator"
BOUNDS = {
    "quick": "N<=5 samples (all 16 ordered partitions of 5, all of 1..4), 5 loader kinds, 6 reductions; operator histories of depth 3 over 6 operations; 8 types of results (values near the end of the type) x partitions of N<=4; exception at every batch",
    "thorough": "N<=7, histories of depth 4",
}


class Reiter:
    def __init__(self, items):
        self.items, self.iters = items, 0

    def __iter__(self):
        self.iters += 1
        return iter(list(self.items))


def make_loader(kind, batches):
    if kind == "list":
        return list(batches)
    if kind == "tuple":
        return tuple(batches)
    if kind == "reiter":
        return Reiter(batches)
    if kind == "gen":
        return (b for b in batches)
    if kind == "map":
        return map(lambda b: b, batches)
    raise KeyError(kind)


def split(parts, *arrs):
    out, p = [], 0
    for k in parts:
        out.append(tuple(a[p : p + k] for a in arrs))
        p += k
    return out


def all_parts(nmax):
    return [p for n in range(1, nmax + 1) for p in compositions(n)]


# ---------------------------------------------------------------- reductions
def plan_reduce(nmax):
    def plan(c):
        parts = c.choose("parts", all_parts(nmax))
        kind = c.choose("loader", ["list", "tuple", "reiter", "gen", "map"])
        red = c.choose("reduce", ["default", "mean", "sum_keep", "sum_nokeep", "add", "concat", "concat1"])
        fmt = c.choose("batch", ["tuple", "dict"])
        api = c.choose("api", ["process", "execute", "wrap"])
        if api == "process" and red == "default":
            raise Skip
        jit = c.choose("jit", [False, True]) if api != "process" and len(parts) <= 2 else False
        return parts, kind, red, fmt, api, jit

    return plan


def check_reduce(cfg):
    parts, kind, red, fmt, api, jit = cfg
    n = sum(parts)
    X = vals(n * 2, 1).reshape(n, 2)
    Y = vals(n, 2)
    w = 1.7
    raw = split(parts, jnp.asarray(X), jnp.asarray(Y))
    batches = raw if fmt == "tuple" else [{"x": a, "y": b} for a, b in raw]
    loader = make_loader(kind, batches)
    seen = []

    def fn(w, *, data, scale=1.0):
        if not jit:
            seen.append(A(data["target"]).copy())
        per = scale * w * data["input"] + data["target"][:, None]  # (b, 2)
        if red == "add":
            return {"g": jnp.sum(per, 0), "s": jnp.sum(data["target"])}
        if red == "concat1":
            return {"g": per.T, "t": (data["target"][None, :],)}
        return {"g": per, "t": (data["target"] ** 2,)}

    transform = LD.input_target_split if fmt == "tuple" else (lambda b: {"input": b["x"], "target": b["y"]})
    reduce = {
        "default": None, "mean": LD.reduce_online_mean, "add": LD.reduce_add,
        "sum_keep": LD.reduce_sum, "sum_nokeep": lambda r, s=None: LD.reduce_sum(r, s, keepdims=False),
        "concat": LD.reduce_concat, "concat1": lambda r, s=None: LD.reduce_concat(r, s, axis=1),
    }[red]
    per = 2.0 * w * X + Y[:, None]
    t2 = Y**2
    want = {
        "default": {"g": per.mean(0), "t": (t2.mean(),)}, "mean": {"g": per.mean(0), "t": (t2.mean(),)},
        "sum_keep": {"g": per.sum(0, keepdims=True), "t": (t2.sum(keepdims=True),)},
        "sum_nokeep": {"g": per.sum(0), "t": (t2.sum(),)},
        "add": {"g": per.sum(0), "s": Y.sum()},
        "concat": {"g": per, "t": (t2,)},
        "concat1": {"g": per.T, "t": (Y[None],)},
    }[red]
    kw = {} if reduce is None else {"reduce": reduce}
    if fmt == "dict" or api == "process":
        kw["transform"] = transform
    if api == "process":
        got = LD.process_batches(fn, loader, transform, reduce, w, scale=2.0)
    elif api == "execute":
        got = LD.execute_with_data_loader(lambda *, data, w, scale: fn(w, data=data, scale=scale), loader, jit=jit, w=w, scale=2.0, **kw)
    else:
        f = LD.wrap_function_with_data_loader(fn, loader, jit=jit, **kw)
        got = f(w, scale=2.0)
        if kind in ("list", "tuple", "reiter"):
            again = f(w, scale=2.0)
            tree_close(again, want, f"second pass, {red}", rtol=1e-9)
    obs = tree_close(got, want, f"{api}/{red} over partition {parts}", rtol=1e-9)
    if not jit and len(seen) and not np.array_equal(np.concatenate(seen)[:n], Y):
        fail(f"batches were not visited in order, once each: {seen}")
    return obs


def plan_online(c):
    parts = c.choose("parts", all_parts(5))
    form = c.choose("form", ["vec", "scalar", "mixed"])
    return parts, form


def check_online(cfg):
    """The running mean after *every* prefix is the mean of what was seen."""
    parts, form = cfg
    n = sum(parts)
    X = vals(n * 3, 4).reshape(n, 3)
    state, p, obs = None, 0, []
    scal = []
    for k in parts:
        b = jnp.asarray(X[p : p + k])
        p += k
        scal.append(float(X[p - 1, 0]))
        item = {"vec": {"a": b}, "scalar": {"s": jnp.asarray(scal[-1])}, "mixed": {"a": b, "s": jnp.asarray(scal[-1])}}[form]
        got, state = LD.reduce_online_mean(item, state)
        want = {}
        if form != "scalar":
            want["a"] = X[:p].mean(0)
        if form != "vec":
            want["s"] = np.mean(scal)
        obs.append(tree_close(got, want, f"running mean after {p} samples", rtol=1e-10))
        tot, st = None, None
        for m in (LD.reduce_sum,):
            pass
    return obs


def plan_empty(c):
    return c.choose("api", ["process", "execute", "wrap", "dlmv", "dlmv_dense", "dlmv_diag"]), c.choose("loader", ["list", "tuple", "reiter", "gen", "map"])


def check_empty(cfg):
    api, kind = cfg
    ld = make_loader(kind, [])
    f = lambda *a, **k: jnp.zeros(2)
    call = {
        "process": lambda: LD.process_batches(f, ld, lambda b: b, LD.reduce_add),
        "execute": lambda: LD.execute_with_data_loader(f, ld),
        "wrap": lambda: LD.wrap_function_with_data_loader(f, ld)(1.0),
        "dlmv": lambda: LD.DataLoaderMV(f, ld)(jnp.zeros(2)),
        "dlmv_dense": lambda: to_dense(LD.DataLoaderMV(f, ld, reduce=LD.reduce_add), layout=2),
        "dlmv_diag": lambda: diagonal(LD.DataLoaderMV(f, ld, reduce=LD.reduce_add), layout=2),
    }[api]
    return raises(ValueError, call, f"{api} on an empty loader")


# ------------------------------------------------------ streamed operators
SPECS = [L(3), {"b": L(2), "a": L()}, {"w": L(1, 2), "c": [L(1)]}]


def batch_mv(spec):
    def mv(vec, data):
        v = jnp.concatenate([jnp.reshape(x, -1) for x in leaves(vec)]) if not isinstance(vec, jax.Array) else vec
        w = jnp.einsum("nij,j->i", data["input"], v) + data["target"].sum() * v
        if isinstance(vec, jax.Array):
            return w
        pos = [0]

        def mk(i, l):
            k = int(np.prod(l.shape))
            o = w[pos[0] : pos[0] + k].reshape(l.shape)
            pos[0] += k
            return o

        return build(spec, mk)

    return mv


def plan_dlmv(nmax):
    def plan(c):
        spec = c.choose("spec", range(len(SPECS)))
        parts = c.choose("parts", all_parts(nmax))
        kind = c.choose("loader", ["list", "reiter", "gen"])
        op = c.choose("op", ["call", "dense", "diag", "dense_bs", "diag_bs", "diag_nojit"])
        if len(parts) > 3 and (op.endswith("bs") or kind == "list" or spec):
            raise Skip
        return spec, parts, kind, op

    return plan


def data_for(n):
    return vals(n * 9, 3).reshape(n, 3, 3), vals(n, 5)


def check_dlmv(cfg):
    si, parts, kind, op = cfg
    spec = SPECS[si]
    n = sum(parts)
    X, Y = data_for(n)
    full = X.sum(0) + Y.sum() * np.eye(3)
    dl = LD.DataLoaderMV(batch_mv(spec), make_loader(kind, split(parts, jnp.asarray(X), jnp.asarray(Y))), reduce=LD.reduce_add)
    layout = 3 if si == 0 else from_flat(spec, np.zeros(3), jnp.asarray)
    v = np.array([0.3, -1.2, 2.0])
    if op == "call":
        out = dl(from_flat(spec, v, jnp.asarray))
        return tree_close(out, from_flat(spec, full @ v), f"streamed product over {parts}", rtol=1e-9)
    if op.startswith("dense"):
        D = to_dense(dl, layout=layout, **({"to_dense_batch_size": 2} if op == "dense_bs" else {}))
        if si == 0:
            return close(D, full, "streamed to_dense", rtol=1e-9)
        row = 0
        obs = []
        for g, l in zip(leaves(D), leaves(spec)):
            k = int(np.prod(l.shape))
            g = A(g)
            cols = np.stack([np.transpose(g[..., j]).reshape(-1) for j in range(3)], 1)
            obs.append(close(cols, full[row : row + k], "streamed to_dense (tree)", rtol=1e-9))
            row += k
        return obs
    kw = {"diag": {}, "diag_bs": {"diagonal_batch_size": 2}, "diag_nojit": {"mv_jittable": False}}[op]
    return close(diagonal(dl, layout=layout, **kw), np.diag(full), f"streamed diagonal {kw}", rtol=1e-9)


def body_hist(depth):
    ins = {"I1": np.array([[1.0, 2, 0], [0, 1, 0], [0.5, 0, 1]]), "I2": np.array([[0, 1.0, 0], [1, 0, 0], [0, 0, 3]])}

    def body(c, parts):
        n = sum(parts)
        X, Y = data_for(n)
        full = X.sum(0) + Y.sum() * np.eye(3)
        ld = Reiter(split(parts, jnp.asarray(X), jnp.asarray(Y)))
        objs = [(LD.DataLoaderMV(batch_mv(L(3)), ld, reduce=LD.reduce_add), full, "M")]
        v = np.array([0.3, -1.2, 2.0])
        obs = []
        for step in range(depth):
            o, ref, nm = objs[c.choose(f"obj{step}", range(len(objs)))]
            op = c.choose(f"op{step}", ["call", "wrap_in", "wrap_out", "wrap_both", "dense", "diag"])
            if op == "call":
                obs.append(close(o(jnp.asarray(v)), ref @ v, f"call {nm}", rtol=1e-9))
            elif op == "dense":
                obs.append(close(to_dense(o, layout=3), ref, f"dense {nm}", rtol=1e-9))
            elif op == "diag":
                obs.append(close(diagonal(o, layout=3), np.diag(ref), f"diag {nm}", rtol=1e-9))
            else:
                I = jnp.asarray(ins["I1" if step % 2 == 0 else "I2"])
                O = jnp.asarray(ins["I2" if step % 2 == 0 else "I1"]).T
                fi = (lambda x, I=I: I @ x) if op != "wrap_out" else None
                fo = (lambda x, O=O: O @ x) if op != "wrap_in" else None
                new = wrap_function(o, input_fn=fi, output_fn=fo)
                r = ref @ A(I) if fi else ref
                r = A(O) @ r if fo else r
                objs.append((new, r, f"{op}{step}({nm})"))
        for o, ref, nm in objs:  # every operator ever made still means the same
            obs.append(close(o(jnp.asarray(v)), ref @ v, f"after history: {nm}", rtol=1e-9))
        return obs

    return body


def body_fault(c, parts):
    """mv raises at an arbitrary batch; the operator must stay usable and exact."""
    n = sum(parts)
    X, Y = data_for(n)
    full = X.sum(0) + Y.sum() * np.eye(3)
    cnt = {"k": 0, "at": None}
    inner = batch_mv(L(3))

    def mv(vec, data):
        k = cnt["k"]
        cnt["k"] += 1
        if cnt["at"] is not None and k == cnt["at"]:
            raise RuntimeError("boom")
        return inner(vec, data)

    dl = LD.DataLoaderMV(mv, Reiter(split(parts, jnp.asarray(X), jnp.asarray(Y))), reduce=LD.reduce_add)
    v = np.array([0.3, -1.2, 2.0])
    close(dl(jnp.asarray(v)), full @ v, "before fault", rtol=1e-9)
    op = c.choose("op", ["call", "dense", "diag"])
    cnt["k"], cnt["at"] = 0, c.choose("fault_at", range(len(parts)))
    call = {"call": lambda: dl(jnp.asarray(v)), "dense": lambda: to_dense(dl, layout=3), "diag": lambda: diagonal(dl, layout=3)}[op]
    raises(RuntimeError, call, "fault must propagate")
    cnt["at"] = None
    after = c.choose("after", ["call", "dense", "diag"])
    if after == "call":
        return close(dl(jnp.asarray(v)), full @ v, "call after fault", rtol=1e-9)
    if after == "dense":
        return close(to_dense(dl, layout=3), full, "dense after fault", rtol=1e-9)
    return close(diagonal(dl, layout=3), np.diag(full), "diag after fault", rtol=1e-9)


# ------------------------------------------------ many samples, many batches
PARTS_BIG = {
    "ones": [1] * 150, "even": [50] * 6, "ragged": [128, 128, 44], "front": [1, 299], "back": [299, 1], "one": [300],
    "wide": [7] * 40, "tiny_last": [100, 100, 100, 1],
}


def plan_big(c):
    parts = c.choose("parts", sorted(PARTS_BIG))
    red = c.choose("reduce", ["mean", "sum", "add", "concat", "dlmv", "dlmv_dense", "dlmv_diag"])
    return parts, red, c.choose("loader", ["list", "gen", "reiter"]), c.choose("offset", [0.0, 1e5])


def check_big(cfg):
    pn, red, kind, offset = cfg
    parts = PARTS_BIG[pn]
    n = sum(parts)
    X = vals(n * 3, 1).reshape(n, 3) + offset
    Y = vals(n, 2)
    loader = make_loader(kind, split(parts, jnp.asarray(X), jnp.asarray(Y)))
    if red.startswith("dlmv"):
        full = X.T @ (Y[:, None] ** 2 * X)
        dl = LD.DataLoaderMV(lambda vec, data: data["input"].T @ (data["target"] ** 2 * (data["input"] @ vec)), loader, reduce=LD.reduce_add)
        got, want = {
            "dlmv": lambda: (dl(jnp.asarray([0.3, -1.2, 2.0])), full @ [0.3, -1.2, 2.0]),
            "dlmv_dense": lambda: (to_dense(dl, layout=3), full),
            "dlmv_diag": lambda: (diagonal(dl, layout=3), np.diag(full)),
        }[red]()
        return close(got, want, f"{red} over {pn} batches of {n} samples", rtol=1e-9)
    fn = lambda *, data: {"g": data["input"], "t": data["target"][:, None] * data["input"]} if red != "add" else {"g": data["input"].sum(0), "t": data["target"] @ data["input"]}  # noqa: E731
    reduce = {"mean": LD.reduce_online_mean, "sum": LD.reduce_sum, "add": LD.reduce_add, "concat": LD.reduce_concat}[red]
    got = LD.execute_with_data_loader(fn, loader, reduce=reduce)
    full = {"g": X, "t": Y[:, None] * X}
    f = {"mean": lambda a: a.mean(0), "sum": lambda a: a.sum(0, keepdims=True), "add": lambda a: a.sum(0), "concat": lambda a: a}[red]
    return tree_close(got, {k: f(v) for k, v in full.items()}, f"{red} over {pn} batches of {n} samples", rtol=1e-9)


# ------------------------------------------------ what a reduction may be
def plan_custom(c):
    return c.choose("parts", all_parts(4)), c.choose("reduce", ["last", "first", "max", "count", "list", "falsy"]), c.choose("loader", ["list", "gen", "reiter"])


def check_custom(cfg):
    """Reductions are any (new, state) -> (result, state); states and results may be None-like."""
    parts, red, kind = cfg
    n = sum(parts)
    Y = vals(n, 2)
    seen = []

    def reduce(new, state=None):
        seen.append(state if state is None or isinstance(state, (int, float)) else None)
        if red == "last":
            return new, None
        if red == "first":
            return (new, new) if state is None else (state, state)
        if red == "max":
            m = float(new.max()) if state is None else max(state, float(new.max()))
            return m, m
        if red == "count":
            k = len(new) + (state or 0)
            return k, k
        if red == "list":
            s = [*(state or []), A(new)]
            return s, s
        return 0, 0  # a result that is false in a boolean context is still a result

    fn = lambda *, data: data["target"]  # noqa: E731
    got = LD.execute_with_data_loader(fn, make_loader(kind, split(parts, jnp.asarray(Y), jnp.asarray(Y))), reduce=reduce)
    cut = np.cumsum(parts)
    want = {
        "last": Y[n - parts[-1]:], "first": Y[: parts[0]], "max": Y.max(), "count": n,
        "list": None, "falsy": 0,
    }[red]
    if red == "list":
        if len(got) != len(parts):
            fail(f"{len(got)} reductions for {len(parts)} batches")
        return [close(g, Y[e - k : e], "batch", rtol=0) for g, e, k in zip(got, cut, parts)]
    return close(got, want, f"custom reduction {red} over {parts}", rtol=0)


# ------------------------------------------------------------ types of results
TYPES = {"uint8": 250, "int8": -120, "uint16": 65000, "int16": 32000, "int32": 70000, "bool": 1, "float32": 1.5, "float64": 1.5}


def plan_types(nmax):
    def plan(c):
        return c.choose("parts", all_parts(nmax)), c.choose("dtype", list(TYPES)), c.choose("reduce", ["default", "mean", "sum_keep", "sum_nokeep", "concat"]), c.choose("api", ["execute", "wrap"]), c.choose("jit", [False, True])

    return plan


def check_types(cfg):
    parts, dt, red, api, jit = cfg
    n = sum(parts)
    X = (np.arange(2 * n).reshape(n, 2) % 3 - 1 + TYPES[dt]).astype(dt) if dt != "bool" else np.arange(2 * n).reshape(n, 2) % 3 > 0
    Y = np.roll(X[:, 0], 1)
    loader = split(parts, jnp.asarray(X), jnp.asarray(Y))

    def fn(data):
        return {"a": data["input"], "b": (data["target"],)}

    reduce = {"default": None, "mean": LD.reduce_online_mean, "sum_keep": LD.reduce_sum, "sum_nokeep": lambda r, s=None: LD.reduce_sum(r, s, keepdims=False), "concat": LD.reduce_concat}[red]
    kw = {} if reduce is None else {"reduce": reduce}
    got = LD.execute_with_data_loader(fn, loader, jit=jit, **kw) if api == "execute" else LD.wrap_function_with_data_loader(fn, loader, jit=jit, **kw)()
    f = {"default": lambda x: x.astype(float).mean(0), "mean": lambda x: x.astype(float).mean(0), "sum_keep": lambda x: x.astype(float).sum(0, keepdims=True), "sum_nokeep": lambda x: x.astype(float).sum(0), "concat": lambda x: x}[red]
    tree_close(got, {"a": f(X), "b": (f(Y),)}, f"{red} of {dt} results, {api}, jit={jit}, batches {parts}", rtol=1e-6, atol=0)
    if red == "concat" and any(x.dtype != dt for x in leaves(got)):
        fail(f"concatenation of {dt} results has types {[str(x.dtype) for x in leaves(got)]}")
    return [str(x.dtype) for x in leaves(got)]


def scenarios(tier):
    q = tier == "quick"
    return [
        Enum("reductions", plan_reduce(5 if q else 7), check_reduce),
        Enum("types", plan_types(4 if q else 6), check_types),
        Enum("running_mean", plan_online, check_online),
        Enum("empty", plan_empty, check_empty),
        Enum("many_batches", plan_big, check_big),
        Enum("custom_reduction", plan_custom, check_custom),
        Enum("operator", plan_dlmv(4 if q else 6), check_dlmv),
        Dyn("operator_history", body_hist(3 if q else 4), [[2, 1], [3], [1, 1, 1]]),
        Dyn("fault", body_fault, [[1], [2, 1], [1, 1, 1]]),
    ]
