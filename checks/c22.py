"""C22 dataset evaluation == stream evaluation, sample by sample; caller's containers untouched."""

import copy
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.eval import metrics as lm
from laplax.eval.utils import apply_fns, evaluate_metrics_on_dataset, evaluate_metrics_on_generator, evaluate_on_dataset, transfer_entry
from mc.core import Dyn, Enum, Skip
from mc.lib import A, close, compositions, equal, fail, norm_cdf, norm_pdf, raises, vals

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all partitions x sources x metric containers x reductions, and of all call histories (with faults) on shared metric containers, against a per-sample reference"
RULE = "every ordered partition of the samples x stream kind x item format x metric container x reduction; every batch-size option of the dataset path; every history of evaluation calls (incl. failing ones) on shared containers to the depth"
BOUNDS = {
    "quick": "N <= 4 samples, 4 stream kinds, dict/tuple/list items, 5 metric containers, 4 reductions; histories of depth 2 over 9 operations, depth 3 over the 4 that share containers; N = 41 / 64 / 130 in 8 batch layouts and 8 batch sizes, metrics of every dtype",
    "thorough": "N <= 5 samples, histories of depth 3 over 9 operations",
}
W = np.array([[0.7, -0.4], [0.2, 0.9]])
b = np.array([0.1, -0.3])
SHAPES = {"vector": (2,), "scalar": (), "matrix": (2, 2)}


def f_np(x):
    x = np.asarray(x, float)
    v = np.array([x, 2 * x]) if x.ndim == 0 else x.sum(0) if x.ndim == 2 else x
    return np.tanh(W @ v + b)


def pred_fn(x):
    v = jnp.stack([x, 2 * x]) if x.ndim == 0 else x.sum(0) if x.ndim == 2 else x
    f = jnp.tanh(jnp.asarray(W) @ v + jnp.asarray(b))
    return {"map": f, "pred_mean": 1.1 * f, "pred_std": 0.3 + f**2, "pred_cov": jnp.outer(f, f)}


def data_of(n, shape):
    sh = SHAPES[shape]
    X = vals(max(1, n * int(np.prod(sh))), 5, -2, 2)[: n * int(np.prod(sh))].reshape((n,) + sh)
    Y = vals(2 * n, 6, -1, 1).reshape(n, 2)
    return X, Y


# ----------------------------------------------------------------- metric containers
def m_dot(pred_mean, target, scale=1.0, **kw):
    return scale * jnp.dot(pred_mean, target)


def m_diff(pred_mean, target, **kw):
    return pred_mean - 2 * target


def m_gain(dot, std, **kw):
    return dot / std.sum()


def custom():
    return [
        apply_fns(m_dot, m_diff, names=["dot", "diff"], pred_mean="pred_mean", target="target"),
        transfer_entry({"where": "map"}),
        apply_fns(m_gain, names=["gain"], dot="dot", std="pred_std"),
    ]


def ref_custom(x, y, scale=1.0):
    f = f_np(x)
    m, s = 1.1 * f, 0.3 + f**2
    return {"dot": scale * (m @ y), "diff": m - 2 * y, "where": f, "gain": scale * (m @ y) / s.sum()}


def m_all(*, map, pred_std, target, **kw):
    return (map * pred_std * target).sum()


TABLE = {"product": m_all, "dot2": m_dot}


def ref_table(x, y, scale=1.0):
    f = f_np(x)
    return {"product": (f * (0.3 + f**2) * y).sum(), "dot2": scale * (1.1 * f @ y)}


def ref_default(x, y, scale=1.0):
    f = f_np(x)
    m, s = 1.1 * f, 0.3 + f**2
    z = (y - m) / s
    return {"rmse": np.sqrt(((m - y) ** 2).mean()), "chi^2": (z**2).mean(), "nll": (np.log(s) + 0.5 * np.log(2 * np.pi) + z**2 / 2).mean(),
            "crps": (s * (z * (2 * norm_cdf(z) - 1) + 2 * norm_pdf(z) - 1 / np.sqrt(np.pi))).mean()}


def container(kind):
    """-> kwargs for the evaluation call, reference"""
    if kind == "list":
        return {"metrics": custom()}, ref_custom
    if kind == "tuple":
        return {"metrics": tuple(custom())}, ref_custom
    if kind == "dict":
        return {"metrics_dict": dict(TABLE)}, ref_table
    if kind == "default":
        return {"metrics": lm.DEFAULT_REGRESSION_METRICS}, ref_default
    if kind == "default_dict":
        return {"metrics_dict": lm.DEFAULT_REGRESSION_METRICS_DICT}, ref_default
    return {"metrics": custom(), "metrics_dict": dict(TABLE)}, lambda x, y, scale=1.0: {**ref_custom(x, y, scale), **ref_table(x, y, scale)}


def reference(ref, X, Y, scale=1.0):
    rows = [ref(x, y, scale) for x, y in zip(X, Y)]
    return {k: np.stack([np.asarray(r[k]) for r in rows]) for k in rows[0]}


def compare(got, want, what):
    if set(got) != set(want):
        fail(f"{what}: metrics {sorted(got)} instead of {sorted(want)}")
    for k in want:
        close(got[k], want[k], f"{what}: {k}", rtol=1e-8, atol=1e-10)
    return got


def snapshot(kw):
    return [(k, list(v) if not isinstance(v, dict) else dict(v)) for k, v in kw.items()], list(lm.DEFAULT_REGRESSION_METRICS), dict(lm.DEFAULT_REGRESSION_METRICS_DICT)


def unchanged(kw, snap, what):
    now = snapshot(kw)
    for (k, a), (_, c) in zip(snap[0], now[0]):
        if type(a) is not type(c) or len(a) != len(c) or (any(x is not y for x, y in zip(a, c)) if isinstance(a, list) else list(a.items()) != list(c.items())):
            fail(f"{what}: caller's {k} changed from {len(a)} to {len(c)} entries")
    if len(now[1]) != len(snap[1]) or any(x is not y for x, y in zip(now[1], snap[1])) or now[2] != snap[2]:
        fail(f"{what}: the library's default metric table changed")


# ----------------------------------------------------------------- streams
class Stream:
    def __init__(self, items):
        self.items, self.passes = items, 0

    def __iter__(self):
        self.passes += 1
        return iter(self.items)


def stream(kind, items):
    return {"list": lambda: items, "generator": lambda: (i for i in items), "tuple": lambda: tuple(items), "iterable": lambda: Stream(items)}[kind]()


def item(fmt, x, y):
    if fmt == "dict":
        return {"target": y, "input": x}
    return (x, y) if fmt == "tuple" else [x, y]


def transform(fmt):
    return {} if fmt == "dict" else {"transform": lambda d: {"input": d[0], "target": d[1]}}


REDUCE = {
    "identity": (None, None),
    "concatenate": (jnp.concatenate, lambda bs: np.concatenate(bs)),
    "mean": (lambda v: jnp.concatenate(v).mean(0), lambda bs: np.concatenate(bs).mean(0)),
    "sizes": (lambda v: jnp.asarray([len(a) for a in v]), lambda bs: np.array([len(a) for a in bs])),
}


def plan_stream(nmax):
    def plan(c):
        n = c.choose("samples", range(1, nmax + 1))
        parts = c.choose("partition", compositions(n))
        src = c.choose("source", ["list", "generator", "tuple", "iterable"])
        fmt = c.choose("items", ["dict", "tuple", "list"])
        cont = c.choose("metrics", ["list", "tuple", "dict", "default", "default_dict", "both"])
        red = c.choose("reduce", list(REDUCE))
        shape = c.choose("input", list(SHAPES))
        # the axes interact pairwise at most: vary at most two of the five options at once
        off = (src != "generator") + (fmt != "dict") + (cont != "list") + (red != "concatenate") + (shape != "vector")
        if off > (1 if n == nmax else 2):
            raise Skip
        return n, parts, src, fmt, cont, red, shape

    return plan


def check_stream(cfg):
    n, parts, src, fmt, cont, red, shape = cfg
    X, Y = data_of(n, shape)
    items, pos = [], 0
    for p in parts:
        items.append(item(fmt, jnp.asarray(X[pos : pos + p]), jnp.asarray(Y[pos : pos + p])))
        pos += p
    kw, ref = container(cont)
    snap = snapshot(kw)
    rf, rn = REDUCE[red]
    s = stream(src, items)
    got = evaluate_metrics_on_generator(pred_fn, s, **kw, **transform(fmt), **({} if rf is None else {"reduce": rf}))
    unchanged(kw, snap, "stream evaluation")
    if src == "iterable" and s.passes != 1:
        fail(f"the stream was iterated {s.passes} times")
    full = reference(ref, X, Y)
    what = f"stream {parts} ({src} of {fmt} items, {cont}, {red})"
    if set(got) != set(full):
        fail(f"{what}: metrics {sorted(got)}")
    cuts = np.cumsum(parts)[:-1]
    for k, v in full.items():
        bs = np.split(v, cuts)
        if rn is None:
            if not isinstance(got[k], list) or len(got[k]) != len(bs):
                fail(f"{what}: {k} is not one entry per batch")
            for g, w in zip(got[k], bs):
                close(g, w, f"{what}: {k}", rtol=1e-8, atol=1e-10)
        else:
            close(got[k], rn(bs), f"{what}: {k}", rtol=1e-8, atol=1e-10)
    if red == "concatenate":  # agrees with the dataset path
        kw2, _ = container(cont)
        ds = evaluate_metrics_on_dataset(pred_fn, {"input": jnp.asarray(X), "target": jnp.asarray(Y)}, **kw2)
        for k in full:
            close(got[k], A(ds[k]), f"{what}: dataset vs stream {k}", rtol=1e-12, atol=1e-12)
    return {k: A(v) if rn else [A(a) for a in v] for k, v in got.items()}


def plan_single(c):
    n = c.choose("samples", [0, 1, 2, 4])
    cont = c.choose("metrics", ["list", "dict", "default", "both"])
    fmt = c.choose("items", ["dict", "tuple"])
    src = c.choose("source", ["list", "generator"])
    red = c.choose("reduce", ["none", "stack", "sum"])
    scale = c.choose("extra", [None, 3.0])
    if n == 0 and (scale or red == "sum"):
        raise Skip
    return n, cont, fmt, src, red, scale


def check_single(cfg):
    """Streams of single data points (no batch axis) and extra keyword arguments."""
    n, cont, fmt, src, red, scale = cfg
    X, Y = data_of(n, "vector")
    kw, ref = container(cont)
    snap = snapshot(kw)
    items = [item(fmt, jnp.asarray(x), jnp.asarray(y)) for x, y in zip(X, Y)]
    extra = {} if scale is None else {"scale": scale}
    rk = {"none": {}, "stack": {"reduce": jnp.stack}, "sum": {"reduce": lambda v: sum(v)}}[red]
    got = evaluate_metrics_on_generator(pred_fn, stream(src, items), vmap_over_data=False, **kw, **transform(fmt), **rk, **extra)
    unchanged(kw, snap, "single-point stream")
    if n == 0:
        if got != {}:
            fail("empty stream must evaluate to no metrics")
        return "empty"
    want = reference(ref, X, Y, scale or 1.0)
    if red == "none":
        got = {k: np.stack([A(a) for a in v]) for k, v in got.items()}
    return compare(got, want if red != "sum" else {k: v.sum(0) for k, v in want.items()}, f"single points {cfg}")


# ----------------------------------------------------------------- in-memory datasets
def plan_data(nmax):
    def plan(c):
        n = c.choose("samples", range(1, nmax + 1))
        bs = c.choose("batch_size", [None] + list(range(1, n + 2)))
        opt = c.choose("option", ["specific", "data_batch_size", "both"]) if bs else "none"
        cont = c.choose("metrics", ["list", "tuple", "dict", "default", "both"])
        red = c.choose("reduce", ["none", "mean", "first"])
        scale = c.choose("extra", [None, 3.0])
        shape = c.choose("input", list(SHAPES))
        off = (cont != "list") + (red != "none") + (scale is not None) + (shape != "vector") + (opt == "both")
        if off > 1:
            raise Skip
        return n, bs, opt, cont, red, scale, shape

    return plan


def check_data(cfg):
    n, bs, opt, cont, red, scale, shape = cfg
    X, Y = data_of(n, shape)
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    kw, ref = container(cont)
    snap = snapshot(kw)
    extra = {} if scale is None else {"scale": scale}
    ob = lambda nm: {"none": {}, "specific": {nm: bs}, "data_batch_size": {"data_batch_size": bs}, "both": {nm: bs, "data_batch_size": n + 3}}[opt]  # noqa: E731
    rk = {"none": {}, "mean": {"reduce": lambda v: v.mean(0)}, "first": {"reduce": lambda v: v[0]}}[red]
    got = evaluate_metrics_on_dataset(pred_fn, data, **kw, **rk, **extra, **ob("evaluate_metrics_on_dataset_batch_size"))
    unchanged(kw, snap, "dataset evaluation")
    want = reference(ref, X, Y, scale or 1.0)
    want = {k: {"none": v, "mean": v.mean(0), "first": v[0]}[red] for k, v in want.items()}
    compare(got, want, f"dataset {cfg}")
    p = evaluate_on_dataset(pred_fn, data, **ob("evaluate_on_dataset_batch_size"))
    F = np.stack([f_np(x) for x in X])
    compare(p, {"map": F, "pred_mean": 1.1 * F, "pred_std": 0.3 + F**2, "pred_cov": F[:, :, None] * F[:, None, :], "target": Y}, f"predictions on dataset {cfg}")
    if set(data) != {"input", "target"}:
        fail("data dictionary changed")
    return {k: A(v) for k, v in got.items()}


# ----------------------------------------------------------------- many samples, many batches
LAYOUTS = {
    "one": lambda n: [n], "singles": lambda n: [1] * n, "pairs": lambda n: [2] * (n // 2) + [1] * (n % 2), "tail": lambda n: [16] * ((n - 1) // 16) + [n - 16 * ((n - 1) // 16)],
    "head": lambda n: [1, n - 1], "growing": lambda n: grow(n), "shrinking": lambda n: grow(n)[::-1], "mixed": lambda n: [3, 1, n - 9, 4, 1],
}


def grow(n):
    out = []
    while sum(out) < n:
        out.append(min(len(out) + 1, n - sum(out)))
    return out


def m_count(target, **kw):
    return (target > 0).sum()


def m_flag(pred_mean, target, **kw):
    return pred_mean[0] > target[0]


def typed():
    """metrics with integer, boolean, single-precision and array-valued results"""
    return [apply_fns(m_count, m_flag, names=["count", "flag"], pred_mean="pred_mean", target="target"), transfer_entry({"cov": "pred_cov"}),
            apply_fns(lambda target, **kw: target.astype(jnp.float32), names=["single"], target="target")]


def ref_typed(x, y, scale=1.0):
    f = f_np(x)
    return {"count": (y > 0).sum(), "flag": 1.1 * f[0] > y[0], "cov": np.outer(f, f), "single": y.astype(np.float32)}


def plan_large(c):
    n = c.choose("samples", [41, 64, 130])
    how = c.choose("path", ["stream", "points", "dataset"])
    lay = c.choose("layout", list(LAYOUTS) if how == "stream" else [None, 1, 7, 32, 64, n - 1, n, n + 1] if how == "dataset" else ["points"])
    src = c.choose("source", ["list", "generator", "iterable"]) if how != "dataset" else "dataset"
    cont = c.choose("metrics", ["typed", "list", "dict", "default", "both"])
    red = c.choose("reduce", ["concatenate", "identity"]) if how == "stream" else "concatenate"
    big = c.choose("targets", [1.0, 1e4])
    if (src not in ("generator", "dataset")) + (cont != "typed") + (red != "concatenate") + (n != 41) + (big != 1) > 1:
        raise Skip
    return n, how, lay, src, cont, red, big


def check_large(cfg):
    n, how, lay, src, cont, red, big = cfg
    X, Y = data_of(n, "vector")
    Y = big * (Y + 0.01 * np.arange(n)[:, None])
    kw, ref = ({"metrics": typed()}, ref_typed) if cont == "typed" else container(cont)
    snap = snapshot(kw)
    full = reference(ref, X, Y)
    Xj, Yj = jnp.asarray(X), jnp.asarray(Y)
    data = {"input": Xj, "target": Yj}
    if how == "dataset":
        got = evaluate_metrics_on_dataset(pred_fn, data, **kw, **({"evaluate_metrics_on_dataset_batch_size": lay} if lay else {}))
        p = evaluate_on_dataset(pred_fn, data, **({"evaluate_on_dataset_batch_size": lay} if lay else {}))
        close(p["map"], np.stack([f_np(x) for x in X]), f"{cfg}: predictions", rtol=1e-10, atol=1e-12)
        close(p["target"], Y, f"{cfg}: targets", rtol=1e-15)
    elif how == "points":
        got = evaluate_metrics_on_generator(pred_fn, stream(src, [{"input": x, "target": y} for x, y in zip(Xj, Yj)]), vmap_over_data=False, reduce=jnp.stack, **kw)
    else:
        parts = LAYOUTS[lay](n)
        cuts = np.cumsum([0, *parts])
        items = [{"input": Xj[i:j], "target": Yj[i:j]} for i, j in zip(cuts[:-1], cuts[1:])]
        got = evaluate_metrics_on_generator(pred_fn, stream(src, items), **kw, **({} if red == "identity" else {"reduce": jnp.concatenate}))
        if red == "identity":
            if any(len(v) != len(parts) or [len(b) for b in v] != parts for v in got.values()):
                fail(f"{cfg}: not one entry per batch")
            got = {k: np.concatenate([A(b) for b in v]) for k, v in got.items()}
    unchanged(kw, snap, f"evaluation {cfg}")
    if cont == "typed":
        for k in full:
            if A(got[k]).dtype.kind != full[k].dtype.kind:
                fail(f"{cfg}: {k} has dtype {A(got[k]).dtype}")
    return compare(got, full, f"{cfg}")


# ----------------------------------------------------------------- call histories
class Boom(Exception):
    pass


OPS = ["data:list", "data:list+dict", "gen:list+dict", "gen:list", "data:default+dict", "gen:default+dict", "gen:dict", "gen:default", "fault:stream", "fault:metric", "fault:none"]
SHARED = ["data:list+dict", "gen:list+dict", "data:list", "gen:default+dict"]


def body(depth, menu):
    def go(c, first):
        X, Y = data_of(3, "vector")
        data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
        batches = lambda: ({"input": jnp.asarray(X[s]), "target": jnp.asarray(Y[s])} for s in (slice(0, 2), slice(2, 3)))  # noqa: E731
        lst, dct = custom(), dict(TABLE)
        obs = []
        everything = {"metrics": lst, "metrics_dict": dct}
        snap = snapshot(everything)
        try:
            for d in range(depth):
                op = first if d == 0 else c.choose(f"op{d}", menu)
                where, what = op.split(":")
                if where == "fault":
                    if what == "none":
                        raises(ValueError, lambda: evaluate_metrics_on_dataset(pred_fn, data), "no metrics")
                        raises(ValueError, lambda: evaluate_metrics_on_generator(pred_fn, batches()), "no metrics")
                    elif what == "stream":
                        def bad():
                            yield next(batches())
                            raise Boom

                        raises(Boom, lambda: evaluate_metrics_on_generator(pred_fn, bad(), metrics=lst, metrics_dict=dct), "failing stream")
                    else:
                        def boom(**kw):
                            raise Boom

                        for fn, src in ((evaluate_metrics_on_dataset, data), (evaluate_metrics_on_generator, batches())):
                            raises(Boom, lambda: fn(pred_fn, src, metrics=lst, metrics_dict={"boom": boom}), "failing metric")  # noqa: B023
                    obs.append(op)
                else:
                    kw, refs = {}, []
                    for w in what.split("+"):
                        if w == "dict":
                            kw["metrics_dict"] = dct
                            refs.append(ref_table)
                        else:
                            kw["metrics"] = lst if w == "list" else lm.DEFAULT_REGRESSION_METRICS
                            refs.append(ref_custom if w == "list" else ref_default)
                    if where == "data":
                        got = evaluate_metrics_on_dataset(pred_fn, data, **kw)
                    else:
                        got = evaluate_metrics_on_generator(pred_fn, batches(), reduce=jnp.concatenate, **kw)
                    want = {}
                    for r in refs:
                        want.update(reference(r, X, Y))
                    compare(got, want, f"call {d} ({op})")
                    obs.append(sorted(got))
                unchanged(everything, snap, f"after call {d} ({op})")
        finally:  # a violating run must not spoil the next one
            lm.DEFAULT_REGRESSION_METRICS[:] = snap[1]
        return obs

    return go


def scenarios(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [Dyn("histories", body(2 if q else 3, OPS), OPS), Dyn("shared", body(3 if q else 4, SHARED), SHARED),
            Enum("streams", plan_stream(n), check_stream), Enum("large", plan_large, check_large), Enum("points", plan_single, check_single), Enum("datasets", plan_data(n), check_data)]
