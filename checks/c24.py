"""C24 GGN() and laplace() equal the low-level construction, for every way to pass data and options."""

import jax
import jax.numpy as jnp
import numpy as np

from checks.c05 import dense_of, loss_args, ref_ggn, targets
from checks.c22 import LAYOUTS
from laplax.api import GGN, laplace
from laplax.curv.cov import CURVATURE_METHODS, create_posterior_fn
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data
from laplax.enums import CurvApprox, LossFn
from laplax.register import register_curvature_method
from mc.core import Dyn, Enum, Skip
from mc.lib import A, MODELS, Toy, close, compositions, fail, leaves, raises, to_flat, tree_close, vals

LEVEL = "exploration"
RULE = "every (model, loss, sample count, delivery incl. every partition into batches, batch format, factor, batch axis handling, transform) for GGN(); every (curvature kind and spelling, delivery, scaling, jit, loss) for laplace(); every invalid use; dense reference from complex-step Jacobians plus the low-level functions"
BOUNDS = {
    "quick": "6 models, 4 losses, N <= 3 (all partitions), 3 factors, tuple / dict / re-iterable streams; 4 built-in kinds + a registered one, 3 spellings, 4 scalings; N = 40 / 129 in 8 batch layouts, up to 93 parameters, factors 1e-4..6e4",
    "thorough": "N <= 4, all option pairs",
}
LOSSES = ["mse", "cross_entropy", "binary_cross_entropy", "custom"]


class Loader:
    def __init__(self, items):
        self.items, self.passes = items, 0

    def __iter__(self):
        self.passes += 1
        return iter(self.items)


class Pairs:
    """Target transform: the raw batch is (index, input, target, junk)."""


def deliver(how, parts, X, Y):
    """data argument, transform argument"""
    if how == "tuple":
        return (X, Y), {}
    if how == "dict":
        return {"target": Y, "input": X, "other": np.arange(3)}, {}  # keys decide, not positions
    if how == "custom":
        return {"a": Y, "b": X}, {"transform": lambda d: {"input": d["b"], "target": d["a"]}}
    cuts = np.cumsum([0, *parts])
    b = [(X[i:j], Y[i:j]) for i, j in zip(cuts[:-1], cuts[1:])]
    if how == "stream_dict":
        return Loader([{"target": y, "input": x} if k % 2 else {"input": x, "target": y} for k, (x, y) in enumerate(b)]), {}
    if how == "stream_list":
        return Loader([[x, y] for x, y in b]), {}
    if how == "stream_custom":
        return Loader([(0, y, x) for x, y in b]), {"transform": lambda d: {"input": d[2], "target": d[1]}}
    return Loader(b), {}


HOW = ["tuple", "dict", "custom", "stream", "stream_dict", "stream_list", "stream_custom"]


def batched(t):
    return lambda input, params: jax.vmap(lambda x: t.model_fn(x, params))(input)


def plan_ggn(nmax, wide):
    def plan(c):
        model = c.choose("model", list(MODELS))
        loss = c.choose("loss", LOSSES)
        if loss == "cross_entropy" and model in ("scalarout", "multi", "scale"):
            raise Skip
        n = c.choose("n", range(1, nmax + 1))
        how = c.choose("data", HOW)
        parts = c.choose("batches", compositions(n)) if how.startswith("stream") else (n,)
        fac = c.choose("factor", [1.0, 0.25, 3, None])
        vm = c.choose("batch_axis", ["vmap", "model"])
        verbose = c.choose("verbose", [True, False])
        enum = c.choose("loss_form", ["enum", "string"])
        if vm == "model" and loss not in ("mse", "binary_cross_entropy"):
            raise Skip
        if loss == "custom" and enum == "string":
            raise Skip
        off = (how not in ("tuple", "stream")) + (fac != 0.25) + (vm == "model") + (not verbose) + (enum == "string")
        if off > (2 if wide else 1) or (off and model in ("bare", "scalarout", "mlp") and not wide and n < nmax):
            raise Skip
        return model, loss, n, how, parts, fac, vm, verbose, enum

    return plan


def check_ggn(cfg):
    model, loss, n, how, parts, fac, vm, verbose, enum = cfg
    t = Toy(model)
    xs, ys = t.xs(n), targets(t, loss, n)
    data, kw = deliver(how, parts, jnp.asarray(xs), jnp.asarray(ys))
    if fac is not None:
        kw["factor"] = fac
    fn = t.model_fn if vm == "vmap" else batched(t)
    mv = GGN(fn, t.params, data, verbose_logging=verbose, vmap_over_data=vm == "vmap", **loss_args(loss, enum == "enum"), **kw)
    want = (1.0 if fac is None else fac) * ref_ggn(t, loss, xs, ys)
    tol = dict(rtol=1e-8, atol=1e-9)
    v = vals(t.P, 8)
    out = mv(t.tree(v))
    tree_close(out, t.tree(want @ v), f"GGN product ({cfg})", **tol)
    if how.startswith("stream"):
        for j in range(t.P) if n == 2 else (0,):
            e = np.eye(t.P)[j]
            close(to_flat(mv(t.tree(e))), want @ e, f"column {j} ({cfg})", **tol)
    else:
        close(dense_of(t, mv), want, f"GGN matrix ({cfg})", **tol)
        low = create_ggn_mv(fn, t.params, {"input": jnp.asarray(xs), "target": jnp.asarray(ys)}, num_curv_samples=1, num_total_samples=1.0 if fac is None else fac,
                            vmap_over_data=vm == "vmap", **loss_args(loss, enum == "enum"))
        tree_close(out, low(t.tree(v)), "high-level vs low-level product", rtol=1e-12, atol=1e-12)
    return want @ v


# ----------------------------------------------------------------- laplace()
KINDS = ["full", "diagonal", "lanczos", "lobpcg", "registered"]


def register():
    if "c24_half" not in CURVATURE_METHODS:
        from laplax.curv.full import create_full_curvature

        register_curvature_method("c24_half", create_curvature_fn=lambda mv, layout, **kw: 0.5 * create_full_curvature(mv, layout=layout), default="full")
    return "c24_half"


def plan_laplace(wide):
    def plan(c):
        kind = c.choose("kind", KINDS)
        form = c.choose("form", ["enum", "string", "upper"])
        if kind == "registered" and form != "string":
            raise Skip
        how = c.choose("data", ["tuple", "dict", "stream", "stream_dict"])
        sc = c.choose("scaling", [(None, None), (3, 12), (12, 3), (None, 6)])
        jit = c.choose("jit", [False, True])
        loss = c.choose("loss", ["mse", "cross_entropy", "custom"])
        vm = c.choose("batch_axis", ["vmap", "model"])
        off = (form != "enum") + (how != "tuple") + (sc != (3, 12)) + jit + (loss != "mse") + (vm == "model")
        if vm == "model" and loss != "mse":
            raise Skip
        if off > (3 if wide else 2) + (kind == "registered"):
            raise Skip
        return kind, form, how, sc, jit, loss, vm

    return plan


def check_laplace(cfg):
    kind, form, how, (nc, nt), jit, loss, vm = cfg
    low = kind == "lobpcg"
    # (Lanczos and LOBPCG are compared where they are exact: simple non-zero eigenvalues, rank within the used rank)
    t = Toy("linear", 10, 2) if low else Toy("linear", 2, 1 if kind == "lanczos" and loss != "cross_entropy" else 2)
    n = 1 if low else 3
    xs, ys = t.xs(n), targets(t, loss, n)
    parts = (1,) if low else (2, 1)
    data, _ = deliver(how, parts, jnp.asarray(xs), jnp.asarray(ys))
    name = kind if kind != "registered" else register()
    ct = name if form == "string" else name.upper() if form == "upper" else CurvApprox(name)
    sc = {}
    if nc is not None:
        sc["num_curv_samples"] = nc
    if nt is not None:
        sc["num_total_samples"] = nt
    fac = (nt or 1) / (nc or 1)
    G = fac * ref_ggn(t, loss, xs, ys)
    ck = {}
    if kind == "lanczos":
        ev = np.linalg.eigvalsh(G)
        ck = {"rank": int((ev > 1e-9).sum()) + bool((ev <= 1e-9).any()), "key": jax.random.key(2)}
    elif kind == "lobpcg":
        ck = {"rank": int((np.linalg.eigvalsh(G) > 1e-9).sum()), "key": jax.random.key(2), "maxiter": 100}
    fn = t.model_fn if vm == "vmap" else batched(t)
    pf, est = laplace(fn, t.params, data, curv_type=ct, curv_mv_jit=jit, vmap_over_data=vm == "vmap", **loss_args(loss, True), **sc, **ck)
    if kind == "diagonal":
        G = np.diag(np.diag(G))
        close(A(est), np.diag(G), "diagonal curvature", rtol=1e-8, atol=1e-9)
    elif kind in ("full", "registered"):
        G = G * (0.5 if kind == "registered" else 1)
        close(A(est), G, f"curvature ({cfg})", rtol=1e-8, atol=1e-9)
    else:
        close(A((est.U * est.S) @ est.U.T), G, f"low-rank curvature ({cfg})", rtol=1e-5, atol=1e-6)
    # posterior for two prior arguments; also the low-level construction
    mv = create_ggn_mv(fn, t.params, {"input": jnp.asarray(xs), "target": jnp.asarray(ys)}, num_curv_samples=1, num_total_samples=fac, vmap_over_data=vm == "vmap", **loss_args(loss, True))
    pf_low = create_posterior_fn(name, mv, layout=t.params, **ck)
    v = vals(t.P, 5)
    obs = []
    tol = dict(rtol=1e-5, atol=1e-6) if kind in ("lanczos", "lobpcg") else dict(rtol=1e-7, atol=1e-8)
    for pa, ls in (({"prior_prec": 0.5}, 1.0), ({"prior_prec": 3.0, "sigma_squared": 2.0}, 4.0)):
        want = np.linalg.inv((pa.get("sigma_squared", 1.0) * G + pa["prior_prec"] * np.eye(t.P)) / ls) @ v
        for p, who in ((pf, "laplace()"), (pf_low, "low-level")):
            post = p(pa, ls) if ls != 1.0 else p(pa)
            tree_close(post.cov_mv(post.state)(t.tree(v)), t.tree(want), f"{who} posterior covariance ({cfg})", **tol)
        obs.append(want)
    return obs


# ----------------------------------------------------------------- many samples, many batches, large networks
def plan_large(c):
    model = c.choose("model", [("mlp", 2, 2), ("linear", 30, 3), ("shaped", 3, (12,)), ("scalarout", 60, 1), ("deep", 2, 2)])
    loss = c.choose("loss", LOSSES)
    n = c.choose("n", [40, 3, 129])
    how = c.choose("data", ["tuple", "dict", "stream", "stream_dict"])
    lay = c.choose("layout", list(LAYOUTS)) if how.startswith("stream") else "one"
    fac = c.choose("factor", [0.25, 1e-4, 60000.0])
    jit = c.choose("jit", [False, True]) if not how.startswith("stream") or n == 40 else False
    if loss == "cross_entropy" and model[0] == "scalarout" or (n != 40) and lay not in ("one", "tail") or n == 3 and lay == "mixed":
        raise Skip
    if (model[0] != "mlp") + (how not in ("tuple", "stream")) + (n != 40) + (lay not in ("one", "tail")) + (fac != 0.25) + jit + (loss not in ("mse", "cross_entropy")) > 1:
        raise Skip
    return model, loss, n, how, lay, fac, jit


def check_large(cfg):
    model, loss, n, how, lay, fac, jit = cfg
    t = Toy(*model)
    xs, ys = t.xs(n), targets(t, loss, n)
    src, kw = deliver(how, LAYOUTS[lay](n), jnp.asarray(xs), jnp.asarray(ys))
    mv = GGN(t.model_fn, t.params, src, factor=fac, **loss_args(loss, True))
    want = fac * ref_ggn(t, loss, xs, ys)
    go = jax.jit(mv) if jit else mv
    tol = dict(rtol=1e-8, atol=1e-10 * max(1.0, fac))
    for v in (vals(t.P, 8), np.eye(t.P)[0], np.eye(t.P)[-1]):
        close(to_flat(go(t.tree(v))), want @ v, f"GGN product ({cfg})", **tol)
    if not how.startswith("stream") or n == 3:
        for kind in ("full", "diagonal"):
            _, est = laplace(t.model_fn, t.params, src, curv_type=kind, num_total_samples=fac, num_curv_samples=1, **loss_args(loss, True))
            close(A(est), want if kind == "full" else np.diag(want), f"{kind} curvature ({cfg})", **tol)
    return want @ vals(t.P, 8)


# ----------------------------------------------------------------- invalid use
def bad_cases():
    t = Toy("linear")
    X, Y = jnp.asarray(t.xs(2)), jnp.asarray(targets(t, "mse", 2))
    ok = dict(loss_fn="mse")
    cases = {
        "three-tuple": ((X, Y, X), ok), "one-tuple": ((X,), ok), "empty tuple": ((), ok), "dict without target": ({"input": X}, ok), "dict without input": ({"x": X, "target": Y}, ok),
        "number": (3.0, ok), "none": (None, ok), "stream of numbers": (Loader([1.0, 2.0]), ok), "stream of arrays": (Loader([X, X]), ok), "stream of triples": (Loader([(X, Y, X)]), ok),
        "stream of bad dicts": (Loader([{"input": X}]), ok), "empty stream": (Loader([]), ok), "unknown loss": ((X, Y), dict(loss_fn="nonsense")), "loss number": ((X, Y), dict(loss_fn=7)),
    }
    return t, (X, Y), cases


def plan_bad(c):
    _, _, cases = bad_cases()
    which = c.choose("case", [*cases, "unknown curvature", "empty curvature"])
    entry = c.choose("entry", ["GGN", "laplace"])
    if which.endswith("curvature") and entry == "GGN":
        raise Skip
    return which, entry


def check_bad(cfg):
    which, entry = cfg
    t, good, cases = bad_cases()
    data, kw = cases.get(which, (good, dict(loss_fn="mse")))
    ct = {"unknown curvature": "nonsense", "empty curvature": ""}.get(which, "full")
    go = (lambda: GGN(t.model_fn, t.params, data, **kw)) if entry == "GGN" else (lambda: laplace(t.model_fn, t.params, data, curv_type=ct, **kw))
    try:
        go()
    except ValueError as e:
        if not str(e).strip():
            fail(f"{which}: error without a message")
        return type(e).__name__
    except Exception as e:
        fail(f"{which} via {entry}: expected a ValueError naming the problem, got {type(e).__name__}: {str(e)[:200]}")
    fail(f"{which} via {entry}: accepted")


# ----------------------------------------------------------------- streams: passes and faults
class Boom(Exception):
    pass


class Flaky:
    def __init__(self, items):
        self.items, self.fail_at, self.seen = items, None, []

    def __iter__(self):
        for i, b in enumerate(self.items):
            if self.fail_at == i:
                raise Boom
            self.seen.append(i)
            yield b


def body_stream(c, param):
    """Histories of products on one streamed operator, a failure at any batch of any product."""
    model, parts, depth = param
    t = Toy(model)
    n = sum(parts)
    xs, ys = t.xs(n), targets(t, "mse", n)
    base, _ = deliver("stream", parts, jnp.asarray(xs), jnp.asarray(ys))
    src = Flaky(base.items)
    mv = GGN(t.model_fn, t.params, src, "mse", factor=0.5)
    G = 0.5 * ref_ggn(t, "mse", xs, ys)
    obs = []
    for d in range(depth):
        j = c.choose(f"vector{d}", [0, t.P - 1])
        src.fail_at = c.choose(f"fault{d}", [None, *range(len(parts))])
        src.seen = []
        e = np.eye(t.P)[j]
        if src.fail_at is not None:
            raises(Boom, lambda: mv(t.tree(e)), "failing stream")
            src.fail_at = None
            obs.append("fault")
            continue
        close(to_flat(mv(t.tree(e))), G @ e, f"product {d}", rtol=1e-8, atol=1e-9)
        if src.seen != list(range(len(parts))):
            fail(f"product visited batches {src.seen}")
        obs.append(float((G @ e).sum()))
    return obs


def scenarios(tier):
    q = tier == "quick"
    st = [(m, p, 2 if q else 3) for m in ("linear", "scale") for p in compositions(3)]
    return [Enum("laplace", plan_laplace(not q), check_laplace), Enum("large", plan_large, check_large), Enum("ggn", plan_ggn(3 if q else 4, not q), check_ggn), Dyn("streams", body_stream, st), Enum("invalid", plan_bad, check_bad)]
