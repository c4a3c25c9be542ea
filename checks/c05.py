"""C05 Gauss-Newton operator = factor * sum_i J_i' H_i J_i."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data
from laplax.enums import LossFn
from laplax.util import loader as LD
from mc.core import Dyn, Enum, Skip
from mc.lib import A, MODELS, Toy, build, close, compositions, fail, leaves, raises, same_structure, sigmoid, size, softmax, to_flat, tree_close, vals

LEVEL = "exploration"
RULE = "every (model, loss, sample count, scaling, vectorisation, delivery) in the bound; reference = numpy complex-step Jacobians and closed-form loss Hessians; distinct = distinct operator matrices"
BOUNDS = {
    "quick": "6 models (scalar/vector/matrix outputs; dict/tuple/array parameters), 6 loss-Hessian sources, N<=3, 6 scalings, every partition for streaming, operator reuse histories of depth 3",
    "thorough": "N<=5, d<=3, k<=3, 3 parameter points, histories of depth 4",
}


# ------------------------------------------------------------------- losses
def custom_loss(p, y):  # non-diagonal, non-constant Hessian, target-dependent
    return jnp.sum((p - y) ** 4) / 3 + 0.7 * jnp.sum(p * (1 + y**2)) ** 2


def custom_hess(p, y):
    p, y = p.reshape(-1), y.reshape(-1)
    w = 1 + y**2
    return np.diag(4 * (p - y) ** 2) + 1.4 * np.outer(w, w)


def own_hmv(jv, pred, target, **kw):
    return 3.0 * jv * (1 + pred**2) + jnp.sum(jv) * target


def own_hmv_dense(p, y):
    p, y = p.reshape(-1), y.reshape(-1)
    return np.diag(3 * (1 + p**2)) + np.outer(y, np.ones(y.size))


def loss_hess(loss, p, y):
    f = p.reshape(-1)
    if loss == "mse":
        return 2 * np.eye(f.size)
    if loss == "none":
        return np.eye(f.size)
    if loss == "binary_cross_entropy":
        s = sigmoid(f)
        return np.diag(s * (1 - s))
    if loss == "cross_entropy":
        s = softmax(f)
        return np.diag(s) - np.outer(s, s)
    return (custom_hess if loss == "custom" else own_hmv_dense)(p, y)


LOSSES = ["mse", "cross_entropy", "binary_cross_entropy", "none", "custom", "hmv"]
SCALES = [(None, None), (3, None), (None, 7), (3, 7), (4, 2), (1, 1)]


def targets(t, loss, n, seed=0):
    shp = t.np_out(t.xs(1)[0]).shape
    if loss == "cross_entropy":
        return (np.arange(n) * 2 + seed) % max(1, (shp or (1,))[-1])
    return vals(n * int(np.prod(shp)), seed + 5).reshape(n, *shp)


def ref_ggn(t, loss, xs, ys):
    G = np.zeros((t.P, t.P))
    for x, y in zip(xs, ys):
        J = t.jac(x)
        G += J.T @ loss_hess(loss, t.np_out(x), np.asarray(y, float)) @ J
    return G


def dense_of(t, mv, jit=True):
    def f(v):
        out = mv(t_unflat(t, v))
        return jnp.concatenate([jnp.reshape(l, -1) for l in leaves(out)])

    g = jax.vmap(f)
    if jit:
        g = jax.jit(g)
    return A(g(jnp.eye(t.P))).T


def t_unflat(t, v):
    pos = [0]

    def mk(i, l):
        k = int(np.prod(l.shape))
        o = v[pos[0] : pos[0] + k].reshape(l.shape)
        pos[0] += k
        return o

    return build(t.spec, mk)


def loss_args(loss, enum):
    if loss == "hmv":
        return {"loss_fn": None, "loss_hessian_mv": own_hmv}
    if loss == "custom":
        return {"loss_fn": custom_loss}
    return {"loss_fn": LossFn(loss) if enum else loss}


def plan_ggn(nmax, seeds, dims):
    def plan(c):
        model = c.choose("model", list(MODELS))
        d, k = c.choose("dims", dims)
        loss = c.choose("loss", LOSSES)
        if loss == "cross_entropy" and model in ("scalarout", "multi", "scale"):
            raise Skip
        if model == "bare" and loss == "cross_entropy" and k == 1:
            raise Skip
        n = c.choose("n", range(1, nmax + 1))
        how = c.choose("how", ["vmap", "single", "batched_model"])
        if how == "single" and n > 1:
            raise Skip
        if how == "batched_model" and loss not in ("mse", "binary_cross_entropy", "none"):
            raise Skip
        sc = c.choose("scaling", SCALES)
        if how == "single" and (sc[0] is None) and sc[1] is not None:
            raise Skip
        seed = c.choose("point", range(seeds))
        return model, d, k, loss, n, how, sc, seed

    return plan


def check_ggn(cfg):
    model, d, k, loss, n, how, (nc, nt), seed = cfg
    t = Toy(model, d, k, seed)
    xs, ys = t.xs(n, seed), targets(t, loss, n, seed)
    fac = (nt if nt is not None else (nc or n)) / (nc or n)
    if nt is None:
        fac = 1.0
    fn = t.model_fn
    X, Y = jnp.asarray(xs), jnp.asarray(ys)
    if how == "single":
        X, Y = X[0], Y[0]
    elif how == "batched_model":
        fn = lambda input, params: jax.vmap(lambda x: t.model_fn(x, params))(input)
    mv = create_ggn_mv(
        fn, t.params, {"input": X, "target": Y}, num_curv_samples=nc, num_total_samples=nt,
        vmap_over_data=(how == "vmap"), **loss_args(loss, seed % 2 == 0),
    )
    want = fac * ref_ggn(t, loss, xs, ys)
    got = close(dense_of(t, mv), want, f"GGN matrix ({loss}, factor {fac})", rtol=1e-8, atol=1e-9)
    v = vals(t.P, 8)
    out = mv(t.tree(v))
    if not same_structure(t.params, out):
        fail("GGN product structure differs from the parameters")
    for g, p in zip(leaves(out), leaves(t.params)):
        if A(g).shape != A(p).shape:
            fail("GGN product leaf shape")
    close(to_flat(out), want @ v, "GGN product (eager)", rtol=1e-8, atol=1e-9)
    if loss not in ("custom", "hmv"):
        close(got, got.T, "symmetry", atol=1e-9)
        if np.linalg.eigvalsh((got + got.T) / 2).min() < -1e-8:
            fail("GGN of a convex loss is not positive semi-definite")
    return got


# ------------------------------------------------------------------- delivery
def plan_parts(nmax):
    def plan(c):
        model = c.choose("model", ["linear", "mlp", "scale", "multi"])
        loss = c.choose("loss", ["mse", "cross_entropy", "custom", "hmv"])
        if loss == "cross_entropy" and model in ("multi", "scale"):
            raise Skip
        parts = c.choose("parts", [p for n in range(1, nmax + 1) for p in compositions(n)])
        fac = c.choose("factor", [1.0, 0.25, 3, jnp.asarray(2.0)])
        via = c.choose("via", ["sum", "loader"])
        return model, loss, parts, float(fac), via

    return plan


def check_parts(cfg):
    model, loss, parts, fac, via = cfg
    t = Toy(model)
    n = sum(parts)
    xs, ys = t.xs(n), targets(t, loss, n)
    la = loss_args(loss, True)
    mv = create_ggn_mv_without_data(t.model_fn, t.params, la.pop("loss_fn"), fac, **la)
    want = fac * ref_ggn(t, loss, xs, ys)
    batches, p = [], 0
    for k in parts:
        batches.append((jnp.asarray(xs[p : p + k]), jnp.asarray(ys[p : p + k])))
        p += k
    v = vals(t.P, 8)
    if via == "loader":
        op = LD.DataLoaderMV(mv, batches, reduce=LD.reduce_add)
        return tree_close(op(t.tree(v)), t_unflat(t, want @ v), "streamed GGN product", rtol=1e-8, atol=1e-9)
    acc = 0
    for x, y in batches:
        acc = acc + to_flat(mv(t.tree(v), {"input": x, "target": y}))
    return close(acc, want @ v, "sum of batch GGN products", rtol=1e-8, atol=1e-9)


# ------------------------------------------------------------------- histories
def body_hist(depth):
    """One data-free operator applied to different batches and vectors in any order."""

    def body(c, param):
        model, loss = param
        t = Toy(model)
        la = loss_args(loss, False)
        params = t.params
        before = to_flat(params).copy()
        mv = create_ggn_mv_without_data(t.model_fn, params, la.pop("loss_fn"), 1.5, **la)
        data = {}
        for nm, n, s in (("A", 2, 0), ("B", 2, 1), ("C", 3, 2)):
            data[nm] = (t.xs(n, s), targets(t, loss, n, s))
        ref = {nm: 1.5 * ref_ggn(t, loss, *d) for nm, d in data.items()}
        f = jax.jit(mv) if c.choose("jit", [False, True]) else mv
        obs = []
        for i in range(depth):
            nm = c.choose(f"batch{i}", ["A", "B", "C"])
            v = vals(t.P, c.choose(f"vec{i}", [8, 9]))
            x, y = data[nm]
            out = f(t.tree(v), {"input": jnp.asarray(x), "target": jnp.asarray(y)})
            obs.append(close(to_flat(out), ref[nm] @ v, f"step {i} on batch {nm}", rtol=1e-8, atol=1e-9))
        if not np.array_equal(before, to_flat(params)):
            fail("parameters were modified")
        return obs

    return body


# ------------------------------------------------------------------- sizes and magnitudes
def plan_extreme(c):
    m = c.choose("model", [("shaped", 4, (12,)), ("shaped", 2, (1, 3)), ("linear", 3, 5), ("scalarout", 30, 1), ("mlp", 2, 2), ("deep", 2, 2)])
    loss = c.choose("loss", LOSSES)
    if loss == "cross_entropy" and (m[0] == "scalarout" or m[2] == (1, 3)):
        raise Skip
    n = c.choose("n", [1, 17, 130])
    ps = c.choose("parameter_scale", [1.0, 60.0])
    if ps != 1.0 and loss in ("custom", "hmv", "none") or m[0] == "mlp" and ps != 1.0 and n == 130:
        raise Skip
    sc = c.choose("scaling", [(None, None), (None, 60000), (7, 1), (50000, 3)])
    xt = c.choose("types", ["f8", "f4_inputs", "numpy"])
    if xt != "f8" and (n == 130 or ps != 1.0):
        raise Skip
    if m[0] == "deep" and (n != 17 or ps != 1.0 or xt != "f8" or sc not in ((None, None), (7, 1))):
        raise Skip
    return m, loss, n, ps, sc, xt


def check_extreme(cfg):
    """many samples, outputs or parameters, saturated outputs, large and small scalings, tiny and huge directions (linearity), other array types."""
    m, loss, n, ps, (nc, nt), xt = cfg
    t = Toy(*m)
    t.flat = t.flat * ps
    t.params = t.tree(t.flat)
    xs, ys = t.xs(n), targets(t, loss, n)
    if xt == "f4_inputs":
        xs = xs.astype(np.float32)
    conv = np.asarray if xt == "numpy" else jnp.asarray
    data = {"input": conv(xs), "target": conv(ys.astype(np.int32) if loss == "cross_entropy" else ys)}
    mv = jax.jit(create_ggn_mv(t.model_fn, t.params, data, num_curv_samples=nc, num_total_samples=nt, **loss_args(loss, True)))
    fac = 1.0 if nt is None else nt / (nc or n)
    G = fac * ref_ggn(t, loss, np.asarray(xs, float), ys)
    # rounding of the softmax Hessian (a difference) relative to the Jacobians, not to the possibly saturated result
    rnd = 1e-14 * fac * sum(np.square(t.jac(x)).sum() for x in np.asarray(xs, float))
    obs = []
    for k, mag in enumerate((1.0, 1e-9, 1e9, 0.0)):
        v = vals(t.P, 8 + k) * mag
        if k == 2:
            v = np.where(np.arange(t.P) == t.P - 1, v, 0.0)
        want = G @ v
        obs.append(close(to_flat(mv(t.tree(v))), want, f"GGN product ({loss}, {n} samples, factor {fac}, parameters x {ps}, direction x {mag}, {xt})", rtol=1e-7, atol=(1e-9 * np.abs(G).max() + rnd) * np.abs(v).max() + 1e-300))
    return obs


# ------------------------------------------------------------------- rejection
def plan_reject(c):
    lf = c.choose("loss_fn", ["absent", "none_kw", "mse", "enum", "callable", "bogus", "int"])
    hm = c.choose("loss_hessian_mv", ["absent", "none_kw", "given"])
    return lf, hm


def check_reject(cfg):
    lf, hm = cfg
    t = Toy("linear")
    xs, ys = t.xs(2), targets(t, "mse", 2)
    kw = {}
    if lf != "absent":
        kw["loss_fn"] = {"none_kw": None, "mse": "mse", "enum": LossFn.MSE, "callable": custom_loss, "bogus": "bogus", "int": 3}[lf]
    if hm != "absent":
        kw["loss_hessian_mv"] = None if hm == "none_kw" else own_hmv
    has_l, has_h = lf not in ("absent", "none_kw"), hm == "given"
    call = lambda: create_ggn_mv(t.model_fn, t.params, {"input": jnp.asarray(xs), "target": jnp.asarray(ys)}, **kw)
    if has_l == has_h or (has_l and lf in ("bogus", "int")):
        return raises(ValueError, call, f"sources {cfg}")
    kind = "hmv" if has_h else ("custom" if lf == "callable" else "mse")
    return close(dense_of(t, call()), ref_ggn(t, kind, xs, ys), f"sources {cfg}", rtol=1e-8, atol=1e-9)


def plan_dtype(c):
    return c.choose("model", list(MODELS)), c.choose("loss", ["mse", "binary_cross_entropy", "custom"]), c.choose("n", [1, 3]), c.choose("scaling", SCALES)


def check_dtype(cfg):
    """single precision mode: same values, single-precision results."""
    model, loss, n, (nc, nt) = cfg
    t = Toy(model)
    xs, ys = t.xs(n), targets(t, loss, n)
    mv = create_ggn_mv(t.model_fn, t.params, {"input": jnp.asarray(xs), "target": jnp.asarray(ys)}, num_curv_samples=nc, num_total_samples=nt, **loss_args(loss, False))
    v = vals(t.P, 8)
    out = mv(t.tree(v))
    fac = 1.0 if nt is None else nt / (nc or n)
    want = fac * ref_ggn(t, loss, xs, ys) @ v
    for l in leaves(out):
        if A(l).dtype != np.float32:
            fail(f"dtype {A(l).dtype} in single precision mode")
    return close(to_flat(out), want, "single-precision product", rtol=2e-3, atol=2e-4 * (1 + np.abs(want).max()))


def scenarios(tier):
    q = tier == "quick"
    return [
        Enum("matrix", plan_ggn(3 if q else 5, 1 if q else 3, [(2, 2)] if q else [(2, 2), (1, 3), (3, 1)]), check_ggn),
        Enum("extremes", plan_extreme, check_extreme),
        Enum("delivery", plan_parts(3 if q else 5), check_parts),
        Dyn("reuse", body_hist(2 if q else 3), [("mlp", "cross_entropy"), ("scale", "custom"), ("multi", "hmv"), ("bare", "mse")]),
        Enum("sources", plan_reject, check_reject),
        Enum("single_precision", plan_dtype, check_dtype, x64=False),
    ]
