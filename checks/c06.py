"""C06 loss Hessians and full Hessians are exact second derivatives."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.ggn import create_ggn_mv, create_loss_hessian_mv
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data, hvp
from laplax.enums import LossFn
from mc.core import Dyn, Enum, Skip
from mc.lib import A, MODELS, L, Toy, build, chess, cjac, close, fail, from_flat, leaves, logsumexp, raises, same_structure, sigmoid, size, softmax, to_flat, tree_close, vals

from checks.c05 import custom_hess, custom_loss, dense_of, loss_hess, targets

LEVEL = "exploration"
RULE = "every logit vector over a value alphabet (ties, saturation) per loss; every (model, loss, samples, scaling, vectorisation) for full Hessians; reference = closed forms and differentiated complex-step gradients of a numpy loss"
BOUNDS = {
    "quick": "output sizes 1..3, logit alphabet {-60,-1.5,0,0.75,60} (all products), 4 losses + autodiff loss, direction basis; 6 models x 4 losses x N<=3 x 6 scalings",
    "thorough": "output sizes 1..4, alphabet of 6, 3 parameter points, N<=4",
}


def plan_loss(kmax, alpha):
    def plan(c):
        loss = c.choose("loss", ["mse", "cross_entropy", "binary_cross_entropy", "none", "custom", "scalar_bce"])
        k = c.choose("k", range(1, kmax + 1))
        if loss == "scalar_bce" and k > 1:
            raise Skip
        z = [c.choose(f"z{i}", alpha) for i in range(k)]
        tgt = c.choose("target", [0, 1]) if loss in ("custom", "cross_entropy") else 0
        return loss, z, tgt

    return plan


def check_loss(cfg):
    loss, z, tgt = cfg
    z = np.array(z)
    k = z.size
    shp = () if loss == "scalar_bce" else (k,)
    y = np.array(tgt % k) if loss == "cross_entropy" else vals(k, 2 + tgt).reshape(shp)
    name = "binary_cross_entropy" if loss == "scalar_bce" else loss
    pred = jnp.asarray(z.reshape(shp))
    H = loss_hess(name, z, np.asarray(y, float))
    obs = []
    for spell in ([name, LossFn(name)] if loss != "custom" else [custom_loss]):
        f = create_loss_hessian_mv(spell)
        cols = []
        for i in range(k):
            e = np.zeros(k)
            e[i] = 1.0
            out = f(jnp.asarray(e.reshape(shp)), pred=pred, target=jnp.asarray(y))
            if A(out).shape != shp:
                fail(f"loss-Hessian product has shape {A(out).shape}, output has {shp}")
            cols.append(A(out).reshape(-1))
        obs.append(close(np.stack(cols, 1), H, f"{loss} Hessian at {z}", rtol=1e-9, atol=1e-11))
        v = vals(k, 4).reshape(shp)
        close(A(f(jnp.asarray(v), pred=pred, target=jnp.asarray(y))).reshape(-1), H @ v.reshape(-1), "linear combination", rtol=1e-9, atol=1e-11)
    if loss == "cross_entropy" and abs(obs[0].sum(0)).max() > 1e-9:
        fail("softmax cross-entropy Hessian does not annihilate constants")
    return obs[0]


def check_loss32(cfg):
    """single precision: finite and accurate even for saturated logits."""
    loss, z, tgt = cfg
    z = np.array(z, np.float32) * 30
    k = z.size
    if loss in ("custom", "scalar_bce"):
        return 0
    H = loss_hess(loss, z.astype(float), np.zeros(k))
    f = create_loss_hessian_mv(loss)
    out = np.stack([A(f(jnp.asarray(np.eye(k, dtype=np.float32)[i]), pred=jnp.asarray(z), target=jnp.zeros(k))) for i in range(k)], 1)
    return close(out, H, f"{loss} Hessian at {z}", rtol=1e-4, atol=1e-6)


# ------------------------------------------------------------------- hvp
TREES = [L(3), L(), {"a": L(2), "b": L()}, {"w": L(2, 2), "c": [L(1)]}, (L(), L(1, 2))]


def plan_hvp(c):
    return c.choose("tree", range(len(TREES))), c.choose("fun", ["quad", "quartic", "exp"]), c.choose("point", [0, 1]), c.choose("jit", [False, True])


def check_hvp(cfg):
    ti, fun, pt, jit = cfg
    spec = TREES[ti]
    n = size(spec)
    B = vals(n * n, 6).reshape(n, n)
    p = vals(n, pt)

    def f(xp, v):
        if fun == "quad":
            return v @ B @ v + xp.sum(v)
        if fun == "quartic":
            return xp.sum((B @ v) ** 4) + v[0] * xp.sum(v)
        return xp.exp(0.5 * xp.sum(B @ v)) + xp.sum(xp.sin(v))

    def ft(t):
        return f(jnp, jnp.concatenate([jnp.reshape(x, -1) for x in leaves(t)]))

    H = chess(lambda q: f(np, q), p)
    g = lambda t, v: hvp(ft, t, v)
    g = jax.jit(g) if jit else g
    v = vals(n, 9)
    out = g(from_flat(spec, p, jnp.asarray), from_flat(spec, v, jnp.asarray))
    return tree_close(out, from_flat(spec, H @ v), "Hessian-vector product", rtol=1e-6, atol=1e-6)


# ------------------------------------------------------------------- full Hessian
def np_loss(loss, f, y):
    """complex-safe scalar loss of a flat output."""
    if loss == "mse":
        return np.sum((f - y) ** 2)
    if loss == "binary_cross_entropy":  # targets in [0,1]
        return np.sum(np.log(1 + np.exp(-f)) * y + np.log(1 + np.exp(f)) * (1 - y))
    if loss == "cross_entropy":
        return logsumexp(f) - f[int(y[0])]
    return np.sum((f - y) ** 4) / 3 + 0.7 * np.sum(f * (1 + y**2)) ** 2


def ref_hess(t, loss, xs, ys):
    def tot(q):
        return sum(np_loss(loss, t.np_out(x, q).reshape(-1), np.asarray(y, float).reshape(-1)) for x, y in zip(xs, ys))

    return chess(tot, t.flat)


def tgt_of(t, loss, n, seed):
    y = targets(t, loss, n, seed)
    return (y > 0).astype(float) if loss == "binary_cross_entropy" else y


SCALES = [(None, None), (3, None), (None, 7), (3, 7), (4, 2), (1, 1)]


def plan_hess(nmax, seeds):
    def plan(c):
        model = c.choose("model", list(MODELS))
        loss = c.choose("loss", ["mse", "binary_cross_entropy", "cross_entropy", "custom"])
        if loss == "cross_entropy" and model in ("scalarout", "multi", "scale"):
            raise Skip
        n = c.choose("n", range(1, nmax + 1))
        how = c.choose("how", ["vmap", "single", "without_data"])
        if how == "single" and n > 1:
            raise Skip
        sc = c.choose("scaling", SCALES)
        if how == "single" and sc[0] is None and sc[1] is not None:
            raise Skip
        if loss == "custom" and how != "single":
            # custom losses see the whole batch output; use an additive one
            pass
        return model, loss, n, how, sc, c.choose("point", range(seeds))

    return plan


def batch_custom(p, y):
    return jnp.sum(jax.vmap(custom_loss)(p, y))


def check_hess(cfg):
    model, loss, n, how, (nc, nt), seed = cfg
    t = Toy(model, seed=seed)
    xs, ys = t.xs(n, seed), tgt_of(t, loss, n, seed)
    fac = 1.0 if nt is None else nt / (nc or n)
    X, Y = jnp.asarray(xs), jnp.asarray(ys)
    lf = LossFn(loss) if loss != "custom" and seed % 2 == 0 else loss
    if loss == "custom":
        lf = custom_loss if how == "single" else batch_custom
    if how == "single":
        X, Y = X[0], Y[0]
    data = {"input": X, "target": Y}
    if how == "without_data":
        f = create_hessian_mv_without_data(t.model_fn, t.params, lf, fac)
        mv = lambda v: f(v, data)
    else:
        mv = create_hessian_mv(t.model_fn, t.params, data, lf, num_curv_samples=nc, num_total_samples=nt, vmap_over_data=how == "vmap")
    want = fac * ref_hess(t, loss, xs, ys)
    tol = 2e-6 * (1 + np.abs(want).max())
    got = close(dense_of(t, mv, jit=True), want, f"Hessian matrix ({loss}, factor {fac})", rtol=1e-6, atol=tol)
    v = vals(t.P, 8)
    out = mv(t.tree(v))
    if not same_structure(t.params, out):
        fail("Hessian product structure")
    close(to_flat(out), got @ v, "Hessian product (eager)", rtol=1e-8, atol=1e-8)
    if model == "linear" and how != "without_data" and loss != "custom":
        g = create_ggn_mv(t.model_fn, t.params, data, lf, num_curv_samples=nc, num_total_samples=nt, vmap_over_data=how == "vmap")
        close(got, dense_of(t, g), "Hessian = GGN for a model linear in its parameters", rtol=1e-7, atol=1e-8)
    return got


# ------------------------------------------------------------------- sizes and magnitudes
def plan_big_loss(c):
    loss = c.choose("loss", ["mse", "cross_entropy", "binary_cross_entropy", "none", "custom"])
    k = c.choose("k", [5, 10, 100, 300])
    z = c.choose("logits", ["equal", "small", "spread", "one_hot", "huge", "shifted"])
    v = c.choose("direction", ["irregular", "ones", "unit", "huge", "tiny"])
    return loss, k, z, v


def check_big_loss(cfg):
    """many classes, extreme logits, directions of any size."""
    loss, k, zn, vn = cfg
    i = np.arange(k)
    z = {"equal": np.zeros(k), "small": 1e-3 * vals(k, 2), "spread": 8 * vals(k, 2), "one_hot": np.where(i == k // 2, 40.0, 0.0), "huge": 5e3 * vals(k, 2), "shifted": 700 + vals(k, 2)}[zn]
    v = {"irregular": vals(k, 4), "ones": np.ones(k), "unit": (i == k - 1) * 1.0, "huge": 1e8 * vals(k, 5), "tiny": 1e-10 * vals(k, 5)}[vn]
    y = np.array(k - 1) if loss == "cross_entropy" else vals(k, 3)
    H = loss_hess(loss, z, np.asarray(y, float))
    f = create_loss_hessian_mv(custom_loss if loss == "custom" else loss)
    out = jax.jit(lambda a, p, t: f(a, pred=p, target=t))(jnp.asarray(v), jnp.asarray(z), jnp.asarray(y))
    return close(out, H @ v, f"{loss} Hessian of {k} outputs ({zn} logits) times a {vn} direction", rtol=1e-8, atol=(1e-12 * np.abs(H).max() + 1e-14) * np.abs(v).max())


def plan_big(c):
    m = c.choose("model", [("shaped", 2, (4,)), ("linear", 3, 4), ("scalarout", 12, 1), ("mlp", 2, 2)])
    loss = c.choose("loss", ["mse", "binary_cross_entropy", "cross_entropy"])
    if loss == "cross_entropy" and m[0] == "scalarout":
        raise Skip
    n = c.choose("n", [1, 20])
    ps = c.choose("parameter_scale", [1.0, 4.0])
    sc = c.choose("scaling", [(None, None), (None, 60000), (7, 1), (50000, 3)])
    return m, loss, n, ps, sc


def check_big(cfg):
    """more samples and parameters, large and small scalings, tiny and huge directions."""
    m, loss, n, ps, (nc, nt) = cfg
    t = Toy(*m)
    t.flat = t.flat * ps
    t.params = t.tree(t.flat)
    xs, ys = t.xs(n), tgt_of(t, loss, n, 0)
    fac = 1.0 if nt is None else nt / (nc or n)
    mv = jax.jit(create_hessian_mv(t.model_fn, t.params, {"input": jnp.asarray(xs), "target": jnp.asarray(ys)}, loss, num_curv_samples=nc, num_total_samples=nt))
    H = fac * ref_hess(t, loss, xs, ys)
    obs = []
    for k, mag in enumerate((1.0, 1e-9, 1e9, 0.0)):
        v = vals(t.P, 8 + k) * mag
        obs.append(close(to_flat(mv(t.tree(v))), H @ v, f"Hessian product ({loss}, {n} samples, factor {fac}, direction x {mag})", rtol=1e-5, atol=3e-6 * np.abs(H).max() * np.abs(v).max() + 1e-300))
    return obs


def plan_classes(c):
    k = c.choose("classes", [2, 130, 300, 40000])
    lab = c.choose("labels", ["first", "last", "edges"])
    ty = c.choose("types", ["i1", "u1", "i2", "u2", "i4", "i8", "f4", "f8", "one_hot"])
    if ty in ("i1", "u1", "i2", "u2") and k > {"i1": 128, "u1": 256, "i2": 32768, "u2": 65536}[ty] or ty == "one_hot" and k > 300:
        raise Skip
    return k, lab, ty, c.choose("how", ["vmap", "batch", "single"])


def check_classes(cfg):
    """class labels of every size and type: f_i = w_i^2 x_i, whose Hessian depends on the label."""
    k, lab, ty, how = cfg
    labels = {"first": [0], "last": [k - 1], "edges": sorted({min(j, k - 1) for j in (1, 126, 127, 128, 129, 255, 256, 32767, 32768)})}[lab]
    if how == "single":
        labels = labels[-1:]
    n = len(labels)
    w = vals(k, 3, 0.5, 1.5)
    X = vals(n * k, 5).reshape(n, k)
    v = vals(k, 8)
    want = np.zeros(k)
    for x, y in zip(X, labels):
        p = softmax(w**2 * x)
        D = 2 * w * x
        g = p - (np.arange(k) == y)
        want += 2 * x * g * v + D * (p * D * v - p * (p @ (D * v)))
    y = np.eye(k)[labels] if ty == "one_hot" else np.array(labels, ty)
    f = lambda input, params: params["w"] ** 2 * input  # noqa: E731
    if how == "single":
        X, y = X[0], y[0]
    mv = create_hessian_mv(f, {"w": jnp.asarray(w)}, {"input": jnp.asarray(X), "target": jnp.asarray(y)}, "cross_entropy", num_curv_samples=1, num_total_samples=1, vmap_over_data=how == "vmap")
    return close(A(jax.jit(mv)({"w": jnp.asarray(v)})["w"]), want, f"full Hessian product, {k} classes, labels {labels} ({ty}, {how})", rtol=1e-8, atol=1e-10)


def plan_reject(c):
    return c.choose("api", ["loss_hessian", "hessian"]), c.choose("loss", [None, "bogus", 3])


def check_reject(cfg):
    api, loss = cfg
    t = Toy("linear")
    if api == "loss_hessian":
        return raises(ValueError, lambda: create_loss_hessian_mv(loss), f"unsupported loss {loss!r}")
    return raises(ValueError, lambda: create_hessian_mv(t.model_fn, t.params, {"input": jnp.asarray(t.xs(2)), "target": jnp.zeros((2, 2))}, loss), f"unsupported loss {loss!r}")


def scenarios(tier):
    q = tier == "quick"
    al = [-60.0, -1.5, 0.0, 0.75, 60.0]
    if not q:
        al = [-60.0, -1.5, 0.0, 0.75, 4.0, 60.0]
    return [
        Enum("loss_hessian", plan_loss(3 if q else 4, al), check_loss),
        Enum("loss_hessian_single", plan_loss(3, [-2.0, 0.0, 1.0]), check_loss32, x64=False),
        Enum("hvp", plan_hvp, check_hvp),
        Enum("hessian", plan_hess(2 if q else 4, 1 if q else 3), check_hess),
        Enum("loss_extremes", plan_big_loss, check_big_loss),
        Enum("hessian_extremes", plan_big, check_big),
        Enum("class_labels", plan_classes, check_classes),
        Enum("reject", plan_reject, check_reject),
    ]
