"""C29 results do not depend on how parameters, samples and classes are arranged."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import calibration, evaluation, laplace
from laplax.eval import pushforward as pfm
from laplax.eval.likelihood import marginal_log_likelihood
from mc.core import Enum, Skip
from mc.lib import A, close, fail, vals

LEVEL = "exploration"
RULE = "every arrangement (all sample orders, all class relabellings, every parameter layout of the list, replications of the data) x curvature kind x loss: curvature, posterior, predictions, evidence, calibration and evaluation of the arranged problem equal those of the original one, arranged the same way"
BOUNDS = {
    "quick": "all 24 orders of 4 samples, all 6 relabellings of 3 classes, 12 parameter layouts (renamed, nested, split, transposed, lists, tuples, one vector, scalars, orthogonally mixed), 1-3 replications; full / diagonal / low-rank curvature; regression and classification",
    "thorough": "all 120 orders of 5 samples, all 24 relabellings of 4 classes, all pairs of layout and order",
}
D, H = 2, 2  # inputs, hidden units


# ----------------------------------------------------------------- one function, many parameter layouts
def net(x, W, b, V, k):
    """the function itself, on canonical pieces"""
    return V @ jnp.tanh(W @ x + b) + 0.1 * jnp.arange(k)


def canonical(k, seed=0):
    return {"W": vals(H * D, seed + 1).reshape(H, D), "b": vals(H, seed + 2), "V": 1.3 * vals(k * H, seed + 3).reshape(k, H)}


def layouts(k):
    """name -> (pack canonical pieces, unpack to canonical pieces); all are permutations of the entries"""
    out = {}
    out["dict"] = (lambda W, b, V: {"W": W, "b": b, "V": V}, lambda p: (p["W"], p["b"], p["V"]))
    out["renamed"] = (lambda W, b, V: {"a": V, "m": b, "z": W}, lambda p: (p["z"], p["m"], p["a"]))
    out["reversed_insertion"] = (lambda W, b, V: {"z": W, "m": b, "a": V}, lambda p: (p["z"], p["m"], p["a"]))
    out["nested"] = (lambda W, b, V: {"head": {"kernel": V}, "body": ({"bias": b}, {"kernel": W})}, lambda p: (p["body"][1]["kernel"], p["body"][0]["bias"], p["head"]["kernel"]))
    out["tuple"] = (lambda W, b, V: (W, b, V), lambda p: p)
    out["list"] = (lambda W, b, V: [V, [b, W]], lambda p: (p[1][1], p[1][0], p[0]))
    out["transposed"] = (lambda W, b, V: {"W": W.T, "b": b, "V": V.T}, lambda p: (p["W"].T, p["b"], p["V"].T))
    out["rows"] = (lambda W, b, V: {"W": [W[i] for i in range(H)], "b": [b[i] for i in range(H)], "V": tuple(V[i] for i in range(k))}, lambda p: (jnp.stack(p["W"]), jnp.stack(p["b"]), jnp.stack(p["V"])))
    out["columns"] = (lambda W, b, V: {"W": tuple(W[:, i] for i in range(D)), "bV": jnp.concatenate([b[None], V])}, lambda p: (jnp.stack(p["W"], axis=1), p["bV"][0], p["bV"][1:]))
    out["vector"] = (lambda W, b, V: jnp.concatenate([V.reshape(-1), W.reshape(-1), b]), lambda p: (p[k * H : k * H + H * D].reshape(H, D), p[k * H + H * D :], p[: k * H].reshape(k, H)))
    out["cube"] = (lambda W, b, V: {"W": W.reshape(1, H, 1, D), "b": b.reshape(H, 1), "V": V[:, ::-1].reshape(k, 1, H)}, lambda p: (p["W"].reshape(H, D), p["b"].reshape(H), p["V"].reshape(k, H)[:, ::-1]))
    out["mixed"] = None  # orthogonal change of coordinates (isotropic prior, so nothing may change)
    return out


def arranged(layout, k):
    """(params, model_fn, matrix T with  canonical vector = T @ layout vector)"""
    c = {n: jnp.asarray(v) for n, v in canonical(k).items()}
    if layout == "mixed":
        flat = np.concatenate([A(c["W"]).ravel(), A(c["b"]), A(c["V"]).ravel()])
        P = flat.size
        Q = np.linalg.qr(vals(P * P, 17).reshape(P, P) + 0.3 * np.eye(P))[0]
        Qj = jnp.asarray(Q)

        def unpack(p):
            q = Qj @ jnp.concatenate([p["u"], p["v"]["w"].reshape(-1)])
            return q[: H * D].reshape(H, D), q[H * D : H * D + H], q[H * D + H :].reshape(k, H)

        z = Q.T @ flat
        params = {"u": jnp.asarray(z[:3]), "v": {"w": jnp.asarray(z[3:]).reshape(-1, 1)}}
    else:
        pack, unpack = layouts(k)[layout]
        params = pack(c["W"], c["b"], c["V"])

    def model_fn(input, params):
        W, b, V = unpack(params)
        return net(input, W, b, V, k)

    leaves, td = jax.tree.flatten(params)
    sizes = [int(np.prod(np.shape(l))) for l in leaves]
    P = sum(sizes)
    off = np.cumsum([0, *sizes])

    def canon(vec):
        t = jax.tree.unflatten(td, [vec[o : o + s].reshape(np.shape(l)) for o, s, l in zip(off, sizes, leaves)])
        W, b, V = unpack(t)
        return jnp.concatenate([W.reshape(-1), b, V.reshape(-1)])

    T = np.stack([A(canon(e)) for e in jnp.eye(P)], axis=1)
    if np.abs(T @ T.T - np.eye(P)).max() > 1e-12:
        fail(f"harness: layout {layout} is not orthogonal")
    return params, model_fn, T


def data_of(n, k, cls, order=None, classes=None, copies=1):
    x = 1.4 * vals(n * D, 5).reshape(n, D)
    y = (np.arange(n) * 2) % k if cls else vals(n * k, 8).reshape(n, k)
    if classes is not None:
        # relabelled class j of the new problem is class classes[j] of the old one
        y = np.argsort(classes)[y] if cls else y[:, classes]
    order = list(range(n)) if order is None else list(order)
    order = order * copies
    return {"input": jnp.asarray(x[order]), "target": jnp.asarray(y[order])}


def wmat(mv, params):
    """dense matrix of a weight-space product in layout coordinates"""
    leaves, td = jax.tree.flatten(params)
    sizes = [int(np.prod(np.shape(l))) for l in leaves]
    off = np.cumsum([0, *sizes])

    def f(e):
        t = jax.tree.unflatten(td, [e[o : o + s].reshape(np.shape(l)) for o, s, l in zip(off, sizes, leaves)])
        return jnp.concatenate([l.reshape(-1) for l in jax.tree.leaves(mv(t))])

    return A(jax.jit(jax.vmap(f))(jnp.eye(sum(sizes)))).T


LIN = [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_cov, pfm.lin_pred_var, pfm.lin_pred_std]
ACTS = ["laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]


def everything(kind, cls, k, layout="dict", order=None, classes=None, copies=1, n=4, api=True):
    params, model, T = arranged(layout, k)
    if classes is not None:
        base, perm = model, jnp.asarray(classes)
        model = lambda input, params: base(input, params)[perm]  # noqa: E731
    data = data_of(n, k, cls, order, classes, copies)
    loss = "cross_entropy" if cls else "mse"
    P = T.shape[0]
    kw = {}
    if kind == "lanczos":
        kw = {"key": jax.random.key(1), "rank": P}
    pf, est = laplace(model, params, data, loss_fn=loss, curv_type=kind, num_curv_samples=copies * n, num_total_samples=3 * n, **kw)
    prior = {"prior_prec": 0.8}
    post = pf(prior)
    out = {}
    out["weight_cov"] = T @ wmat(post.cov_mv(post.state), params) @ T.T
    S = T @ wmat(post.scale_mv(post.state), params)
    out["scale_square"] = S @ S.T
    xs = jnp.asarray(1.4 * vals(3 * D, 31).reshape(3, D))
    pred = jax.jit(jax.vmap(pfm.set_lin_pushforward(model, params, pf, prior, pushforward_fns=LIN)))(xs)
    out.update({f"lin_{a}": A(v) for a, v in pred.items()})
    k_, ds = pfm.set_posterior_gp_kernel(model, params, pf, prior)
    out["kernel"] = A(jax.jit(jax.vmap(lambda e: k_(e, xs[0], xs[1], ds)))(jnp.eye(k))).T
    if cls:
        for a in ACTS:
            out[a] = A(jax.jit(jax.vmap(pfm.set_lin_pushforward(model, params, pf, prior, pushforward_fns=[pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_special_pred_act], special_pred_type=a)))(xs)["special_pred_act"])
    if copies == 1:
        out["evidence"] = A(marginal_log_likelihood(est, prior, data, model, params, loss, kind, vmap_over_data=True))
    if api:
        pt = "mean_field_1" if cls else "none"
        for obj in ["nll"] if cls else ["nll", "chi_squared"]:
            best, _ = calibration(pf, model, params, data, loss_fn=loss, curv_estimate=est, curv_type=kind, predictive_type=pt, calibration_objective=obj, grid_size=7, log_prior_prec_min=-2.0, log_prior_prec_max=2.0)
            out[f"best_{obj}"] = A(best["prior_prec"])
        res, _ = evaluation(pf, model, params, prior, data, metrics="classification" if cls else "regression", predictive_type=pt)
        out["eval"] = {a: A(v) for a, v in res.items()}
    return out


_BASE = {}


def base(kind, cls, k, n, api):
    key = (kind, cls, k, n, api)
    if key not in _BASE:
        _BASE[key] = everything(kind, cls, k, n=n, api=api)
    return _BASE[key]


def compare(cfg, got, want, order=None, classes=None, copies=1):
    pk = list(range(want["kernel"].shape[0])) if classes is None else list(classes)
    for name, w in want.items():
        if name not in got:
            continue
        g = got[name]
        if name == "eval":
            n = len(next(iter(w.values())))
            o = (list(range(n)) if order is None else list(order)) * copies
            for mname, v in w.items():
                close(g[mname], v[o], f"{cfg}: {mname} of each sample", rtol=1e-6, atol=1e-7)
            continue
        if name in ("kernel",):
            w = w[np.ix_(pk, pk)]
        elif name == "lin_pred_cov":
            w = w[:, pk][:, :, pk]
        elif name in ("lin_map", "map", "lin_pred_mean", "lin_pred_var", "lin_pred_std", *ACTS):
            w = w[:, pk]
        close(g, w, f"{cfg}: {name}", rtol=1e-6, atol=1e-7 * (1 + np.abs(w).max()))
    return f"{float(np.abs(want['weight_cov']).sum()):.6g}"


KINDS = ["full", "diagonal", "lanczos"]


def plan_layout(all_):
    def p(c):
        kind = c.choose("kind", KINDS)
        cls = c.choose("task", ["regression", "classification"]) == "classification"
        layout = c.choose("layout", list(layouts(3)))
        order = c.choose("order", [None, (2, 0, 3, 1)] if not all_ else [None, *itertools.permutations(range(4))])
        if layout == "mixed" and kind == "diagonal" or order is not None and not all_ and layout not in ("list", "columns"):
            raise Skip
        return kind, cls, layout, order

    return p


def check_layout(cfg):
    kind, cls, layout, order = cfg
    return compare(cfg, everything(kind, cls, 3, layout, order), base(kind, cls, 3, 4, True), order)


def plan_order(n):
    def p(c):
        kind = c.choose("kind", KINDS)
        cls = c.choose("task", ["regression", "classification"]) == "classification"
        return n, kind, cls, c.choose("order", list(itertools.permutations(range(n))))

    return p


def check_order(cfg):
    n, kind, cls, order = cfg
    return compare(cfg, everything(kind, cls, 3, order=order, n=n), base(kind, cls, 3, n, True), order)


def plan_classes(k):
    def p(c):
        return k, c.choose("kind", KINDS), c.choose("task", ["regression", "classification"]) == "classification", c.choose("classes", list(itertools.permutations(range(k))))

    return p


def check_classes(cfg):
    k, kind, cls, classes = cfg
    return compare(cfg, everything(kind, cls, k, classes=np.array(classes)), base(kind, cls, k, 4, True), None, classes)


def plan_copies(c):
    return c.choose("kind", KINDS), c.choose("task", ["regression", "classification"]) == "classification", c.choose("copies", [2, 3]), c.choose("order", [None, (3, 1, 0, 2)])


def check_copies(cfg):
    """a dataset repeated r times, with r times as many used samples, is the same curvature"""
    kind, cls, copies, order = cfg
    got = everything(kind, cls, 3, order=order, copies=copies)
    return compare(cfg, got, base(kind, cls, 3, 4, True), order, None, copies)


def scenarios(tier):
    q = tier == "quick"
    out = [Enum("layouts", plan_layout(not q), check_layout), Enum("orders", plan_order(4), check_order), Enum("classes", plan_classes(3), check_classes), Enum("copies", plan_copies, check_copies)]
    if not q:
        out += [Enum("orders5", plan_order(5), check_order), Enum("classes4", plan_classes(4), check_classes)]
    return out
