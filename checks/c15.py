"""C15 linearised predictions are N(f(x), J Sigma J')."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.cov import set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.eval.pushforward import (
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_samples,
    lin_setup,
    set_get_weight_sample,
    set_lin_pushforward,
)
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, fail, leaves, mat

LEVEL = "exploration"
RULE = "every model / curvature kind / evaluation mode x every ordered selection of the requested outputs (all 326 for a vector and a matrix valued model, all singles and ordered pairs plus the default list elsewhere); each at 2 inputs x 3 prior arguments"
BOUNDS = {
    "quick": "6 models (outputs of rank 0, 1, 2; bare, tuple and nested parameter trees), 3 curvature kinds, every ordered selection of {mean, cov, var, std, samples}",
    "thorough": "all 326 orders for every model and curvature kind, 4 inputs",
}
FNS = {"mean": lin_pred_mean, "cov": lin_pred_cov, "var": lin_pred_var, "std": lin_pred_std, "samples": lin_samples}
ORDERS = [o for r in range(6) for o in itertools.permutations(FNS, r)]
SHORT = [o for o in ORDERS if len(o) in (1, 2)] + [("mean", "cov", "var", "std", "samples"), ("samples", "std", "var", "cov", "mean")]
MODELS = {"scale": (3, 3), "multi": (2, 2), "linear": (2, 2), "bare": (2, 3), "scalarout": (2, 1), "mlp": (1, 1)}
PRIORS = [(0.3, 1.0, 1.0), (2.0, 1.5, 1.0), (0.7, 0.25, 5.0)]


def estimate(kind, P, seed):
    r = P if kind != "lowrank" else max(1, P - 2)
    B = mat(P, r, seed)
    if kind == "lowrank":
        B = np.linalg.qr(B)[0] * np.linspace(2, 0.5, r)
    C = B @ B.T
    if kind == "diagonal":
        return np.diag(np.diag(C)), "diagonal", jnp.asarray(np.diag(C))
    if kind == "lowrank":
        S = np.linspace(2, 0.5, r) ** 2
        return C, "lanczos", LowRankTerms(U=jnp.asarray(B / np.sqrt(S)), S=jnp.asarray(S), scalar=jnp.asarray(0.0))
    return C, "full", jnp.asarray(C)


def plan(all_orders):
    def plan_(c):
        m = c.choose("model", list(MODELS))
        kind = c.choose("kind", ["full", "diagonal", "lowrank"])
        full = all_orders or (m == "multi" and kind == "full")
        o = c.choose("outputs", ORDERS if full else SHORT)
        if not full and kind == "diagonal" and len(o) == 2:
            raise Skip
        if not full and m in ("scalarout", "mlp", "bare") and kind == "lowrank" and len(o) == 2:
            raise Skip
        return m, kind, o, "jit"

    return plan_


def plan_modes(c):
    m = c.choose("model", list(MODELS))
    mode = c.choose("mode", ["eager", "vmap", "batch", "default_fns", "nojit_mv", "default_key"])
    kind = c.choose("kind", ["full", "lowrank"])
    o = c.choose("outputs", [("mean", "cov", "var", "std", "samples"), ("std", "samples")])
    if mode == "default_fns" and o[0] != "mean":
        raise Skip
    return m, kind, o, mode


_W = {}


def weights(m, kind, pf, params, key, ns, pi):
    """Zero-mean weight samples of the library (decided by C18), flattened."""
    k = (m, kind, pi, str(jax.random.key_data(key)))
    if k not in _W:
        tau, s2, lsf = PRIORS[pi]
        post = pf({"prior_prec": tau, "sigma_squared": s2}, lsf)
        zero = jax.tree.map(jnp.zeros_like, params)
        get = set_get_weight_sample(key, zero, post.scale_mv(post.state), ns)
        _W[k] = np.stack([np.concatenate([A(l).reshape(-1) for l in leaves(get(i))]) for i in range(ns)])
    return _W[k]


def check(cfg):
    m, kind, order, mode = cfg
    toy = Toy(m, *MODELS[m])
    P = toy.P
    C, ct, est = estimate(kind, P, 2)
    params = toy.params
    tol = dict(rtol=1e-8, atol=1e-10)
    pf = set_posterior_fn(ct, est, layout=params)
    fns = [lin_setup] + [FNS[o] for o in order]
    key = jax.random.key(11)
    ns = 3
    opts = {"pushforward_fns": fns, "num_samples": ns, "key": key}
    if mode == "batch":
        opts.update(lin_samples_batch_size=2)
    if mode == "nojit_mv":
        opts.update(mv_jittable=False, weight_batch_size=3)
    if mode == "default_fns":
        del opts["pushforward_fns"]
    if mode == "default_key":
        opts["key"] = None
        key = jax.random.key(0)

    def model(*, input, params):
        return toy.model_fn(input, params)

    def predict(x, tau, s2, lsf):
        pa = {"prior_prec": tau, "sigma_squared": s2}
        return set_lin_pushforward(model, params, pf, pa, loss_scaling_factor=lsf, **opts)(x)

    X = toy.xs(2, 5)
    if mode == "vmap":
        outs = [jax.vmap(lambda x: predict(x, *p))(jnp.asarray(X)) for p in PRIORS]  # noqa: B023
    elif mode == "eager":
        rs = [[predict(jnp.asarray(x), *p) for x in X] for p in PRIORS]
        outs = [{k: np.stack([A(r[k]) for r in row]) for k in row[0]} for row in rs]
    else:
        f = jax.jit(jax.vmap(jax.vmap(predict, (0, None, None, None)), (None, 0, 0, 0)))
        res = f(jnp.asarray(X), *(jnp.asarray(c) for c in zip(*PRIORS)))
        outs = [{k: A(v)[i] for k, v in res.items()} for i in range(len(PRIORS))]
    obs = []
    for pi, (tau, s2, lsf) in enumerate(PRIORS):
        S = np.linalg.inv((s2 * C + tau * np.eye(P)) / lsf)
        if "samples" in order:
            W = weights(m, kind, pf, params, key, ns, pi)
        for i, x in enumerate(X):
            r = {k: A(v)[i] for k, v in outs[pi].items()}
            f0 = toy.np_out(x)
            J = toy.jac(x)
            cov = J @ S @ J.T
            n = f0.size
            what = f"{m}/{kind} outputs={order} mode={mode} prior={PRIORS[pi]}"
            need = {"map", *("pred_" + o for o in order if o != "samples"), *(o for o in order if o == "samples")}
            if not need <= set(r):
                fail(f"{what}: missing outputs {need - set(r)}", "missing")
            close(r["map"], f0, f"{what}: map", **tol)
            if "pred_mean" in r:
                close(r["pred_mean"], f0, f"{what}: mean", **tol)
            if "pred_cov" in r:
                c = r["pred_cov"]
                if (f0.ndim >= 1 and c.shape != (n, n)) or c.size != n * n:
                    fail(f"{what}: covariance of shape {c.shape} for {n} outputs")
                close(c.reshape(n, n), cov, f"{what}: covariance", **tol)
            if "pred_var" in r:
                close(r["pred_var"], np.diag(cov).reshape(f0.shape), f"{what}: variance", **tol)
            if "pred_std" in r:
                close(r["pred_std"], np.sqrt(np.diag(cov)).reshape(f0.shape), f"{what}: std", **tol)
            if "samples" in order:
                close(r["samples"], np.stack([f0 + (J @ w).reshape(f0.shape) for w in W]), f"{what}: samples", **tol)
            obs.append([float(cov.sum())] + [float(np.sum(r[k])) for k in sorted(r)])
    return obs


# ------------------------------------------------------------- shapes, sizes, magnitudes
EXT_MODELS = [("shaped", 3, (1,)), ("shaped", 2, (1, 3)), ("shaped", 2, (3, 1)), ("shaped", 2, (2, 1, 2)), ("shaped", 4, (20,)), ("offset", 2, (3,)), ("scalarout", 40, 1), ("deep", 2, 2)]
EXT_PRIORS = [(1.0, 1.0, 1.0), (1e-6, 1.0, 1.0), (1e6, 1.0, 1.0), (0.3, 1e-4, 1e3), (1e-3, 1e3, 0.5)]


def plan_extreme(c):
    m = c.choose("model", EXT_MODELS)
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    ns = c.choose("samples", [0, 1, 2, 9, 130])
    o = c.choose("outputs", [("mean", "cov", "var", "std"), ("std",), ("var",)] if ns == 0 else [("samples",), ("mean", "cov", "var", "std", "samples"), ("samples", "std")])
    batch = c.choose("batch", [{}, {"lin_samples_batch_size": 4}, {"weight_batch_size": 200}, {"precompute": False}] if ns > 2 else [{}, {"precompute": False}] if ns else [{}])
    how = c.choose("how", ["jit", "eager"])
    if batch and kind != "full" or how == "eager" and (batch or len(o) > 1):
        raise Skip
    if (how == "eager" or batch) and (kind == "diagonal" or o == ("samples", "std") or o == ("var",) or ns == 9):
        raise Skip
    if m[0] == "deep" and (kind != "full" or batch or how == "eager" or ns not in (0, 2) or len(o) != (4 if ns == 0 else 5)):
        raise Skip
    return m, kind, ns, o, batch, how


def check_extreme(cfg):
    """output shapes with unit axes, many outputs, a single sample / many samples, extreme precisions, outputs far from zero."""
    m, kind, ns, order, batch, how = cfg
    toy = Toy(*m)
    P = toy.P
    C, ct, est = estimate(kind, P, 2)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    key = jax.random.key(13)
    opts = {"pushforward_fns": [lin_setup] + [FNS[o] for o in order], **batch}
    if ns:
        opts.update(num_samples=ns, key=key)

    def model(*, input, params):
        return toy.model_fn(input, params)

    def all_weights(tau, s2, lsf):
        post = pf({"prior_prec": tau, "sigma_squared": s2}, lsf)
        get = set_get_weight_sample(key, jax.tree.map(jnp.zeros_like, toy.params), post.scale_mv(post.state), ns)
        return jax.lax.map(lambda i: jnp.concatenate([jnp.reshape(l, -1) for l in leaves(get(i))]), jnp.arange(ns))

    def predict(x, tau, s2, lsf):
        return set_lin_pushforward(model, toy.params, pf, {"prior_prec": tau, "sigma_squared": s2}, loss_scaling_factor=lsf, **opts)(x)

    X = toy.xs(2, 5)
    obs = []
    run = jax.jit(predict) if how == "jit" else predict
    for tau, s2, lsf in EXT_PRIORS if how == "jit" else EXT_PRIORS[1:2]:
        S = np.linalg.inv((s2 * C + tau * np.eye(P)) / lsf)
        W = A(jax.jit(all_weights)(tau, s2, lsf)) if ns else None
        for x in X:
            r = {k: A(v) for k, v in run(jnp.asarray(x), tau, s2, lsf).items()}
            f0, J = toy.np_out(x), toy.jac(x)
            cov = J @ S @ J.T
            n = f0.size
            what = f"{m}/{kind} outputs={order} samples={ns} {batch} {how} prior={(tau, s2, lsf)}"
            at = 1e-8 * np.abs(cov).max()
            close(r["map"], f0, f"{what}: map", rtol=1e-10)
            if "mean" in order:
                close(r["pred_mean"], f0, f"{what}: mean", rtol=1e-10)
            if "cov" in order:
                close(r["pred_cov"].reshape(n, n), cov, f"{what}: covariance", rtol=1e-6, atol=at)
            if "var" in order:
                close(r["pred_var"], np.diag(cov).reshape(f0.shape), f"{what}: variance", rtol=1e-6, atol=at)
            if "std" in order:
                close(r["pred_std"], np.sqrt(np.diag(cov)).reshape(f0.shape), f"{what}: std", rtol=1e-6, atol=at / np.sqrt(np.diag(cov).min()))
            if "samples" in order:
                want = np.stack([f0 + (J @ w).reshape(f0.shape) for w in W])
                close(r["samples"], want, f"{what}: samples", rtol=1e-11, atol=1e-7 * np.abs(want - f0).max())
            obs.append([float(cov.sum())] + [float(np.sum(r[k])) for k in sorted(r)])
    return obs


def scenarios(tier):
    q = tier == "quick"
    return [Enum("extremes", plan_extreme, check_extreme), Enum("orders", plan(not q), check), Enum("modes", plan_modes, check)]
