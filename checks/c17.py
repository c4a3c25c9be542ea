"""C17 sampled (nonlinear) predictions are statistics of the model at the posterior samples."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import EXT_MODELS, EXT_PRIORS, MODELS, PRIORS, estimate
from laplax.curv.cov import set_posterior_fn
from laplax.eval.pushforward import (
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_get_weight_sample,
    set_nonlin_pushforward,
)
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, fail, leaves, softmax

LEVEL = "exploration"
RULE = "every model / curvature kind / ensemble size / evaluation mode x every ordered selection of outputs (all 326 of {mean, cov, var, std, samples} for a matrix-valued model, all ordered selections up to 2 with class probabilities elsewhere); each at 2 inputs x 3 prior arguments"
BOUNDS = {
    "quick": "5 models, ensembles of 1, 2, 3, 7 members, 3 curvature kinds",
    "thorough": "all 326 orders for every model, ordered selections up to 3 with class probabilities",
}
FNS = {"mean": nonlin_pred_mean, "cov": nonlin_pred_cov, "var": nonlin_pred_var, "std": nonlin_pred_std, "samples": nonlin_samples,
       "act": nonlin_mc_pred_act}
FIVE = [k for k in FNS if k != "act"]
ORDERS = [o for r in range(6) for o in itertools.permutations(FIVE, r)]
DEFAULT = ("mean", "cov", "var", "std", "samples")


def orders_with_act(n):
    return [o for r in range(1, n + 1) for o in itertools.permutations(FNS, r)] + [DEFAULT, (*DEFAULT, "act"), ("act", *DEFAULT[::-1])]


def plan(q):
    def plan_(c):
        m = c.choose("model", ["multi", "scale", "scalarout", "mlp", "bare"])
        kind = c.choose("kind", ["full", "lowrank", "diagonal"])
        if m == "multi" and kind != "full" or m in ("mlp", "bare") and kind == "full" and q:
            raise Skip
        if m in ("multi", "scalarout"):
            o = c.choose("outputs", ORDERS if m == "multi" or not q else [o for o in ORDERS if len(o) in (1, 2)] + [DEFAULT])
        else:
            o = c.choose("outputs", orders_with_act(2 if q else 3) + ([] if q else ORDERS))
        if q and m != "multi" and kind == "diagonal" and len(o) != 1:
            raise Skip
        if q and m in ("mlp", "bare", "scalarout") and len(o) == 2 and kind != "lowrank":
            raise Skip
        return m, kind, o, 3, "jit"

    return plan_


def plan_modes(c):
    m = c.choose("model", ["multi", "scale", "scalarout", "linear"])
    ns = c.choose("members", [1, 2, 5, 7])
    mode = c.choose("mode", ["eager", "vmap", "batch1", "batch2", "default_fns", "jit"])
    o = c.choose("outputs", [DEFAULT, ("std", "var", "cov", "mean", "act")])
    if m in ("multi", "scalarout") and "act" in o:
        o = o[:-1]
    if mode == "default_fns" and o != DEFAULT:
        raise Skip
    return m, "full" if ns != 2 else "lowrank", o, ns, mode


_W = {}


def weights(m, kind, pf, params, key, ns, pi):
    k = (m, kind, pi, ns, str(jax.random.key_data(key)))
    if k not in _W:
        tau, s2, lsf = PRIORS[pi]
        post = pf({"prior_prec": tau, "sigma_squared": s2}, lsf)
        get = set_get_weight_sample(key, params, post.scale_mv(post.state), ns)
        _W[k] = np.stack([np.concatenate([A(l).reshape(-1) for l in leaves(get(i))]) for i in range(ns)])
    return _W[k]


def check(cfg):
    m, kind, order, ns, mode = cfg
    toy = Toy(m, *MODELS[m])
    C, ct, est = estimate(kind, toy.P, 2)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    key = jax.random.key(5)
    opts = {"pushforward_fns": [nonlin_setup] + [FNS[o] for o in order], "num_samples": ns, "key": key}
    if mode == "batch1":
        opts.update(nonlin_setup_batch_size=1)
    if mode == "batch2":
        opts.update(weight_batch_size=2)
    if mode == "default_fns":
        del opts["pushforward_fns"]

    def model(*, input, params):
        return toy.model_fn(input, params)

    def predict(x, tau, s2, lsf):
        return set_nonlin_pushforward(model, toy.params, pf, {"prior_prec": tau, "sigma_squared": s2}, loss_scaling_factor=lsf, **opts)(x)

    X = toy.xs(2, 5)
    if mode == "vmap":
        outs = [jax.vmap(lambda x: predict(x, *p))(jnp.asarray(X)) for p in PRIORS]  # noqa: B023
    elif mode == "eager":
        rs = [[predict(jnp.asarray(x), *p) for x in X] for p in PRIORS]
        outs = [{k: np.stack([A(r[k]) for r in row]) for k in row[0]} for row in rs]
    else:
        f = jax.jit(jax.vmap(jax.vmap(predict, (0, None, None, None)), (None, 0, 0, 0)))
        res = f(jnp.asarray(X), *(jnp.asarray(c) for c in zip(*PRIORS)))
        outs = [{k: A(v)[i] for k, v in res.items()} for i in range(len(PRIORS))]
    obs = []
    tol = dict(rtol=1e-8, atol=1e-10)
    for pi in range(len(PRIORS)):
        W = weights(m, kind, pf, toy.params, key, ns, pi)
        for i, x in enumerate(X):
            r = {k: A(v)[i] for k, v in outs[pi].items()}
            f0 = toy.np_out(x)
            E = np.stack([toy.np_out(x, w) for w in W])
            n = f0.size
            what = f"{m}/{kind} members={ns} outputs={order} mode={mode} prior={PRIORS[pi]}"
            names = {"samples": "samples", "act": "mc_pred_act"}
            need = {"map", *(names.get(o, "pred_" + o) for o in order)}
            if not need <= set(r):
                fail(f"{what}: missing outputs {need - set(r)}", "missing")
            close(r["map"], f0, f"{what}: map", **tol)
            if "pred_mean" in r:
                close(r["pred_mean"], E.mean(0), f"{what}: mean", **tol)
            if "pred_cov" in r:
                D = (E - E.mean(0)).reshape(ns, n)
                c = r["pred_cov"]
                if c.size != n * n:
                    fail(f"{what}: covariance shape {c.shape}")
                close(c.reshape(n, n), D.T @ D / ns, f"{what}: covariance", **tol)
            if "pred_var" in r:
                close(r["pred_var"], E.var(0), f"{what}: variance", **tol)
            if "pred_std" in r:
                # sqrt amplifies rounding of an exactly zero variance
                close(np.square(r["pred_std"]), E.var(0), f"{what}: std squared", **tol)
                if np.any(r["pred_std"] < 0):
                    fail(f"{what}: negative std")
            if "samples" in r:
                close(r["samples"], E[: min(5, ns)], f"{what}: samples", **tol)
            if "mc_pred_act" in r:
                close(r["mc_pred_act"], softmax(E).mean(0), f"{what}: class probabilities", **tol)
            obs.append([float(np.sum(r[k])) for k in sorted(r)])
    return obs


# ------------------------------------------------------------- shapes, sizes, magnitudes
def plan_extreme(c):
    m = c.choose("model", EXT_MODELS)
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    ns = c.choose("members", [1, 2, 9, 130])
    o = c.choose("outputs", [DEFAULT, ("std",), ("var",), ("samples", "cov")] + ([("act",)] if np.ndim(m[2]) == 1 and len(m[2]) == 1 else []))
    batch = c.choose("batch", [{}, {"nonlin_setup_batch_size": 4}, {"weight_batch_size": 200}, {"precompute": False}] if ns in (9, 130) and kind == "full" and len(o) > 1 else [{}])
    how = c.choose("how", ["jit", "eager"] if kind == "full" and o == DEFAULT and not batch else ["jit"])
    if kind == "diagonal" and (ns == 9 or len(o) == 2):
        raise Skip
    return m, kind, ns, o, batch, how


def check_extreme(cfg):
    """output shapes with unit axes, many outputs, one member / many members, extreme precisions, ensembles far from zero."""
    m, kind, ns, order, batch, how = cfg
    toy = Toy(*m)
    C, ct, est = estimate(kind, toy.P, 2)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    key = jax.random.key(13)
    opts = {"pushforward_fns": [nonlin_setup] + [FNS[o] for o in order], "num_samples": ns, "key": key, **batch}

    def model(*, input, params):
        return toy.model_fn(input, params)

    def all_weights(tau, s2, lsf):
        post = pf({"prior_prec": tau, "sigma_squared": s2}, lsf)
        get = set_get_weight_sample(key, toy.params, post.scale_mv(post.state), ns)
        return jax.lax.map(lambda i: jnp.concatenate([jnp.reshape(l, -1) for l in leaves(get(i))]), jnp.arange(ns))

    def predict(x, tau, s2, lsf):
        return set_nonlin_pushforward(model, toy.params, pf, {"prior_prec": tau, "sigma_squared": s2}, loss_scaling_factor=lsf, **opts)(x)

    obs = []
    run = jax.jit(predict) if how == "jit" else predict
    wfn = jax.jit(all_weights)
    for tau, s2, lsf in EXT_PRIORS if how == "jit" else EXT_PRIORS[1:2]:
        W = A(wfn(tau, s2, lsf))
        for x in toy.xs(2, 5):
            r = {k: A(v) for k, v in run(jnp.asarray(x), tau, s2, lsf).items()}
            f0 = toy.np_out(x)
            E = np.stack([toy.np_out(x, w) for w in W])
            n = f0.size
            what = f"{m}/{kind} outputs={order} members={ns} {batch} {how} prior={(tau, s2, lsf)}"
            D = (E - E.mean(0)).reshape(ns, n)
            cov = D.T @ D / ns
            big = np.abs(E).max()
            at = 1e-7 * np.abs(cov).max() + 1e-22 * big**2
            close(r["map"], f0, f"{what}: map", rtol=1e-10)
            if "mean" in order:
                close(r["pred_mean"], E.mean(0), f"{what}: mean", rtol=1e-10, atol=1e-12 * big)
            if "cov" in order:
                close(r["pred_cov"].reshape(n, n), cov, f"{what}: covariance", rtol=1e-6, atol=at)
            if "var" in order:
                close(r["pred_var"], np.diag(cov).reshape(f0.shape), f"{what}: variance", rtol=1e-6, atol=at)
            if "std" in order:
                close(np.square(r["pred_std"]), np.diag(cov).reshape(f0.shape), f"{what}: std squared", rtol=1e-6, atol=at)
                if np.any(r["pred_std"] < 0):
                    fail(f"{what}: negative std")
            if "samples" in order:
                close(r["samples"], E[: min(5, ns)], f"{what}: samples", rtol=1e-10, atol=1e-12 * big)
            if "act" in order:
                close(r["mc_pred_act"], softmax(E).mean(0), f"{what}: class probabilities", rtol=1e-8, atol=1e-12)
            obs.append([float(np.sum(r[k])) for k in sorted(r)])
    return obs


def scenarios(tier):
    q = tier == "quick"
    return [Enum("extremes", plan_extreme, check_extreme), Enum("orders", plan(q), check), Enum("modes", plan_modes, check)]
