"""C19 class probabilities: closed forms, and their application in both pushforwards."""

import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import estimate
from laplax.curv.cov import set_posterior_fn
from laplax.enums import Predictive
from laplax.eval.predictives import laplace_bridge, mean_field_0_predictive, mean_field_1_predictive, mean_field_2_predictive
from laplax.eval.pushforward import (
    lin_mc_pred_act, lin_pred_cov, lin_pred_mean, lin_pred_std, lin_pred_var, lin_samples, lin_setup, lin_special_pred_act,
    nonlin_mc_pred_act, nonlin_pred_cov, nonlin_pred_mean, nonlin_pred_std, nonlin_pred_var, nonlin_samples, nonlin_setup,
    nonlin_special_pred_act, set_get_weight_sample, set_lin_pushforward, set_nonlin_pushforward,
)
from mc.core import Enum, Search, Skip
from mc.lib import A, L, MODELS, Toy, close, fail, from_flat, leaves, softmax

LEVEL = "exploration"
RULE = "every (logit mean, covariance) over the value grid for each transform; and every pushforward x transform x every ordered selection of up to two other requested outputs, compared with the closed form applied to the reference predictive moments"
BOUNDS = {
    "quick": "2..4 classes, means over {-30,-1,0,2,30}, variances over {0,0.01,1,400} (bridge: positive), correlations {-0.2,0,0.9}; pushforward lists of length <= 3",
    "thorough": "5 classes, longer grids, lists of length <= 4",
}
LAM = math.pi / 8


# ---------------------------------------------------------------- closed forms
def np_bridge(mu, var, corr):
    C = len(mu)
    if corr:
        c = var.sum() / math.sqrt(C / 2)
        mu, var = mu / math.sqrt(c), var / c
    # alpha_i = (1 - 2/C + exp(mu_i) sum_j exp(-mu_j) / C^2) / var_i up to a common factor exp(-s)
    s = max(mu.max() - mu.min(), 0.0)
    with np.errstate(under="ignore"):
        a = ((1 - 2 / C) * np.exp(-s) + np.exp(mu[:, None] - mu[None] - s).sum(1) / C**2) / var
    return a / a.sum()


def np_mf0(mu, var):
    return softmax(mu / np.sqrt(1 + LAM * var))


def np_mf1(mu, var):
    return np.array([1 / sum(math.exp(min((mu[j] - mu[i]) / math.sqrt(1 + LAM * (var[i] + var[j])), 700)) for j in range(len(mu))) for i in range(len(mu))])


def np_mf2(mu, cov):
    n = len(mu)
    return np.array([1 / sum(math.exp(min((mu[j] - mu[i]) / math.sqrt(1 + LAM * (cov[i, i] + cov[j, j] - 2 * cov[i, j])), 700)) for j in range(n)) for i in range(n)])


def valid(p, what, normalised):
    p = A(p)
    if np.any(~np.isfinite(p)) or np.any(p < 0) or np.any(p > 1 + 1e-9):
        fail(f"{what}: not probabilities: {p.tolist()}", "range")
    if normalised and abs(p.sum() - 1) > 1e-9:
        fail(f"{what}: probabilities sum to {p.sum()}", "sum")


def run_transform(param):
    kind, C, mus, vs = param
    M = np.array(list(itertools.product(mus, repeat=C)))
    n = 0
    out = []
    if kind == "mf2":
        for v in itertools.product([x for x in vs], repeat=C):
            for rho in (-0.2, 0.0, 0.9):
                d = np.sqrt(np.array(v))
                K = np.outer(d, d) * (rho + (1 - rho) * np.eye(C))
                got = A(jax.jit(jax.vmap(mean_field_2_predictive, (0, None)))(jnp.asarray(M), jnp.asarray(K)))
                for mu, g in zip(M, got):
                    what = f"mean_field_2(mean={mu.tolist()}, cov={K.tolist()})"
                    close(g, np_mf2(mu, K), what, rtol=1e-9, atol=1e-12)
                    valid(g, what, False)
                    n += 1
                out.append(float(got.sum()))
    else:
        for v in itertools.product([x for x in vs if x > 0 or not kind.startswith("bridge")], repeat=C):
            v = np.array(v)
            fn, ref, norm = {
                "bridge": (lambda m, w: laplace_bridge(m, w, use_correction=False), lambda m, w: np_bridge(m, w, False), True),
                "bridge_corr": (lambda m, w: laplace_bridge(m, w, use_correction=True), lambda m, w: np_bridge(m, w, True), True),
                "mf0": (mean_field_0_predictive, np_mf0, True),
                "mf1": (mean_field_1_predictive, np_mf1, False),
            }[kind]
            got = A(jax.jit(jax.vmap(fn, (0, None)))(jnp.asarray(M), jnp.asarray(v)))
            for mu, g in zip(M, got):
                what = f"{kind}(mean={mu.tolist()}, var={v.tolist()})"
                close(g, ref(mu, v), what, rtol=1e-9, atol=1e-12)
                valid(g, what, norm)
                n += 1
            out.append(float(got.max()))
    eager = {"bridge": lambda: laplace_bridge(jnp.asarray(M[0]), jnp.ones(C), use_correction=False),
             "bridge_corr": lambda: laplace_bridge(jnp.asarray(M[0]), jnp.ones(C), use_correction=True),
             "mf0": lambda: mean_field_0_predictive(jnp.asarray(M[0]), jnp.ones(C), use_correction=True),
             "mf1": lambda: mean_field_1_predictive(jnp.asarray(M[0]), jnp.ones(C)),
             "mf2": lambda: mean_field_2_predictive(jnp.asarray(M[0]), jnp.eye(C))}[kind]()
    ref = {"bridge": lambda: np_bridge(M[0], np.ones(C), False), "bridge_corr": lambda: np_bridge(M[0], np.ones(C), True),
           "mf0": lambda: np_mf0(M[0], np.ones(C)), "mf1": lambda: np_mf1(M[0], np.ones(C)), "mf2": lambda: np_mf2(M[0], np.eye(C))}[kind]()
    close(eager, ref, f"{kind} outside jit", rtol=1e-9)
    return {"states": n, "transitions": n, "executions": n, "outcomes": out, "sample": {"kind": kind, "value": np.asarray(ref).tolist()}}


def plan_single(c):
    kind = c.choose("kind", ["bridge", "bridge_corr", "mf0", "mf1", "mf2"])
    mu = c.choose("mean", [(0.0, 1.0), (3.0, -2.0, 1.0), (60.0, -60.0, 0.0), (100.0, 100.0, -5.0), (1000.0, -1000.0), (-3e4, 2.0, 3.0, 3e4), (5.0,) * 4])
    v = c.choose("var", [1.0, 1e-6, 1e-3, 1e6, "mixed"])
    return kind, mu, v


def check_single(cfg):
    """single precision (the default of jax): large logits and small or large variances still give valid probabilities."""
    kind, mu, v = cfg
    mu = np.array(mu, np.float32)
    C = len(mu)
    v = (np.array([1e-4, 1.0, 1e3, 10.0])[:C] if v == "mixed" else np.full(C, v)).astype(np.float32)
    m64, v64 = mu.astype(float), v.astype(float)
    if kind == "mf2":
        K = np.diag(v) + np.sqrt(np.outer(v, v)) * 0.5
        got, want = mean_field_2_predictive(jnp.asarray(mu), jnp.asarray(K, jnp.float32)), np_mf2(m64, K)
    elif kind.startswith("bridge"):
        got, want = laplace_bridge(jnp.asarray(mu), jnp.asarray(v), use_correction=kind == "bridge_corr"), np_bridge(m64, v64, kind == "bridge_corr")
    else:
        got, want = {"mf0": mean_field_0_predictive, "mf1": mean_field_1_predictive}[kind](jnp.asarray(mu), jnp.asarray(v)), {"mf0": np_mf0, "mf1": np_mf1}[kind](m64, v64)
    g = A(got).astype(float)
    what = f"{kind} in single precision, mean {mu.tolist()}, variances {v.tolist()}"
    if np.any(~np.isfinite(g)) or np.any(g < 0) or np.any(g > 1 + 1e-5) or kind in ("bridge", "bridge_corr", "mf0") and abs(g.sum() - 1) > 1e-4:
        fail(f"{what}: not probabilities: {g.tolist()}", "range")
    close(g, want, what, rtol=2e-2 if np.abs(m64).max() / np.sqrt(v64.min()) > 50 else 1e-4, atol=1e-5)
    return g.tolist()


def plan_many(c):
    kind = c.choose("kind", ["bridge", "bridge_corr", "mf0", "mf1", "mf2"])
    C = c.choose("classes", [2, 5, 10, 47, 300])
    mu = c.choose("mean", ["zero", "small", "spread", "peaked", "shifted"])
    v = c.choose("var", ["unit", "tiny", "huge", "mixed", "one_dominates"])
    how = c.choose("how", ["jit", "eager"])
    if how == "eager" and (C > 10 or v in ("tiny", "huge")):
        raise Skip
    return kind, C, mu, v, how


def check_many(cfg):
    """many classes, variances over many orders of magnitude, correlated covariances."""
    kind, C, mean, var, how = cfg
    k = np.arange(C)
    irr = np.mod((k + 1) * 0.6180339887498949, 1.0)
    mu = {"zero": np.zeros(C), "small": 1e-3 * irr, "spread": 6 * irr - 3, "peaked": np.where(k == C // 2, 25.0, -2.0 * irr), "shifted": 20 + irr}[mean]
    v = {"unit": np.ones(C), "tiny": 1e-9 * (1 + irr), "huge": 1e8 * (1 + irr), "mixed": 10.0 ** (8 * irr - 4), "one_dominates": np.where(k == 1, 1e4, 0.01)}[var]
    jit = jax.jit if how == "jit" else (lambda f: f)
    if kind == "mf2":
        B = np.outer(np.sqrt(v), np.ones(C)) * (np.cos(k[:, None] * 1.3 + k[None]) if C < 50 else np.eye(C))
        K = B @ B.T / C + np.diag(v) * 0.1
        got, want = jit(mean_field_2_predictive)(jnp.asarray(mu), jnp.asarray(K)), np_mf2(mu, K)
    elif kind.startswith("bridge"):
        corr = kind == "bridge_corr"
        got, want = jit(lambda m, w: laplace_bridge(m, w, use_correction=corr))(jnp.asarray(mu), jnp.asarray(v)), np_bridge(mu, v, corr)
    else:
        got, want = jit({"mf0": mean_field_0_predictive, "mf1": mean_field_1_predictive}[kind])(jnp.asarray(mu), jnp.asarray(v)), {"mf0": np_mf0, "mf1": np_mf1}[kind](mu, v)
    what = f"{kind} with {C} classes, {mean} means, {var} variances ({how})"
    close(got, want, what, rtol=1e-8, atol=1e-14)
    valid(got, what, kind[:2] != "mf" or kind == "mf0")
    return float(A(got).max())


# ---------------------------------------------------------------- pushforwards
LIN = {"mean": lin_pred_mean, "var": lin_pred_var, "cov": lin_pred_cov, "std": lin_pred_std, "samples": lin_samples}
NON = {"mean": nonlin_pred_mean, "var": nonlin_pred_var, "cov": nonlin_pred_cov, "std": nonlin_pred_std, "samples": nonlin_samples}
TYPES = [None, "laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2", "mc"]


def plan(maxpre):
    def plan_(c):
        push = c.choose("pushforward", ["linear", "nonlinear"])
        typ = c.choose("transform", TYPES)
        pre = c.choose("requested_before", [o for r in range(maxpre + 1) for o in itertools.permutations(LIN, r)] + [("mean", "cov", "var", "std", "samples")])
        post = c.choose("requested_after", [(), ("var",), ("cov", "std"), ("samples",)])
        corr = c.choose("use_correction", [None, True, False]) if typ == "laplace_bridge" else None
        kind = c.choose("kind", ["full", "lowrank"])
        spell = c.choose("spelling", ["str", "enum"]) if typ and typ != "mc" else "str"
        if post and len(pre) > 1 or kind == "lowrank" and (post or len(pre) > 1) or spell == "enum" and (pre or post):
            raise Skip
        if corr is not None and (post or len(pre) > 1):
            raise Skip
        return push, typ, pre, post, corr, kind, spell

    return plan_


def check(cfg):
    push, typ, pre, post_fns, corr, kind, spell = cfg
    toy = Toy("scale", 3, 3)
    C, ct, est = estimate(kind, toy.P, 2)
    tau = 0.6
    pf = set_posterior_fn(ct, est, layout=toy.params)
    S = np.linalg.inv(C + tau * np.eye(toy.P))
    table = LIN if push == "linear" else NON
    special, mc = (lin_special_pred_act, lin_mc_pred_act) if push == "linear" else (nonlin_special_pred_act, nonlin_mc_pred_act)
    ns = 7
    key = jax.random.key(8)
    fns = [lin_setup if push == "linear" else nonlin_setup] + [table[o] for o in pre] + [mc if typ == "mc" else special] + [table[o] for o in post_fns]
    kw = {}
    if typ not in (None, "mc"):
        kw["special_pred_type"] = Predictive(typ) if spell == "enum" else typ
    if corr is not None:
        kw["use_correction"] = corr
    setp = set_lin_pushforward if push == "linear" else set_nonlin_pushforward
    p = setp(toy.model_fn, toy.params, pf, {"prior_prec": tau}, key=key, num_samples=ns, pushforward_fns=fns, **kw)
    p = jax.jit(p)
    ps = pf({"prior_prec": tau})
    base = toy.params if push == "nonlinear" else jax.tree.map(jnp.zeros_like, toy.params)
    W = weights(kind, push, ps, base, key, ns)
    X = toy.xs(2, 5)
    out = [{k: A(v)[i] for k, v in jax.vmap(p)(jnp.asarray(X)).items()} for i in range(2)]
    obs = []
    for x, r in zip(X, out):
        f0, J = toy.np_out(x), toy.jac(x)
        if push == "linear":
            E = f0 + W @ J.T
            mean, cov = f0, J @ S @ J.T
        else:
            E = np.stack([toy.np_out(x, w) for w in W])
            mean = E.mean(0)
            cov = (E - mean).T @ (E - mean) / ns
        var = np.diag(cov)
        what = f"{push} class probabilities, transform={typ} before={pre} after={post_fns} use_correction={corr}"
        if typ == "mc":
            got, want, norm = r["mc_pred_act"], softmax(E).mean(0), True
        else:
            got = r["special_pred_act"]
            want, norm = {
                None: lambda: (np_mf0(mean, var), True),
                "mean_field_0": lambda: (np_mf0(mean, var), True),
                "mean_field_1": lambda: (np_mf1(mean, var), False),
                "mean_field_2": lambda: (np_mf2(mean, cov), False),
                "laplace_bridge": lambda: (np_bridge(mean, var, corr is None or corr), True),
            }[typ]()
        close(got, want, what, rtol=1e-8, atol=1e-10)
        valid(got, what, norm)
        # the other outputs are unaffected
        for o in (*pre, *post_fns):
            if o == "samples":
                close(r["samples"], E if push == "linear" else E[:5], f"{what}: samples", rtol=1e-8, atol=1e-10)
            else:
                close(r["pred_" + o], {"mean": mean, "var": var, "cov": cov, "std": np.sqrt(var)}[o], f"{what}: pred_{o}", rtol=1e-8, atol=1e-10)
        obs.append(got.tolist())
    return obs


def plan_extreme(c):
    push = c.choose("pushforward", ["linear", "nonlinear"])
    typ = c.choose("transform", TYPES)
    m = c.choose("model", [("scale", 3, 3), ("shaped", 4, (12,)), ("offset", 2, (3,))])
    tau = c.choose("prior_prec", [0.6, 1e-4, 1e5])
    ns = c.choose("samples", [1, 2, 130])
    how = c.choose("how", ["jit", "eager"])
    if push == "nonlinear" and ns == 1 and typ == "laplace_bridge":
        raise Skip  # zero variance
    if push == "linear" and ns == 2 and typ != "mc" or how == "eager" and (tau != 0.6 or ns == 2):
        raise Skip
    return push, typ, m, tau, ns, how


def check_extreme(cfg):
    """one / many samples, more classes, extreme precisions, logits far from zero."""
    push, typ, m, tau, ns, how = cfg
    toy = Toy(*m)
    C, ct, est = estimate("full", toy.P, 2)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    S = np.linalg.inv(C + tau * np.eye(toy.P))
    special, mc = (lin_special_pred_act, lin_mc_pred_act) if push == "linear" else (nonlin_special_pred_act, nonlin_mc_pred_act)
    key = jax.random.key(8)
    fns = [lin_setup if push == "linear" else nonlin_setup, mc if typ == "mc" else special]
    kw = {} if typ in (None, "mc") else {"special_pred_type": typ}
    setp = set_lin_pushforward if push == "linear" else set_nonlin_pushforward
    p = setp(lambda input, params: toy.model_fn(input, params), toy.params, pf, {"prior_prec": tau}, key=key, num_samples=ns, pushforward_fns=fns, **kw)
    p = jax.jit(p) if how == "jit" else p
    ps = pf({"prior_prec": tau})
    base = toy.params if push == "nonlinear" else jax.tree.map(jnp.zeros_like, toy.params)
    get = set_get_weight_sample(key, base, ps.scale_mv(ps.state), ns)
    W = A(jax.lax.map(lambda i: jnp.concatenate([jnp.reshape(l, -1) for l in leaves(get(i))]), jnp.arange(ns)))
    obs = []
    for x in toy.xs(2, 5):
        r = p(jnp.asarray(x))
        f0, J = toy.np_out(x), toy.jac(x)
        if push == "linear":
            E = f0 + W @ J.T
            mean, cov = f0, J @ S @ J.T
        else:
            E = np.stack([toy.np_out(x, w) for w in W])
            mean = E.mean(0)
            cov = (E - mean).T @ (E - mean) / ns
        var = np.diag(cov)
        what = f"{push} class probabilities, transform={typ}, model {m}, prior_prec={tau}, {ns} samples, {how}"
        got = r["mc_pred_act"] if typ == "mc" else r["special_pred_act"]
        want = {None: lambda: np_mf0(mean, var), "mean_field_0": lambda: np_mf0(mean, var), "mean_field_1": lambda: np_mf1(mean, var), "mean_field_2": lambda: np_mf2(mean, cov),
                "laplace_bridge": lambda: np_bridge(mean, var, True), "mc": lambda: softmax(E).mean(0)}[typ]()
        close(got, want, what, rtol=1e-6, atol=1e-9)
        valid(got, what, typ not in ("mean_field_1", "mean_field_2"))
        obs.append(A(got).tolist())
    return obs


_W = {}


def weights(kind, push, ps, base, key, ns):
    if (kind, push) not in _W:
        get = set_get_weight_sample(key, base, ps.scale_mv(ps.state), ns)
        _W[kind, push] = np.stack([np.concatenate([A(l).reshape(-1) for l in leaves(get(i))]) for i in range(ns)])
    return _W[kind, push]


def scenarios(tier):
    q = tier == "quick"
    mus = [-30.0, -1.0, 0.0, 2.0, 30.0]
    vs = [0.0, 0.01, 1.0, 400.0]
    params = []
    for kind in ("bridge", "bridge_corr", "mf0", "mf1", "mf2"):
        for C in (2, 3, 4) if q else (2, 3, 4, 5):
            params.append((kind, C, mus if C < 4 else mus[1:4] if C == 4 and q else mus[1:], vs if C < 4 or not q else vs[:1] + vs[2:]))
    return [Search("transforms", run_transform, params), Enum("many_classes", plan_many, check_many), Enum("single_precision", plan_single, check_single, x64=False), Enum("extremes", plan_extreme, check_extreme), Enum("pushforwards", plan(1 if q else 2), check)]
