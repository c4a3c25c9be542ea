"""C27 derivatives with respect to the prior arguments are the derivatives of the values."""

import jax
import jax.numpy as jnp
import numpy as np

import laplax.api as api
from checks.c15 import MODELS, estimate
from laplax.api import calibration
from laplax.curv.cov import set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.eval import metrics as lm
from laplax.eval import pushforward as pfm
from laplax.eval.calibrate import evaluate_for_given_prior_arguments
from laplax.eval.likelihood import marginal_log_likelihood
from laplax.register import register_calibration_method
from mc.core import Dyn, Enum, Skip
from mc.lib import A, Toy, close, fail, leaves, to_flat, vals

LEVEL = "exploration"
RULE = "every (quantity, curvature kind, model, differentiation mode) at every prior point of the grid, and every (objective, predictive, pushforward) handed to a registered calibration method: the derivative in the (log) prior precision and noise equals the fourth-order central difference of the library's own value, whose correctness the other properties decide; short gradient-descent histories through the registry reach the values a descent on differences reaches"
BOUNDS = {
    "quick": "12 quantities (posterior products, factors, weight samples, evidence, linearised and sampled predictions, kernel, objectives), 5 curvature estimates, 6 models, 6 differentiation modes, 4 prior points; 4 objectives x 6 predictives x 2 pushforwards through calibration(); descents of 4 steps",
    "thorough": "all combinations",
}
LOSS = {"mse": "mse"}
POINTS = [(0.0, 0.0), (-1.2, 0.7), (2.5, -1.5), (-5.0, 3.0)]
H = 2e-3


def diff(F, z):
    """fourth-order central differences of a vector-valued function of two numbers."""
    cols = []
    for i in range(2):
        e = np.eye(2)[i] * H
        v = [A(F(jnp.asarray(np.asarray(z) + s * e))) for s in (-2, -1, 1, 2)]
        cols.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * H))
    return np.stack(cols, axis=-1)


def prior(z):
    return {"prior_prec": jnp.exp(z[0]), "sigma_squared": jnp.exp(z[1])}


def flat(tree):
    return jnp.concatenate([jnp.reshape(x, -1) for x in jax.tree.leaves(tree)])


def estimates(kind, P):
    """full / diagonal / lowrank of rank P - 2, a rank-deficient full matrix, and low rank with zero eigenvalues"""
    if kind == "deficient":
        C, ct, est = estimate("lowrank", P, 2)
        return ct, jnp.asarray(C), "full"
    _, ct, est = estimate("lowrank" if kind == "zero_modes" else kind, P, 2)
    if kind == "zero_modes":
        est = LowRankTerms(U=est.U, S=est.S.at[-1].set(0.0), scalar=est.scalar)
    return ct, est, ct


KINDS = ["full", "diagonal", "lowrank", "deficient", "zero_modes"]
QUANT = ["cov", "factor", "sample", "evidence", "lin", "lin_std", "lin_samples", "nonlin", "nonlin_std", "kernel", "nll", "predictive"]
MODES = ["reverse", "forward", "jit", "vmap", "jit_forward", "loss_scale"]


def quantity(q, m, kind, lsf=1.0):
    toy = Toy(m, *MODELS[m])
    P = toy.P
    _, est, ct = estimates(kind, P)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    X = toy.xs(3, 5)
    key = jax.random.key(9)
    x = jnp.asarray(X[0])

    def lin(fns, **kw):
        return lambda z: flat({k: v for k, v in pfm.set_lin_pushforward(toy.model_fn, toy.params, pf, prior(z), loss_scaling_factor=lsf, pushforward_fns=[pfm.lin_setup, *fns], **kw)(x).items() if k != "map"})

    def nonlin(fns):
        return lambda z: flat({k: v for k, v in pfm.set_nonlin_pushforward(toy.model_fn, toy.params, pf, prior(z), loss_scaling_factor=lsf, pushforward_fns=[pfm.nonlin_setup, *fns], num_samples=4, key=key)(x).items() if k != "map"})

    if q == "cov":
        v = toy.tree(vals(P, 8))

        def F(z):
            post = pf(prior(z), lsf)
            return flat(post.cov_mv(post.state)(v))
    elif q == "factor":

        def F(z):
            post = pf(prior(z), lsf)
            mv = post.scale_mv(post.state)
            S = jax.vmap(lambda e: flat(mv(e)))(jnp.eye(post.rank if getattr(post, "rank", None) else P))
            return (S.T @ S).reshape(-1)
    elif q == "sample":

        def F(z):
            post = pf(prior(z), lsf)
            get = pfm.set_get_weight_sample(key, toy.params, post.scale_mv(post.state), 3)
            return flat([get(0), get(2)])
    elif q == "evidence":
        Y = vals(3 * max(1, toy.np_out(X[0]).size), 4).reshape((3,) + toy.np_out(X[0]).shape)
        data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}

        def F(z):
            return jnp.reshape(marginal_log_likelihood(est, prior(z), data, toy.model_fn, toy.params, "mse", ct, vmap_over_data=True, loss_scaling_factor=lsf), (1,))
    elif q == "lin":
        F = lin([pfm.lin_pred_mean, pfm.lin_pred_cov, pfm.lin_pred_var])
    elif q == "lin_std":
        F = lin([pfm.lin_pred_std])
    elif q == "lin_samples":
        F = lin([pfm.lin_samples], num_samples=4, key=key)
    elif q == "nonlin":
        F = nonlin([pfm.nonlin_pred_mean, pfm.nonlin_pred_cov, pfm.nonlin_pred_var, pfm.nonlin_samples])
    elif q == "nonlin_std":
        F = nonlin([pfm.nonlin_pred_std])
    elif q == "kernel":
        f = toy.np_out(X[0])

        def F(z):
            k, ds = pfm.set_posterior_gp_kernel(toy.model_fn, toy.params, pf, prior(z), loss_scaling_factor=lsf)
            return jnp.reshape(k(jnp.asarray(vals(f.size, 2).reshape(f.shape)), x, jnp.asarray(X[1]), ds), -1)
    elif q == "nll":
        Y = vals(3 * toy.np_out(X[0]).size, 4).reshape((3,) + toy.np_out(X[0]).shape)
        data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}

        def F(z):
            s = lambda prior_arguments: pfm.set_lin_pushforward(toy.model_fn, toy.params, pf, prior_arguments, loss_scaling_factor=lsf, pushforward_fns=[pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_std])  # noqa: E731
            go = lambda metric: evaluate_for_given_prior_arguments(data=data, set_prob_predictive=s, metric=metric, prior_arguments=prior(z))  # noqa: E731
            return jnp.stack([go(lm.nll_gaussian), go(lambda **kw: lm.chi_squared(**kw).mean()), go(lambda **kw: lm.crps_gaussian(**kw).mean())])
    else:
        F0 = []
        for act in ("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge"):
            F0.append(lin([pfm.lin_pred_mean, pfm.lin_pred_var, pfm.lin_pred_cov, pfm.lin_special_pred_act], special_pred_type=act))
        mc = lin([pfm.lin_samples, pfm.lin_mc_pred_act], num_samples=4, key=key)

        def F(z):
            return jnp.concatenate([g(z) for g in F0] + [mc(z)])

    return F


def plan(full):
    def p(c):
        q = c.choose("quantity", QUANT)
        m = c.choose("model", list(MODELS))
        kind = c.choose("kind", KINDS)
        mode = c.choose("mode", MODES)
        if q in ("evidence",) and m == "scalarout" or q in ("predictive",) and m not in ("linear", "bare") or q in ("nll",) and m == "scalarout":
            raise Skip
        if not full and (m not in ("linear", "scale", "multi")) + (mode not in ("reverse",)) + (kind not in ("full", "diagonal", "lowrank")) > 1:
            raise Skip
        if not full and mode in ("vmap", "jit_forward") and (kind == "diagonal" or m == "scale"):
            raise Skip
        if q == "evidence" and mode == "loss_scale":
            raise Skip
        return q, m, kind, mode

    return p


def check(cfg):
    q, m, kind, mode = cfg
    F = quantity(q, m, kind, 2.5 if mode == "loss_scale" else 1.0)
    run = jax.jit(F)
    D = {"reverse": lambda: jax.jit(jax.jacrev(F)), "loss_scale": lambda: jax.jit(jax.jacrev(F)), "forward": lambda: jax.jit(jax.jacfwd(F)), "jit": lambda: jax.jit(jax.jacrev(run)),
         "jit_forward": lambda: jax.jit(jax.jacfwd(run)), "vmap": lambda: jax.jit(jax.vmap(jax.jacrev(F)))}[mode]()
    obs = []
    Z = jnp.asarray(POINTS)
    got = A(D(Z)) if mode == "vmap" else np.stack([A(D(z)) for z in Z])
    for z, g in zip(POINTS, got):
        want = diff(run, z)
        scale = float(np.abs(A(run(jnp.asarray(z)))).max())
        close(g, want, f"{cfg} at log prior arguments {z}: derivative", rtol=1e-6, atol=1e-8 * (np.abs(want).max() + scale) + 1e-12)
        obs.append(float(np.abs(want).sum()))
    if q != "nonlin" and not max(obs) > 0:
        fail("harness: the quantity does not depend on the prior arguments")
    return [f"{o:.6g}" for o in obs]


# ----------------------------------------------------------------- second derivatives of the objectives
def plan_second(c):
    return c.choose("quantity", ["evidence", "nll", "lin", "cov"]), c.choose("model", ["scale", "linear", "mlp"]), c.choose("kind", KINDS)


def check_second(cfg):
    q, m, kind = cfg
    F = quantity(q, m, kind)
    G = jax.jit(jax.jacrev(F))
    Hs = jax.jit(jax.jacfwd(jax.jacrev(F)))
    for z in POINTS[:3]:
        want = diff(G, z)
        close(A(Hs(jnp.asarray(z))), want, f"{cfg} at {z}: second derivative", rtol=1e-6, atol=1e-8 * (1e-3 + np.abs(want).max() + np.abs(A(G(jnp.asarray(z)))).max()))
    return float(np.abs(want).sum())


# ----------------------------------------------------------------- through calibration()
PRED = ["none", "mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]


def plan_api(c):
    obj = c.choose("objective", ["nll", "chi_squared", "marginal_log_likelihood"])
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    push = c.choose("pushforward", ["linear", "nonlinear"])
    pred = c.choose("predictive", PRED)
    jit = c.choose("objective_jit", [True, False])
    args = c.choose("arguments", ["precision", "precision+noise"])
    if push == "nonlinear" and pred not in ("none", "mc_bridge") or obj == "chi_squared" and pred != "none" or obj == "marginal_log_likelihood" and (push == "nonlinear" or pred not in ("none", "mc_bridge")):
        raise Skip
    return obj, kind, push, pred, jit, args


def descend(value_and_grad, z, steps, lr):
    path = [np.array(z)]
    for _ in range(steps):
        _, g = value_and_grad(z)
        z = z - lr * np.asarray(g)
        path.append(np.array(z))
    return path


def check_api(cfg):
    """A registered gradient-based calibration method: objective, derivative and the path of a short descent."""
    obj, kind, push, pred, jit, args = cfg
    cls = pred != "none"
    t = Toy("linear", 2, 3) if cls else Toy("scale", 2, 2)
    _, ct, est = estimate(kind, t.P, 2)
    X = t.xs(4, 4)
    Y = np.array([0, 2, 1, 1]) if cls else np.stack([t.np_out(x) for x in X]) + 0.9 * vals(4 * t.k, 6).reshape(4, t.k)
    pf = set_posterior_fn(ct, est, layout=t.params)
    out = {}

    def pa(z):
        return prior(z) if args == "precision+noise" else {"prior_prec": jnp.exp(z[0])}

    def method(*, objective, data, steps, lr):
        f = lambda z: objective(pa(z), data)  # noqa: E731
        vg = jax.jit(jax.value_and_grad(f)) if jit else jax.value_and_grad(f)
        z = jnp.asarray([0.3, -0.2])
        out["grad"], out["diff"] = A(vg(z)[1]), diff(lambda z: jnp.reshape(jax.jit(f)(z), (1,)), A(z))[0]
        out["path"] = descend(vg, z, steps, lr)
        jf = jax.jit(f)
        out["want"] = descend(lambda z: (None, diff(lambda y: jnp.reshape(jf(y), (1,)), A(z))[0]), z, steps, lr)
        return pa(out["path"][-1])

    register_calibration_method("c27_descent", method)
    try:
        best, build = calibration(pf, t.model_fn, t.params, (jnp.asarray(X), jnp.asarray(Y)), loss_fn="cross_entropy" if cls else "mse", curv_estimate=est, curv_type="lanczos" if kind == "lowrank" else kind,
                                  predictive_type=pred, pushforward_type=push, calibration_objective=obj, calibration_method="c27_descent", objective_jit=jit, num_samples=5, sample_key=jax.random.key(4), steps=4, lr=0.05)
    finally:
        api.calibration_options.pop("c27_descent", None)
    close(out["grad"], out["diff"], f"{cfg}: derivative of the calibration objective", rtol=1e-6, atol=1e-7)
    if np.abs(out["diff"][0]) < 1e-6:
        fail(f"harness: {cfg} has no gradient")
    close(np.stack(out["path"]), np.stack(out["want"]), f"{cfg}: path of the descent", rtol=1e-5, atol=1e-6)
    close(best["prior_prec"], np.exp(out["want"][-1][0]), f"{cfg}: calibrated precision", rtol=1e-5)
    got = build(prior_arguments=best)(jnp.asarray(X[0]))
    if not all(np.isfinite(A(v)).all() for v in got.values()):
        fail(f"{cfg}: predictive not finite")
    return [f"{v:.5g}" for v in out["path"][-1]]


def scenarios(tier):
    q = tier == "quick"
    return [Enum("derivatives", plan(not q), check), Enum("second", plan_second, check_second), Enum("calibration", plan_api, check_api)]
