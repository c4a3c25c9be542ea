"""C16 posterior GP kernel k(x, x') = J(x) Sigma J(x')'."""

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import EXT_MODELS, EXT_PRIORS, MODELS, estimate
from laplax.curv.cov import set_posterior_fn
from laplax.eval.pushforward import lin_pred_cov, lin_setup, set_lin_pushforward, set_posterior_gp_kernel
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, raises

LEVEL = "exploration"
RULE = "every model x curvature kind x kernel form (operator / dense with every layout form) x evaluation mode; on each, all ordered pairs of 3 inputs x 3 prior arguments and every basis vector"
BOUNDS = {
    "quick": "7 models (outputs of rank 0, 1, 2; 1 to 3 outputs), 3 curvature kinds, 9 input pairs, 3 prior arguments; outputs of 8 further shapes with up to 20 entries, prior precisions 1e-6..1e6, coinciding / close / distant inputs",
    "thorough": "additionally 25 input pairs",
}
PRIORS = [(0.3, None, None), (2.0, 1.5, None), (0.7, 0.25, 5.0)]
MS = {**MODELS, "linear1": (2, 1)}


def plan(c):
    m = c.choose("model", list(MS))
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    form = c.choose("form", ["operator", "operator_flat", "dense_int", "dense_array", "dense_zeros"])
    mode = c.choose("mode", ["eager", "jit", "vmap"])
    if form.startswith("dense") and m == "multi":
        raise Skip
    if form == "operator_flat" and m != "multi":
        raise Skip
    return m, kind, form, mode


def make_check(nx):
    def check(cfg):
        m, kind, form, mode = cfg
        toy = Toy("linear" if m == "linear1" else m, *MS[m])
        P = toy.P
        C, ct, est = estimate(kind, P, 2)
        pf = set_posterior_fn(ct, est, layout=toy.params)
        X = toy.xs(nx, 5)
        shape = toy.np_out(X[0]).shape
        n = int(np.prod(shape))
        Js = [toy.jac(x) for x in X]
        obs = []
        for tau, s2, lsf in PRIORS:
            S = np.linalg.inv(((1.0 if s2 is None else s2) * C + tau * np.eye(P)) / (lsf or 1.0))
            pa = {"prior_prec": tau, **({} if s2 is None else {"sigma_squared": s2})}
            kw = {} if lsf is None else {"loss_scaling_factor": lsf}
            f0 = jnp.asarray(toy.np_out(X[0]))
            if form.startswith("dense"):
                lay = {"dense_int": n, "dense_array": f0, "dense_zeros": jnp.zeros_like(f0)}[form]
                k, _ = set_posterior_gp_kernel(toy.model_fn, toy.params, pf, pa, dense=True, output_layout=lay, **kw)

                def dense(x1, x2):
                    return k(x1, x2)  # noqa: B023

            else:
                kmv, ds = set_posterior_gp_kernel(toy.model_fn, toy.params, pf, pa, **kw)
                basis = jnp.eye(n) if form == "operator_flat" else jnp.eye(n).reshape((n,) + shape)

                def dense(x1, x2):
                    return jnp.stack([kmv(b, x1, x2, ds).reshape(-1) for b in basis], axis=1)  # noqa: B023

            if mode == "vmap":
                K = A(jax.vmap(lambda a: jax.vmap(lambda b: dense(a, b))(jnp.asarray(X)))(jnp.asarray(X)))
            else:
                fn = jax.jit(dense) if mode == "jit" else dense
                pairs = [(i, j) for i in range(nx) for j in range(nx)]
                if mode == "eager":
                    pairs = [(0, 1), (1, 0), (1, 1)]
                K = {p: A(fn(jnp.asarray(X[p[0]]), jnp.asarray(X[p[1]]))) for p in pairs}
            for i in range(nx):
                for j in range(nx):
                    if mode == "eager" and (i, j) not in K:
                        continue
                    got = K[i, j].reshape(n, n) if n == 1 else K[i, j]
                    close(got, Js[i] @ S @ Js[j].T, f"{m}/{kind} kernel({i},{j}) form={form} mode={mode} prior={tau, s2, lsf}", rtol=1e-8, atol=1e-10)
                    obs.append(float(np.sum(K[i, j])))
            if mode == "jit" and form != "operator_flat" and shape:
                p = set_lin_pushforward(toy.model_fn, toy.params, pf, pa, pushforward_fns=[lin_setup, lin_pred_cov], **kw)
                c = A(p(jnp.asarray(X[1]))["pred_cov"]).reshape(n, n)
                close(K[1, 1], c, "kernel on the diagonal against the linearised predictive covariance", rtol=1e-8, atol=1e-10)
        if form == "dense_int":
            obs.append(raises(ValueError, lambda: set_posterior_gp_kernel(toy.model_fn, toy.params, pf, pa, dense=True), "dense kernel without layout"))
        return obs

    return check


# ------------------------------------------------------------- shapes, sizes, magnitudes
def plan_extreme(c):
    m = c.choose("model", [*EXT_MODELS, ("linear", 3, 12)])
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    form = c.choose("form", ["operator", "dense_int", "dense_array"])
    if form.startswith("dense") and isinstance(m[2], tuple) and len(m[2]) > 1:
        raise Skip  # dense representations of multi-dimensional outputs have no documented axis order
    if form == "dense_int" and (kind != "full" or m[0] == "scalarout"):
        raise Skip
    return m, kind, form


def check_extreme(cfg):
    """Output shapes with unit axes, many outputs, extreme precisions, close / far / equal inputs, long call histories on one kernel."""
    m, kind, form = cfg
    toy = Toy(*m)
    P = toy.P
    C, ct, est = estimate(kind, P, 2)
    pf = set_posterior_fn(ct, est, layout=toy.params)
    X = toy.xs(4, 5)
    X[2] = X[1] + 1e-9  # a close pair
    X[3] = 30.0 * X[3]  # a far one
    shape = toy.np_out(X[0]).shape
    n = int(np.prod(shape))
    Js = [toy.jac(x) for x in X]
    Xj = jnp.asarray(X)

    def gram(tau, s2, lsf):
        pa = {"prior_prec": tau, "sigma_squared": s2}
        if form == "operator":
            kmv, ds = set_posterior_gp_kernel(toy.model_fn, toy.params, pf, pa, loss_scaling_factor=lsf)
            basis = jnp.eye(n).reshape((n,) + shape)

            def k(a, b):
                return jax.lax.map(lambda v: kmv(v, a, b, ds).reshape(-1), basis).T
        else:
            lay = n if form == "dense_int" else jnp.zeros(shape)
            k, _ = set_posterior_gp_kernel(toy.model_fn, toy.params, pf, pa, dense=True, output_layout=lay, loss_scaling_factor=lsf)
        return jax.vmap(lambda a: jax.vmap(lambda b: jnp.reshape(k(a, b), (n, n)))(Xj))(Xj)

    run = jax.jit(gram)
    obs = []
    for tau, s2, lsf in EXT_PRIORS:
        S = np.linalg.inv((s2 * C + tau * np.eye(P)) / lsf)
        K = A(run(tau, s2, lsf))
        for i in range(4):
            for j in range(4):
                want = Js[i] @ S @ Js[j].T
                close(K[i, j], want, f"{cfg} kernel({i},{j}) prior={(tau, s2, lsf)}", rtol=1e-6, atol=1e-8 * np.linalg.norm(Js[i]) * np.linalg.norm(Js[j]) * np.abs(S).max())
        obs.append(float(K.sum()))
    return obs


def scenarios(tier):
    return [Enum("extremes", plan_extreme, check_extreme), Enum("kernel", plan, make_check(3 if tier == "quick" else 5))]
