"""C14 marginal log-likelihood against dense Laplace evidence."""

import jax
import jax.numpy as jnp
import numpy as np

from checks.c07 import SPECTRA, multisets, rot
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox, LossFn
from laplax.eval.likelihood import joint_log_likelihood, marginal_log_likelihood
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, fail, logsumexp, sigmoid, vals

LEVEL = "exploration"
RULE = "every (curvature kind, model/parameter tree, loss, batching, prior-argument form, spectrum) x the full grid of precision / noise / loss-scaling values; reference = dense numpy slogdet of the posterior precision"
BOUNDS = {
    "quick": "P in {3,4,6,8} parameters, every eigenvalue multiset over {0,0.5,40} for P<=4 (4 representative ones above), every low-rank rank >= number of non-zeros, precisions {0.05,1,25}, sigma {-,0.3,2}, sigma_squared {-,0.3,4}, loss scaling {-,0.5,8}",
    "thorough": "same with 4 spectrum levels for P<=4 and all multisets for P=6",
}

MODELS = [("scale", 2, 2), ("bare", 2, 2), ("linear", 2, 2), ("scalarout", 2, 1), ("mlp", 1, 1)]
LOSSES = ["mse", "cross_entropy", "bce", "callable"]


def np_loss(loss, f, y):
    f = np.asarray(f)
    if loss in ("mse",):
        return np.sum((f - y) ** 2)
    if loss == "cross_entropy":
        return logsumexp(f) - f[int(y)]
    if loss == "bce":
        return np.sum(-y * np.log(sigmoid(f)) - (1 - y) * np.log(sigmoid(-f)))
    return np.sum(np.abs(f - y) ** 3) * 0.5


def spectra(P, levels, full):
    if P <= 4 or full:
        return multisets(levels, P)
    return [[0.0] * P, [0.0] * (P - 1) + [3.0], [0.5] * P, list(np.linspace(0.1, 4, P))]


def plan(levels, full):
    def plan_(c):
        m = c.choose("model", MODELS)
        loss = c.choose("loss", LOSSES)
        if m[0] == "scalarout" and loss == "cross_entropy":
            raise Skip
        kind = c.choose("kind", ["full", "diagonal", "lanczos", "lobpcg"])
        vm = c.choose("vmap_over_data", [True, False])
        if not vm and m[0] not in ("bare", "scale"):
            raise Skip
        if kind == "lobpcg" and loss != "mse":
            raise Skip
        form = c.choose("name", ["enum", "str"])
        if form == "str" and loss in ("callable", "bce"):
            raise Skip
        return m, loss, kind, vm, form, levels, full

    return plan_


def check(cfg):
    (name, d, k), loss, kind, vm, form, levels, full = cfg
    toy = Toy(name, d, k)
    P = toy.P
    X = toy.xs(3, 1)
    ko = toy.np_out(X[0]).size
    if loss == "cross_entropy":
        Y = np.array([0, ko - 1, 0])
    elif loss == "bce":
        Y = (vals(3 * ko, 3).reshape((3,) + toy.np_out(X[0]).shape) > 0).astype(float)
    else:
        Y = vals(3 * ko, 3).reshape((3,) + toy.np_out(X[0]).shape)
    n = 3
    if vm:
        model = toy.model_fn
        Ls = [np_loss(loss, toy.np_out(x), y) for x, y in zip(X, Y)]
    else:
        # the model handles the batch axis itself
        model = lambda input, params: jax.vmap(lambda x: toy.model_fn(x, params))(input)  # noqa: E731
        Ls = [np_loss(loss, toy.np_out(x), y) for x, y in zip(X, Y)]
    total = float(np.sum(Ls))
    lf = {"mse": LossFn.MSE, "cross_entropy": LossFn.CROSS_ENTROPY, "bce": LossFn.BINARY_CROSS_ENTROPY,
          "callable": lambda f, y: 0.5 * jnp.sum(jnp.abs(f - y) ** 3)}[loss]
    if form == "str":
        lf = {"mse": "mse", "cross_entropy": "cross_entropy"}[loss]
    ct = CurvApprox(kind) if form == "enum" else kind
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    specs = spectra(P, levels, full)
    jobs = []
    for e in specs:
        Q = rot(P, len(e))
        ev = np.array(sorted(e, reverse=True))
        C = (Q * ev) @ Q.T
        nz = int((ev > 0).sum())
        if kind == "full":
            jobs.append((C, jnp.asarray(C)))
        elif kind == "diagonal":
            jobs.append((np.diag(np.diag(C)), jnp.asarray(np.diag(C))))
        else:
            for r in range(max(nz, 0), P + 1):
                if r in (nz, P) or P <= 3:
                    jobs.append((C, LowRankTerms(U=jnp.asarray(Q[:, :r]), S=jnp.asarray(ev[:r]), scalar=jnp.asarray(0.0))))
    taus = [0.05, 1.0, 25.0]
    obs = []
    for sg in (None, 0.3, 2.0):
        for s2 in (None, 0.3, 4.0):
            for lsf in (None, 0.5, 8.0):
                def one(est, tau):
                    pa = {"prior_prec": tau}
                    if sg is not None:
                        pa["sigma"] = sg
                    if s2 is not None:
                        pa["sigma_squared"] = s2
                    kw = {} if lsf is None else {"loss_scaling_factor": lsf}
                    return marginal_log_likelihood(est, pa, data, model, toy.params, lf, ct, vmap_over_data=vm, **kw)

                if (sg, s2, lsf).count(None) < 2 and not (sg and s2 and lsf):
                    continue
                f = jax.jit(jax.vmap(one, in_axes=(None, 0)))
                for C, est in jobs:
                    got = A(f(est, jnp.asarray(taus)))
                    for g, tau in zip(got, taus):
                        H = ((1.0 if s2 is None else s2) * C + tau * np.eye(P)) / (1.0 if lsf is None else lsf)
                        joint = -total / (2 * (1.0 if sg is None else sg)) - 0.5 * tau * toy.flat @ toy.flat - 0.5 * P * (np.log(2 * np.pi) - np.log(tau))
                        want = joint - (-0.5 * P * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(H)[1])
                        close(g, want, f"{kind} marginal log-likelihood P={P} loss={loss} prior_prec={tau} sigma={sg} sigma_squared={s2} loss_scaling={lsf}", rtol=1e-8)
                    obs.append(got[0])
    # one eager evaluation with Python floats, and the joint on its own
    C, est = jobs[-1]
    got = marginal_log_likelihood(est, {"prior_prec": 2.0}, data, model, toy.params, lf, ct, vmap_over_data=vm)
    want = -total / 2 - toy.flat @ toy.flat - 0.5 * P * (np.log(2 * np.pi) - np.log(2.0)) + 0.5 * P * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(C + 2 * np.eye(P))[1]
    close(got, want, f"{kind} eager marginal log-likelihood", rtol=1e-8)
    return obs


# ------------------------------------------------------------- sizes, magnitudes, signs
def plan_extreme(sizes):
    def p(c):
        P = c.choose("P", sizes)
        kind = c.choose("kind", ["full", "diagonal", "lanczos"])
        sp = c.choose("spectrum", list(SPECTRA))
        mag = c.choose("magnitude", [1.0, 1e-6, 1e6])
        n = c.choose("n_data", [1, 40])
        if n == 40 and mag != 1.0:
            raise Skip
        return P, kind, sp, mag, n

    return p


def check_extreme(cfg):
    """many parameters, many data points, extreme precisions, negative curvature under a positive precision, low rank much smaller than P, integer arguments."""
    P, kind, sp, mag, n = cfg
    Q = rot(P)
    e = SPECTRA[sp](P) * mag
    rank = max(1, P // 3) if kind == "lanczos" and sp in ("decaying", "gap") else P
    e = np.where(np.arange(P) < rank, e, 0.0)
    C = (Q * e) @ Q.T
    est = {
        "full": lambda: jnp.asarray(C),
        "diagonal": lambda: jnp.asarray(np.diag(C)),
        "lanczos": lambda: LowRankTerms(U=jnp.asarray(Q[:, :rank]), S=jnp.asarray(e[:rank]), scalar=jnp.asarray(0.0)),
    }[kind]()
    if kind == "diagonal":
        C = np.diag(np.diag(C))
    w = np.linalg.eigvalsh(C)
    flat = vals(P, 4) * 3
    # one 1-d and one 0-d leaf
    params = {"w": jnp.asarray(flat[: P - 1]), "b": jnp.asarray(flat[P - 1])} if P > 1 else jnp.asarray(flat)
    order = np.r_[P - 1, np.arange(P - 1)] if P > 1 else np.arange(1)
    X = vals(n * 2, 3).reshape(n, 2)
    Y = vals(n * 2, 5).reshape(n, 2)

    def model(input, params):
        ls = jax.tree.leaves(params)
        return jnp.stack([ls[0].sum() * input[0], jnp.sum(ls[-1]) + input[1]])

    ls = [flat[order][:1].sum(), flat[order][1:].sum()] if P > 1 else [flat.sum()] * 2
    F = np.stack([ls[0] * X[:, 0], ls[1] + X[:, 1]], 1)
    total = np.sum((F - Y) ** 2)
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    grid = [(t, s2, l, sg) for t in (1e-8, 1e-4, 0.4, 1.0, 1e4, 1e8) for s2, l, sg in ((None, None, None), (1e-4, 1e3, None), (1e4, None, 1e-3), (None, 1e-3, 1e3))]
    grid += [(2, 3, 5, 2), (1, None, 60000, None), (np.int64(3), None, np.int64(7), None)]
    obs = []
    for tau, s2, lsf, sg in grid:
        s, l, g = (1.0 if v is None else v for v in (s2, lsf, sg))
        d = (s * w + tau) / l
        dd = np.append(d, tau / l) if kind == "lanczos" else d
        if dd.min() <= 0 or dd.max() / dd.min() > 1e10:
            continue
        pa = {"prior_prec": tau}
        if s2 is not None:
            pa["sigma_squared"] = s2
        if sg is not None:
            pa["sigma"] = sg
        before = dict(pa)
        got = marginal_log_likelihood(est, pa, data, model, params, "mse", kind, vmap_over_data=True, **({} if lsf is None else {"loss_scaling_factor": lsf}))
        if pa != before:
            fail("prior arguments were changed")
        terms = [-total / (2 * g), -0.5 * tau * flat @ flat, -0.5 * P * (np.log(2 * np.pi) - np.log(tau)), 0.5 * P * np.log(2 * np.pi), -0.5 * np.log(d).sum()]
        tol = 1e-10 * sum(map(abs, terms)) + 1e-12 * P * dd.max() / dd.min()
        close(got, sum(terms), f"{kind} marginal log-likelihood P={P} {sp} spectrum x {mag}, {n} data points, prior_prec={tau} sigma={sg} sigma_squared={s2} loss_scaling={lsf}", rtol=0, atol=tol)
        obs.append(float(got))
    return obs


def scenarios(tier):
    q = tier == "quick"
    return [Enum("extremes", plan_extreme([1, 2, 5, 40, 230] if q else [1, 2, 3, 5, 8, 40, 130, 230, 500]), check_extreme), Enum("evidence", plan([0.0, 0.5, 40.0] if q else [0.0, 0.5, 3.0, 40.0], not q), check)]
