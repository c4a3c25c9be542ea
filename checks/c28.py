"""C28 a computation means the same eagerly, traced, vectorised, scanned or nested."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import MODELS, estimate
from laplax.curv.cov import CURVATURE_METHODS, set_posterior_fn
from laplax.curv.ggn import create_ggn_mv_without_data
from laplax.curv.hessian import create_hessian_mv_without_data
from laplax.curv.utils import LowRankTerms
from laplax.enums import CalibrationErrorNorm
from laplax.eval import metrics as lm
from laplax.eval import predictives as lp
from laplax.eval import pushforward as pfm
from laplax.eval.calibrate import evaluate_for_given_prior_arguments
from laplax.eval.likelihood import marginal_log_likelihood
from laplax.eval.utils import evaluate_metrics_on_dataset, evaluate_on_dataset
from laplax.util import flatten as fl
from laplax.util import loader as ld
from laplax.util import mv as umv
from laplax.util import tree as ut
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, fail, vals

LEVEL = "exploration"
RULE = "every program (public computation as a function of its array arguments) x every assignment of its arguments to {mapped, shared, closed over as a constant} x every transformation; each mapped run is compared, element by element, with plain calls"
BOUNDS = {
    "quick": "programs over posterior products, weight samples, linearised / sampled / classification predictions, kernel, evidence, objective, Gauss-Newton and Hessian products, curvature estimation, metrics, calibration bins, predictive transforms, flattening, tree helpers, reductions, dense/diagonal extraction, dataset evaluation; all argument assignments for programs with up to 3 arguments (single and full mapping beyond); 12 transformations",
    "thorough": "all argument assignments, all models and kinds",
}
N = 3  # elements of a mapped argument


def stackable(seed, shape, lo=-1.0, hi=1.0):
    n = int(np.prod(shape))
    return [jnp.asarray(vals(n, seed + 3 * i, lo, hi).reshape(shape)) for i in range(N)]


PREC = [np.float64(v) for v in (0.5, 2.0, 11.0)]
SIG = [np.float64(v) for v in (1.0, 0.3, 2.5)]
LSF = [np.float64(v) for v in (1.0, 4.0, 0.5)]


def keys():
    return [jax.random.key(s) for s in (0, 7, 31)]


def ints(*v):
    return [jnp.asarray(i) for i in v]


def trees(toy, seed):
    return [toy.tree(vals(toy.P, seed + i)) for i in range(N)]


# Every entry: name -> builder(model, kind) -> (function, [values of each argument])
def prog_posterior(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, est = estimate(kind, t.P, 2)

    def f(est, prec, sig, lsf, v):
        post = set_posterior_fn(ct, est, layout=t.params)({"prior_prec": prec, "sigma_squared": sig}, lsf)
        return post.cov_mv(post.state)(v), post.scale_mv(post.state)(jnp.cos(jnp.arange(float(t.P))))

    ests = [estimate(kind, t.P, s)[2] for s in (2, 3, 4)]
    return f, [ests, PREC, SIG, LSF, trees(t, 5)]


def prog_sample(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, est = estimate(kind, t.P, 2)
    pf = set_posterior_fn(ct, est, layout=t.params)

    def f(key, prec, mean, idx):
        post = pf({"prior_prec": prec})
        out = []
        for pre in (True, False):
            out.append(pfm.set_get_weight_sample(key, mean, post.scale_mv(post.state), 4, set_get_weight_sample_precompute=pre)(idx))
        return out

    return f, [keys(), PREC, trees(t, 4), ints(0, 3, 1)]


def predictive(push, fns, **kw):
    def prog(m, kind):
        t = Toy(m, *MODELS[m])
        _, ct, est = estimate(kind, t.P, 2)
        pf = set_posterior_fn(ct, est, layout=t.params)
        setter = pfm.set_lin_pushforward if push == "lin" else pfm.set_nonlin_pushforward

        def f(x, prec, params, key):
            return setter(model_fn=t.model_fn, mean_params=params, posterior_fn=pf, prior_arguments={"prior_prec": prec}, pushforward_fns=list(fns), key=key, num_samples=4, **kw)(x)

        return f, [[jnp.asarray(x) for x in t.xs(N, 5)], PREC, trees(t, 4), keys()]

    return prog


def prog_kernel(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, est = estimate(kind, t.P, 2)
    pf = set_posterior_fn(ct, est, layout=t.params)
    shape = t.np_out(t.xs(1, 1)[0]).shape

    def f(v, x1, x2, prec):
        k, ds = pfm.set_posterior_gp_kernel(t.model_fn, t.params, pf, {"prior_prec": prec})
        return k(v, x1, x2, ds)

    return f, [stackable(3, shape), [jnp.asarray(x) for x in t.xs(N, 5)], [jnp.asarray(x) for x in t.xs(N, 8)], PREC]


def data_of(t, n, seed, cls=False):
    X = t.xs(n, seed)
    Y = np.arange(n) % t.k if cls else vals(n * max(1, t.np_out(X[0]).size), seed + 1).reshape((n,) + t.np_out(X[0]).shape)
    return {"input": jnp.asarray(X), "target": jnp.asarray(Y)}


def prog_evidence(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, _ = estimate(kind, t.P, 2)

    def f(est, prec, sig, params, data):
        return marginal_log_likelihood(est, {"prior_prec": prec, "sigma_squared": sig}, data, t.model_fn, params, "mse", ct, vmap_over_data=True)

    return f, [[estimate(kind, t.P, s)[2] for s in (2, 3, 4)], PREC, SIG, trees(t, 4), [data_of(t, 3, s) for s in (1, 4, 7)]]


def prog_objective(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, est = estimate(kind, t.P, 2)
    pf = set_posterior_fn(ct, est, layout=t.params)

    def f(prec, data, params):
        s = lambda prior_arguments, **_: pfm.set_lin_pushforward(t.model_fn, params, pf, prior_arguments, pushforward_fns=[pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_std])  # noqa: E731
        return [evaluate_for_given_prior_arguments(data=data, set_prob_predictive=s, metric=g, prior_arguments={"prior_prec": prec}, **kw) for g in (lm.nll_gaussian, lm.chi_squared_zero) for kw in ({}, {"data_batch_size": 2})]

    return f, [PREC, [data_of(t, 3, s) for s in (1, 4, 7)], trees(t, 4)]


def prog_dataset(m, kind):
    t = Toy(m, *MODELS[m])
    _, ct, est = estimate(kind, t.P, 2)
    pf = set_posterior_fn(ct, est, layout=t.params)

    def f(prec, data, params):
        pred = pfm.set_lin_pushforward(t.model_fn, params, pf, {"prior_prec": prec}, pushforward_fns=[pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_std])
        return evaluate_on_dataset(pred, data), evaluate_metrics_on_dataset(pred, data, metrics=list(lm.DEFAULT_REGRESSION_METRICS))

    return f, [PREC, [data_of(t, 3, s) for s in (1, 4, 7)], trees(t, 4)]


def curv_prog(which, loss, vmap_data=True):
    def prog(m, kind):
        t = Toy(m, *MODELS[m])

        def f(vec, data, params, factor):
            make = create_ggn_mv_without_data if which == "ggn" else create_hessian_mv_without_data
            return make(model_fn=t.model_fn, params=params, loss_fn=loss, factor=factor, vmap_over_data=vmap_data)(vec, data)

        return f, [trees(t, 6), [data_of(t, 3, s, loss == "cross_entropy") for s in (1, 4, 7)], trees(t, 4), LSF]

    return prog


def prog_estimate(m, kind):
    """curvature estimation itself inside a transformation (matrix-free operator of traced parameters)"""
    t = Toy(m, *MODELS[m])

    def f(params, data, v):
        g = create_ggn_mv_without_data(model_fn=t.model_fn, params=params, loss_fn="mse", factor=1.0)
        mv = lambda vec: g(vec, data)  # noqa: E731
        est = CURVATURE_METHODS[kind](mv, layout=params)
        post = set_posterior_fn(kind, est, layout=params)({"prior_prec": 1.3})
        return est, post.cov_mv(post.state)(v), umv.to_dense(mv, layout=params, to_dense_batch_size=2), umv.diagonal(mv, layout=params, diagonal_batch_size=2)

    return f, [trees(t, 4), [data_of(t, 3, s) for s in (1, 4, 7)], trees(t, 6)]


def prog_regression_metrics(m, kind):
    def f(mean, std, target):
        std = jnp.abs(std) + 0.2
        kw = dict(pred_mean=mean, pred_std=std, target=target)
        return [lm.chi_squared(**kw), lm.chi_squared(**kw, averaged=False), lm.chi_squared_zero(**kw), lm.estimate_rmse(**kw), lm.crps_gaussian(**kw), lm.crps_gaussian(**kw, scaled=False), lm.nll_gaussian(**kw), lm.nll_gaussian(**kw, scaled=False)]

    return f, [stackable(2, (4, 2)), stackable(5, (4, 2)), stackable(7, (4, 2))]


def prog_class_metrics(m, kind):
    def f(pred, target):
        hot = jax.nn.one_hot(target, 3)
        p = jax.nn.softmax(pred)
        return [lm.correctness(pred, target), lm.correctness(pred, hot), lm.accuracy(pred, target, top_k=(1, 2)), lm.accuracy(pred, hot, top_k=(2, 5)), lm.cross_entropy(hot, p), lm.cross_entropy(p, p, axis=0), lm.multiclass_brier(p, target), lm.multiclass_brier(p, hot)]

    return f, [stackable(2, (4, 3)), [jnp.asarray(v) for v in ([0, 1, 2, 1], [2, 2, 0, 1], [1, 1, 1, 1])]]


def prog_bins(m, kind):
    def f(conf, corr):
        conf = jnp.abs(conf)
        return [lm.calculate_bin_metrics(conf, corr, num_bins=4), lm.expected_calibration_error(conf, corr, num_bins=5), lm.maximum_calibration_error(conf, corr, num_bins=3), lm.calibration_error(conf, corr, 2, CalibrationErrorNorm.L1), lm.calculate_bin_metrics(conf, corr > 0)]

    return f, [[jnp.asarray(v) for v in ([0.0, 0.51, 1.0, 0.31, 0.99], [0.21, 0.21, 0.21, 0.21, 0.21], [0.76, 0.26, 0.63, 0.12, 0.05])], [jnp.asarray(v) for v in ([1.0, 0.0, 1.0, 1.0, 0.0], [0.0] * 5, [1.0, 1.0, 0.0, 0.0, 1.0])]]


def prog_transforms(m, kind):
    def f(mean, var):
        L = var
        cov = L @ L.T + 0.1 * jnp.eye(4)
        v = jnp.diag(cov)
        return [lp.laplace_bridge(mean, v, use_correction=True), lp.laplace_bridge(mean, v, use_correction=False), lp.mean_field_0_predictive(mean, v), lp.mean_field_1_predictive(mean, v), lp.mean_field_2_predictive(mean, cov)]

    return f, [stackable(3, (4,), -3, 3), stackable(8, (4, 4))]


def prog_flatten(m, kind):
    t = Toy(m, *MODELS[m])
    flatten, unflatten = fl.create_pytree_flattener(t.params)

    def f(tree, vec):
        return flatten(tree), unflatten(vec), fl.full_flatten(tree), fl.flatten_function(lambda x: x, t.params)(vec), fl.unravel_array_into_pytree(t.params, 0, vec), fl.wrap_function(lambda x: 2 * x, input_fn=flatten, output_fn=unflatten)(tree)

    return f, [trees(t, 4), stackable(5, (t.P,))]


def prog_partial(m, kind):
    t = Toy(m, *MODELS[m])

    def f(cols, rows):
        tree = jax.tree.map(lambda x: jnp.moveaxis(x, 0, -1) if x.ndim else x, jax.vmap(fl.create_pytree_flattener(t.params)[1])(cols))
        flatten, unflatten = fl.create_partial_pytree_flattener(tree)
        return flatten(tree), unflatten(rows)

    return f, [stackable(5, (2, t.P)), stackable(6, (t.P, 2))]


def prog_tree(m, kind):
    t = Toy(m, *MODELS[m])

    def f(a, b, s):
        pos = jax.tree.map(lambda x: x * x + 0.5, a)
        return [ut.add(a, b), ut.sub(a, b), ut.neg(a), ut.mul(s, a), ut.sqrt(pos), ut.mean(a), ut.std(b), ut.var(a), ut.ones_like(a), ut.zeros_like(b), ut.eye_like(a), ut.get_size(a)]

    return f, [trees(t, 4), trees(t, 9), [jnp.asarray(v) for v in (2.0, -0.5, 0.0)]]


def prog_basis(m, kind):
    t = Toy(m, *MODELS[m])

    def f(idx, a, key):
        return ut.basis_vector_from_index(idx, a), ut.tree_vec_get(a, idx), ut.randn_like(key, a), ut.normal_like(key, a, lambda z: jax.tree.map(lambda u: 2.0 * u, z)), ut.tree_slice({"q": jnp.arange(6.0) + idx}, 1, 4)

    return f, [ints(0, t.P - 1, t.P // 2), trees(t, 4), keys()]


def prog_reduce(m, kind):
    def f(a, b):
        out = []
        for red in (ld.reduce_sum, ld.reduce_add, ld.reduce_concat, ld.reduce_online_mean):
            r, s = red({"u": a, "v": (b,)}, None)
            r2, s = red({"u": b, "v": (a + 1,)}, s)
            out += [r, r2]
        return out, ld.concat([a], [b], axis=1)

    return f, [stackable(2, (2, 3)), stackable(5, (2, 3))]


def prog_lowrank(m, kind):
    def f(B, v, s):
        from laplax.curv import low_rank as lr

        Q = jnp.linalg.qr(B)[0]
        t = LowRankTerms(U=Q, S=jnp.asarray([1.5, 0.2]) + s * s, scalar=jnp.abs(s) + 0.1)
        st = lr.low_rank_prec_to_posterior_state(lr.low_rank_curvature_to_precision(t, {"prior_prec": 0.7 + jnp.abs(s)}))
        return lr.create_low_rank_mv(t)(v), lr.low_rank_square(t), lr.low_rank_posterior_state_to_cov(st)(v), lr.low_rank_posterior_state_to_scale(st)(v), jax.tree.map(lambda x: x + 1, t)

    return f, [stackable(3, (5, 2)), stackable(6, (5,)), [jnp.asarray(v) for v in (0.4, -1.5, 2.2)]]


PROGS = {
    "posterior": (prog_posterior, ["scale", "multi", "bare"], ["full", "diagonal", "lowrank"]),
    "sample": (prog_sample, ["scale", "linear"], ["full", "diagonal", "lowrank"]),
    "linear": (predictive("lin", [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_cov, pfm.lin_pred_var, pfm.lin_pred_std, pfm.lin_samples]), ["multi", "scalarout", "mlp"], ["full", "lowrank"]),
    "nonlinear": (predictive("nonlin", pfm.DEFAULT_NONLIN_FINALIZE_FNS), ["multi", "scalarout", "mlp"], ["full", "lowrank"]),
    "mc_lin": (predictive("lin", [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_samples, pfm.lin_mc_pred_act]), ["linear"], ["diagonal"]),
    "mc_nonlin": (predictive("nonlin", [pfm.nonlin_setup, pfm.nonlin_pred_mean, pfm.nonlin_mc_pred_act]), ["linear"], ["full"]),
    "bridge": (predictive("lin", [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_special_pred_act], special_pred_type="laplace_bridge"), ["linear"], ["full"]),
    "mf2": (predictive("lin", [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_special_pred_act], special_pred_type="mean_field_2"), ["bare"], ["lowrank"]),
    "mf1_nonlin": (predictive("nonlin", [pfm.nonlin_setup, pfm.nonlin_special_pred_act], special_pred_type="mean_field_1"), ["linear"], ["diagonal"]),
    "kernel": (prog_kernel, ["linear", "multi"], ["full", "lowrank"]),
    "evidence": (prog_evidence, ["scale", "linear"], ["full", "diagonal", "lowrank"]),
    "objective": (prog_objective, ["linear"], ["full", "lowrank"]),
    "dataset": (prog_dataset, ["linear", "scale"], ["diagonal"]),
    "ggn_mse": (curv_prog("ggn", "mse"), ["linear", "mlp"], ["-"]),
    "ggn_ce": (curv_prog("ggn", "cross_entropy"), ["linear"], ["-"]),
    "ggn_bce": (curv_prog("ggn", "binary_cross_entropy"), ["bare"], ["-"]),
    "hessian_mse": (curv_prog("hessian", "mse"), ["mlp"], ["-"]),
    "hessian_ce": (curv_prog("hessian", "cross_entropy"), ["linear"], ["-"]),
    "estimate": (prog_estimate, ["linear", "scale"], ["full", "diagonal"]),
    "regression_metrics": (prog_regression_metrics, ["-"], ["-"]),
    "class_metrics": (prog_class_metrics, ["-"], ["-"]),
    "bins": (prog_bins, ["-"], ["-"]),
    "transforms": (prog_transforms, ["-"], ["-"]),
    "flatten": (prog_flatten, ["scale", "multi", "linear", "bare"], ["-"]),
    "partial": (prog_partial, ["linear", "multi"], ["-"]),
    "tree": (prog_tree, ["scale", "multi"], ["-"]),
    "basis": (prog_basis, ["scale", "multi", "bare"], ["-"]),
    "reduce": (prog_reduce, ["-"], ["-"]),
    "lowrank": (prog_lowrank, ["-"], ["-"]),
}
TRANS = ["vmap", "jit_vmap", "vmap_jit", "lax_map", "scan", "jit", "disable_jit", "while", "cond", "vmap_grid", "aot", "checkpoint"]


def stack(xs):
    return jax.tree.map(lambda *v: jnp.stack(v), *xs)


def pick(tree, i):
    return jax.tree.map(lambda x: x[i], tree)


def plan(full):
    def p(c):
        name = c.choose("program", list(PROGS))
        _, models, kinds = PROGS[name]
        m = c.choose("model", models)
        kind = c.choose("kind", kinds)
        tr = c.choose("transformation", TRANS)
        nargs = len(ARGS[name])
        roles = [r for r in itertools.product("msc", repeat=nargs) if "m" in r]
        role = c.choose("roles", ["".join(r) for r in roles])
        if tr == "disable_jit":
            if role != "m" * nargs:
                raise Skip
        elif not full:
            n = role.count("m")
            first = (m, kind) == (models[0], kinds[0])
            if nargs > 2 and "c" in role and n not in (1, nargs - 1) or nargs > 3 and not (n in (1, nargs) and role.count("c") in (0, nargs - 1) or n == nargs - 1):
                raise Skip
            if not first and (n not in (nargs,) or tr not in ("vmap", "jit")) and not (n == 1 and "c" not in role and tr in ("vmap",)):
                raise Skip
            if tr not in ("vmap", "jit") and (n != nargs and (tr != "scan" or n != 1) or "c" in role):
                raise Skip
        if tr == "vmap_grid" and role.count("m") != nargs:
            raise Skip
        return name, m, kind, tr, role

    return p


ARGS = {"posterior": 5 * "x", "sample": 4 * "x", "kernel": 4 * "x", "evidence": 5 * "x", "objective": 3 * "x", "dataset": 3 * "x", "estimate": 3 * "x", "regression_metrics": 3 * "x", "class_metrics": 2 * "x", "bins": 2 * "x", "transforms": 2 * "x", "flatten": 2 * "x", "partial": 2 * "x", "tree": 3 * "x", "basis": 3 * "x", "reduce": 2 * "x", "lowrank": 3 * "x"}
for _n in PROGS:
    ARGS.setdefault(_n, 4 * "x")

_REF = {}


def norm(out):
    return jax.tree.map(lambda x: jnp.asarray(x), out)


def reference(name, m, kind, idx):
    k = (name, m, kind, idx)
    if k not in _REF:
        if len(_REF) > 400:
            _REF.clear()
        f, args = PROGS[name][0](m, kind)
        _REF[k] = jax.tree.map(np.asarray, norm(f(*[a[i] for a, i in zip(args, idx)])))
    return _REF[k]


def check(cfg):
    name, m, kind, tr, role = cfg
    f0, args = PROGS[name][0](m, kind)
    if len(args) != len(ARGS[name]):
        fail(f"harness: {name} takes {len(args)} arguments")
    f = lambda *a: norm(f0(*a))  # noqa: E731
    mapped = [i for i, r in enumerate(role) if r == "m"]
    shared = [i for i, r in enumerate(role) if r == "s"]
    fixed = {i: args[i][1] for i, r in enumerate(role) if r == "c"}
    S = [args[i][2] for i in shared]
    M = [stack(args[i]) for i in mapped]

    def g(ms, ss):
        full = dict(fixed)
        full.update(zip(mapped, ms))
        full.update(zip(shared, ss))
        return f(*[full[i] for i in range(len(args))])

    idxs = [tuple(j if r == "m" else 2 if r == "s" else 1 for r in role) for j in range(N)]
    one = lambda j: [args[i][j] for i in mapped]  # noqa: E731
    if tr == "vmap":
        out = jax.vmap(g, in_axes=(0, None))(M, S)
    elif tr == "jit_vmap":
        out = jax.jit(jax.vmap(g, in_axes=(0, None)))(M, S)
    elif tr == "vmap_jit":
        out = jax.vmap(jax.jit(g), in_axes=(0, None))(M, S)
    elif tr == "lax_map":
        out = jax.lax.map(lambda ms: g(ms, S), M, batch_size=2)
    elif tr == "scan":
        out = jax.lax.scan(lambda c, ms: (c + 1, g(ms, S)), 0, M)[1]
    elif tr == "jit":
        h = jax.jit(g)
        out = stack([h(one(j), S) for j in range(N)])
    elif tr == "aot":
        h = jax.jit(g).lower(one(0), S).compile()
        out = stack([h(one(j), S) for j in range(N)])
    elif tr == "checkpoint":
        h = jax.jit(jax.checkpoint(g))
        out = stack([h(one(j), S) for j in range(N)])
    elif tr == "disable_jit":
        with jax.disable_jit():
            out = stack([g(one(j), S) for j in range(N)])
    elif tr == "while":
        zero = jax.eval_shape(g, one(0), S)
        acc = jax.tree.map(lambda s: jnp.zeros((N, *s.shape), s.dtype), zero)

        def body(j, a):
            return jax.tree.map(lambda x, y: x.at[j].set(y), a, g(jax.tree.map(lambda x: x[j], M), S))

        out = jax.jit(lambda a: jax.lax.fori_loop(0, N, body, a))(acc)
    elif tr == "cond":
        h = jax.jit(lambda j: jax.lax.switch(j, [lambda j=j: g(one(j), S) for j in range(N)]))
        out = stack([h(jnp.asarray(j)) for j in range(N)])
    else:  # vmap_grid: the last argument mapped inside, the others outside
        inner = jax.vmap(lambda ms, last: g([*ms, last], S), in_axes=(None, 0))
        out = jax.jit(jax.vmap(inner, in_axes=(0, None)))(M[:-1], M[-1])
        for j in range(N):
            for l in range(N):
                compare(pick(out, (j, l)), reference(name, m, kind, (j,) * (len(args) - 1) + (l,)), f"{cfg} element {j}, {l}")
        return float(sum(np.abs(A(x)).sum() for x in jax.tree.leaves(out)))
    total = 0.0
    for j in range(N):
        total += compare(pick(out, j), reference(name, m, kind, idxs[j]), f"{cfg} element {j}")
    return f"{total:.8g}"


def compare(got, want, what):
    g, td = jax.tree.flatten(got)
    w, tw = jax.tree.flatten(want)
    if td != tw:
        fail(f"{what}: structure {td} instead of {tw}")
    s = 0.0
    for a, b in zip(g, w):
        a = A(a)
        if a.shape != b.shape or a.dtype != b.dtype:
            fail(f"{what}: {a.shape} {a.dtype} instead of {b.shape} {b.dtype}")
        close(a, b, what, rtol=1e-8, atol=1e-9)
        s += float(np.abs(b).sum())
    return s


def scenarios(tier):
    return [Enum("transformations", plan(tier != "quick"), check)]
