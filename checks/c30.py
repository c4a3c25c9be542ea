"""C30 an exception from user code surfaces unchanged and leaves everything reusable."""

import threading
import warnings

import jax
import jax.numpy as jnp
import numpy as np

import laplax.api as api
from checks.c08 import Watch
from checks.c18 import from_flat_j
from laplax.api import GGN, calibration, evaluation, laplace
from laplax.curv import cov as C
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.enums import CalibrationMethod, CurvApprox
from laplax.eval import likelihood as LK
from laplax.eval import pushforward as pfm
from laplax.eval.calibrate import evaluate_for_given_prior_arguments, grid_search, optimize_prior_prec
from laplax.eval.likelihood import marginal_log_likelihood
from laplax.eval.utils import apply_fns, evaluate_metrics_on_dataset, evaluate_metrics_on_generator, evaluate_on_dataset, finalize_fns
from laplax.register import register_calibration_method, register_curvature_method
from laplax.util.flatten import wrap_factory, wrap_function
from laplax.util.loader import DataLoaderMV, execute_with_data_loader, input_target_split, reduce_add, reduce_online_mean, wrap_function_with_data_loader
from laplax.util.mv import diagonal, to_dense
from laplax.util.ops import precompute_list
from laplax.util.tree import normal_like
from mc.core import Dyn
from mc.lib import A, Toy, close, fail, to_flat, vals

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection on the real code: for every public operation that calls user code, one execution per (call position, exception kind); afterwards the same and other operations run again on the same objects and are compared with fresh ones, and registries, precision mode, default tables and the caller's data with their snapshots"
RULE = "every operation x every position at which it calls user code (model, loss, operator, loader, transform, reduction, metric, result function, registered curvature and calibration functions, objective) x exception kind; x the operation that follows"
BOUNDS = {
    "quick": "39 operations, every call position, 4 exception kinds at each (own Exception, ValueError, an exception that is at once a lookup, type, attribute, assertion, arithmetic and not-implemented error, own BaseException); afterwards the same operation again (two kinds) and, for one kind, one of 4 other operations (rotating) on the same objects",
    "thorough": "two faults per history (the second at every call position of a repetition), then each of the 4 other operations",
}


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class Many(KeyError, IndexError, TypeError, NotImplementedError, AttributeError, AssertionError, ArithmeticError):
    """What any clause for a specific builtin exception (other than ValueError) would catch."""


KINDS = {"own": Boom, "value": ValueError, "many": Many, "base": Hard}


class Env:
    """Every call of user code goes through tick."""

    def __init__(self):
        self.hook = None

    def tick(self, label):
        if self.hook is not None:
            self.hook(label)

    def wrap(self, label, fn):
        def wrapped(*a, **k):
            self.tick(label)
            return fn(*a, **k)

        wrapped.__name__ = label
        return wrapped


class Loader:
    """Re-iterable, with user code in __iter__ and __next__."""

    def __init__(self, env, items):
        self.env, self.items = env, items

    def __iter__(self):
        self.env.tick("iter")
        for b in self.items:
            self.env.tick("next")
            yield b


REG = [C.CURVATURE_METHODS, C.CURVATURE_PRECISION_METHODS, C.CURVATURE_TO_POSTERIOR_STATE, C.CURVATURE_STATE_TO_SCALE, C.CURVATURE_STATE_TO_COV, LK.CURVATURE_MARGINAL_LOG_LIKELIHOOD, api.calibration_options]
FN6 = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn", "posterior_state_to_scale_fn", "posterior_state_to_cov_fn", "marginal_log_likelihood_fn"]
TABLES = dict(zip(FN6, REG))
START = [dict(d) for d in REG]


def registries():
    return [{str(k): id(v) for k, v in d.items()} for d in REG]


def reset_registries():
    for d, s in zip(REG, START):
        d.clear()
        d.update(s)


class World:
    """Objects shared by all operations of a history; the arguments of the calls may differ per thread (variant)."""

    v = property(lambda s: s.vs[s.variant])
    prior = property(lambda s: (s.used.add("num"), s.priors[s.variant])[1])
    data = property(lambda s: s.datas[s.variant])
    factor = property(lambda s: 2.0 + s.variant)
    variant = property(lambda s: getattr(s.who, "variant", 0))

    def x(self, i):
        return self.X[i + self.variant]

    def __init__(self, env, arr=jnp.asarray, num=float, key=jax.random.key, data=None):
        """arr, num, key, data: how arrays, scalars, random keys and samples are represented."""
        data = data or arr
        self.env, self.used = env, set()
        self.key = lambda n: (self.used.add("key"), key(n))[1]
        self.x64 = bool(jax.config.jax_enable_x64)
        self.who = threading.local()
        w = env.wrap
        self.toy = toy = Toy("linear", 2, 2)
        self.params = jax.tree.map(arr, toy.params)
        self.model = w("model", toy.model_fn)
        self.X, self.Y = data(toy.xs(4)), data(vals(8, 4).reshape(4, 2))
        self.labels = arr([0, 1, 1, 0])
        self.datas = [{"input": self.X, "target": self.Y}, {"input": self.X[::-1] * 0.5, "target": self.Y}]
        self.cdata = {"input": self.X, "target": self.labels}
        self.batches = [(self.X[:1], self.Y[:1]), (self.X[1:3], self.Y[1:3]), (self.X[3:], self.Y[3:])]
        self.loader = Loader(env, self.batches)
        self.loss = w("loss", lambda f, y: jnp.sum((f - y) ** 2) + 0.1 * jnp.sum((f - y) ** 4))
        self.vs = [jax.tree.map(arr, toy.tree(vals(toy.P, 8))), jax.tree.map(arr, toy.tree(vals(toy.P, 11) * 3))]
        self.priors = [{"prior_prec": num(2)}, {"prior_prec": num(4)}]
        self.P = toy.P
        M = vals(36, 3).reshape(6, 6)
        self.mat = arr(M @ M.T / 3)
        self.lowmat = arr(np.diag([3.0, 0, 0, 0, 0, 0]))
        self.mv = w("operator", lambda t: self.toy_mv(t, self.mat))
        self.flat_mv = w("operator", lambda t: self.mat @ t)
        self.flat_low = w("operator", lambda t: self.lowmat.astype(t.dtype) @ t)
        self.est = self.mat
        self.metrics = [apply_fns(w("metric_a", lambda pred_mean, target, **k: jnp.sum((1.0 * pred_mean - target) ** 2)), w("metric_b", lambda pred_std, **k: pred_std[0]), names=["a", "b"], pred_mean="pred_mean", pred_std="pred_std", target="target")]
        self.table = {"c": w("metric_c", lambda pred_mean, **k: pred_mean[0]), "d": w("metric_d", lambda target, **k: 1.0 * target[1])}
        self.reduce = w("reduce", lambda x: jnp.sum(x, axis=0))
        self.transform = w("transform", input_target_split)
        self.stream_reduce = w("stream_reduce", reduce_add)
        mean = w("result_fn", pfm.lin_pred_mean)
        self.lin_fns = [pfm.lin_setup, mean, pfm.lin_pred_var, w("result_fn", pfm.lin_pred_std), pfm.lin_samples]
        self.non_fns = [pfm.nonlin_setup, w("result_fn", pfm.nonlin_pred_mean), pfm.nonlin_pred_cov, pfm.nonlin_pred_var, w("result_fn", pfm.nonlin_pred_std)]
        self.pf = set_posterior_fn("full", self.est, layout=self.params)
        self.stream_mv = DataLoaderMV(self.batch_mv(), self.loader, transform=self.transform, reduce=self.stream_reduce)
        self.user_pf = lambda pa, ls=1.0: (env.tick("posterior"), self.pf(pa, ls))[1]
        reg = {k: w(k, TABLES[k][CurvApprox.FULL]) for k in FN6}
        for k in ("posterior_state_to_scale_fn", "posterior_state_to_cov_fn"):
            base = TABLES[k][CurvApprox.FULL]
            reg[k] = w(k, lambda s, base=base: w("state_mv", base(s)))
        register_curvature_method("mine", **reg)
        register_calibration_method("chosen", w("method", lambda objective, data, **k: (objective({"prior_prec": 1.0}, data), {"prior_prec": 2.0 + 0 * objective({"prior_prec": 3.0}, data)})[1]))
        self.watch = Watch(parameters=self.params, data=self.datas, batches=self.batches, prior=self.priors, vector=self.vs, matrix=self.mat, metrics=self.metrics, table=self.table, lin=self.lin_fns, non=self.non_fns)
        self.reg = registries()

    def toy_mv(self, t, M):
        return self.from_flat(M @ jnp.concatenate([x.reshape(-1) for x in jax.tree.leaves(t)]))

    def from_flat(self, v):
        return from_flat_j(self.toy.spec, v)

    def batch_mv(self):
        def mv(vec, data):
            self.env.tick("batch_operator")
            return self.toy_mv(vec, self.mat * jnp.sum((1.0 * data["input"]) ** 2))

        return mv

    def check(self, what):
        if registries() != self.reg:
            fail(f"{what}: the registries changed")
        if jax.config.jax_enable_x64 != self.x64 or jnp.asarray(np.ones(1)).dtype != (jnp.float64 if self.x64 else jnp.float32):
            fail(f"{what}: the precision mode changed")
        if jax.config.jax_disable_jit or jax.config.jax_debug_nans:
            fail(f"{what}: a JAX switch changed")
        self.watch.check(what)


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def two(post, v):
    return post.cov_mv(post.state)(v), post.scale_mv(post.state)(v)


@op
def ggn_tuple(w):
    return GGN(w.model, w.params, (w.data["input"], w.Y), "mse", verbose_logging=False)(w.v)


@op
def ggn_stream(w):
    return GGN(w.model, w.params, w.loader, w.loss, verbose_logging=False, transform=w.transform)(w.v)


@op
def ggn_low(w):
    mv = create_ggn_mv(w.model, w.params, w.data, loss_hessian_mv=w.env.wrap("loss_hessian", lambda jv, pred, target, **k: 3 * jv))
    return mv(w.v), mv(w.v)


@op
def hessian(w):
    return create_hessian_mv(w.model, w.params, w.data, w.loss)(w.v)


@op
def stream_call(w):
    return w.stream_mv(w.v)


@op
def stream_dense(w):
    return to_dense(wrap_function(w.stream_mv, input_fn=w.env.wrap("unflatten", w.from_flat), output_fn=w.env.wrap("flatten", lambda t: jnp.concatenate([x.reshape(-1) for x in jax.tree.leaves(t)]))), layout=w.P)


@op
def stream_diagonal(w):
    return diagonal(w.stream_mv, layout=w.params)


@op
def stream_execute(w):
    f = w.env.wrap("function", lambda data, scale: {"a": scale * data["input"], "b": jnp.sum(data["target"])})
    return execute_with_data_loader(f, w.loader, transform=w.transform, reduce=w.env.wrap("online", reduce_online_mean), scale=w.factor)


@op
def stream_wrapped(w):
    f = wrap_function_with_data_loader(w.env.wrap("function", lambda s, data: s * jnp.sum(data["input"], axis=0)), w.loader, transform=w.transform, reduce=w.stream_reduce)
    return f(w.factor), f(3.0)


@op
def dense(w):
    return to_dense(w.flat_mv, layout=w.P), to_dense(w.mv, layout=w.params)


@op
def diag(w):
    return diagonal(w.mv, layout=w.params), diagonal(w.flat_mv, layout=w.P, mv_jittable=False)


@op
def lanczos(w):
    r = estimate_curvature("lanczos", w.flat_mv, layout=w.P, key=w.key(w.variant + 1), rank=3, mv_jit=False)
    return w.mat @ (r.U @ (r.S * (r.U.T @ jnp.ones(6))))


@op
def lanczos_single(w):
    r = estimate_curvature("lanczos", w.flat_low, layout=w.P, key=w.key(w.variant + 1), rank=2, mv_jit=False, calc_dtype=jnp.float32)
    return r.U @ (r.S * (r.U.T @ jnp.ones(6)))


@op
def lobpcg(w):
    r = estimate_curvature("lobpcg", w.flat_low, layout=w.P, key=w.key(w.variant + 1), rank=1, mv_jit=False)
    return r.U @ (r.S * (r.U.T @ jnp.ones(6)))


@op
def posterior_from_product(w):
    return two(create_posterior_fn("full", w.mv, w.params)(w.prior), w.v)


@op
def laplace_full(w):
    pf, est = laplace(w.model, w.params, (w.data["input"], w.Y), loss_fn="mse", curv_type="full")
    return est, two(pf(w.prior), w.v)


@op
def laplace_stream_diagonal(w):
    pf, est = laplace(w.model, w.params, w.loader, loss_fn=w.loss, curv_type="diagonal")
    return est, two(pf(w.prior), w.v)


@op
def laplace_lanczos(w):
    pf, _ = laplace(w.model, w.params, w.data, loss_fn="mse", curv_type="lanczos", key=w.key(w.variant + 2), rank=6, mv_jit=False)
    return two(pf(w.prior), w.v)[0]


@op
def laplace_registered(w):
    pf, est = laplace(w.model, w.params, w.data, loss_fn="mse", curv_type="mine")
    return est, two(pf(w.prior, 2.0), w.v)


@op
def evidence(w):
    return marginal_log_likelihood(w.est, w.prior, w.data, w.model, w.params, w.loss, "full", vmap_over_data=True)


@op
def evidence_registered(w):
    return marginal_log_likelihood(w.est, w.prior, w.data, w.model, w.params, "mse", "mine", vmap_over_data=True)


@op
def linear(w):
    p = pfm.set_lin_pushforward(w.model, w.params, w.user_pf, w.prior, pushforward_fns=w.lin_fns, key=w.key(w.variant + 3), num_samples=2)
    return p(w.x(0)), p(w.x(1))


@op
def nonlinear(w):
    p = pfm.set_nonlin_pushforward(w.model, w.params, w.user_pf, w.prior, key=w.key(w.variant + 3), num_samples=3, pushforward_fns=w.non_fns)
    return p(w.x(0)), p(w.x(1))


@op
def nonlinear_registered(w):
    pf = set_posterior_fn("mine", w.est, layout=w.params)
    p = pfm.set_nonlin_pushforward(w.model, w.params, pf, w.prior, key=w.key(w.variant + 3), num_samples=2, pushforward_fns=w.non_fns, precompute=False)
    return p(w.x(0))


@op
def kernel(w):
    k, st = pfm.set_posterior_gp_kernel(w.model, w.params, w.user_pf, w.prior, dense=True, output_layout=2)
    return k(w.x(0), w.x(1)), k(w.x(1), w.x(1))


@op
def samples(w):
    post = w.pf(w.prior)
    get = pfm.set_get_weight_sample(w.key(w.variant + 4), w.params, w.env.wrap("scale", post.scale_mv(post.state)), 3, precompute=False)
    return get(1), get(0), normal_like(w.key(w.variant + 1), w.params, w.env.wrap("scale", lambda t: t))


@op
def precomputed(w):
    get = precompute_list(w.env.wrap("item", lambda i: {"x": i * 2.0}), jnp.arange(3))
    return get(0), get(2)


@op
def on_dataset(w):
    return evaluate_on_dataset(w.env.wrap("predict", lambda x: {"y": x * 2.0}), w.data)


@op
def metrics_on_dataset(w):
    p = w.env.wrap("predict", lambda x: {"pred_mean": x * 2.0, "pred_std": (1.0 * x) ** 2})
    return evaluate_metrics_on_dataset(p, w.data, metrics=w.metrics, metrics_dict=w.table, reduce=w.reduce)


@op
def metrics_on_stream(w):
    p = w.env.wrap("predict", lambda x: {"pred_mean": x * 2.0, "pred_std": (1.0 * x) ** 2})
    return evaluate_metrics_on_generator(p, w.loader, metrics=w.metrics, metrics_dict=w.table, transform=w.transform, reduce=w.env.wrap("reduce", lambda bs: jnp.concatenate(bs)))


@op
def pipeline(w):
    f = w.env.wrap("step", lambda results, aux, **k: ({**results, "n": results.get("n", 0) + 1}, aux))
    return finalize_fns([f, f, apply_fns(w.env.wrap("metric", lambda z: z * 2), names=["m"], z="n"), f], {}, {"z": w.factor}), finalize_fns([f], {"n": 5 * w.factor}, {})


@op
def evaluation_arrays(w):
    r, p = evaluation(w.user_pf, w.model, w.params, w.prior, w.data, metrics=w.metrics, reduce=w.reduce)
    return r, p(w.x(0))


@op
def evaluation_stream(w):
    r, p = evaluation(w.user_pf, w.model, w.params, w.prior, w.loader, metrics=w.metrics, pushforward_type="nonlinear", reduce=w.reduce, num_samples=2, predictive_jit=False)
    return r, p(w.x(0))


@op
def evaluation_classes(w):
    r, p = evaluation(w.user_pf, w.model, w.params, w.prior, w.cdata, metrics="classification", predictive_type="mean_field_1")
    return r


@op
def search(w):
    obj = w.env.wrap("objective", lambda pa, best=w.factor: (pa["prior_prec"] - best) ** 2)
    return grid_search(jnp.array([1.0, 1.8, 4.0, 6.0]), obj, patience=2), optimize_prior_prec(obj, log_prior_prec_min=-1.0, log_prior_prec_max=1.0, grid_size=3)


@op
def objective(w):
    build = w.env.wrap("builder", lambda prior_arguments: pfm.set_lin_pushforward(w.model, w.params, w.pf, prior_arguments, pushforward_fns=w.lin_fns[:4]))
    return evaluate_for_given_prior_arguments(data=w.data, set_prob_predictive=build, metric=w.env.wrap("metric", lambda pred_std, **k: jnp.sum(pred_std)), prior_arguments=w.prior)


@op
def calibration_nll(w):
    pa, p = calibration(w.user_pf, w.model, w.params, w.data, loss_fn="mse", curv_estimate=w.est, curv_type="full", grid_size=3, objective_jit=False)
    return pa


@op
def calibration_evidence(w):
    pa, p = calibration(w.user_pf, w.model, w.params, (w.data["input"], w.Y), loss_fn=w.loss, curv_estimate=w.est, curv_type="full", calibration_objective="marginal_log_likelihood", grid_size=3)
    return pa


@op
def calibration_registered(w):
    pa, p = calibration(w.user_pf, w.model, w.params, w.data, loss_fn="mse", curv_estimate=w.est, curv_type="mine", calibration_method="chosen", calibration_objective="chi_squared", objective_jit=False)
    return pa, p(prior_arguments=pa)(w.x(0))


# a ValueError of the objective is a skipped candidate of the grid search, by design
SKIPS_VALUE_ERRORS = {"search", "calibration_nll", "calibration_evidence"}
NEXT = ["stream_call", "linear", "evaluation_arrays", "laplace_registered"]
_REF = {}


def plain(tree):
    return jax.tree.map(lambda x: np.array(x), tree)


warnings.filterwarnings("ignore", module="laplax")


def run(name, w, variant=0):
    w.who.variant = variant
    return plain(OPS[name](w))


def reference(name, variant=0):
    if (name, variant) not in _REF:
        reset_registries()
        _REF[name, variant] = run(name, World(Env()), variant)
        reset_registries()
    return _REF[name, variant]


def same(got, want, what):
    if jax.tree.structure(got) != jax.tree.structure(want):
        fail(f"{what}: result structure differs from a fresh call")
    for g, t in zip(jax.tree.leaves(got), jax.tree.leaves(want)):
        close(A(g), A(t), f"{what}: differs from a fresh call", rtol=1e-7, atol=1e-9)


def attempt(c, w, name, tag, kinds, fault=True):
    """Run one operation with at most one fault; -> (fault fired as (position, label, kind) or None)."""
    fired, n = [], [0]

    def hook(label):
        n[0] += 1
        if fired or not fault:
            return
        k = c.choose(f"{tag}{n[0]}:{label}", [None, *kinds])
        if k is not None:
            e = KINDS[k](f"fault {n[0]} in {label}")
            fired.append((e, n[0], label, k))
            raise e

    w.env.hook = hook
    try:
        out = run(name, w)
    except BaseException as e:  # noqa: BLE001
        w.env.hook = None
        if not fired:
            raise
        if e is not fired[0][0]:
            fail(f"{name}: user exception {fired[0][0]!r} surfaces as {e!r:.200}")
        if fired[0][2] == "objective" and fired[0][3] == "value":
            fail(f"{name}: a ValueError of the objective is not skipped")
        return fired[0]
    finally:
        w.env.hook = None
    if fired:
        if fired[0][3] == "value" and name in SKIPS_VALUE_ERRORS:
            return fired[0]
        fail(f"{name}: user exception {fired[0][0]!r} was swallowed")
    same(out, reference(name), name)
    return None


def body(tier):
    def run_(c, name):
        for x in {name, *NEXT}:
            reference(x)
        reset_registries()
        try:
            w = World(Env())
            f = attempt(c, w, name, "call", list(KINDS))
            what = f"after a fault in {name} ({f[2]} call {f[1]}, {f[3]})" if f else f"after {name}"
            w.check(what)
            obs = [f and f[1:]]
            if f is None:
                same(run(name, w), reference(name), f"{name} repeated")
                return obs
            if f[3] in ("value", "many"):
                return obs
            # the same operation on the same objects, then another one
            if tier != "quick" and f[3] == "own":
                g = attempt(c, w, name, "again", ["own"])
                w.check(f"{what}, then a fault in {g}")
                obs.append(g and g[1:])
            same(run(name, w), reference(name), f"{name} repeated {what}")
            if f[3] == "own":
                x = NEXT[f[1] % len(NEXT)] if tier == "quick" else c.choose("then", NEXT)
                same(run(x, w), reference(x), f"{x} {what}")
                obs.append(x)
            w.check(f"{what} and a repetition")
            return obs
        finally:
            reset_registries()

    return run_


def scenarios(tier):
    return [Dyn("faults", body(tier), list(OPS))]
