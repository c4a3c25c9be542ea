"""C08 history independence: every call equals the call on fresh objects; the caller's data stay untouched."""

import copy
import itertools
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import MODELS, estimate
from laplax.api import GGN, calibration, evaluation, laplace
from laplax.curv.cov import estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.eval import metrics as lm
from laplax.eval import pushforward as pfm
from laplax.eval.likelihood import marginal_log_likelihood
from mc.core import Dyn, Enum
from mc.lib import A, Toy, close, fail, vals

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all operation histories to a depth on one live object (posterior function, predictive, kernel, operator, high-level API with shared arguments); every step is compared with the same call on freshly built objects, and byte-wise snapshots of everything the caller passed in are compared after every step"
RULE = "every sequence of operations to the depth, per object kind, curvature kind and caller array type (numpy / jax); at the end every object obtained earlier in the history is evaluated once more"
BOUNDS = {
    "quick": "posterior: depth 3 over 8 eager operations and depth 2 over 11 (incl. jit / vmap), 3 curvature kinds; predictive: depth 2 over 9 operations (lin, nonlin, kernel), depth 3 over 4; curvature operators: depth 2 over 8; high-level API: depth 2 over 8; long histories: 40 repetitions of one operation followed by every other one and the first again",
    "thorough": "posterior depth 4, predictive depth 3, operators depth 3, API depth 3 over the core operations",
}


# ----------------------------------------------------------------- snapshots
def freeze(o):
    if isinstance(o, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if isinstance(o, LowRankTerms):
        return ("lowrank", freeze(o.U), freeze(o.S), freeze(o.scalar))
    if isinstance(o, (np.ndarray, np.generic, jax.Array)):
        if isinstance(o, jax.Array) and jax.dtypes.issubdtype(o.dtype, jax.dtypes.prng_key):
            o = jax.random.key_data(o)
        a = np.asarray(o)
        return (a.shape, str(a.dtype), a.tobytes())
    if callable(o):
        return ("fn", id(o))
    return (type(o).__name__, repr(o))


class Watch:
    def __init__(self, **objs):
        self.objs = {**objs, "default regression metrics": lm.DEFAULT_REGRESSION_METRICS, "default metric table": lm.DEFAULT_REGRESSION_METRICS_DICT,
                     "default linear outputs": pfm.DEFAULT_LIN_FINALIZE_FNS, "default nonlinear outputs": pfm.DEFAULT_NONLIN_FINALIZE_FNS}
        self.snap = {k: freeze(v) for k, v in self.objs.items()}

    def check(self, what):
        for k, v in self.objs.items():
            if freeze(v) != self.snap[k]:
                fail(f"{what}: {k} changed")


def arrays(kind, tree):
    conv = (lambda x: np.array(x)) if kind == "numpy" else jnp.asarray
    return jax.tree.map(conv, tree)


PRIOR = [({"prior_prec": 1.0}, 1.0), ({"prior_prec": np.array(0.2), "sigma_squared": 3.0}, 1.0), ({"prior_prec": 1.0}, 2.5), ({"prior_prec": 1.0, "sigma_squared": 0.5}, 1.0)]
CLOSE = dict(rtol=1e-9, atol=1e-11)


def same(got, want, what):
    gl, wl = jax.tree.leaves(got), jax.tree.leaves(want)
    if jax.tree.structure(got) != jax.tree.structure(want):
        fail(f"{what}: result structure differs from a fresh call")
    for g, w in zip(gl, wl):
        close(A(g), A(w), f"{what}: differs from a fresh call", **CLOSE)


def explore(c, first, depth, menu, fresh, world, refs):
    """Run one history. fresh() -> (state, Watch); world(state, op) -> result; keeps results' re-evaluators."""
    st = fresh()
    obs = []
    for d in range(depth):
        op = first if d == 0 else c.choose(f"op{d}", menu)
        got = world(st, op)
        same(got, refs(op), f"step {d} {op}")
        st["watch"].check(f"after step {d} {op}")
        obs.append(float(np.sum(np.abs(A(jax.tree.leaves(got)[0])))))
    for i, (again, op) in enumerate(st.get("kept", [])):
        same(again(), refs(op), f"object from step {i} {op} evaluated again after {obs and depth} steps")
    st["watch"].check("at the end")
    return obs


def cached(fn):
    memo = {}

    def get(*a):
        if a not in memo:
            memo[a] = jax.tree.map(lambda x: np.array(x), fn(*a))
        return memo[a]

    return get


# ----------------------------------------------------------------- posterior functions
def post_world(kind, model, arr):
    def fresh():
        toy = Toy(model, *MODELS[model])
        _, ct, est = estimate(kind, toy.P, 2)
        est, params = arrays(arr, est), arrays(arr, toy.params)
        priors = copy.deepcopy(PRIOR)
        data = {"input": toy.xs(3), "target": vals(3 * toy.np_out(toy.xs(1)[0]).size, 4).reshape((3,) + toy.np_out(toy.xs(1)[0]).shape)}
        data = arrays(arr, data)
        v = toy.tree(vals(toy.P, 8))
        return {"toy": toy, "ct": ct, "est": est, "params": params, "priors": priors, "data": data, "v": v, "kept": [],
                "pf": set_posterior_fn(ct, est, layout=params),
                "watch": Watch(curvature=est, parameters=params, priors=priors, data=data, vector=v)}

    def op_fn(st, op):
        what, i = op
        pa, ls = st["priors"][i]
        pf, v = st["pf"], st["v"]
        if what in ("cov", "scale"):
            post = pf(pa, ls)
            run = lambda: getattr(post, what + "_mv")(post.state)(v)  # noqa: E731
            st["kept"].append((run, op))
            return run()
        if what == "sample":
            post = pf(pa, ls)
            get = pfm.set_get_weight_sample(jax.random.key(3), st["params"], post.scale_mv(post.state), 2)
            st["kept"].append((lambda: get(1), op))
            return get(1)
        if what == "mll":
            return marginal_log_likelihood(st["est"], pa, st["data"], st["toy"].model_fn, st["params"], "mse", st["ct"], vmap_over_data=True)
        if what == "jit":
            def g(tau):
                post = pf({**pa, "prior_prec": tau}, ls)
                return post.cov_mv(post.state)(v)

            return jax.jit(g)(pa["prior_prec"])
        if what == "vmap":
            def g(tau):
                post = pf({**pa, "prior_prec": tau}, ls)
                return post.cov_mv(post.state)(v)

            return jax.tree.map(lambda x: x[1], jax.vmap(g)(jnp.asarray([9.0, float(pa["prior_prec"])])))
        raise AssertionError(op)

    return fresh, op_fn


POST = [("cov", 0), ("cov", 1), ("cov", 2), ("scale", 1), ("scale", 3), ("sample", 0), ("sample", 1), ("mll", 3)]
POST_ALL = POST + [("jit", 1), ("vmap", 0), ("mll", 0)]
_CACHE = {}


def world_of(maker, *key):
    k = (maker.__name__, *key)
    if k not in _CACHE:
        fresh, op_fn = maker(*key)
        _CACHE[k] = fresh, op_fn, cached(lambda op: op_fn(fresh(), op))
    return _CACHE[k]


def body(maker, menu_of):
    def go(c, param):
        key, depth, first, big = param
        fresh, op_fn, refs = world_of(maker, *key)
        return explore(c, first, depth, menu_of(big), fresh, op_fn, refs)

    return go


# ----------------------------------------------------------------- predictive functions
def pred_world(kind, model, way):
    def fresh():
        toy = Toy(model, *MODELS[model])
        _, ct, est = estimate(kind, toy.P, 2)
        params, priors = arrays("numpy", toy.params), copy.deepcopy(PRIOR)
        xs = toy.xs(3)
        if way == "lin":
            fns = [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_std, pfm.lin_samples]
            setter = pfm.set_lin_pushforward
        else:
            fns = [pfm.nonlin_setup, pfm.nonlin_pred_mean, pfm.nonlin_pred_std, pfm.nonlin_samples]
            setter = pfm.set_nonlin_pushforward
        pf = set_posterior_fn(ct, est, layout=params)
        key = jax.random.key(5)
        st = {"toy": toy, "params": params, "priors": priors, "xs": xs, "fns": fns, "pf": pf, "key": key, "kept": [], "objs": {}}
        st["setter"] = partial(setter, model_fn=toy.model_fn, mean_params=params, posterior_fn=pf, pushforward_fns=fns, key=key, num_samples=3)
        st["watch"] = Watch(curvature=est, parameters=params, priors=priors, inputs=xs, outputs=fns, key=key)
        return st

    def predictive(st, i):
        if i not in st["objs"]:
            pa, ls = st["priors"][i]
            st["objs"][i] = st["setter"](prior_arguments=pa, loss_scaling_factor=ls)
        return st["objs"][i]

    def op_fn(st, op):
        what, i, j = op
        if what == "default":
            setter = pfm.set_lin_pushforward if way == "lin" else pfm.set_nonlin_pushforward
            p = setter(model_fn=st["toy"].model_fn, mean_params=st["params"], posterior_fn=st["pf"], prior_arguments=st["priors"][i][0], key=st["key"], num_samples=2)
            return p(st["xs"][j])
        if what == "kernel":
            pa, ls = st["priors"][i]
            k, ds = pfm.set_posterior_gp_kernel(st["toy"].model_fn, st["params"], st["pf"], pa, ls)
            v = jnp.asarray(vals(int(st["toy"].np_out(st["xs"][0]).size), 2).reshape(st["toy"].np_out(st["xs"][0]).shape))
            run = lambda: k(v, st["xs"][j], st["xs"][2], ds)  # noqa: E731
            st["kept"].append((run, op))
            return run()
        p = predictive(st, i)
        x = st["xs"][j]
        if what == "call":
            st["kept"].append((lambda: p(x), op))
            return p(x)
        if what == "new":  # a second predictive from the same arguments
            st["objs"].pop(i)
            return predictive(st, i)(x)
        if what == "jit":
            return jax.jit(p)(x)
        return jax.tree.map(lambda a: a[1], jax.vmap(p)(jnp.stack([st["xs"][2], x])))

    return fresh, op_fn


PRED = [("call", 0, 0), ("call", 1, 0), ("call", 0, 1), ("kernel", 1, 0)]
PRED_ALL = PRED + [("call", 2, 1), ("new", 0, 0), ("jit", 0, 1), ("vmap", 1, 0), ("kernel", 0, 1), ("default", 0, 0)]


# ----------------------------------------------------------------- curvature operators
class Loader:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def op_world(model, source):
    def fresh():
        toy = Toy(model, *MODELS[model])
        X, Y = toy.xs(3), vals(3 * int(toy.np_out(toy.xs(1)[0]).size), 4).reshape((3,) + toy.np_out(toy.xs(1)[0]).shape)
        params = arrays("numpy", toy.params)
        if source == "dict":
            data = {"input": X, "target": Y}
        elif source == "tuple":
            data = (X, Y)
        else:
            data = Loader([(X[:2], Y[:2]), (X[2:], Y[2:])])
        v, w = toy.tree(vals(toy.P, 8)), toy.tree(vals(toy.P, 9))
        watched = data.items if source == "loader" else data
        return {"toy": toy, "params": params, "data": data, "v": v, "w": w, "kept": [],
                "mv": GGN(toy.model_fn, params, data, "mse", factor=2.0), "watch": Watch(parameters=params, data=watched, vectors=[v, w])}

    def op_fn(st, op):
        what, arg = op
        mv = st["mv"]
        if what == "mv":
            return mv(st[arg])
        if what == "jit":
            return jax.jit(mv)(st[arg])
        if what == "estimate":
            kw = {"key": jax.random.key(1), "rank": 2} if arg == "lanczos" else {}
            e = estimate_curvature(arg, mv, layout=st["params"], **kw)
            if arg == "lanczos":
                return (e.U * e.S) @ e.U.T
            return e
        if what == "second":  # another operator with other options over the same data
            return GGN(st["toy"].model_fn, st["params"], st["data"], "mse", factor=arg)(st["v"])
        raise AssertionError

    return fresh, op_fn


OPER = [("mv", "v"), ("mv", "w"), ("jit", "v"), ("estimate", "full"), ("estimate", "diagonal"), ("estimate", "lanczos"), ("second", 1.0), ("second", 0.5)]
OPER_CORE = [("mv", "v"), ("estimate", "full"), ("estimate", "diagonal"), ("second", 0.5)]


# ----------------------------------------------------------------- high-level API
def api_world(task):
    model = "linear"

    def fresh():
        toy = Toy(model, 2, 2)
        X = toy.xs(4)
        Y = np.array([0, 1, 1, 0]) if task == "class" else vals(8, 4).reshape(4, 2)
        params = arrays("numpy", toy.params)
        data = {"input": X, "target": Y}
        train = {"input": X, "target": vals(8, 6).reshape(4, 2)}
        batches = Loader([{"input": X[:3], "target": Y[:3]}, {"input": X[3:], "target": Y[3:]}])
        _, ct, est = estimate("full", toy.P, 2)
        metrics = list(lm.DEFAULT_REGRESSION_METRICS)
        fns = [pfm.lin_setup, pfm.lin_pred_mean, pfm.lin_pred_std]
        args = {"prior_prec": 0.7}
        return {"toy": toy, "params": params, "data": data, "train": train, "batches": batches, "est": est, "ct": ct, "metrics": metrics, "fns": fns, "args": args,
                "pf": set_posterior_fn(ct, est, layout=params),
                "watch": Watch(parameters=params, data=data, train=train, batches=batches.items, curvature=est, metrics=metrics, outputs=fns, arguments=args)}

    def op_fn(st, op):
        what, arg = op
        toy, pf = st["toy"], st["pf"]
        common = dict(predictive_type="mean_field_0" if task == "class" else "none")
        if what == "laplace":
            kw = {"key": jax.random.key(1), "rank": 2} if arg == "lanczos" else {}
            p, e = laplace(toy.model_fn, st["params"], st["train"], loss_fn="mse", curv_type=arg, **kw)
            post = p(st["args"])
            return post.cov_mv(post.state)(toy.tree(np.ones(toy.P)))
        if what == "calibrate":
            pa, set_pred = calibration(pf, toy.model_fn, st["params"], st["data"] if task != "class" or arg != "marginal_log_likelihood" else st["train"], loss_fn="mse", curv_estimate=st["est"], curv_type=st["ct"], calibration_objective=arg,
                                       log_prior_prec_min=-1.0, log_prior_prec_max=1.0, grid_size=3, patience=2, **common)
            return {"prior": pa["prior_prec"], "mean": set_pred(prior_arguments=pa)(st["data"]["input"][0])["pred_std"]}
        src, met, fns = arg
        if task == "class":
            metrics = [lm.apply_fns(lambda pred_act, target, **kw: pred_act[..., target], names=["p"], pred_act="pred_act", target="target")]
        else:
            metrics = st["metrics"] if met == "list" else "regression"
        res, pred = evaluation(pf, toy.model_fn, st["params"], st["args"], st["data"] if src == "data" else st["batches"], metrics=metrics, pushforward_fns=st["fns"] if fns else None, **common)
        return {"res": res, "std": pred(st["data"]["input"][0])["pred_std"]}

    return fresh, op_fn


# ----------------------------------------------------------------- long histories
def body_long(maker, menu):
    """a^k b a ... : k repetitions of one operation, then another, then the first again, for every pair."""

    def go(c, param):
        key, k = param
        ops = menu
        a = c.choose("repeated", ops)
        b = c.choose("then", [o for o in ops if o != a])
        fresh, op_fn, refs = world_of(maker, *key)
        st = fresh()
        st["kept"] = Few()
        seen = None
        for i in range(k):
            got = op_fn(st, a)
            flat = [A(x) for x in jax.tree.leaves(got)]
            if seen is None:
                same(got, refs(a), f"step 0 {a}")
                seen = flat
            elif any(not np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True) for x, y in zip(flat, seen)):
                same(got, refs(a), f"repetition {i} of {a}")
        same(op_fn(st, b), refs(b), f"{b} after {k} times {a}")
        same(op_fn(st, a), refs(a), f"{a} after {k} times {a} and {b}")
        for again, op in st["kept"].all():
            same(again(), refs(op), f"object of {op} evaluated again after {k + 2} steps")
        st["watch"].check("at the end")
        return float(np.sum(np.abs(seen[0])))

    return go


class Few(list):
    """keeps the first objects only (the rest is covered by the short histories)"""

    def append(self, x):
        if len(self) < 2:
            super().append(x)

    def all(self):
        return list(self)


API = {
    "reg": [("laplace", "full"), ("laplace", "diagonal"), ("laplace", "lanczos"), ("calibrate", "nll"), ("calibrate", "marginal_log_likelihood"),
            ("evaluate", ("data", "list", True)), ("evaluate", ("loader", "default", False)), ("evaluate", ("loader", "list", True))],
    "class": [("laplace", "full"), ("calibrate", "ece"), ("calibrate", "nll"), ("evaluate", ("data", "own", False)), ("evaluate", ("loader", "own", False))],
}


def scenarios(tier):
    q = tier == "quick"
    kinds = ["full", "diagonal", "lowrank"]
    post = [((k, m, a), 3 if q else 4, f, False) for k, m, a in [("full", "multi", "numpy"), ("diagonal", "linear", "jax"), ("lowrank", "scale", "numpy")] for f in POST]
    post += [((k, m, a), 2, f, True) for k, m, a in [("full", "linear", "jax"), ("diagonal", "linear", "numpy"), ("lowrank", "linear", "jax")] for f in POST_ALL]
    pred = [((k, m, w), 2 if q else 3, f, True) for k, m, w in [("full", "linear", "lin"), ("lowrank", "linear", "nonlin")] for f in PRED_ALL]
    pred += [((k, m, w), 3, f, False) for k, m, w in [("diagonal", "multi", "lin"), ("full", "scale", "nonlin"), ("lowrank", "mlp", "lin")] for f in PRED]
    oper = [((m, s), 2 if q else 3, f, True) for m, s in [("linear", "dict"), ("mlp", "loader"), ("scale", "tuple")] for f in OPER] + ([] if q else [((m, s), 4, f, False) for m, s in [("multi", "loader")] for f in OPER_CORE])
    api = [((t,), 2 if q else 3, f, t) for t in API for f in API[t]]
    n = 40 if q else 150
    long = [((k, m, a), n) for k, m, a in [("full", "scale", "jax"), ("diagonal", "scale", "jax"), ("lowrank", "scale", "jax")]]
    return [
        Dyn("long_posterior", body_long(post_world, [("cov", 0), ("cov", 1), ("scale", 1), ("sample", 0)]), long),
        Dyn("long_predictive", body_long(pred_world, [("call", 0, 0), ("call", 1, 0), ("new", 0, 0), ("kernel", 1, 0)]), [(("full", "scale", "lin"), n), (("lowrank", "scale", "nonlin"), n)]),
        Dyn("long_operators", body_long(op_world, [("mv", "v"), ("mv", "w"), ("second", 0.5), ("estimate", "diagonal")]), [(("scale", "dict"), n), (("scale", "loader"), n)]),
        Dyn("api", body(api_world, lambda t: API[t]), api),
        Dyn("predictive", body(pred_world, lambda b: PRED_ALL if b else PRED), pred),
        Dyn("operators", body(op_world, lambda b: OPER if b else OPER_CORE), oper),
        Dyn("posterior", body(post_world, lambda b: POST_ALL if b else POST), post),
    ]
