"""C25 calibration() returns the best grid point of the stated objective, recomputed from its definition."""

import math

import jax
import jax.numpy as jnp
import numpy as np

from checks.c05 import custom_loss, ref_ggn, targets
from checks.c14 import np_loss
from checks.c15 import estimate
from checks.c19 import np_bridge, np_mf0, np_mf1, np_mf2
from laplax import api
from laplax.api import calibration, laplace
from laplax.curv.cov import CURVATURE_METHODS, set_posterior_fn
from laplax.enums import CalibrationMethod, CalibrationObjective, CurvApprox, LossFn, Predictive, Pushforward
from laplax.eval.pushforward import (
    lin_mc_pred_act, lin_pred_mean, lin_pred_std, lin_pred_var, lin_samples, lin_setup, nonlin_mc_pred_act, nonlin_pred_mean, nonlin_pred_std, nonlin_setup, set_get_weight_sample,
)
from laplax.register import register_calibration_method, register_curvature_method
from mc.core import Enum, Skip
from mc.lib import A, Toy, close, fail, leaves, softmax, vals

LEVEL = "exploration"
RULE = "every supported (objective, curvature kind, predictive type, pushforward) and, on each, every single (pairs in thorough) deviation in data format, spelling, search options, jit, batch axis, sample count, key, custom pushforward functions; the objective is recomputed on the whole grid in numpy and the search rule replayed; every unsupported combination must raise"
BOUNDS = {
    "quick": "2 regression and 2 classification models, 5 curvature kinds, 6 predictive types, 2 pushforwards, 4 objectives, grids of 1..120 points over up to 12 decades, up to 150 validation points, patience and iteration limits; one deviation from the default at a time",
    "thorough": "pairs of deviations",
}
ECE_BINS = 15


# ----------------------------------------------------------------- reference
class Ref:
    """Reference predictive of one curvature: moments and class probabilities at prior precision tau."""

    def __init__(self, toy, C, pf, push, ptype, ns, key):
        self.t, self.C, self.pf, self.push, self.ptype, self.ns, self.key = toy, C, pf, push, ptype, ns, key
        self._J = {}

    def weights(self, taus):
        """(len(taus), ns, P): the library's weight samples (decided by C18)."""
        base = self.t.params if self.push == "nonlinear" else jax.tree.map(jnp.zeros_like, self.t.params)

        def one(tau):
            ps = self.pf({"prior_prec": tau})
            get = set_get_weight_sample(self.key, base, ps.scale_mv(ps.state), self.ns)
            return jnp.stack([jnp.concatenate([jnp.reshape(l, -1) for l in leaves(get(i))]) for i in range(self.ns)])

        return A(jax.jit(jax.vmap(one))(jnp.asarray(taus)))

    def predict(self, X, taus):
        """list over taus of dicts with arrays over X."""
        t = self.t
        need_w = self.push == "nonlinear" or self.ptype == "mc_bridge"
        W = self.weights(taus) if need_w else None
        JF = [(t.np_out(x), t.jac(x)) for x in X]
        out = []
        for i, tau in enumerate(taus):
            S = np.linalg.inv(self.C + tau * np.eye(t.P))
            rows = []
            for x, (f0, J) in zip(X, JF):
                if self.push == "linear":
                    mean, cov = f0, J @ S @ J.T
                    E = f0 + W[i] @ J.T if need_w else None
                else:
                    E = np.stack([t.np_out(x, w) for w in W[i]])
                    mean = E.mean(0)
                    D = (E - mean).reshape(len(E), -1)
                    cov = D.T @ D / len(E)
                var = np.diag(cov)
                r = {"map": f0, "pred_mean": mean, "pred_std": np.sqrt(var).reshape(f0.shape)}
                p = self.ptype
                if p == "mc_bridge":
                    r["pred_act"] = softmax(E).mean(0)
                elif p != "none":
                    r["pred_act"] = {"mean_field_0": lambda: np_mf0(mean, var), "mean_field_1": lambda: np_mf1(mean, var), "mean_field_2": lambda: np_mf2(mean, cov),
                                     "laplace_bridge": lambda: np_bridge(mean, var, True)}[p]()
                rows.append(r)
            out.append({k: np.stack([r[k] for r in rows]) for k in rows[0]})
        return out


def np_nll(m, s, y):
    return np.mean(0.5 * np.log(2 * np.pi * s**2) + (y - m) ** 2 / (2 * s**2))


def np_ece(conf, hit, B=ECE_BINS):
    tot = 0.0
    for b in range(B):
        sel = np.minimum(np.floor(conf * B).astype(int), B - 1) == b
        if sel.any():
            tot += sel.mean() * abs(hit[sel].mean() - conf[sel].mean())
    return tot


def objective(kind, r, Y, classes, t, X, C, tau, loss):
    if kind == "nll":
        return np_nll(r["pred_mean"], r["pred_std"], np.eye(r["pred_mean"].shape[-1])[Y] if classes else Y)
    if kind == "chi_squared":
        return abs(np.mean((Y - r["pred_mean"]) ** 2 / r["pred_std"] ** 2) - 1)
    if kind == "ece":
        return np_ece(r["pred_act"].max(-1), (r["map"].argmax(-1) == Y).astype(float))
    # with (1/2 x) the loss as negative log-likelihood, as documented for the marginal likelihood
    joint = -sum(np_loss(loss, t.np_out(x), y) for x, y in zip(X, Y)) / 2 - 0.5 * tau * t.flat @ t.flat - 0.5 * t.P * (np.log(2 * np.pi) - np.log(tau))
    return -(joint + 0.5 * t.P * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(C + tau * np.eye(t.P))[1])


def search(vals_, patience, limit):
    """candidates visited by the documented search; None when a comparison is within rounding."""
    seen, rises, prev = [], 0, None
    for v in vals_:
        v = math.inf if math.isnan(v) else v
        seen.append(v)
        if patience is not None and prev is not None:
            if abs(v - prev) <= 1e-9 * (1 + abs(prev)) and len(seen) < len(vals_):
                return None
            rises = rises + 1 if v > prev else 0
            if rises >= patience:
                break
        prev = v
        if limit is not None and len(seen) >= limit:
            break
    return seen


# ----------------------------------------------------------------- plan
MODELS = {"reg_scale": ("scale", 2, 2), "reg_mlp": ("mlp", 1, 2), "cls_linear": ("linear", 2, 3), "cls_mlp": ("mlp", 2, 3)}
GRIDS = {
    "default": {},
    "coarse": {"log_prior_prec_min": -2.0, "log_prior_prec_max": 2.0, "grid_size": 9},
    "reversed": {"log_prior_prec_min": 2.0, "log_prior_prec_max": -2.0, "grid_size": 7},
    "min_only": {"log_prior_prec_min": -0.5, "grid_size": 6},
    "max_only": {"log_prior_prec_max": 0.5, "grid_size": 6},
    "max_zero": {"log_prior_prec_max": 0.0, "grid_size": 7},
    "min_zero": {"log_prior_prec_min": 0.0, "grid_size": 7},
    "patience_inf": {"grid_size": 17, "patience": 100, "max_iterations": 200},
    "point": {"log_prior_prec_min": 0.5, "grid_size": 1},
    "patience1": {"grid_size": 13, "patience": 1},
    "patience3": {"grid_size": 25, "patience": 3},
    "limit4": {"grid_size": 12, "max_iterations": 4},
    "limit1": {"max_iterations": 1, "log_prior_prec_max": -2.0, "log_prior_prec_min": 1.0},
    "both": {"grid_size": 20, "patience": 2, "max_iterations": 15},
}
OBJ = ["nll", "chi_squared", "marginal_log_likelihood", "ece"]
PRED = ["none", "mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"]
DEV = {
    "data": ["tuple", "dict", "list"],
    "spelling": ["enum", "string", "upper"],
    "grid": ["coarse", *[g for g in GRIDS if g not in ("coarse", "fine", "wide", "finest")]],
    "objective_jit": [True, False],
    "batch_axis": ["vmap", "model"],
    "num_samples": [8, 3, None],
    "key": [4, None],
    "fns": [None, "own", "reordered"],
    "n": [5, 1],
    "loss": ["mse", "custom"],
}


def plan(maxdev):
    def p(c):
        model = c.choose("model", list(MODELS))
        obj = c.choose("objective", OBJ)
        push = c.choose("pushforward", ["linear", "nonlinear"])
        pred = c.choose("predictive", PRED)
        kind = c.choose("kind", ["full", "diagonal", "lanczos", "lobpcg", "registered"])
        cls = model.startswith("cls")
        if (cls == (pred == "none")) or (obj == "ece" and not cls) or (obj == "chi_squared" and cls) or (push == "nonlinear" and pred not in ("none", "mc_bridge")):
            raise Skip
        if obj == "marginal_log_likelihood" and (push == "nonlinear" or pred not in ("none", "mc_bridge")):
            raise Skip  # does not depend on the predictive
        second = model in ("reg_mlp", "cls_mlp")
        if second and kind not in ("full",):
            raise Skip
        base = kind == "full" and not second
        if not base and kind != "full" and pred in ("mean_field_1", "mean_field_0"):
            raise Skip
        d, off = {}, 0
        for k, alt in DEV.items():
            if k == "batch_axis" and obj != "marginal_log_likelihood" or k == "loss" and (cls or obj != "marginal_log_likelihood"):
                d[k] = alt[0]
                continue
            if k in ("num_samples", "key") and not (push == "nonlinear" or pred == "mc_bridge"):
                d[k] = alt[0]
                continue
            if k == "fns" and (obj in ("ece", "marginal_log_likelihood") or pred not in ("none", "mc_bridge")):
                d[k] = None
                continue
            v = c.choose(k, alt)
            d[k] = v
            off += v != alt[0]
            if off > (maxdev if base else maxdev - 1 if maxdev > 1 or second else 0):
                raise Skip
        return model, obj, push, pred, kind, d

    return p


def register():
    if "c25_reg" not in CURVATURE_METHODS:
        register_curvature_method("c25_reg", default="full")
    return "c25_reg"


def names(spelling, **kw):
    enums = {"objective": CalibrationObjective, "pushforward": Pushforward, "predictive": Predictive, "method": CalibrationMethod}
    return {k: enums[k](v) if spelling == "enum" else v.upper() if spelling == "upper" else v for k, v in kw.items()}


def double_std(results, aux, **kw):
    results["pred_std"] = 2 * results["pred_std"]
    return results, aux


def check(cfg):
    model, obj, push, pred, kind, d = cfg
    cls = model.startswith("cls")
    t = Toy(*MODELS[model])
    X = t.xs(d["n"], 4)
    loss = ("cross_entropy" if cls else d["loss"])
    Y = np.array([(2 * i + i // 2) % 3 for i in range(len(X))]) if cls else np.stack([t.np_out(x) for x in X]) + 0.9 * vals(len(X) * t.k, 6).reshape(len(X), t.k)
    est_kind = {"lanczos": "lowrank", "lobpcg": "lowrank", "registered": "full"}.get(kind, kind)
    C, _, est = estimate(est_kind, t.P, 2)
    name = register() if kind == "registered" else kind
    ct = name if kind == "registered" or d["spelling"] == "string" else name.upper() if d["spelling"] == "upper" else CurvApprox(name)
    pf = set_posterior_fn(name, est, layout=t.params)
    nm = names(d["spelling"], objective=obj, pushforward=push, predictive=pred, method="grid_search")
    kw = dict(GRIDS[d["grid"]])
    opts = {}
    ns, key = d["num_samples"], d["key"]
    if ns is not None:
        opts["num_samples"] = ns
    if key is not None:
        opts["sample_key"] = jax.random.key(key)
    fns, factor = None, 1.0
    if d["fns"]:
        lin = push == "linear"
        fns = [lin_setup, lin_pred_mean, lin_pred_std] if lin else [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
        if d["fns"] == "own":
            fns, factor = fns + [double_std], 2.0
        else:
            fns = [fns[0], lin_pred_var, fns[2], fns[1], lin_samples] if lin else [fns[0], fns[2], fns[1]]
        if pred == "mc_bridge":
            fns = fns + [lin_mc_pred_act if lin else nonlin_mc_pred_act]
        opts["pushforward_fns"] = list(fns)
    fn = t.model_fn if d["batch_axis"] == "vmap" else lambda input, params: jax.vmap(lambda x: t.model_fn(x, params))(input)
    Xj, Yj = jnp.asarray(X), jnp.asarray(Y)
    data = {"tuple": (Xj, Yj), "dict": {"target": Yj, "input": Xj}, "list": [Xj, Yj]}[d["data"]]
    lf = {"mse": LossFn.MSE if d["spelling"] == "enum" else "mse", "cross_entropy": LossFn.CROSS_ENTROPY if d["spelling"] == "enum" else "cross_entropy", "custom": lambda f, y: 0.5 * jnp.sum(jnp.abs(f - y) ** 3)}[loss]
    args, build = calibration(pf, fn, t.params, data, loss_fn=lf, curv_estimate=est, curv_type=ct, predictive_type=nm["predictive"], pushforward_type=nm["pushforward"],
                              calibration_objective=nm["objective"], calibration_method=nm["method"], vmap_over_data=d["batch_axis"] == "vmap", objective_jit=d["objective_jit"], **opts, **kw)
    if fns is not None and opts["pushforward_fns"] != fns:
        fail("the caller's list of pushforward functions was changed")
    what = f"calibration ({cfg})"
    if set(args) != {"prior_prec"}:
        fail(f"{what}: returned prior arguments {set(args)}")
    grid = np.logspace(kw.get("log_prior_prec_min", -3.0), kw.get("log_prior_prec_max", 3.0), kw.get("grid_size", 50))
    got = float(args["prior_prec"])
    ref = Ref(t, C, pf, push, pred, 30 if ns is None else ns, jax.random.key(0 if key is None else key))
    if obj == "marginal_log_likelihood":
        scores = [objective(obj, None, Y, cls, t, X, C, tau, loss if loss != "custom" else "callable") for tau in grid]
    else:
        P = ref.predict(X, grid)
        for r in P:
            r["pred_std"] = factor * r["pred_std"]
        scores = [objective(obj, r, Y, cls, t, X, C, tau, loss) for r, tau in zip(P, grid)]
    seen = search(scores, kw.get("patience"), kw.get("max_iterations"))
    i = int(np.argmin(np.abs(np.log(grid) - np.log(got))))
    close(got, grid[i], f"{what}: prior precision is not a grid point", rtol=1e-9)
    if seen is not None:
        best = min(seen)
        if i >= len(seen) or not scores[i] <= best + 1e-8 * (1 + abs(best)):
            fail(f"{what}: chose grid point {i} (prior precision {got}, objective {scores[i]}); the search visits {len(seen)} points and the best is {int(np.argmin(seen))} with {best}; all: {np.round(scores, 6).tolist()}")
    # the returned builder is the predictive that was scored
    if d["batch_axis"] == "vmap":
        R = ref.predict(X[:2], [got, 0.37])
        for pa, r in zip((args, {"prior_prec": 0.37}), R):
            out = jax.jit(jax.vmap(build(prior_arguments=pa)))(Xj[:2])
            for k, v in r.items():
                if k == "pred_act" and fns is not None:
                    continue
                if k not in out:
                    fail(f"{what}: the returned predictive has no {k}")
                close(out[k], v * (factor if k == "pred_std" else 1.0), f"{what}: {k} of the returned predictive", rtol=1e-6, atol=1e-8)
    return [i, len(seen or []), round(scores[i], 6)]


# ----------------------------------------------------------------- many samples, fine and wide grids
GRIDS.update({"fine": {"grid_size": 120}, "wide": {"log_prior_prec_min": -6.0, "log_prior_prec_max": 6.0, "grid_size": 30}, "finest": {"log_prior_prec_min": 0.2, "log_prior_prec_max": 0.3, "grid_size": 40}})


def plan_large(c):
    model = c.choose("model", ["reg_scale", "cls_linear"])
    obj = c.choose("objective", OBJ)
    push = c.choose("pushforward", ["linear", "nonlinear"])
    pred = c.choose("predictive", PRED)
    n = c.choose("n", [150, 5, 33])
    grid = c.choose("grid", ["coarse", "fine", "wide", "finest"])
    ns = c.choose("num_samples", [8, 70])
    cls = model.startswith("cls")
    if (cls == (pred == "none")) or (obj == "ece" and not cls) or (obj == "chi_squared" and cls) or (push == "nonlinear" and pred not in ("none", "mc_bridge")):
        raise Skip
    if obj == "marginal_log_likelihood" and (push == "nonlinear" or pred not in ("none", "mc_bridge")) or pred in ("mean_field_0", "mean_field_1") and grid != "coarse":
        raise Skip
    if (n == 5) != (grid != "coarse" or ns != 8) or ns != 8 and (grid != "coarse" or push == "linear" and pred != "mc_bridge"):
        raise Skip
    if n == 33 and obj != "ece":
        raise Skip
    d = {k: v[0] for k, v in DEV.items()} | {"n": n, "grid": grid, "num_samples": ns}
    return model, obj, push, pred, "full", d


# ----------------------------------------------------------------- end to end
def plan_e2e(c):
    kind = c.choose("kind", ["full", "diagonal", "lanczos"])
    obj = c.choose("objective", OBJ)
    cls = c.choose("task", ["reg", "cls"]) == "cls"
    pred = c.choose("predictive", PRED)
    n = c.choose("n", [2, 4])
    if cls == (pred == "none") or obj == "ece" and not cls or obj == "chi_squared" and cls or obj in ("nll", "marginal_log_likelihood") and pred not in ("none", "mc_bridge"):
        raise Skip
    return kind, obj, cls, pred, n


def check_e2e(cfg):
    """laplace() followed by calibration(), as in the documentation."""
    kind, obj, cls, pred, n = cfg
    t = Toy("linear", 2, 3) if cls else Toy("linear", 2, 1)
    loss = "cross_entropy" if cls else "mse"
    X, XV = t.xs(n, 2), t.xs(4, 9)
    Y = targets(t, loss, n)
    YV = np.array([0, 2, 1, 0]) if cls else np.stack([t.np_out(x) for x in XV]) + 0.4 * vals(4, 8).reshape(4, 1)
    fac = 1.0
    G = fac * ref_ggn(t, loss, X, Y)
    kw = {"rank": int((np.linalg.eigvalsh(G) > 1e-9).sum()) + 1, "key": jax.random.key(3)} if kind == "lanczos" else {}
    if kind == "lanczos":
        kw["rank"] = min(kw["rank"], t.P)
    pf, est = laplace(t.model_fn, t.params, (jnp.asarray(X), jnp.asarray(Y)), loss_fn=loss, curv_type=kind, num_curv_samples=n, num_total_samples=n, **kw)
    args, build = calibration(pf, t.model_fn, t.params, (jnp.asarray(XV), jnp.asarray(YV)), loss_fn=loss, curv_estimate=est, curv_type=kind, predictive_type=pred, calibration_objective=obj, grid_size=15, num_samples=6)
    if kind == "diagonal":
        G = np.diag(np.diag(G))
    grid = np.logspace(-3, 3, 15)
    ref = Ref(t, G, pf, "linear", pred, 6, jax.random.key(0))
    P = ref.predict(XV, grid)
    scores = np.array([objective(obj, r, YV, cls, t, XV, G, tau, loss) for r, tau in zip(P, grid)])
    got = float(args["prior_prec"])
    i = int(np.argmin(np.abs(np.log(grid) - np.log(got))))
    close(got, grid[i], "prior precision is not a grid point", rtol=1e-9)
    if not scores[i] <= scores.min() + 1e-6 * (1 + abs(scores.min())):
        fail(f"laplace+calibration {cfg}: chose {got} with {scores[i]}, best {grid[scores.argmin()]} with {scores.min()}")
    out = jax.vmap(build(prior_arguments=args))(jnp.asarray(XV))
    for k, v in P[i].items():
        close(out[k], v, f"laplace+calibration {cfg}: {k}", rtol=1e-4, atol=1e-6)
    return [i, scores[i]]


# ----------------------------------------------------------------- unsupported
def bad():
    cases = {}
    for push in ("linear", "nonlinear"):
        for pred in PRED:
            for obj in OBJ:
                ok = (pred in ("none", "mc_bridge") or push == "linear") and not (obj == "chi_squared" and pred != "none") and not (obj == "ece" and pred == "none")
                if not ok:
                    cases[f"{push}/{pred}/{obj}"] = dict(pushforward_type=push, predictive_type=pred, calibration_objective=obj)
    cases.update({
        "unknown objective": dict(calibration_objective="nonsense"), "unknown method": dict(calibration_method="nonsense"), "unknown predictive": dict(predictive_type="nonsense"),
        "unknown pushforward": dict(pushforward_type="nonsense"), "empty objective": dict(calibration_objective=""), "mll without estimate": dict(calibration_objective="marginal_log_likelihood", curv_estimate=None),
        "mll without kind": dict(calibration_objective="marginal_log_likelihood", curv_type=None), "triple data": dict(data=3), "dict without target": dict(data="dict"), "no data": dict(data=None),
    })
    return cases


def plan_bad(c):
    cs = bad()
    which = c.choose("case", list(cs))
    spelling = c.choose("spelling", ["string", "enum"])
    if spelling == "enum" and "/" not in which:
        raise Skip
    return which, spelling


def check_bad(cfg):
    which, spelling = cfg
    kw = bad()[which]
    if spelling == "enum":
        kw = dict(pushforward_type=Pushforward(kw["pushforward_type"]), predictive_type=Predictive(kw["predictive_type"]), calibration_objective=CalibrationObjective(kw["calibration_objective"]))
    t = Toy("linear", 2, 3)
    C, ct, est = estimate("full", t.P, 2)
    X, Y = jnp.asarray(t.xs(2)), jnp.asarray(np.stack([t.np_out(x) for x in t.xs(2)]))
    data = (X, Y)
    if "data" in kw:
        data = {3: (X, Y, X), "dict": {"input": X}, None: None}[kw.pop("data")]
    kw = {"curv_estimate": est, "curv_type": "full", "loss_fn": "mse", **kw}
    try:
        calibration(set_posterior_fn("full", est, layout=t.params), t.model_fn, t.params, data, grid_size=3, **kw)
    except ValueError as e:
        if not str(e).strip():
            fail(f"{which}: error without a message")
        return "ValueError"
    except Exception as e:
        fail(f"{which}: expected a ValueError naming the problem, got {type(e).__name__}: {str(e)[:200]}")
    fail(f"{which}: accepted")


# ----------------------------------------------------------------- added methods
def plan_method(c):
    return c.choose("name", ["mine", "Mine_2"]), c.choose("objective", ["nll", "marginal_log_likelihood"]), c.choose("data", ["tuple", "dict"]), c.choose("objective_jit", [True, False]), c.choose("kwargs", [{}, {"steps": 3, "grid_size": 4}])


def check_method(cfg):
    """A method added to the table receives the objective of prior arguments and data, and its own options."""
    name, obj, how, jit, extra = cfg
    t = Toy("scale", 2, 2)
    C, ct, est = estimate("full", t.P, 2)
    X = t.xs(3, 4)
    Y = np.stack([t.np_out(x) for x in X]) + 0.5
    Xj, Yj = jnp.asarray(X), jnp.asarray(Y)
    pf = set_posterior_fn("full", est, layout=t.params)
    seen = {}
    ref = Ref(t, C, pf, "linear", "none", 0, None)

    def mine(*, objective, data, **kw):
        seen.update(kw=kw, scores=[float(objective({"prior_prec": tau}, data)) for tau in (0.2, 3.0)], keys=set(data))
        return {"prior_prec": 7.0, "extra": 1}

    register_calibration_method(name, mine)
    try:
        args, build = calibration(pf, t.model_fn, t.params, (Xj, Yj) if how == "tuple" else {"input": Xj, "target": Yj}, loss_fn="mse", curv_estimate=est, curv_type="full",
                                  calibration_objective=obj, calibration_method=name, objective_jit=jit, **extra)
    finally:
        del api.calibration_options[name]
    if args != {"prior_prec": 7.0, "extra": 1} or seen["kw"] != extra or seen["keys"] != {"input", "target"}:
        fail(f"{cfg}: method saw options {seen['kw']}, data {seen['keys']}; returned {args}")
    want = [objective(obj, r, Y, False, t, X, C, tau, "mse") for r, tau in zip(ref.predict(X, [0.2, 3.0]), (0.2, 3.0))]
    close(seen["scores"], want, f"{cfg}: objective handed to the method", rtol=1e-7)
    return want


def scenarios(tier):
    q = tier == "quick"
    return [Enum("grid", plan(1 if q else 2), check), Enum("large", plan_large, check), Enum("laplace", plan_e2e, check_e2e), Enum("unsupported", plan_bad, check_bad), Enum("method", plan_method, check_method)]
