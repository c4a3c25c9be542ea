"""C26 evaluation() covers every sample once, for every combination of metrics, prediction type and data source."""

import jax
import jax.numpy as jnp
import numpy as np

import laplax.eval.metrics as lm
from checks.c05 import ref_ggn, targets
from checks.c15 import estimate
from checks.c22 import LAYOUTS
from checks.c25 import PRED, Ref, double_std, np_nll
from laplax.api import evaluation, laplace
from laplax.curv.cov import set_posterior_fn
from laplax.enums import DefaultMetrics, Predictive, Pushforward
from laplax.eval.pushforward import lin_mc_pred_act, lin_pred_mean, lin_pred_std, lin_pred_var, lin_setup, nonlin_mc_pred_act, nonlin_pred_mean, nonlin_pred_std, nonlin_pred_var, nonlin_setup
from laplax.eval.utils import apply_fns, transfer_entry
from mc.core import Dyn, Enum, Skip
from mc.lib import A, Toy, close, compositions, fail, norm_cdf, norm_pdf, softmax, vals

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the implementation: every configuration, every partition of the data into batches, every source kind and every short history of evaluations on shared metric lists, streams and functions, against a per-sample reference"
RULE = "every (metric set, predictive, pushforward, source with every partition into batches, reduction), every deviation in spelling / jit / key / sample count / own pushforward functions; histories of evaluations sharing one metric list, one stream and one function list; every unsupported use raises"
BOUNDS = {
    "quick": "N <= 3 samples, all partitions x {re-iterable, generator, iterator} x {tuple, dict, list batches}; 8 reductions; 6 predictive types; histories of depth 2 over 6 operations; N = 41 / 130 samples in 8 batch layouts, 70 weight samples, three prior precisions",
    "thorough": "N <= 4, pairs of deviations, depth 3",
}


class Loader:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def source(how, parts, X, Y):
    X, Y = jnp.asarray(X), jnp.asarray(Y)
    if how == "tuple":
        return (X, Y)
    if how == "dict":
        return {"target": Y, "input": X}
    fmt, kind = how.split("_")
    cuts = np.cumsum([0, *parts])
    b = [(X[i:j], Y[i:j]) for i, j in zip(cuts[:-1], cuts[1:])]
    if fmt == "dict":
        b = [{"input": x, "target": y} if k % 2 else {"target": y, "input": x} for k, (x, y) in enumerate(b)]
    elif fmt == "list":
        b = [[x, y] for x, y in b]
    return {"loader": lambda: Loader(b), "generator": lambda: (x for x in b), "iterator": lambda: iter(b)}[kind]()


STREAMS = ["pair_loader", "pair_generator", "pair_iterator", "dict_loader", "dict_generator", "list_loader"]

# ----------------------------------------------------------------- metrics
def m_dot(pred_mean, target, **kw):
    return jnp.sum(pred_mean * target)


def m_vec(pred_std, pred_mean, **kw):
    return pred_std + 2 * pred_mean


def custom():
    return [apply_fns(m_dot, names=["dot"], pred_mean="pred_mean", target="target"), transfer_entry(["map"]), apply_fns(m_vec, pred_mean="map", pred_std="pred_std")]


def single():
    return apply_fns(lambda pred_std, **kw: pred_std.sum(), lambda pred_mean, **kw: pred_mean, names=["s", "m"])


def ref_metrics(kind, r, y):
    m, s, f = r["pred_mean"], r["pred_std"], r["map"]
    if kind.startswith("regression") or kind == "none":
        z = (y - m) / s
        return {"rmse": np.sqrt(((m - y) ** 2).mean()), "chi^2": (z**2).mean(), "nll": np_nll(m, s, y), "crps": (s * (z * (2 * norm_cdf(z) - 1) + 2 * norm_pdf(z) - 1 / np.sqrt(np.pi))).mean()}
    if kind.startswith("classification"):
        return {"confidences_map": softmax(f).max(), "confidences_pred": r["pred_act"].max(), "correctness_map": float(f.argmax() == y), "correctness_pred": float(m.argmax() == y),
                "nll_gaussian": np_nll(m, s, np.eye(m.size)[y])}
    if kind == "callable":
        return {"s": s.sum(), "m": m}
    return {"dot": (m * y).sum(), "map": f, "m_vec": s + 2 * f}


def metrics_arg(kind):
    base, _, form = kind.partition(":")
    if base in ("regression", "classification"):
        return {"": base, "enum": DefaultMetrics(base), "upper": base.upper()}[form]
    return {"list": custom, "tuple": lambda: tuple(custom()), "callable": single, "none": lambda: None}[base]()


REDUCE = {
    "default": (None, lambda a: a), "mean": (jnp.mean, lambda a: a.mean()), "mean0": (lambda a: jnp.mean(a, axis=0), lambda a: a.mean(0)), "sum": (lambda a: a.sum(), lambda a: a.sum()), "max": (jnp.max, lambda a: a.max()),
    "last": (lambda a: a[-1], lambda a: a[-1]), "order": (lambda a: (a.T @ jnp.arange(1.0, len(a) + 1)).T, lambda a: (a.T @ np.arange(1.0, len(a) + 1)).T), "shape": (lambda a: jnp.asarray(a.shape), lambda a: np.asarray(a.shape)),
}


# ----------------------------------------------------------------- plan
DEV = {"spelling": ["string", "enum", "upper"], "jit": [True, False], "num_samples": [6, 2, None], "key": [5, None], "fns": [None, "own", "reordered"], "kind": ["full", "diagonal", "lowrank"]}


def plan(nmax, maxdev):
    def p(c):
        task = c.choose("task", ["reg", "cls"])
        push = c.choose("pushforward", ["linear", "nonlinear"])
        pred = c.choose("predictive", PRED)
        if (task == "reg") != (pred == "none") or push == "nonlinear" and pred not in ("none", "mc_bridge"):
            raise Skip
        met = c.choose("metrics", ["none", "regression", "regression:enum", "regression:upper", "list", "tuple", "callable"] if task == "reg" else ["classification", "classification:enum", "classification:upper", "list", "callable"])
        n = c.choose("n", [nmax, *range(1, nmax)])
        how = c.choose("source", ["tuple", "dict", *STREAMS])
        parts = c.choose("batches", compositions(n)) if "_" in how else (n,)
        red = c.choose("reduce", list(REDUCE))
        stream = "_" in how
        special = pred not in ("none", "mc_bridge")
        if stream and special and how != "pair_generator":
            raise Skip
        # deviations from the first axis (sources, all partitions) by a reduction or options
        left = (maxdev if stream else maxdev + 1) if not special else 1
        if stream:
            left = min(left, 2)
        left -= (red not in ("default", "order")) + (met not in ("list", "classification")) + (n != nmax) + (how not in ("tuple", "pair_loader", "pair_generator"))
        if maxdev == 1 and not stream and red == "order":
            left -= 1
        if left < 0:
            raise Skip
        d = {}
        for k, v in DEV.items():
            if k in ("num_samples", "key") and push == "linear" and pred != "mc_bridge" or k == "fns" and pred not in ("none", "mc_bridge"):
                continue
            d[k] = c.choose(k, v if left else v[:1])
            left -= d[k] != v[0]
        off = sum(v != DEV[k][0] for k, v in d.items())
        if stream and (off or met not in ("list", "classification") or red not in ("default", "order")) and maxdev == 1 and (how != "pair_generator" or parts[0] != n - 1 or red == "order"):
            raise Skip
        if stream and push == "nonlinear" and n != nmax and len(parts) != 2:
            raise Skip
        return task, push, pred, met, n, how, tuple(parts), red, d

    return p


def setup(task, kind="full"):
    t = Toy("scale", 2, 2) if task == "reg" else Toy("linear", 2, 3)
    C, ct, est = estimate(kind, t.P, 2)
    return t, C, set_posterior_fn(ct, est, layout=t.params)


def sample_data(t, task, n):
    X = t.xs(n, 4)
    Y = np.array([0, 2, 2, 1])[:n] if task == "cls" else np.stack([t.np_out(x) for x in X]) + vals(n * t.k, 6).reshape(n, t.k)
    return X, Y


_R = {}


def reference(task, kind, push, pred, ns, key, n, tau=0.6):
    k = (task, kind, push, pred, ns, key, n, tau)
    if k not in _R:
        t, C, pf = setup(task, kind)
        X, _ = sample_data(t, task, n)
        _R[k] = Ref(t, C, pf, push, pred, ns, jax.random.key(key)).predict(X, [tau])[0]
    return _R[k]


def own_fns(which, push, pred):
    if not which:
        return None, 1.0
    lin = push == "linear"
    fns = [lin_setup, lin_pred_mean, lin_pred_std] if lin else [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
    fac = 1.0
    if which == "own":
        fns, fac = fns + [double_std], 2.0
    else:
        fns = [fns[0], lin_pred_var if lin else nonlin_pred_var, fns[2], fns[1]]
    if pred == "mc_bridge":
        fns += [lin_mc_pred_act if lin else nonlin_mc_pred_act, rename]
    return fns, fac


def rename(results, aux, **kw):
    results["pred_act"] = results["mc_pred_act"]
    return results, aux


def expected(met, r, Y, red):
    rows = [ref_metrics(met, {k: v[i] for k, v in r.items()}, Y[i]) for i in range(len(Y))]
    return {k: REDUCE[red][1](np.stack([np.asarray(q[k]) for q in rows])) for k in rows[0]}


def compare(res, want, what):
    if set(res) != set(want):
        fail(f"{what}: metrics {sorted(res)} instead of {sorted(want)}")
    for k, w in want.items():
        close(res[k], w, f"{what}: {k}", rtol=1e-6, atol=1e-8)


def check(cfg):
    task, push, pred, met, n, how, parts, red, d = cfg
    t, C, pf = setup(task, d["kind"])
    X, Y = sample_data(t, task, n)
    kw = {}
    if met != "none":
        kw["metrics"] = metrics_arg(met)
    if red != "default":
        kw["reduce"] = REDUCE[red][0]
    ns, key = d.get("num_samples", 6), d.get("key", 5)
    if ns is not None:
        kw["num_samples"] = ns
    if key is not None:
        kw["sample_key"] = jax.random.key(key)
    fns, fac = own_fns(d.get("fns"), push, pred)
    if fns:
        kw["pushforward_fns"] = list(fns)
    sp = d["spelling"]
    f = (lambda e, v: e(v)) if sp == "enum" else (lambda e, v: v.upper() if sp == "upper" else v)  # noqa: E731
    if not (pred == "none" and sp == "string"):
        kw["predictive_type"] = f(Predictive, pred)
    if not (push == "linear" and sp == "string"):
        kw["pushforward_type"] = f(Pushforward, push)
    snap = list(kw["metrics"]) if isinstance(kw.get("metrics"), list) else None
    dsnap = list(lm.DEFAULT_REGRESSION_METRICS)
    res, prob = evaluation(pf, t.model_fn, t.params, {"prior_prec": 0.6}, source(how, parts, X, Y), predictive_jit=d["jit"], **kw)
    what = f"evaluation {cfg}"
    r = dict(reference(task, d["kind"], push, pred, 10 if ns is None else ns, 0 if key is None else key, n))
    r["pred_std"] = fac * r["pred_std"]
    compare(res, expected(met, r, Y, red), what)
    if snap is not None and (len(snap) != len(kw["metrics"]) or any(a is not b for a, b in zip(snap, kw["metrics"]))):
        fail(f"{what}: metric list changed")
    if len(dsnap) != len(lm.DEFAULT_REGRESSION_METRICS) or fns and kw["pushforward_fns"] != fns:
        fail(f"{what}: default metrics or the caller's function list changed")
    out = prob(jnp.asarray(X[-1]))
    for k, v in r.items():
        if k not in out:
            fail(f"{what}: returned predictive lacks {k}")
        close(out[k], v[-1], f"{what}: {k} of the returned predictive", rtol=1e-6, atol=1e-8)
    return [float(np.sum(A(v))) for _, v in sorted(res.items())]


# ----------------------------------------------------------------- histories
OPS = ["array", "stream", "stream_again", "classification", "default", "nonlinear"]


def body_history(c, param):
    """Evaluations that share one metric list, one re-iterable stream, one posterior and one function list."""
    depth, parts = param
    t, C, pf = setup("reg")
    n = sum(parts)
    X, Y = sample_data(t, "reg", n)
    shared = custom()
    stream = source("pair_loader", parts, X, Y)
    fns = [lin_setup, lin_pred_mean, lin_pred_std]
    pa = {"prior_prec": 0.6}
    obs = []
    for i in range(depth):
        op = c.choose(f"op{i}", OPS)
        kw = dict(metrics=shared, num_samples=6, sample_key=jax.random.key(5))
        met, r, y, red = "list", reference("reg", "full", "linear", "none", 6, 5, n), Y, "default"
        data, args = stream, (pf, t.model_fn, t.params)
        if op == "array":
            data, red = (jnp.asarray(X), jnp.asarray(Y)), "mean0"
        elif op == "stream_again":
            kw["pushforward_fns"], red = fns, "last"
        elif op == "default":
            kw.pop("metrics")
            met = "none"
        elif op == "classification":
            tc, _, pc = setup("cls")
            xc, y = sample_data(tc, "cls", n)
            args, met, r = (pc, tc.model_fn, tc.params), "classification", reference("cls", "full", "linear", "mean_field_0", 6, 5, n)
            kw.update(metrics="classification", predictive_type="mean_field_0")
            data = source("pair_generator", parts, xc, y)
        elif op == "nonlinear":
            kw.update(pushforward_type="nonlinear")
            r = reference("reg", "full", "nonlinear", "none", 6, 5, n)
        if red != "default":
            kw["reduce"] = REDUCE[red][0]
        res, _ = evaluation(*args, pa, data, **kw)
        compare(res, expected(met, r, y, red), f"evaluation {i} ({op})")
        if len(shared) != 3 or len(fns) != 3 or len(lm.DEFAULT_REGRESSION_METRICS) != 1 or pa != {"prior_prec": 0.6}:
            fail(f"after {op}: shared metric list / function list / default metrics / prior arguments changed")
        obs.append((op, float(np.sum(A(res[sorted(res)[0]])))))
    return obs


# ----------------------------------------------------------------- laplace -> evaluation
def plan_chain(c):
    kind = c.choose("kind", ["full", "diagonal"])
    task = c.choose("task", ["reg", "cls"])
    push = c.choose("pushforward", ["linear", "nonlinear"])
    pred = c.choose("predictive", PRED)
    pa = c.choose("prior", [{"prior_prec": 0.3}, {"prior_prec": 4.0, "sigma_squared": 2.0}])
    how = c.choose("source", ["tuple", "pair_generator"])
    if (task == "reg") != (pred == "none") or push == "nonlinear" and pred not in ("none", "mc_bridge"):
        raise Skip
    return kind, task, push, pred, pa, how


def check_chain(cfg):
    kind, task, push, pred, pa, how = cfg
    t, _, _ = setup(task)
    loss = "cross_entropy" if task == "cls" else "mse"
    X, Y = sample_data(t, task, 3)
    G = ref_ggn(t, loss, X, Y)
    pf, est = laplace(t.model_fn, t.params, (jnp.asarray(X), jnp.asarray(Y)), loss_fn=loss, curv_type=kind)
    met = "classification" if task == "cls" else "regression"
    res, prob = evaluation(pf, t.model_fn, t.params, dict(pa), source(how, (2, 1), X, Y), metrics=met, predictive_type=pred, pushforward_type=push, num_samples=6, sample_key=jax.random.key(5))
    G = np.diag(np.diag(G)) if kind == "diagonal" else G
    s2 = pa.get("sigma_squared", 1.0)
    ref = Ref(t, s2 * G, lambda p: pf({**pa, "prior_prec": p["prior_prec"]}), push, pred, 6, jax.random.key(5))
    r = ref.predict(X, [pa["prior_prec"]])[0]
    compare(res, expected(met, r, Y, "default"), f"laplace+evaluation {cfg}")
    return [float(np.sum(A(v))) for _, v in sorted(res.items())]


# ----------------------------------------------------------------- many samples, many batches
def plan_large(c):
    task = c.choose("task", ["reg", "cls"])
    push = c.choose("pushforward", ["linear", "nonlinear"])
    pred = c.choose("predictive", PRED)
    n = c.choose("n", [41, 130])
    how = c.choose("source", ["tuple", "dict", "pair_generator", "pair_loader"])
    lay = c.choose("layout", list(LAYOUTS)) if "_" in how else "one"
    ns = c.choose("num_samples", [6, 70])
    tau = c.choose("prior_prec", [0.6, 50.0, 1e-2])
    red = c.choose("reduce", ["default", "order"])
    met = {"reg": ["list", "none"], "cls": ["classification"]}[task]
    met = c.choose("metrics", met)
    if (task == "reg") != (pred == "none") or push == "nonlinear" and pred not in ("none", "mc_bridge") or ns == 70 and push == "linear" and pred != "mc_bridge":
        raise Skip
    if (n != 41) + (lay not in ("one", "tail")) + (ns != 6) + (tau != 0.6) + (red != "default") + (met == "none") > 1 or pred.startswith("mean_field") and (lay != "one" or tau != 0.6):
        raise Skip
    return task, push, pred, n, how, lay, ns, tau, red, met


def check_large(cfg):
    task, push, pred, n, how, lay, ns, tau, red, met = cfg
    t, C, pf = setup(task)
    X = t.xs(n, 4)
    Y = np.array([(i * 7 + i // 5) % 3 for i in range(n)]) if task == "cls" else np.stack([t.np_out(x) for x in X]) + vals(n * t.k, 6).reshape(n, t.k)
    kw = {} if met == "none" else {"metrics": metrics_arg(met)}
    if red != "default":
        kw["reduce"] = REDUCE[red][0]
    res, prob = evaluation(pf, t.model_fn, t.params, {"prior_prec": tau}, source(how, LAYOUTS[lay](n), X, Y), predictive_type=pred, pushforward_type=push, num_samples=ns, sample_key=jax.random.key(5), **kw)
    k = ("large", task, push, pred, n, ns, tau)
    if k not in _R:
        _R[k] = Ref(t, C, pf, push, pred, ns, jax.random.key(5)).predict(X, [tau])[0]
    compare(res, expected(met, _R[k], Y, red), f"evaluation {cfg}")
    out = prob(jnp.asarray(X[-1]))
    for e, v in _R[k].items():
        close(out[e], v[-1], f"evaluation {cfg}: {e} of the returned predictive", rtol=1e-6, atol=1e-8)
    return [float(np.sum(A(v))) for _, v in sorted(res.items())]


# ----------------------------------------------------------------- unsupported
def bad():
    t, C, pf = setup("reg")
    X, Y = sample_data(t, "reg", 2)
    X, Y = jnp.asarray(X), jnp.asarray(Y)
    cases = {f"nonlinear/{p}": dict(pushforward_type="nonlinear", predictive_type=p) for p in PRED if p not in ("none", "mc_bridge")}
    cases.update({
        "unknown metrics": dict(metrics="nonsense"), "no metrics": dict(metrics=[]), "empty tuple of metrics": dict(metrics=()), "number as metrics": dict(metrics=3), "None as metrics": dict(metrics=None),
        "unknown predictive": dict(predictive_type="nonsense"), "unknown pushforward": dict(pushforward_type="nonsense"),
        "triple": dict(data=(X, Y, X)), "single": dict(data=(X,)), "dict without target": dict(data={"input": X}), "dict without input": dict(data={"target": Y, "x": X}), "no data": dict(data=None), "number": dict(data=2.0),
        "empty stream": dict(data=Loader([])), "empty generator": dict(data=(x for x in [])), "stream of triples": dict(data=Loader([(X, Y, X)])), "stream of arrays": dict(data=Loader([X])), "stream of bad dicts": dict(data=(d for d in [{"target": Y}])),
    })
    return t, pf, (X, Y), cases


def plan_bad(c):
    return c.choose("case", list(bad()[3]))


def check_bad(which):
    t, pf, data, cases = bad()
    kw = dict(cases[which])
    data = kw.pop("data", data)
    try:
        evaluation(pf, t.model_fn, t.params, {"prior_prec": 1.0}, data, **kw)
    except ValueError as e:
        if not str(e).strip():
            fail(f"{which}: error without a message")
        return "ValueError"
    except Exception as e:
        fail(f"{which}: expected a ValueError naming the problem, got {type(e).__name__}: {str(e)[:200]}")
    fail(f"{which}: accepted")


def scenarios(tier):
    q = tier == "quick"
    return [Enum("evaluation", plan(3 if q else 4, 1 if q else 2), check), Dyn("histories", body_history, [(2 if q else 3, p) for p in [(3,), (2, 1)]]), Enum("laplace", plan_chain, check_chain), Enum("large", plan_large, check_large), Enum("unsupported", plan_bad, check_bad)]
