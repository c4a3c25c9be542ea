"""C12 registry of curvature methods: every registration history against a reference registry."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import calibration, laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.diagonal import (create_diagonal_curvature, diagonal_curvature_to_precision, diagonal_posterior_state_to_cov,
                                  diagonal_posterior_state_to_scale, diagonal_prec_to_posterior_state)
from laplax.curv.full import (create_full_curvature, full_curvature_to_precision, full_posterior_state_to_cov,
                              full_posterior_state_to_scale, full_prec_to_posterior_state)
from laplax.curv.low_rank import (create_low_rank_curvature, low_rank_curvature_to_precision, low_rank_posterior_state_to_cov,
                                  low_rank_posterior_state_to_scale, low_rank_prec_to_posterior_state)
from laplax.enums import CurvApprox
from laplax.eval.likelihood import (diagonal_marginal_log_likelihood, full_marginal_log_likelihood,
                                    low_rank_marginal_log_likelihood, marginal_log_likelihood)
from laplax.register import register_curvature_method
from mc.core import Dyn, Enum, Skip
from mc.lib import A, close, fail, sym, vals

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of registration histories on the real registry against a reference registry (which function each method must use), observed through every entry point"
RULE = "every (subset of supplied functions, default) registration and every history of registrations up to the depth; after each step every registered and built-in method is used and compared with the reference registry"
BOUNDS = {
    "quick": "all 64 subsets x defaults {none, 4 built-ins, string, unknown}; histories of depth 2 over a 22-operation menu on two names (incl. re-registration, chained defaults, rejected registrations); 40 methods at once, independent or chained",
    "thorough": "histories of depth 3",
}

ROLES = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn", "posterior_state_to_scale_fn",
         "posterior_state_to_cov_fn", "marginal_log_likelihood_fn"]
N = 3
Cm = sym(N, 2) @ sym(N, 2) + np.eye(N)
FULL = [create_full_curvature, full_curvature_to_precision, full_prec_to_posterior_state, full_posterior_state_to_scale,
        full_posterior_state_to_cov, full_marginal_log_likelihood]
DIAG = [create_diagonal_curvature, diagonal_curvature_to_precision, diagonal_prec_to_posterior_state,
        diagonal_posterior_state_to_scale, diagonal_posterior_state_to_cov, diagonal_marginal_log_likelihood]
LOWR = [lambda m, layout, **k: create_low_rank_curvature(m, layout=layout, **{"key": jax.random.key(1), "rank": N, **k}), low_rank_curvature_to_precision,
        low_rank_prec_to_posterior_state, low_rank_posterior_state_to_scale, low_rank_posterior_state_to_cov,
        low_rank_marginal_log_likelihood]
BASE = {"full": FULL, "diagonal": DIAG, "lanczos": LOWR, "lobpcg": LOWR}
BUILTINS = ["full", "diagonal", "lanczos"]  # lobpcg needs bigger operators; its table entries are used as defaults

LOG = []
_count = itertools.count()


def tagged(kind, role, tag):
    """A custom function: the built-in computation of `kind`, logging its tag."""
    fn = BASE[kind][role]

    def f(*a, **k):
        LOG.append((tag, role))
        return fn(*a, **k)

    return f


class Ref:
    """Reference registry: name -> (representation kind, per role tag or None)."""

    def __init__(self):
        self.t = {k: (k, [None] * 6) for k in BASE}

    def register(self, name, mask, default, kind, tag):
        supplied = [bool(mask >> r & 1) for r in range(6)]
        if default is None and not all(supplied):
            return "error"
        if default is not None and str(default) not in self.t:
            return "error" if not all(supplied) else "free"
        base = self.t[str(default)][1] if default is not None else [None] * 6
        self.t[name] = (kind, [tag if s else b for s, b in zip(supplied, base)])
        return "ok"


PARAMS = {"w": vals(2, 1), "b": np.float64(0.3)}
DATA = {"input": vals(6, 4).reshape(3, 2), "target": vals(3, 5).reshape(3, 1)}


def jx(t):
    return jax.tree.map(jnp.asarray, t)


def model(input, params):
    return jnp.tanh(params["w"] @ input + params["b"])[None]


def mv(v):
    return jnp.asarray(Cm) @ v


PRIOR = {"prior_prec": 0.7, "sigma_squared": 1.3}
_expect = {}


def numeric(kind):
    """Expected covariance for a representation kind and expected mll."""
    if kind not in _expect:
        M = np.diag(np.diag(Cm)) if kind == "diagonal" else Cm
        _expect[kind] = np.linalg.inv(1.3 * M + 0.7 * np.eye(N))
    return _expect[kind]


def loglik_joint():
    loss = float(sum((np.tanh(np.asarray(PARAMS["w"]) @ x + 0.3) - t[0]) ** 2 for x, t in zip(A(DATA["input"]), A(DATA["target"]))))
    sq = float(np.sum(np.square(PARAMS["w"])) + 0.3**2)
    return -0.5 * loss - 0.5 * 0.7 * sq - 1.5 * (np.log(2 * np.pi) - np.log(0.7))


def observe(name, kind, tags, entry):
    """Use method `name`; check functions called and numbers produced."""
    what = f"method {name!r} (representation {kind}, entry {entry})"
    kw = {"key": jax.random.key(1), "rank": N} if kind in ("lanczos", "lobpcg") and tags[0] is None else {}
    want = numeric(kind)

    def stage(roles):
        exp = sorted((tags[r], r) for r in roles if tags[r] is not None)
        got = sorted(set(LOG))
        if got != exp:
            fail(f"{what}: custom functions used {got}, expected {exp} among roles {[ROLES[r] for r in roles]}", "functions")
        LOG.clear()

    LOG.clear()
    if kind == "lobpcg" and tags[0] is None:
        est = BASE["lanczos"][0](mv, layout=N)  # too small for LOBPCG itself
    elif entry == "create":
        pf = create_posterior_fn(name, mv, layout=N, **kw)
        stage([0])
        est = None
    else:
        est = estimate_curvature(name, mv, layout=N, **kw)
        stage([0])
    if est is not None:
        pf = set_posterior_fn(name, est, layout=N)
    post = pf(PRIOR)
    stage([1, 2])
    cov = jax.vmap(post.cov_mv(post.state))(jnp.eye(N))
    stage([4])
    S = jax.vmap(post.scale_mv(post.state), out_axes=1)(jnp.eye(N))
    stage([3])
    close(cov, want, f"{what} covariance", rtol=1e-6)
    close(A(S) @ A(S).T, want, f"{what} scale", rtol=1e-6)
    if est is not None:
        m = marginal_log_likelihood(est, PRIOR, jx(DATA), model, jx(PARAMS), "mse", name, vmap_over_data=True)
        stage([1, 5])
        H = np.linalg.inv(want)
        close(m, loglik_joint() + 1.5 * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(H)[1], f"{what} marginal log-likelihood", rtol=1e-6)
    return float(cov[0, 0])


def observe_api(name, kind, tags):
    what = f"method {name!r} through the high-level interface"
    kw = {"key": jax.random.key(1), "rank": N} if kind in ("lanczos", "lobpcg") and tags[0] is None else {}
    if kind == "lobpcg" and tags[0] is None:
        return None
    LOG.clear()
    pf, est = laplace(model, jx(PARAMS), jx(DATA), loss_fn="mse", curv_type=name, **kw)
    used = {r for t, r in LOG}
    if used != {0} & {r for r in range(6) if tags[r]} or any(t != tags[r] for t, r in LOG):
        fail(f"{what}: laplace() used {LOG}, registered {tags}", "functions")
    LOG.clear()
    prior, _ = calibration(pf, model, jx(PARAMS), jx(DATA), loss_fn="mse", curv_estimate=est, curv_type=name,
                           calibration_objective="marginal_log_likelihood", grid_size=2)
    exp = sorted((tags[r], r) for r in (1, 5) if tags[r] is not None)
    if sorted(set(LOG)) != exp:
        fail(f"{what}: calibration() used {sorted(set(LOG))}, expected {exp}", "functions")
    LOG.clear()
    if float(prior["prior_prec"]) not in [float(x) for x in jnp.logspace(-3, 3, 2)]:
        fail(f"{what}: calibration returned {prior}")
    return float(prior["prior_prec"])


def do_register(ref, name, mask, default, kind, tag):
    """Register on both; compare acceptance."""
    fns = {ROLES[r]: tagged(kind, r, tag) for r in range(6) if mask >> r & 1}
    before = ref.t.get(name)
    want = ref.register(name, mask, default, kind, tag)
    try:
        register_curvature_method(name, default=default, **fns)
        got = "ok"
    except Exception as e:  # noqa: BLE001
        got = "error"
        if want == "error" and default is None and not isinstance(e, ValueError):
            fail(f"registration lacking functions and default raised {type(e).__name__}: {e}", "rejection")
    if want == "free":
        raise Skip
    if got != want:
        fail(f"registration of {name} with functions {sorted(fns)} and default {default}: {got}, expected {want}", "rejection")
    if want == "error" and before is None:
        try:
            estimate_curvature(name, mv, layout=N)
        except Exception:  # noqa: BLE001
            pass
        else:
            fail(f"rejected registration of {name} left a usable method", "atomic")
    return got


# ---------------------------------------------------------------- single registrations
def plan_single(c):
    default = c.choose("default", [None, CurvApprox.FULL, CurvApprox.DIAGONAL, CurvApprox.LANCZOS, CurvApprox.LOBPCG, "full", "diagonal", "no_such_method"])
    mask = c.choose("supplied", range(64))
    kind = c.choose("kind", ["full", "diagonal", "lanczos"]) if default is None else str(default)
    if default is None and mask != 63 and kind != "full":
        raise Skip
    if default == "no_such_method":
        if mask == 63:
            raise Skip
        kind = "full"
    name = c.choose("name", ["plain", "Mixed-Case"]) if mask in (0, 1, 63) else "plain"
    return default, mask, kind, name


def check_single(cfg):
    default, mask, kind, name = cfg
    name = f"{name}{next(_count)}"
    ref = Ref()
    st = do_register(ref, name, mask, default, kind, "t")
    obs = [st]
    for entry in ("estimate", "create"):
        if st == "ok":
            obs.append(observe(name, *ref.t[name], entry))
    if st == "ok" and mask in (0, 1, 2, 8, 32, 62, 63):
        obs.append(observe_api(name, *ref.t[name]))
    for b in BUILTINS:
        obs.append(observe(b, *ref.t[b], "estimate"))
    return obs


# ---------------------------------------------------------------- histories
def menu(names):
    a, b = names
    out = []
    for n, o in ((a, b), (b, a)):
        for mask, default, kind in [
            (63, None, "full"), (63, None, "diagonal"), (0, "full", None), (0, CurvApprox.DIAGONAL, None),
            (0b000010, CurvApprox.FULL, None), (0b111001, CurvApprox.DIAGONAL, None), (0b010100, CurvApprox.LANCZOS, None),
            (0b000100, o, None), (0b101011, n, None), (0b011111, None, "full"), (0b000001, "unknown", None),
        ]:
            out.append((n, mask, default, kind))
    return out


def body(c, param):
    first, depth = param
    i = next(_count)
    names = (f"hist{i}_a", f"hist{i}_b")
    ref = Ref()
    ops = menu(names)
    obs = []
    for d in range(depth):
        name, mask, default, kind = ops[first] if d == 0 else ops[c.choose(f"op{d}", range(len(ops)))]
        if kind is None:
            kind = ref.t[str(default)][0] if default is not None and str(default) in ref.t else "full"
        obs.append(do_register(ref, name, mask, default, kind, f"t{d}"))
        for n in names:
            if n in ref.t:
                obs.append(round(observe(n, *ref.t[n], "estimate"), 6))
    for b in BUILTINS:
        obs.append(observe(b, *ref.t[b], "estimate"))
    return obs


def plan_many(c):
    return c.choose("methods", [40]), c.choose("order", ["same", "reverse"]), c.choose("chain", [False, True])


def check_many(cfg):
    """many methods in the registry at once, each with its own functions (or chained defaults); all keep working."""
    n, order, chain = cfg
    i, ref, obs = next(_count), Ref(), []
    names = [f"many{i}_{j}" for j in range(n)]
    for j, name in enumerate(names):
        mask = (j * 23 + 5) % 64
        kind = ["full", "diagonal"][j % 2] if not chain else "full"
        default = names[j - 1] if chain and j else kind
        do_register(ref, name, mask, default, kind, f"t{j}")
    for name in names if order == "same" else names[::-1]:
        obs.append(observe(name, *ref.t[name], "estimate" if len(obs) % 3 else "create"))
    for b in BUILTINS:
        obs.append(observe(b, *ref.t[b], "estimate"))
    return obs


def scenarios(tier):
    q = tier == "quick"
    return [
        Enum("single", plan_single, check_single),
        Enum("many", plan_many, check_many),
        Dyn("histories", body, [(i, 2 if q else 3) for i in range(22)]),
    ]
