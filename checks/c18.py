"""C18 weight samples: mean + scale(noise of the i-th sub-key); precomputed == on the fly."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from checks.c15 import MODELS, estimate
from laplax.curv.cov import set_posterior_fn
from laplax.eval.pushforward import get_dist_state, set_get_weight_sample
from laplax.util.ops import precompute_list, str_to_bool
from laplax.util.tree import randn_like
from mc.core import Dyn, Enum, Skip
from mc.lib import A, Toy, build, close, equal, fail, raises, to_flat, tree_close, vals

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of sampler configurations and of index-access histories (all index sequences to a depth, in every execution mode) against a reference sampler"
RULE = "every curvature kind x tree layout x key x sample count x precompute option x batch size; and every sequence of index accesses x access mode to the depth on one sampler"
BOUNDS = {
    "quick": "6 parameter trees, 3 curvature kinds, 3 keys, 1..4 samples, 8 option forms; access histories of length 3 over 3 indices x {eager, jit} and of length 2 over {eager, array index, vmap}",
    "thorough": "1..6 samples, access histories of length 4 / 3",
}
OPTS = {
    "default": {},
    "precompute": {"precompute": True},
    "lazy": {"precompute": False},
    "set_lazy": {"set_get_weight_sample_precompute": False},
    "set_precompute": {"set_get_weight_sample_precompute": True},
    "both": {"set_get_weight_sample_precompute": True, "precompute": False},
    "batched1": {"precompute_list_batch_size": 1},
    "batched3": {"precompute_list_batch_size": 3, "precompute": True},
    "none": {"precompute": None, "unrelated": 3},
}


def reference(key, n, post, params):
    """Flat samples mean + S eps_i."""
    keys = jax.random.split(key, n)
    P = to_flat(params).size
    out = []
    smv = post.scale_mv(post.state)
    zero = jax.tree.map(jnp.zeros_like, params)
    # dense scale, from products with tree basis vectors
    leaves_, tdef = jax.tree.flatten(zero)
    cols = []
    for j in range(P):
        pos, ls = 0, []
        for l in leaves_:
            v = np.zeros(l.size)
            if pos <= j < pos + l.size:
                v[j - pos] = 1.0
            pos += l.size
            ls.append(jnp.asarray(v.reshape(l.shape)))
        cols.append(to_flat(smv(jax.tree.unflatten(tdef, ls))))
    S = np.stack(cols, 1)
    mean = to_flat(params)
    for i in range(n):
        out.append(mean + S @ to_flat(randn_like(keys[i], params)))
    return np.stack(out)


def get_key(k):
    return {"none": None, "typed": jax.random.key(4), "raw": jax.random.PRNGKey(9)}[k]


def plan(nmax):
    def plan_(c):
        m = c.choose("tree", list(MODELS))
        kind = c.choose("kind", ["full", "diagonal", "lowrank"])
        key = c.choose("key", ["none", "typed", "raw"])
        n = c.choose("samples", range(1, nmax + 1))
        o = c.choose("options", list(OPTS))
        via = c.choose("via", ["direct", "linear", "nonlinear"]) if n == 3 else "direct"
        if key == "raw" and n != 2 or key != "typed" and o not in ("default", "lazy"):
            raise Skip
        if kind != "full" and o not in ("default", "lazy", "batched3"):
            raise Skip
        if via != "direct" and (kind == "diagonal" or o not in ("default", "precompute", "set_lazy", "batched3")):
            raise Skip
        if n == 1 and kind == "diagonal":
            raise Skip
        return m, kind, key, n, o, via

    return plan_


def check(cfg):
    m, kind, key, n, o, via = cfg
    toy = Toy(m, *MODELS[m])
    C, ct, est = estimate(kind, toy.P, 2)
    post = set_posterior_fn(ct, est, layout=toy.params)({"prior_prec": 0.8})
    kk = get_key(key)
    mean = toy.params if via != "linear" else jax.tree.map(jnp.zeros_like, toy.params)
    want = reference(jax.random.key(0) if kk is None else kk, n, post, mean)

    def make(key):
        if via == "direct":
            return set_get_weight_sample(key, mean, post.scale_mv(post.state), n, **OPTS[o])
        ds = get_dist_state(toy.params, toy.model_fn, post, linearized=via == "linear", num_samples=n, key=key, **OPTS[o])
        return ds["get_weight_samples"]

    get = make(kk)
    rows = []
    for i in range(n):
        s = get(i)
        tree_close(s, toy.tree(want[i]), f"sample {i} of {n} ({kind}, options {o}, via {via})", rtol=1e-9, atol=1e-11)
        rows.append(to_flat(s))
    traced = A(jax.lax.map(lambda i: jnp.concatenate([x.reshape(-1) for x in jax.tree.leaves(get(i))]), jnp.arange(n)))
    close(traced, want, f"traced samples ({o})", rtol=1e-9, atol=1e-11)
    again = make(kk)
    other = make(jax.random.key(77))
    for i in range(n):
        equal(to_flat(again(i)), rows[i], "same key and index again")
        for j in range(i):
            if np.allclose(rows[i], rows[j]):
                fail("two indices share a draw")
        if np.allclose(to_flat(other(i)), rows[i]):
            fail("two keys share a draw")
    return np.asarray(rows)


# ------------------------------------------------------------- many samples, large trees, extreme scales
def plan_extreme(c):
    m = c.choose("tree", [("linear", 2, 2), ("shaped", 4, (20,)), ("scalarout", 40, 1), ("bare", 3, 3), ("deep", 2, 2)])
    kind = c.choose("kind", ["full", "diagonal", "lowrank"])
    tau = c.choose("prior_prec", [0.8, 1e-6, 1e6, 3])
    n = c.choose("samples", [1, 2, 9, 130, 300])
    o = c.choose("options", ["default", "lazy", "batched3"] if n > 1 else ["default", "lazy"])
    via = c.choose("via", ["direct", "linear", "nonlinear"])
    key = c.choose("key", ["none", "typed", "raw"] if via == "direct" and tau == 0.8 else ["typed"])
    if kind != "full" and (n == 9 or via == "nonlinear") or tau != 0.8 and (n in (2, 9, 300) or o == "batched3"):
        raise Skip
    if m[0] == "deep" and (kind == "lowrank" or tau != 0.8 or n not in (1, 9, 130) or o != "default" or key != "typed" or via == "nonlinear"):
        raise Skip
    return m, kind, tau, n, o, via, key


def check_extreme(cfg):
    m, kind, tau, n, o, via, key = cfg
    toy = Toy(*m)
    C, ct, est = estimate(kind, toy.P, 2)
    post = set_posterior_fn(ct, est, layout=toy.params)({"prior_prec": tau})
    kk = get_key(key)
    mean = toy.params if via != "linear" else jax.tree.map(jnp.zeros_like, toy.params)
    keys = jax.random.split(jax.random.key(0) if kk is None else kk, n)
    flat = lambda t: jnp.concatenate([jnp.reshape(x, -1) for x in jax.tree.leaves(t)])  # noqa: E731
    eps = A(jax.jit(jax.vmap(lambda k: flat(randn_like(k, toy.params))))(keys))
    if len(np.unique(eps)) != eps.size:
        fail(f"{m}, {n} samples: entries of the noise share a draw")
    if n == 300 and (np.abs(eps.mean(0)).max() > 6 / np.sqrt(n) or np.abs(eps.T @ eps / n - np.eye(toy.P)).max() > 9 / np.sqrt(n)):
        fail(f"{m}, {n} samples: the noise is not standard normal: mean {np.abs(eps.mean(0)).max()}, covariance off by {np.abs(eps.T @ eps / n - np.eye(toy.P)).max()}")
    S = A(jax.jit(jax.vmap(lambda e: flat(post.scale_mv(post.state)(from_flat_j(toy.spec, e))), out_axes=1))(jnp.eye(toy.P)))
    want = to_flat(mean) + eps @ S.T
    if via == "direct":
        get = set_get_weight_sample(kk, mean, post.scale_mv(post.state), n, **OPTS[o])
    else:
        get = get_dist_state(toy.params, toy.model_fn, post, linearized=via == "linear", num_samples=n, key=kk, **OPTS[o])["get_weight_samples"]
    got = A(jax.lax.map(lambda i: flat(get(i)), jnp.arange(n)))
    what = f"{m}/{kind} prior_prec={tau} {n} samples, options {o}, via {via}, key {key}"
    at = 1e-9 * np.abs(eps @ S.T).max()
    close(got, want, what, rtol=1e-11, atol=at)
    for i in sorted({0, n // 2, n - 1}):
        s = get(i)
        tree_close(s, toy.tree(want[i]), f"sample {i}: {what}", rtol=1e-11, atol=at)
    if len(np.unique(np.round((got - to_flat(mean)) / np.abs(S).max(), 9), axis=0)) != n:
        fail(f"{what}: two indices share a draw")
    return got[:, 0]


def from_flat_j(spec, v):
    pos = [0]

    def mk(i, l):
        k = int(np.prod(l.shape))
        o = v[pos[0] : pos[0] + k].reshape(l.shape)
        pos[0] += k
        return o

    return build(spec, mk)


# ------------------------------------------------------------- access histories
def access(get, mode, i):
    if mode == "int":
        return get(i)
    if mode == "array":
        return get(jnp.asarray(i))
    if mode == "jit":
        return jax.jit(get)(i)
    return jax.tree.map(lambda x: x[1], jax.vmap(get)(jnp.asarray([0, i])))


_SETUP = {}


def setup(kind):
    if kind not in _SETUP:
        toy = Toy("linear", 2, 2)
        C, ct, est = estimate(kind, toy.P, 2)
        post = set_posterior_fn(ct, est, layout=toy.params)({"prior_prec": 0.8})
        _SETUP[kind] = toy, post, reference(jax.random.key(4), 3, post, toy.params)
    return _SETUP[kind]


def body(c, param):
    opt, kind, depth, modes, first = param
    toy, post, want = setup(kind)
    get = set_get_weight_sample(jax.random.key(4), toy.params, post.scale_mv(post.state), 3, **OPTS[opt])
    obs = []
    for d in range(depth):
        i, mode = first if d == 0 else c.choose(f"access{d}", [(i, m) for i in range(3) for m in modes])
        s = access(get, mode, i)
        close(to_flat(s), want[i], f"access {d} (index {i}, {mode}, options {opt})", rtol=1e-9, atol=1e-11)
        obs.append(float(to_flat(s)[0]))
    return obs


# ------------------------------------------------------------- precompute_list
def plan_list(c):
    return (c.choose("length", range(1, 6)), c.choose("precompute", [None, True, False]), c.choose("batch", [None, 1, 2, 3, 5]),
            c.choose("out", ["array", "tree", "scalar"]))


def check_list(cfg):
    n, pre, bs, out = cfg
    calls = []

    def fn(i):
        calls.append(1)
        a = jnp.stack([i * 2.0, i + 1.0])
        return {"array": a, "tree": {"x": a, "y": (i * i,)}, "scalar": i * 3}[out]

    kw = {} if bs is None else {"precompute_list_batch_size": bs}
    get = precompute_list(fn, jnp.arange(n), precompute=pre, **kw)
    built = len(calls)
    obs = []
    for i in list(range(n)) + list(range(n - 1, -1, -1)):
        r = get(i)
        w = {"array": [i * 2.0, i + 1.0], "tree": None, "scalar": i * 3}[out]
        if out == "tree":
            tree_close(r, {"x": np.array([i * 2.0, i + 1.0]), "y": (np.array(i * i),)}, f"element {i}")
        else:
            close(r, w, f"element {i} of {n} precompute={pre}")
        obs.append(str(r))
    if pre is False and built:
        fail("function evaluated although precomputation is off")
    if pre is not False and len(calls) != built:
        fail("function evaluated again although precomputed")
    obs.append([str_to_bool("True"), str_to_bool("False"), raises(ValueError, lambda: str_to_bool("yes"), "str_to_bool")])
    if obs[-1][:2] != [True, False]:
        fail("str_to_bool")
    return obs


def scenarios(tier):
    q = tier == "quick"
    hist = [(o, "full", n, modes, (i, m)) for o in ("default", "lazy") for n, modes in ((3 if q else 4, ("int", "jit")), (2 if q else 3, ("array", "vmap", "int")))
            for i in range(3) for m in modes]
    return [Enum("extremes", plan_extreme, check_extreme), Enum("samples", plan(4 if q else 6), check), Dyn("access", body, hist), Enum("precompute_list", plan_list, check_list)]
