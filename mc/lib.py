"""Boring numpy / pure-Python reference models shared by the checks."""

from __future__ import annotations

import itertools
import math

import numpy as np

from mc.core import Skip, Violation  # noqa: F401


# --------------------------------------------------------------- comparisons
def A(x):
    return np.asarray(x)


def fail(msg, sig=None):
    raise Violation(msg, sig)


FLOOR = 0.0  # least relative tolerance (also relative to the largest entry); raised for single precision


def close(got, want, what, rtol=1e-7, atol=1e-8, sig=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} != expected {w.shape}", sig)
    if g.dtype == object or w.dtype == object:
        raise Violation(f"{what}: non-array", sig)
    if FLOOR:
        big = np.abs(w[np.isfinite(w)]) if w.size else w
        rtol, atol = max(rtol, FLOOR), max(atol, FLOOR * float(big.max()) if big.size else 0.0)
    ok = np.isclose(g.astype(np.complex128), w.astype(np.complex128), rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(bad[0]) if bad.size else ()
        raise Violation(
            f"{what}: got {g[i] if i else g} expected {w[i] if i else w} at {i} "
            f"({(~ok).sum()}/{ok.size} entries differ)\n got={g.tolist() if g.size < 40 else '...'}\n want={w.tolist() if w.size < 40 else '...'}",
            sig,
        )
    return g


def equal(got, want, what, sig=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f"):
        raise Violation(f"{what}: got {g.tolist()} expected {w.tolist()}", sig)
    return g


def raises(exc, fn, what, sig=None):
    try:
        r = fn()
    except exc as e:
        return type(e).__name__
    except Exception as e:
        raise Violation(f"{what}: expected {exc} but got {type(e).__name__}: {str(e)[:300]}", sig)
    raise Violation(f"{what}: expected {exc} to be raised, got result of type {type(r).__name__}", sig)


# --------------------------------------------------------------- tree specs
# A spec is a nested structure of dict/list/tuple/None whose leaves are L(shape).
class L:
    def __init__(self, *shape):
        self.shape = tuple(shape)

    def __repr__(self):
        return f"L{self.shape}"


def leaves(tree, is_leaf=None):
    """Leaves in the documented traversal order: dict keys sorted, sequences in order."""
    if tree is None:
        return []
    if isinstance(tree, dict):
        return [x for k in sorted(tree) for x in leaves(tree[k])]
    if isinstance(tree, (list, tuple)):
        return [x for c in tree for x in leaves(c)]
    return [tree]


def build(spec, make):
    """Map make(index, L) over leaves in traversal order, preserving structure."""
    it = itertools.count()

    def go(s):
        if s is None:
            return None
        if isinstance(s, dict):
            done = {k: go(s[k]) for k in sorted(s)}
            return {k: done[k] for k in s}  # keep insertion order of spec
        if isinstance(s, list):
            return [go(c) for c in s]
        if isinstance(s, tuple):
            return tuple(go(c) for c in s)
        return make(next(it), s)

    return go(spec)


def size(spec):
    return sum(int(np.prod(l.shape)) for l in leaves(spec))


def from_flat(spec, vec, conv=None):
    """Structure with leaves cut out of the flat vector (C order)."""
    vec = np.asarray(vec)
    pos = [0]

    def make(i, l):
        n = int(np.prod(l.shape))
        out = vec[pos[0] : pos[0] + n].reshape(l.shape)
        pos[0] += n
        return conv(out) if conv else out

    return build(spec, make)


def to_flat(tree):
    ls = leaves(tree)
    return np.concatenate([np.asarray(x).reshape(-1) for x in ls]) if ls else np.zeros(0)


def same_structure(a, b):
    """Container-for-container equality of two trees (leaf contents ignored)."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_structure(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_structure(x, y) for x, y in zip(a, b))
    return not isinstance(b, (dict, list, tuple)) and b is not None


def tree_close(got, want, what, **kw):
    if not same_structure(want, got):
        raise Violation(f"{what}: structure differs: got {type(got).__name__} {str(got)[:200]}", kw.get("sig"))
    for i, (g, w) in enumerate(zip(leaves(got), leaves(want))):
        close(g, w, f"{what}[leaf {i}]", **kw)
    return [np.asarray(x) for x in leaves(got)]


# --------------------------------------------------------------- small numbers
def vals(n, seed=0, lo=-1.0, hi=1.0):
    """Deterministic irregular values (quadratic irrational rotation)."""
    k = np.arange(1, n + 1) + 17.0 * seed
    f = np.mod(k * 0.6180339887498949 + 0.37 * seed * seed, 1.0)
    return lo + (hi - lo) * f


def mat(n, m, seed=0):
    return vals(n * m, seed).reshape(n, m)


def sym(n, seed=0):
    B = mat(n, n, seed)
    return B + B.T


def psd(n, rank, seed=0, scale=1.0):
    B = mat(n, rank, seed) if rank else np.zeros((n, 1))
    return scale * (B @ B.T)


def compositions(n):
    """All ordered partitions of n into positive parts."""
    if n == 0:
        return [[]]
    out = []
    for first in range(1, n + 1):
        out += [[first] + rest for rest in compositions(n - first)]
    return out


# --------------------------------------------------------------- calculus
def cjac(f, p):
    """Complex-step Jacobian of a numpy function of a flat real vector."""
    p = np.asarray(p, float)
    f0 = np.asarray(f(p.astype(complex)))
    J = np.zeros((f0.size, p.size))
    h = 1e-30
    for i in range(p.size):
        q = p.astype(complex)
        q[i] += 1j * h
        J[:, i] = np.imag(np.asarray(f(q))).reshape(-1) / h
    return J


def chess(f, p, eps=1e-5):
    """Hessian of a scalar numpy function: central difference of complex-step gradient."""
    p = np.asarray(p, float)
    n = p.size
    H = np.zeros((n, n))
    for i in range(n):
        e = np.zeros(n)
        e[i] = eps
        H[i] = (cjac(f, p + e)[0] - cjac(f, p - e)[0]) / (2 * eps)
    return 0.5 * (H + H.T)


def softmax(z):
    z = np.asarray(z)
    m = np.max(z.real, axis=-1, keepdims=True)
    e = np.exp(z - m)
    return e / np.sum(e, axis=-1, keepdims=True)


def sigmoid(z):
    return 1 / (1 + np.exp(-np.asarray(z)))


def logsumexp(z):
    z = np.asarray(z)
    m = np.max(z.real)
    return m + np.log(np.sum(np.exp(z - m)))


# --------------------------------------------------------------- toy models
# fn(xp, x, p): works with numpy (real or complex) and jax.numpy.
def m_linear(xp, x, p):
    return p["w"] @ x + p["b"]


def m_mlp(xp, x, p):
    h = xp.tanh(p["l1"]["w"] @ x + p["l1"]["b"])
    return p["l2"][0] @ h + p["l2"][1]


def m_scale(xp, x, p):
    """tuple params incl. a scalar leaf, nonlinear in parameters."""
    return p[0] * xp.tanh(p[1] * x) + p[1] * p[1]


def m_bare(xp, x, p):
    """a bare array as parameters."""
    return xp.sin(p @ x)


def m_multi(xp, x, p):
    """matrix-valued output (2, K)."""
    z = p["w"] @ x
    return xp.stack([z + p["b"], xp.tanh(z) * p["b"]])


def m_scalarout(xp, x, p):
    return xp.sum(p["a"] * x) * p["c"]


def m_shaped(xp, x, p):
    """output of any shape."""
    return xp.reshape(xp.tanh(p["w"] @ x), p["b"].shape) * 2.0 + p["b"]


def m_deep(xp, x, p):
    """many leaves of equal shape (names sort as strings: layer10 before layer2)."""
    h = x
    for i in range(12):
        q = p[f"layer{i}"]
        h = xp.tanh(h * q["w"]) + (1 + i / 10) * q["b"] * q["s"]
    return h


def m_offset(xp, x, p):
    """outputs far away from zero with a small spread."""
    return 1e4 * (1.0 + x[0] ** 2) + 1e-2 * m_shaped(xp, x, p)


MODELS = {
    "linear": (m_linear, lambda d, k: {"w": L(k, d), "b": L(k)}),
    "mlp": (m_mlp, lambda d, k: {"l1": {"w": L(2, d), "b": L(2)}, "l2": [L(k, 2), L(k)]}),
    "scale": (m_scale, lambda d, k: (L(), L(d))),
    "bare": (m_bare, lambda d, k: L(k, d)),
    "multi": (m_multi, lambda d, k: {"w": L(k, d), "b": L(k)}),
    "scalarout": (m_scalarout, lambda d, k: {"a": L(d), "c": L()}),
}

# models with an output of any shape (a tuple), used in selected scenarios only
SHAPED = {
    "shaped": (m_shaped, lambda d, k: {"w": L(int(np.prod(k)), d), "b": L(*k)}),
    "deep": (m_deep, lambda d, k: {f"layer{i}": {"w": L(d), "b": L(d), "s": L()} for i in range(12)}),
    "offset": (m_offset, lambda d, k: {"w": L(int(np.prod(k)), d), "b": L(*k)}),
}


class Toy:
    """A toy model with jax and numpy views, deterministic parameters and data."""

    def __init__(self, name, d=2, k=2, seed=0, pscale=0.8):
        import jax.numpy as jnp

        self.name = name
        self.fn, mk = {**MODELS, **SHAPED}[name]
        self.spec = mk(d, k)
        self.d, self.k = d, k
        self.P = size(self.spec)
        self.flat = vals(self.P, seed + 3) * pscale
        self.params = from_flat(self.spec, self.flat, jnp.asarray)
        self.xp = jnp

    def model_fn(self, input, params):
        return self.fn(self.xp, input, params)

    def np_out(self, x, flat=None):
        flat = self.flat if flat is None else flat
        return np.asarray(self.fn(np, np.asarray(x), from_flat(self.spec, flat)))

    def jac(self, x, flat=None):
        """(out_size, P)"""
        return cjac(lambda q: self.np_out(x, q), self.flat if flat is None else flat)

    def tree(self, vec):
        import jax.numpy as jnp

        return from_flat(self.spec, vec, jnp.asarray)

    def xs(self, n, seed=0):
        return vals(n * self.d, seed + 11).reshape(n, self.d) * 1.5


# --------------------------------------------------------------- distributions
def norm_pdf(z):
    return np.exp(-0.5 * np.square(z)) / math.sqrt(2 * math.pi)


def norm_cdf(z):
    return 0.5 * (1 + np.vectorize(math.erf)(np.asarray(z) / math.sqrt(2)))
