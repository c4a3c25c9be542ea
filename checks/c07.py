"""C07 posterior covariance / scale algebra."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox
from mc.core import Enum, Skip
from mc.lib import A, L, build, close, fail, from_flat, leaves, same_structure, size, to_flat, vals

LEVEL = "exploration"
RULE = "every (curvature kind, spectrum, layout, construction) with the full grid of prior precision x noise x loss scaling on each; reference = dense numpy inverse"
BOUNDS = {
    "quick": "n<=4 (LOBPCG n=12), all eigenvalue multisets over {0,0.5,3,40} (low rank: all ranks), 3 layouts per n, prior grid 3x4x4 evaluated on one posterior function",
    "thorough": "n<=5, 5 eigenvalue levels",
}

KINDS = ["full", "diagonal", "lanczos", "lobpcg"]
TAUS = [0.05, 1.0, 25.0]
SIG = [None, 1.0, 0.3, 4.0]
LSF = [None, 1.0, 0.5, 8.0]


def layouts(n):
    out = {"int": None}
    if n == 1:
        out["tree"] = {"a": L()}
        out["nested"] = [(L(1, 1),)]
    elif n == 2:
        out["tree"] = {"b": L(), "a": L(1)}
        out["nested"] = (L(1, 2),)
    elif n == 3:
        out["tree"] = {"w": L(2), "b": L()}
        out["nested"] = [{"z": L(1, 1), "a": L(2)}]
    else:
        out["tree"] = {"w": L(2, (n - 2) // 2), "b": L(n - 2 * ((n - 2) // 2))}
        out["nested"] = [L(n - 2), {"c": L(), "a": (L(1),)}]
    return out


def rot(n, seed=0):
    q, r = np.linalg.qr(vals(n * n, 5 + seed).reshape(n, n) + np.eye(n))
    return q * np.sign(np.diag(r))


def multisets(al, n):
    if n == 0:
        return [[]]
    return [[a] + r for i, a in enumerate(al) for r in multisets(al[i:], n - 1)]


def tree_mv(C, spec):
    Cj = jnp.asarray(C)
    if spec is None:
        return lambda v: Cj @ v

    def mv(t):
        w = Cj @ jnp.concatenate([jnp.reshape(x, -1) for x in leaves(t)])
        pos = [0]

        def mk(i, l):
            k = int(np.prod(l.shape))
            o = w[pos[0] : pos[0] + k].reshape(l.shape)
            pos[0] += k
            return o

        return build(spec, mk)

    return mv


def dense(mv, n, spec, conv=A):
    def f(v):
        if spec is None:
            return mv(v)
        pos = [0]

        def mk(i, l):
            k = int(np.prod(l.shape))
            o = v[pos[0] : pos[0] + k].reshape(l.shape)
            pos[0] += k
            return o

        out = mv(build(spec, mk))
        if not same_structure(build(spec, lambda i, l: 0), out):
            fail("posterior product changes the tree structure")
        return jnp.concatenate([jnp.reshape(x, -1) for x in leaves(out)])

    return conv(jax.vmap(f, out_axes=1)(jnp.eye(n)))


def make_prior(tau, s2, form):
    cv = {"py": float, "jnp": jnp.asarray, "np": np.float64}[form]
    d = {"prior_prec": cv(tau)}
    if s2 is not None:
        d["sigma_squared"] = cv(s2)
    return d


def verify(pf, kind, C, n, spec, form, how, rtol=1e-8):
    obs = []
    big = n > 2
    jitted = jax.jit(lambda p, l: pf(p, **l).state)
    for tau in TAUS[::2] if big else TAUS:
        for s2 in (SIG[::2] if big else SIG):
            for lsf in ([None, 0.5, 8.0] if big else LSF):
                pa = make_prior(tau, s2, form)
                kw = {} if lsf is None else {"loss_scaling_factor": lsf}
                M = np.diag(np.diag(C)) if kind == "diagonal" else C
                want = np.linalg.inv(((1.0 if s2 is None else s2) * M + tau * np.eye(n)) / (1.0 if lsf is None else lsf))
                post = pf(pa, **kw)
                state = post.state
                if how == "jit":
                    state = jitted(pa, kw)
                what = f"{kind} covariance at prior_prec={tau}, sigma_squared={s2}, loss_scaling={lsf}"
                at = rtol * np.abs(want).max()
                cov = close(dense(post.cov_mv(state), n, spec), want, what, rtol=rtol, atol=at)
                S = dense(post.scale_mv(state), n, spec)
                close(S @ S.T, want, "scale scale' for " + what, rtol=rtol, atol=at)
                obs.append(cov[0, 0])
    return obs


def plan_direct(nmax, alpha):
    def plan(c):
        n = c.choose("n", range(1, nmax + 1))
        kind = c.choose("kind", KINDS[:3])
        eigs = c.choose("eigs", multisets(alpha, n))
        rank = c.choose("rank", range(0, n + 1)) if kind == "lanczos" else n
        if kind == "lanczos" and sum(e > 0 for e in eigs) > rank:
            raise Skip  # truncated spectra: low-rank terms are the curvature by definition
        lay = c.choose("layout", ["int", "none", "tree", "nested"])
        if lay == "none" and n > 2:
            raise Skip
        form, how = c.choose("form", [("py", "eager"), ("jnp", "jit")] if n < 3 else [("np", "eager")])
        return n, kind, eigs, rank, lay, form, how

    return plan


def check_direct(cfg):
    """posterior from a given curvature estimate (all kinds, incl. low rank with any rank)."""
    n, kind, eigs, rank, lay, form, how = cfg
    Q = rot(n)
    e = np.array(sorted(eigs, reverse=True))
    C = (Q * e) @ Q.T
    spec = None if lay in ("int", "none") else layouts(n)[lay]
    est = {
        "full": lambda: jnp.asarray(C),
        "diagonal": lambda: jnp.asarray(np.diag(C)),
        "lanczos": lambda: LowRankTerms(U=jnp.asarray(Q[:, :rank]), S=jnp.asarray(e[:rank]), scalar=jnp.asarray(0.0)),
    }[kind]()
    layout = None if lay == "none" else n if lay == "int" else from_flat(spec, np.zeros(n), jnp.asarray)
    names = {"full": "full", "diagonal": CurvApprox.DIAGONAL, "lanczos": "lobpcg" if form == "jnp" else CurvApprox.LANCZOS}
    pf = set_posterior_fn(names[kind], est, layout=layout)
    return verify(pf, kind, C, n, spec, form, how)


def plan_built(nmax):
    def plan(c):
        kind = c.choose("kind", KINDS)
        n = c.choose("n", [12] if kind == "lobpcg" else range(1, nmax + 1))
        sp = c.choose("spectrum", ["simple", "rank1", "diag"])
        lay = c.choose("layout", ["int", "tree", "nested"])
        return kind, n, sp, lay, c.choose("spell", ["enum", "str"])

    return plan


def check_built(cfg):
    """posterior through the factory from a matrix-vector product."""
    kind, n, sp, lay, spell = cfg
    Q = rot(n)
    e = np.arange(n, 0, -1.0) * 1.5
    if kind == "lobpcg":
        e = np.array([9.0, 4.0] + [0.0] * (n - 2))
    if sp == "rank1":
        e = e * (np.arange(n) < 1)
    C = np.diag(e) if sp == "diag" else (Q * e) @ Q.T
    spec = layouts(n)[lay]
    layout = n if lay == "int" else from_flat(spec, np.zeros(n), jnp.asarray)
    kw = {"lanczos": {"rank": n, "key": jax.random.key(3)}, "lobpcg": {"rank": 2, "key": jax.random.key(3)}}.get(kind, {})
    if kind == "lobpcg" and sp == "rank1":
        kw["rank"] = 1
    pf = create_posterior_fn(CurvApprox(kind) if spell == "enum" else kind, mv=tree_mv(C, spec), layout=layout, **kw)
    return verify(pf, kind, C, n, spec, "py", "eager", rtol=1e-8 if kind in ("full", "diagonal") else 1e-5)


def check_single(cfg):
    n, kind, eigs, rank, lay, form, how = cfg
    obs = check_direct_tol(cfg)
    return obs


def check_direct_tol(cfg):
    n, kind, eigs, rank, lay, form, how = cfg
    Q = rot(n)
    e = np.array(sorted(eigs, reverse=True))
    C = (Q * e) @ Q.T
    spec = None if lay in ("int", "none") else layouts(n)[lay]
    est = {
        "full": lambda: jnp.asarray(C),
        "diagonal": lambda: jnp.asarray(np.diag(C)),
        "lanczos": lambda: LowRankTerms(U=jnp.asarray(Q[:, :rank]), S=jnp.asarray(e[:rank]), scalar=jnp.asarray(0.0)),
    }[kind]()
    layout = None if lay == "none" else n if lay == "int" else from_flat(spec, np.zeros(n), jnp.asarray)
    pf = set_posterior_fn(kind, est, layout=layout)
    return verify(pf, kind, C, n, spec, form, how, rtol=3e-3)


# ------------------------------------------------------------- sizes, magnitudes, signs
def big_layouts(n):
    out = {"int": None, "bare": L(n)}
    out["tree"] = {"w": L(2, n // 2), "b": L(n - 2 * (n // 2))} if n > 1 else {"w": L(1)}
    if n % 4 == 0:
        out["bare3"] = L(2, n // 4, 2)
    if n % 2 == 0:
        out["bare2"] = L(n // 2, 2)
    if n > 8:
        out["many"] = [{"s": L(), "v": (L(2),)}] * ((n - 1) // 6) + [L(n - 3 * ((n - 1) // 6))]
    return out


SPECTRA = {
    "indefinite": lambda n: np.where(np.arange(n) % 2 == 0, np.linspace(2.0, 0.5, n), -np.linspace(0.05, 0.3, n)),
    "negative": lambda n: -np.linspace(0.05, 0.3, n),
    "decaying": lambda n: 0.7 ** np.arange(n),
    "gap": lambda n: np.where(np.arange(n) < max(1, n // 3), 5.0, 0.01),
    "zero": lambda n: np.zeros(n),
}


def plan_extreme(sizes, tiny):
    def plan(c):
        n = c.choose("n", sizes)
        kind = c.choose("kind", KINDS[:3])
        sp = c.choose("spectrum", list(SPECTRA))
        mag = c.choose("magnitude", [1.0] + ([1e-7, 1e6] if n <= tiny else []))
        lay = c.choose("layout", list(big_layouts(n)))
        if mag != 1.0 and lay not in ("int", "tree"):
            raise Skip
        if n > 20 and sp in ("gap", "zero"):
            raise Skip
        return n, kind, sp, mag, lay

    return plan


def check_extreme(cfg):
    """large and tiny precisions / curvatures, negative eigenvalues under a positive precision, array layouts, many leaves, integer arguments."""
    n, kind, sp, mag, lay = cfg
    Q = rot(n)
    e = SPECTRA[sp](n) * mag
    C = (Q * e) @ Q.T
    spec = big_layouts(n)[lay]
    rank = n if np.all(e != 0) else int((e != 0).sum())
    if kind == "lanczos" and sp == "decaying" and n > 4:
        rank = n // 2
        e = np.where(np.arange(n) < rank, e, 0.0)
        C = (Q * e) @ Q.T
    est = {
        "full": lambda: jnp.asarray(C),
        "diagonal": lambda: jnp.asarray(np.diag(C)),
        "lanczos": lambda: LowRankTerms(U=jnp.asarray(Q[:, :rank]), S=jnp.asarray(e[:rank]), scalar=jnp.asarray(0.0)),
    }[kind]()
    layout = n if spec is None else from_flat(spec, np.zeros(n), jnp.asarray)
    pf = set_posterior_fn(kind, est, layout=layout)
    M = np.diag(np.diag(C)) if kind == "diagonal" else C
    w = np.linalg.eigvalsh(M)
    grid = [(t, s2, l) for t in (1e-8, 1e-4, 0.4, 1.0, 1e4, 1e8) for s2, l in ((None, None), (1e-4, 1e3), (1e4, None), (None, 1e-3))]
    grid += [(2, 3, 5), (1, None, 60000), (np.int64(3), None, np.int64(7))]
    if n > 20:
        grid = grid[::5]
    obs = []
    f = jax.jit(lambda p, l: (lambda post: (dense(post.cov_mv(post.state), n, spec, jnp.asarray), dense(post.scale_mv(post.state), n, spec, jnp.asarray)))(pf(p, **l)))
    for i, (tau, s2, lsf) in enumerate(grid):
        d = ((1.0 if s2 is None else s2) * w + tau) / (1.0 if lsf is None else lsf)
        if kind == "lanczos":  # the low-rank form also has the eigenvalue of the prior
            d = np.append(d, tau / (1.0 if lsf is None else lsf))
        if d.min() <= 0 or d.max() / d.min() > 1e8:
            continue
        pa = {"prior_prec": tau} if s2 is None else {"prior_prec": tau, "sigma_squared": s2}
        kw = {} if lsf is None else {"loss_scaling_factor": lsf}
        before = dict(pa)
        if i % 2 == 0 or not isinstance(tau, float):
            post = pf(pa, **kw)
            cov, S = A(dense(post.cov_mv(post.state), n, spec)), A(dense(post.scale_mv(post.state), n, spec))
        else:
            cov, S = map(A, f(pa, kw))
        if pa != before:
            fail("prior arguments were changed")
        want = np.linalg.inv(((1.0 if s2 is None else s2) * M + tau * np.eye(n)) / (1.0 if lsf is None else lsf))
        rt = 1e-9 + 1e-13 * n * d.max() / d.min()
        at = max(rt * np.abs(want).max(), 1e-14 * n / d.min())
        what = f"{kind} covariance n={n} {sp} spectrum x {mag}, prior_prec={tau}, sigma_squared={s2}, loss_scaling={lsf}"
        close(cov, want, what, rtol=rt, atol=at)
        close(S @ S.T, want, "scale scale' for " + what, rtol=rt, atol=at)
        obs.append(cov[0, 0])
    return obs


def scenarios(tier):
    q = tier == "quick"
    al = [0.0, 0.5, 40.0] if q else [0.0, 0.5, 3.0, 7.0, 40.0]
    return [
        Enum("from_estimate", plan_direct(4 if q else 5, al), check_direct),
        Enum("from_product", plan_built(4 if q else 6), check_built),
        Enum("extremes", plan_extreme([1, 2, 4, 12, 90] if q else [1, 2, 3, 4, 8, 12, 24, 90, 180], 12), check_extreme),
        Enum("single_precision", plan_direct(2, [0.0, 0.5, 3.0]), check_single, x64=False),
    ]
