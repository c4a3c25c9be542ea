"""C32 how numbers are represented does not change what is computed."""

import importlib

import jax
import jax.numpy as jnp
import numpy as np

import mc.lib as lib
from checks.c30 import OPS, Env, World, plain, reset_registries
from mc.core import Enum, enumerate_plan
from mc.lib import close, fail

LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration on the real code: every public operation under every representation of its arguments (NumPy or JAX arrays, integer data, Python, NumPy or JAX scalars, both key types, double or JAX's default single precision) compared with the double-precision run, and the enumerated spaces of 14 other properties repeated in single precision against their double-precision oracles"
RULE = "operations x representations; scenarios of other properties x every k-th configuration of their space, in single precision"
STEP = {"quick": 6, "thorough": 150}
BOUNDS = {
    "quick": "39 operations x up to 13 representations; 18 scenarios in single precision, about 6 evenly spaced configurations of each",
    "thorough": "about 150 configurations of each",
}


# ------------------------------------------------------------- representations
def half(x64):
    """As a NumPy array of the ambient precision."""

    def arr(x):
        a = np.array(x)
        return a.astype(np.float32) if a.dtype == np.float64 and not x64 else a

    return arr


def whole(dtype):
    return lambda x: jnp.asarray(np.rint(np.abs(x) * 2), dtype)


REPS = {
    "jax double": (True, {}),
    "numpy double": (True, {"arr": half(True)}),
    "jax single": (False, {}),
    "numpy single": (False, {"arr": half(False)}),
    "raw keys": (True, {"key": jax.random.PRNGKey}),
    "python int": (True, {"num": int}),
    "numpy scalar": (True, {"num": np.float64}),
    "numpy int": (True, {"num": np.int64}),
    "jax scalar": (True, {"num": lambda v: jnp.asarray(float(v))}),
    "jax scalar single": (False, {"num": lambda v: jnp.asarray(float(v))}),
    "whole": (True, {"data": whole("float64")}),
    "int32": (True, {"data": whole("int32")}),
    "uint8": (True, {"data": whole("uint8")}),
    "whole single": (False, {"data": whole("float32")}),
    "int32 single": (False, {"data": whole("int32")}),
}
BASE = {"int32": "whole", "uint8": "whole", "int32 single": "whole single", "whole single": "whole"}
# results that depend on random draws, which differ between the precisions
DRAWS = {"linear", "nonlinear", "nonlinear_registered", "samples", "evaluation_stream", "laplace_lanczos"}
_RUN, _USED = {}, {}


def result(name, rep):
    if (name, rep) not in _RUN:
        x64, kw = REPS[rep]
        reset_registries()
        jax.config.update("jax_enable_x64", x64)
        try:
            w = World(Env(), **kw)
            _RUN[name, rep] = plain(OPS[name](w))
            w.check(f"{name} with {rep}")
            _USED[name] = w.used
        finally:
            reset_registries()
            jax.config.update("jax_enable_x64", True)
    return _RUN[name, rep]


def plan_reps(c):
    return c.choose("operation", list(OPS))


def check_reps(name):
    result(name, "jax double")
    unused = {"num", "key"} - _USED[name]
    return [check_rep(name, rep) for rep, (_, kw) in REPS.items() if rep not in ("jax double", "whole") and not unused & set(kw)]


def check_rep(name, rep):
    x64 = REPS[rep][0]
    draws = name in DRAWS and not x64
    base = BASE.get(rep, "jax double")
    if draws and base != "whole single":
        base = "jax single"
    if draws and rep in ("jax single", "whole single"):
        base = rep
    got, want = result(name, rep), result(name, base)
    what = f"{name} with {rep} (against {base})"
    if jax.tree.structure(got) != jax.tree.structure(want):
        fail(f"{what}: result structure differs")
    tol = 1e-9 if x64 else 2e-5
    for g, t in zip(jax.tree.leaves(got), jax.tree.leaves(want)):
        if np.issubdtype(t.dtype, np.inexact) and name != "pipeline":
            if name == "on_dataset" and g.dtype.kind in "iu":
                continue  # targets are handed through
            if g.dtype != (np.float64 if x64 else np.float32):
                fail(f"{what}: result of type {g.dtype}")
            if not np.all(np.isfinite(g)):
                fail(f"{what}: not finite")
        close(g, t, what, rtol=tol, atol=tol * (1 + float(np.abs(t).max()) if t.size else 1))
    return [str(g.dtype) for g in jax.tree.leaves(got)]


# ------------------------------------------------------------ single precision
SINGLE = {
    "C05": ["delivery"],
    "C06": ["hvp", "hessian"],
    "C07": ["from_estimate", "from_product"],
    "C14": ["evidence"],
    "C15": ["orders"],
    "C16": ["kernel"],
    "C17": ["modes"],
    "C18": ["samples"],
    "C20": ["definitions"],
    "C21": ["eager"],
    "C22": ["streams", "datasets"],
    "C24": ["laplace", "ggn"],
    "C25": ["grid"],
    "C26": ["evaluation"],
}
FLOOR = 1e-3


def single(prop, name, tier):
    cache = {}

    def load():
        if not cache:
            m = importlib.import_module(f"checks.{prop.lower()}")
            s = next(s for s in m.scenarios("quick") if s.name == name)
            cfgs = [cfg for _, cfg, skip, _ in enumerate_plan(s.plan) if not skip]
            cache.update(scen=s, cfgs=cfgs)
        return cache

    def plan(c):
        n = len(load()["cfgs"])
        return c.choose("configuration", list(range(0, n, max(1, n // STEP[tier]))))

    def check(i):
        d = load()
        lib.FLOOR = FLOOR
        try:
            return d["scen"].check(d["cfgs"][i])
        finally:
            lib.FLOOR = 0.0

    return Enum(f"single_{prop}_{name}", plan, check, x64=False)


def scenarios(tier):
    out = [Enum("representations", plan_reps, check_reps)]
    return out + [single(p, n, tier) for p, names in SINGLE.items() for n in names]
