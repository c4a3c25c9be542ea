"""C11 the precision mode is left as found: faults, nesting, thread schedules."""

import contextlib
import threading
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import enable_x64

from laplax.curv.cov import create_posterior_fn, estimate_curvature
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from mc.core import Dyn, Enum, Skip
from mc.lib import A, L, fail, from_flat, vals
from mc.sched import Coop

LEVEL = "model_checking"
RULE = "every (solver, options, ambient mode) x fault at every operator call x exception kind x nesting; every schedule of two decompositions and of a decomposition with an unrelated thread at operator-call granularity"
BOUNDS = {
    "quick": "operators of size 4 (Lanczos, 3 calls) and 6 (LOBPCG); all fault positions; all interleavings of 2 threads (2-3 operator calls each); histories of depth 2 over 6 decompositions (2 failing) with the ambient mode switched in between",
    "thorough": "4 operator calls per thread, 3 threads",
}
ASSUMPTIONS = ["preemption is explored at operator calls (the only points where user code runs inside a decomposition)"]


def mode():
    """(mode visible here, mode a new thread sees = the process-wide mode)."""
    out = []
    t = threading.Thread(target=lambda: out.append(bool(jax.config.jax_enable_x64)))
    t.start()
    t.join()
    return bool(jax.config.jax_enable_x64), out[0]


OTHER = ["jax_default_matmul_precision", "jax_numpy_dtype_promotion", "jax_debug_nans", "jax_debug_infs", "jax_disable_jit", "jax_default_dtype_bits", "jax_numpy_rank_promotion"]


def others():
    """the rest of the floating-point configuration"""
    return {k: getattr(jax.config, k) for k in OTHER if hasattr(jax.config, k)}


def effective():
    return str(jnp.asarray(np.float64(1.5)).dtype)


@contextlib.contextmanager
def ambient(glob, local):
    jax.config.update("jax_enable_x64", glob)
    with contextlib.nullcontext() if local is None else enable_x64(local):
        yield


M4 = np.diag([4.0, 2.0, 1.0, 0.5])
M6 = np.diag([4.0, 0, 0, 0, 0, 0])
AMB = [(False, None), (True, None), (False, True), (True, False)]


class Boom(Exception):
    pass


def solver(name, op, kw):
    if name == "lanczos":
        return lanczos_lowrank(op, layout=4, **({"key": jax.random.key(0)} | kw))
    if name == "lobpcg":
        return lobpcg_lowrank(op, layout=6, **kw)
    if name == "estimate":
        return estimate_curvature("lanczos", op, layout=4, **({"key": jax.random.key(0)} | kw))
    return create_posterior_fn("lobpcg", op, layout=6, **kw)


def dim(name):
    return 4 if name in ("lanczos", "estimate") else 6


def body_fault(c, param):
    name, jit = param
    glob, local = c.choose("ambient", AMB)
    calc = c.choose("calc_dtype", ["default", "f4", "f8"])
    kw = {"rank": 3 if dim(name) == 4 else 1, "mv_jit": jit}
    if calc != "default":
        kw["calc_dtype"] = {"f4": jnp.float32, "f8": jnp.float64}[calc]
    exc = c.choose("exception", [None, Boom, KeyboardInterrupt, ValueError])
    at = c.choose("fault_at", [0] if jit else [0, 1, 2]) if exc else -1
    seen = {"n": 0}
    Mx = M4 if dim(name) == 4 else M6

    def op(v):
        k = seen["n"]
        seen["n"] += 1
        if k == at:
            raise exc("fault")
        return jnp.asarray(Mx) @ v

    with ambient(glob, local), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before, eff = mode(), effective()
        try:
            solver(name, op, kw)
            raised = None
        except BaseException as e:  # noqa: BLE001
            raised = type(e)
        after = mode()
        if after != before:
            fail(f"precision mode {before} became {after} after {raised}")
        if effective() != eff:
            fail(f"arrays are now created as {effective()}, before {eff}")
        if exc and seen["n"] > at and raised is not exc:
            fail(f"operator failure {exc} surfaced as {raised}")
        if not exc and raised:
            fail(f"unexpected failure {raised}")
    if mode() != (glob, glob):
        fail("process-wide mode changed")
    return str(raised), before, calc


HOPS = [("lanczos", "f4", None), ("lanczos", "f8", None), ("lanczos", "f8", 1), ("lobpcg", "f8", None), ("lobpcg", "f4", 0), ("lanczos", "f4", "args")]


def body_history(c, param):
    """sequences of decompositions (successful and failing), the ambient mode switched by the caller in between"""
    depth, first, glob = param
    obs = []
    base = others()
    with ambient(glob, None), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for d in range(depth):
            name, calc, at = HOPS[first] if d == 0 else c.choose(f"op{d}", HOPS)
            local = c.choose(f"local{d}", [None, True, False]) if d == depth - 1 else None
            Mx = M4 if name == "lanczos" else M6
            n = {"n": 0}

            def op(v):
                n["n"] += 1  # noqa: B023
                if at == n["n"] - 1:  # noqa: B023
                    raise Boom
                return jnp.asarray(Mx) @ v  # noqa: B023

            with contextlib.nullcontext() if local is None else enable_x64(local):
                before, eff = mode(), effective()
                kw = {"rank": 2 if name == "lanczos" else 1, "mv_jit": False, "calc_dtype": jnp.float32 if calc == "f4" else jnp.float64}
                if at == "args":
                    kw["return_dtype"] = "not-a-dtype"
                try:
                    solver(name, op, kw)
                    obs.append("ok")
                except (Boom, TypeError) as e:
                    obs.append(type(e).__name__)
                if mode() != before or effective() != eff:
                    fail(f"step {d} {(name, calc, at)} ({obs[-1]}): mode {before} / {eff} became {mode()} / {effective()}")
                if others() != base:
                    fail(f"step {d} {(name, calc, at)}: floating-point configuration {base} became {others()}")
            if mode() != (glob, glob):
                fail(f"after step {d}: process-wide mode is {mode()}, was {glob}")
    return obs


def plan_badargs(c):
    name = c.choose("solver", ["lanczos", "lobpcg"])
    bad = c.choose("bad", ["no_start", "no_layout", "calc_dtype", "mv_dtype", "return_dtype", "rank0", "b_shape", "op_shape", "not_callable"])
    return name, bad, c.choose("ambient", AMB), c.choose("mv_jit", [True, False]), c.choose("calc", ["f4", "f8"])


def check_badargs(cfg):
    name, bad, (glob, local), jit, calc = cfg
    n = 4 if name == "lanczos" else 6
    kw = {"layout": n, "rank": 1, "mv_jit": jit, "calc_dtype": jnp.float32 if calc == "f4" else jnp.float64}
    op = lambda v: 2.0 * v
    if name == "lanczos":
        kw["key"] = jax.random.key(0)
    if bad == "no_start":
        kw.pop("key", None)
    elif bad == "no_layout":
        kw.pop("layout")
    elif bad.endswith("dtype"):
        kw[bad] = "not-a-dtype"
    elif bad == "rank0":
        kw["rank"] = 0
    elif bad == "b_shape":
        kw["b"] = jnp.ones((n, 2))
    elif bad == "op_shape":
        op = lambda v: v[:-1]
    elif bad == "not_callable":
        op = "nothing"
    with ambient(glob, local), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = mode()
        try:
            (lanczos_lowrank if name == "lanczos" else lobpcg_lowrank)(op, **kw)
            r = "ok"
        except Exception as e:  # noqa: BLE001
            r = type(e).__name__
        if mode() != before:
            fail(f"precision mode {before} became {mode()} after {r} for {bad}")
    return r, bad


def plan_nested(c):
    return [c.choose(f"level{i}", [("lanczos", "f4"), ("lanczos", "f8"), ("lobpcg", "f8"), ("lobpcg", "f4")]) for i in range(2)], c.choose("ambient", AMB), c.choose("inner_fails", [False, True])


def check_nested(cfg):
    levels, (glob, local), inner_fails = cfg
    log = []

    def make(i):
        name, calc = levels[i]
        Mx = M4 if name == "lanczos" else M6
        kw = {"rank": 2 if name == "lanczos" else 1, "mv_jit": False, "calc_dtype": jnp.float32 if calc == "f4" else jnp.float64}

        def op(v):
            if i + 1 < len(levels):
                before = mode()
                try:
                    make(i + 1)()
                except Boom:
                    pass
                if mode() != before:
                    fail(f"nested decomposition changed the outer one's mode from {before} to {mode()}")
                log.append(before)
            elif inner_fails:
                raise Boom
            return jnp.asarray(Mx, dtype=v.dtype) @ v

        return lambda: solver(name, op, kw)

    with ambient(glob, local), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = mode()
        make(0)()
        if mode() != before:
            fail(f"mode {before} became {mode()}")
    if not log:
        fail("harness: nested operator never ran")
    return log[0]


def body_threads(calls):
    def body(c, param):
        specs, glob = param
        jax.config.update("jax_enable_x64", glob)
        ambient_eff = "float64" if glob else "float32"
        coop = Coop(c)
        obs = {}

        def decomposer(nm, kind, calc):
            def run(yield_):
                inside = []
                out = jnp.asarray(np.float64(0.5)).dtype
                if str(out) != ambient_eff:
                    fail(f"thread {nm} starts in {out}, process mode is {ambient_eff}")
                yield_("start")

                def op(v):
                    inside.append(bool(jax.config.jax_enable_x64))
                    yield_("call")
                    inside.append(bool(jax.config.jax_enable_x64))
                    return jnp.asarray(M4 if kind == "lanczos" else M6, dtype=v.dtype) @ v

                solver(kind, op, {"rank": calls if kind == "lanczos" else 1, "mv_jit": False, "calc_dtype": calc})
                if len(set(inside)) != 1:
                    fail(f"thread {nm}: mode changed during its decomposition: {inside}")
                yield_("end")
                if effective() != ambient_eff:
                    fail(f"thread {nm} ends in {effective()}, process mode is {ambient_eff}")
                obs[nm] = inside[0]

            return run

        def innocent(nm):
            def run(yield_):
                for i in range(calls):
                    if effective() != ambient_eff:
                        fail(f"unrelated thread sees {effective()} although the process runs in {ambient_eff}")
                    yield_(f"look{i}")
                obs[nm] = effective()

            return run

        fns = {}
        for i, s in enumerate(specs):
            nm = f"T{i}"
            fns[nm] = innocent(nm) if s == "innocent" else decomposer(nm, s[0], {"f4": jnp.float32, "f8": jnp.float64}[s[1]])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            err = coop.run(fns)
        for nm, e in err.items():
            raise e
        if mode() != (glob, glob):
            fail(f"process-wide mode is {mode()} after all threads finished, was {glob}")
        return obs, coop.trace

    return body


def scenarios(tier):
    q = tier == "quick"
    pairs = []
    for glob in (False, True):
        flip = "f4" if glob else "f8"
        same = "f8" if glob else "f4"
        pairs += [
            ((("lanczos", flip), "innocent"), glob),
            ((("lanczos", flip), ("lanczos", flip)), glob),
            ((("lanczos", flip), ("lanczos", same)), glob),
            ((("lanczos", same), "innocent"), glob),
            ((("lobpcg", flip), "innocent"), glob),
        ]
        if not q:
            pairs += [((("lanczos", flip), ("lobpcg", flip)), glob), ((("lanczos", flip), "innocent", "innocent"), glob)]
    return [
        Dyn("fault", body_fault, [(n, j) for n in ("lanczos", "lobpcg", "estimate", "posterior") for j in (True, False)], x64=None),
        Enum("bad_arguments", plan_badargs, check_badargs, x64=None),
        Dyn("history", body_history, [(2 if q else 3, i, g) for i in range(len(HOPS)) for g in (False, True)], x64=None),
        Enum("nested", plan_nested, check_nested, x64=None),
        Dyn("threads", body_threads(2 if q else 3), pairs, x64=None),
    ]
