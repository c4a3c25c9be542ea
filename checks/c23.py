"""C23 result pipelines: apply_fns / transfer_entry / finalize_fns against an interpreter on plain dictionaries."""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from laplax.eval.utils import apply_fns, finalize_fns, transfer_entry
from mc.core import Enum, Search, Skip
from mc.lib import A, close, fail, raises, vals

LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all pipelines (operation sequences) to a depth on the real combinators, compared after every run with an interpreter; states = (results, aux) dictionaries"
RULE = "every sequence of pipeline steps to the depth from every initial pair of dictionaries; values record their provenance, so a wrong argument, order, name or destination changes the result"
BOUNDS = {
    "quick": "30 steps (single / double functions, every source kind, explicit or implicit names, both destinations, list / dict transfers, whole-dictionary functions, raising and missing-entry steps), depth 3, 4 initial states (one with falsy entries); depth 4 over 12 steps; up to 130 functions / entries and 40 steps",
    "thorough": "depth 4 over 30 steps, depth 5 over 12 steps",
}
LOG = []


def f(a, k=None, **kw):
    LOG.append("f")
    return ("f", a, k)


def g(a, b=0, **kw):
    LOG.append("g")
    return ("g", a, b)


def h(x, y, **kw):
    LOG.append("h")
    return ("h", x, y)


class Boom(Exception):
    pass


def boom(**kw):
    LOG.append("boom")
    raise Boom


PY = {"f": f, "g": g, "h": h, "boom": boom}
# ("apply", functions, names or None, field, mapping)   ("transfer", mapping, field, access_from)   ("fn", kind)
STEPS = [
    ("apply", "f", ["u"], "results", {"a": "x"}),
    ("apply", "f", None, "results", {"a": "y"}),
    ("apply", "g", ["x"], "results", {"a": "x", "b": "y"}),
    ("apply", "g", ["v"], "aux", {"a": "y", "b": "x"}),
    ("apply", "fg", ["u", "v"], "results", {"a": "x"}),
    ("apply", "gf", None, "aux", {"a": "u"}),
    ("apply", "fg", ["v", "v"], "results", {"a": "v"}),
    ("apply", "h", ["w"], "results", {}),
    ("apply", "hh", ["u", "w"], "results", {}),
    ("transfer", ["x"], "results", "aux"),
    ("transfer", {"y": "u"}, "aux", "results"),
    ("transfer", {"u": "x", "x": "y"}, "results", "aux"),
    # --- the larger menu
    ("transfer", ["u", "v"], "results", "results"),
    ("transfer", {"x": "v"}, "aux", "aux"),
    ("transfer", [], "results", "aux"),
    ("transfer", {"a": "w", "b": "w"}, "aux", "results"),
    ("transfer", None, None, None),  # default arguments
    ("apply", "h", None, "aux", {}),
    ("apply", "g", ["z"], "results", {"a": "zzz"}),  # missing entry
    ("apply", "fgf", ["a", "b", "c"], "aux", {"a": "x"}),
    ("apply", "f", ["a", "b"], "results", {"a": "x"}),  # wrong number of names
    ("apply", "f", ["q"], "elsewhere", {"a": "x"}),  # unknown destination
    ("apply", "f", ["x"], "results", {"a": "x"}),
    ("apply", "boom", ["x"], "results", {"a": "x"}),
    ("apply", "", [], "results", {"a": "x"}),
    ("apply", "f", ["u"], "results", {"a": "x", "k": "y"}),  # clashes with a call-time keyword when one is given
    ("fn", "replace"),
    ("fn", "swap"),
    ("fn", "kwargs"),
    ("fn", "target"),
]
CORE = STEPS[:12]
INITIAL = [({}, {"x": 1, "y": 2}, {}), ({"x": 10}, {"x": 1, "y": 2}, {"k": 7}), ({"u": 3, "v": 4}, {"x": 1, "y": 2, "u": 5}, {}),
           ({"x": 0, "u": None}, {"x": 6, "y": False, "u": 8, "v": ""}, {"k": None})]


def names_of(spec):
    return ["boom"] if spec == "boom" else list(spec)


# ----------------------------------------------------------------- the real steps
def fn_step(kind):
    def replace(results, aux, **kw):
        return {**results, "r": ("replace", tuple(sorted(results)))}, {**aux, "y": ("new", aux["y"])}

    def swap(results, aux, **kw):
        return dict(aux), dict(results)

    def kwargs(results, aux, **kw):
        results["kw"] = tuple(sorted(kw.items()))
        return results, aux

    def target(*, results, aux, k="none", **kw):
        aux["x"] = k
        return results, aux

    return {"replace": replace, "swap": swap, "kwargs": kwargs, "target": target}[kind]


def make(step):
    if step[0] == "fn":
        return fn_step(step[1])
    if step[0] == "transfer":
        if step[1] is None:
            return transfer_entry(["x", "y"])
        m = step[1]
        return transfer_entry(dict(m) if isinstance(m, dict) else list(m), field=step[2], access_from=step[3])
    _, fs, names, field, mapping = step
    kw = {} if field == "results" and fs in ("f", "g", "h") and names else {"field": field}
    return apply_fns(*[PY[n] for n in names_of(fs)], **({} if names is None else {"names": list(names)}), **kw, **mapping)


# ----------------------------------------------------------------- the interpreter
def call(name, args, local):
    d = set(args) & set(local)
    if d:
        raise TypeError(f"duplicate {d}")
    kw = {**args, **local}
    if name == "boom":
        return "boom", Boom
    if name == "f":
        return ("f", kw["a"], kw.get("k")), None
    if name == "g":
        return ("g", kw["a"], kw.get("b", 0)), None
    return ("h", kw["x"], kw["y"]), None


def interpret(step, results, aux, local, log):
    if step[0] == "fn":
        k = step[1]
        if k == "replace":
            r = {**results, "r": ("replace", tuple(sorted(results)))}
            return r, {**aux, "y": ("new", aux["y"])}
        if k == "swap":
            return dict(aux), dict(results)
        if k == "kwargs":
            return {**results, "kw": tuple(sorted(local.items()))}, aux
        return results, {**aux, "x": local.get("k", "none")}
    if step[0] == "transfer":
        m, field, src = step[1:] if step[1] is not None else (["x", "y"], "results", "aux")
        m = m if isinstance(m, dict) else {k: k for k in m}
        st = {"results": dict(results), "aux": dict(aux)}
        for k, v in m.items():
            if v not in st[src]:
                raise KeyError(v)
            st[field][k] = st[src][v]
        return st["results"], st["aux"]
    _, fs, names, field, mapping = step
    fs = names_of(fs)
    if mapping:
        args = {}
        for a, src in mapping.items():
            if src in results:
                args[a] = results[src]
            elif src in aux:
                args[a] = aux[src]
            else:
                raise ValueError(src)
    else:
        args = dict(aux)
    names = fs if names is None else names
    if len(names) != len(fs):
        raise ValueError("names")
    results, aux = dict(results), dict(aux)
    for fname, nm in zip(fs, names):
        r, exc = call(fname, args, local)
        log.append(fname)
        if exc:
            raise exc
        if field == "results":
            results[nm] = r
        elif field == "aux":
            aux[nm] = r
        else:
            raise ValueError("field")
    return results, aux


ERR = (ValueError, KeyError, TypeError, Boom)


def run(param):
    steps, first, depth = param
    menu = STEPS if steps == "all" else CORE
    built = [make(s) for s in menu]  # one object per step, reused by every pipeline
    count = trans = 0
    outcomes, sample = set(), None
    for n in range(1, depth + 1):
        for rest in itertools.product(range(len(menu)), repeat=n - 1):
            pipe = (first, *rest)
            for r0, a0, local in INITIAL:
                count += 1
                trans += n
                wr, wa, log, werr = dict(r0), dict(a0), [], None
                try:
                    for i in pipe:
                        wr, wa = interpret(menu[i], wr, wa, local, log)
                except ERR as e:
                    werr = type(e)
                LOG.clear()
                gr, ga, gerr = dict(r0), dict(a0), None
                probe = {}

                def capture(results, aux, **kw):
                    probe["aux"] = dict(aux)
                    return results, aux

                try:
                    gr = finalize_fns([*[built[i] for i in pipe], capture], results=gr, aux=ga, **local)
                except ERR as e:
                    gerr = type(e)
                what = f"pipeline {[menu[i] for i in pipe]} from results={r0} aux={a0} extra={local}"
                if (werr is None) != (gerr is None) or (werr is not gerr and werr in (ValueError, Boom)):
                    fail(f"{what}: raised {gerr and gerr.__name__}, expected {werr and werr.__name__}")
                if LOG != log and not (werr and werr is not Boom):
                    fail(f"{what}: functions called {LOG}, expected {log}")
                if werr is None:
                    if gr != wr:
                        fail(f"{what}: results {gr}, expected {wr}")
                    if probe["aux"] != wa:
                        fail(f"{what}: auxiliary data {probe['aux']}, expected {wa}")
                    outcomes.add(repr(sorted(gr.items(), key=str))[:300])
                    sample = sample or {"pipeline": str([menu[i] for i in pipe]), "results": str(gr)}
                else:
                    outcomes.add(werr.__name__)
    return {"states": count, "transitions": trans, "executions": count, "outcomes": sorted(outcomes)[:1500], "sample": sample}


# ----------------------------------------------------------------- wide and long pipelines
def plan_wide(c):
    n = c.choose("functions", [1, 17, 40, 130])
    m = c.choose("entries", [1, 9, 40, 130])
    fld = c.choose("field", ["results", "aux"])
    where = c.choose("sources", ["results", "aux", "mixed", "both"])
    nm = c.choose("names", ["list", "tuple", "same", "existing"])
    steps = c.choose("steps", [1, 3, 40])
    if steps == 40 and (n > 17 or m > 9) or n * m > 6000:
        raise Skip
    return n, m, fld, where, nm, steps


def check_wide(cfg):
    """Many functions, many entries, many steps: order, sources and destinations."""
    n, m, fld, where, nm, steps = cfg
    calls = []

    def mk(i):
        def fn(**kw):
            calls.append(i)
            return (i, tuple(sorted(kw.items(), key=lambda e: int(e[0][1:]))))

        return fn

    keys = [f"e{j}" for j in range(m)]
    res = {k: ("r", k) for j, k in enumerate(keys) if where in ("results", "both") or where == "mixed" and j % 2}
    aux = {k: ("a", k) for j, k in enumerate(keys) if where in ("aux", "both") or where == "mixed" and not j % 2}
    names = ["n0"] * n if nm == "same" else [keys[i % m] for i in range(n)] if nm == "existing" else [f"n{i}" for i in range(n)]
    names = tuple(names) if nm == "tuple" else names
    step = apply_fns(*[mk(i) for i in range(n)], names=names, field=fld, **{f"a{j}": keys[-1 - j] for j in range(m)})
    tr = transfer_entry({f"t{j}": k for j, k in enumerate(dict.fromkeys(names))}, field="results", access_from=fld)
    r, a = dict(res), dict(aux)
    for _ in range(steps):
        args = tuple((f"a{j}", r[keys[-1 - j]] if keys[-1 - j] in r else a[keys[-1 - j]]) for j in range(m))
        if nm == "existing" and steps > 1:
            args = tuple((k, hash(v)) for k, v in args)
        for i, name in enumerate(names):
            (r if fld == "results" else a)[name] = (i, args)
    got, seen = (dict(res), dict(aux)), []
    if nm == "existing" and steps > 1:  # nested values: compare hashes
        inner = step

        def step(results, aux, **kw):  # noqa: F811
            hs = lambda d: {k: hash(v) for k, v in d.items()}  # noqa: E731
            out = inner(hs(results), hs(aux), **kw)
            new = [k for k in dict.fromkeys(names)]
            return ({**results, **{k: out[0][k] for k in new}}, aux) if fld == "results" else (results, {**aux, **{k: out[1][k] for k in new}})

    def look(results, aux, **kw):
        seen.append((dict(results), dict(aux)))
        return results, aux

    out = finalize_fns([*[step] * steps, look, tr], results=got[0], aux=got[1])
    if calls != list(range(n)) * steps:
        fail(f"{cfg}: functions called {calls[:20]}...")
    if seen[0] != (r, a):
        fail(f"{cfg}: dictionaries differ from the reference in {[k for k in {**r, **a} if seen[0][0].get(k) != r.get(k) or seen[0][1].get(k) != a.get(k)][:5]}")
    src = dict(r) if fld == "results" else dict(a)
    want = {**r, **{f"t{j}": src[k] for j, k in enumerate(dict.fromkeys(names))}}
    if out != want:
        fail(f"{cfg}: transferred entries differ")
    return len(out)


# ----------------------------------------------------------------- construction errors
def plan_build(c):
    what = c.choose("what", ["apply", "transfer"])
    if what == "apply":
        return what, c.choose("functions", [(f, 3), (None,), ("f",), (f, g, {}), (f,), ()])
    return what, (c.choose("field", ["results", "aux", "other", "", None]), c.choose("from", ["results", "aux", "other", "", None]),
                  c.choose("mapping", [["x"], {"x": "y"}, [], {}]))


def check_build(cfg):
    what, v = cfg
    if what == "apply":
        if all(callable(x) for x in v):
            return callable(apply_fns(*v))
        return raises(TypeError, lambda: apply_fns(*v), f"apply_fns{v}")
    field, src, m = v
    go = lambda: transfer_entry(m, field=field, access_from=src)  # noqa: E731
    if field in ("results", "aux") and src in ("results", "aux"):
        snap = dict(m) if isinstance(m, dict) else list(m)
        out = go()({"x": 1, "y": 2}, {"x": 3, "y": 4})
        if snap != m or len(out) != 2:
            fail("mapping changed by transfer_entry")
        return out
    return raises(ValueError, go, f"transfer_entry(field={field}, access_from={src})")


# ----------------------------------------------------------------- traced arrays
def plan_jax(c):
    fld = c.choose("field", ["results", "aux"])
    nm = c.choose("names", [None, ["p", "q"], ["q", "p"]])
    order = c.choose("order", ["fs", "sf"])
    mode = c.choose("mode", ["eager", "jit", "vmap", "map"])
    via = c.choose("mapping", ["named", "crossed", "all"])
    return fld, nm, order, mode, via


def check_jax(cfg):
    fld, nm, order, mode, via = cfg

    def scaled(a, b, **kw):
        return a * 2 + b

    def total(a, b, **kw):
        return (a - b).sum()

    fs = [scaled, total] if order == "fs" else [total, scaled]
    m = {"named": {"a": "a", "b": "b"}, "crossed": {"a": "b", "b": "a"}, "all": {}}[via]
    ap = apply_fns(*fs, field=fld, **({} if nm is None else {"names": nm}), **m)
    tr = transfer_entry(nm or ["scaled", "total"], access_from=fld)
    X, Y = vals(6, 1).reshape(3, 2), vals(6, 2).reshape(3, 2)

    def one(d):
        return finalize_fns([ap, tr], results={}, aux=dict(d))

    data = {"a": jnp.asarray(X), "b": jnp.asarray(Y)}
    if mode in ("vmap", "map"):
        got = jax.vmap(one)(data) if mode == "vmap" else jax.lax.map(one, data)
        rows = [{k: A(v)[i] for k, v in got.items()} for i in range(3)]
    else:
        fn = jax.jit(one) if mode == "jit" else one
        rows = [fn({k: v[i] for k, v in data.items()}) for i in range(3)]
    for i, r in enumerate(rows):
        a, b = (Y[i], X[i]) if via == "crossed" else (X[i], Y[i])
        w = dict(zip(nm or [q.__name__ for q in fs], [a * 2 + b if q is scaled else (a - b).sum() for q in fs]))
        if set(w) != set(r):
            fail(f"fields {sorted(r)} instead of {sorted(w)}")
        for k in w:
            close(r[k], w[k], f"field {k} of {cfg}")
    return {k: A(v) for k, v in rows[0].items()}


def scenarios(tier):
    q = tier == "quick"
    ps = [("all", i, 3 if q else 4) for i in range(len(STEPS))] + [("core", i, 4 if q else 5) for i in range(len(CORE))]
    return [Search("pipelines", run, ps), Enum("wide", plan_wide, check_wide), Enum("construction", plan_build, check_build), Enum("arrays", plan_jax, check_jax)]
