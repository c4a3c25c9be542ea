"""Stateless / explicit-state exploration of the real laplax implementation.

A *scenario* is a closed driver around laplax.  Every nondeterministic decision
(shape, value, option, operation, fault position, scheduler pick, ...) goes
through ``Chooser.choose``; the explorer enumerates *every* sequence of choices
depth-first (no sampling, no time-dependent cut).  Two kinds:

``Enum(plan, check)``
    ``plan(c)`` makes all choices without touching laplax and returns a config;
    ``check(cfg)`` executes the real code for it and compares with a reference
    model.  Plans are enumerated in the parent, checks are spread over workers.

``Dyn(body, params)``
    ``body(c, param)`` executes the real code *while* choosing (fault positions,
    scheduler picks, dynamic operation menus).  Each ``param`` is a root; the
    explorer re-executes the body for every choice sequence below that root.

``Search(run, params)``
    explicit-state breadth-first search (``bfs``) written by the scenario.
"""

from __future__ import annotations

import dataclasses
import hashlib
import json
from collections import deque
from typing import Any, Callable

import numpy as np


class Violation(AssertionError):
    """The property does not hold on this execution."""

    def __init__(self, msg: str, sig: str | None = None):
        super().__init__(msg)
        self.sig = sig


class Divergence(RuntimeError):
    """A replayed prefix met a different choice point: harness error."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points: list[tuple[str, int, int]] = []
        self.labels: list[tuple[str, Any]] = []

    def choose(self, label: str, options):
        options = list(options)
        n = len(options)
        if n == 0:
            raise Divergence(f"empty choice {label}")
        k = len(self.points)
        if k < len(self.prefix):
            want = self.prefix[k]
            i = want
            if not 0 <= i < n:
                raise Divergence(f"choice {label}: index {i} out of {n}")
        else:
            i = 0
        self.points.append((label, n, i))
        self.labels.append((label, options[i]))
        return options[i]

    @property
    def trace(self):
        return [p[2] for p in self.points]


class Skip(Exception):
    """Raised by a plan to prune a configuration that is not in the space."""


def next_prefix(points, lo=0):
    """Deepest choice point (index >= lo) with an untried alternative."""
    k = len(points) - 1
    while k >= lo:
        _, n, i = points[k]
        if i + 1 < n:
            return [p[2] for p in points[:k]] + [i + 1]
        k -= 1
    return None


def enumerate_plan(plan: Callable[[Chooser], Any]):
    """Yield (trace, cfg) for every choice sequence; also count tree nodes."""
    prefix: list[int] | None = []
    while prefix is not None:
        c = Chooser(prefix)
        try:
            cfg = plan(c)
            skip = False
        except Skip:
            cfg, skip = None, True
        if c.trace[: len(prefix)] != prefix:
            raise Divergence("plan is not deterministic")
        yield c, cfg, skip, len(prefix)
        prefix = next_prefix(c.points)


def digest(obs) -> str:
    """Stable digest of an observation (arrays rounded to 6 significant digits)."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                feed(x)
            h.update(b"]")
        elif isinstance(o, (str, bytes, bool, int, type(None))):
            h.update(repr(o).encode())
        else:
            try:
                a = np.asarray(o)
                if a.dtype == object:
                    raise TypeError
                if a.dtype.kind in "fc":
                    a = a.astype(np.float64)
                    with np.errstate(all="ignore"):
                        mag = np.where(a == 0, 1.0, np.abs(a))
                        p = 10.0 ** np.floor(np.log10(np.where(np.isfinite(mag), mag, 1)))
                        a = np.round(a / p, 4) * p
                h.update(str(a.shape).encode())
                h.update(np.ascontiguousarray(a).tobytes())
            except Exception:
                h.update(repr(type(o)).encode())

    feed(obs)
    return h.hexdigest()


@dataclasses.dataclass
class Enum:
    name: str
    plan: Callable
    check: Callable
    x64: bool | None = True  # None: check handles it
    disable_jit: bool = False
    kind: str = "enum"


@dataclasses.dataclass
class Dyn:
    name: str
    body: Callable
    params: list
    x64: bool | None = True
    max_exec: int = 200000
    kind: str = "dyn"


@dataclasses.dataclass
class Search:
    """``run(param, report)`` performs its own explicit-state search.

    It returns dict(states=, transitions=, executions=, outcomes=set/list).
    """

    name: str
    run: Callable
    params: list
    x64: bool | None = True
    kind: str = "search"


def bfs(initial, enabled, step, canon, invariant=None, depth=None):
    """Explicit-state BFS by history replay.

    ``step(history)`` builds a fresh real object, replays ``history`` on it and
    on the reference model, comparing after the last operation; it returns the
    observed state.  ``canon`` maps an observed state to a hashable key.
    """
    s0 = step([])
    seen = {canon(s0): []}
    frontier = deque([[]])
    transitions = 0
    maxdepth = 0
    while frontier:
        hist = frontier.popleft()
        if depth is not None and len(hist) >= depth:
            continue
        for op in enabled(hist):
            nxt = hist + [op]
            s = step(nxt)
            transitions += 1
            if invariant:
                invariant(s, nxt)
            k = canon(s)
            if k not in seen:
                seen[k] = nxt
                maxdepth = max(maxdepth, len(nxt))
                frontier.append(nxt)
    return {"states": len(seen), "transitions": transitions, "depth": maxdepth}


def jsonable(o):
    try:
        json.dumps(o)
        return o
    except TypeError:
        pass
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)
