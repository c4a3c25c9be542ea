"""C31 threads that share objects each get what they would have got alone."""

import threading

from checks.c30 import OPS, Env, World, reference, reset_registries, run, same
from mc.core import Dyn
from mc.lib import fail
from mc.sched import Coop

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of thread schedules of the real code: two threads under a cooperative scheduler run public operations on the same objects; control can change hands at every call of user code, and every schedule within the preemption bound is executed and compared with solo runs"
RULE = "every pair of operations x every schedule (switches at calls of user code) within the preemption bound"
BOUNDS = {
    "quick": "39 operations, each against itself and against a reduced-precision eigensolver, and a third partner by rotation; two threads; at most one preemption",
    "thorough": "two preemptions for each operation against itself and the eigensolver; every pair of operations with one",
}


class Shared(Env):
    """Calls of user code in a worker thread are scheduling points of that worker."""

    def __init__(self):
        super().__init__()
        self.local = threading.local()

    def tick(self, label):
        f = getattr(self.local, "point", None)
        if f is not None:
            f(label)


def body(c, setup):
    a, b, bound = setup
    reset_registries()
    ref = {"1": reference(a), "2": reference(b, 1)}
    reset_registries()
    try:
        env = Shared()
        w = World(env)
        out = {}
        coop = Coop(c, timeout=60, preemptions=bound)

        def worker(key, name, variant):
            def go(point):
                env.local.point = point
                point("start")
                out[key] = run(name, w, variant)

            return go

        if a == b:
            coop.first = "1"  # the threads differ only in their arguments
        err = coop.run({"1": worker("1", a, 0), "2": worker("2", b, 1)})
        order = "".join(n for n, _ in coop.trace)
        what = f"{a} and {b} at the same time ({order})"
        for k, e in err.items():
            if "scheduler timeout" in str(e):
                raise e
            fail(f"{what}: thread {k} fails with {e!r:.200}")
        for k in ("1", "2"):
            same(out[k], ref[k], f"{what}: thread {k}")
        w.check(what)
        if bound > 1:
            same(run(a, w), ref["1"], f"{a} after {what}")
        return [order]
    finally:
        reset_registries()


SINGLE = "lanczos_single"


def scenarios(tier):
    names = list(OPS)
    n = len(names)
    if tier == "quick":
        S = [(a, a, 1) for a in names] + [(a, SINGLE, 1) for a in names if a != SINGLE]
        S += [(a, names[(i + 11) % n], 1) for i, a in enumerate(names)]
    else:
        S = [(a, a, 2) for a in names] + [(a, SINGLE, 2) for a in names if a != SINGLE]
        S += [(a, b, 1) for i, a in enumerate(names) for b in names[i + 1 :]]
    return [Dyn("threads", body, S)]
