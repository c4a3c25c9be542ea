"""A cooperative scheduler: exactly one thread runs at a time and control changes
hands only at explicit yield points, so a choice sequence determines the schedule."""

from __future__ import annotations

import threading


class Coop:
    def __init__(self, chooser, timeout=120, preemptions=None):
        """preemptions: at most so many switches away from a worker that could go on (None: unbounded)."""
        self.c, self.timeout, self.left = chooser, timeout, preemptions
        self.sem, self.state, self.err = {}, {}, {}
        self.main = threading.Semaphore(0)
        self.trace = []
        self.first = None  # fixed first pick

    def point(self, name, label=""):
        """Called by a worker: hand control back to the scheduler."""
        self.trace.append((name, label))
        self.main.release()
        if not self.sem[name].acquire(timeout=self.timeout):
            raise RuntimeError("scheduler timeout")

    def run(self, fns):
        def body(name, fn):
            self.sem[name].acquire()
            try:
                fn(lambda label="": self.point(name, label))
            except BaseException as e:  # noqa: BLE001
                self.err[name] = e
            finally:
                self.state[name] = "done"
                self.main.release()

        ths = []
        for name, fn in fns.items():
            self.sem[name] = threading.Semaphore(0)
            self.state[name] = "ready"
            t = threading.Thread(target=body, args=(name, fn), daemon=True)
            t.start()
            ths.append(t)
        step, cur = 0, None
        first = self.first
        while True:
            ready = [n for n in fns if self.state[n] == "ready"]
            if not ready:
                break
            if self.left is not None and cur in ready:
                ready = [cur, *(n for n in ready if n != cur and self.left)]
            if step == 0 and first in ready:
                ready = [first]
            pick = self.c.choose(f"run{step}", ready) if len(ready) > 1 else ready[0]
            if self.left is not None and cur in ready and pick != cur:
                self.left -= 1
            cur = pick
            step += 1
            self.sem[pick].release()
            if not self.main.acquire(timeout=self.timeout):
                raise RuntimeError("scheduler timeout")
        for t in ths:
            t.join(self.timeout)
        return self.err
