"""Helpers shared by the checks (imported after sim.core patched the primitives)."""
import threading
import time

MS = 1_000_000
SEC = 1_000_000_000


class Abort(Exception):
    pass


class Boom(Exception):
    """Raised by a stub component where the run injects such a fault; the scenario's "boom_kind"
    decides which built-in exception it is as well."""

    def __new__(cls, *a):
        if cls is Boom and MIXED[KIND[0] % len(MIXED)]:
            cls = MIXED[KIND[0] % len(MIXED)]
        return super(Boom, cls).__new__(cls, *a)


MIXED = [None] + [type("Boom", (Boom, b), {}) for b in (RuntimeError, ValueError, OSError, TimeoutError, TypeError, AttributeError, ConnectionError,
                                                       LookupError, StopAsyncIteration)]
KIND = [0]


def clients(run, progs, step, name="client"):
    """Run each program (a list of ops) in its own simulated thread; step(run, tid, op)."""
    ths = []
    gate = threading.Event() if run.sc.get("gate") else None

    def body(tid, prog):
        if gate:
            gate.wait()
        for k, op in enumerate(prog):
            step(run, tid, op)

    for tid, prog in enumerate(progs):
        th = threading.Thread(target=guard(run, body), args=(tid, prog), name="%s-%d" % (name, tid), daemon=True)
        ths.append(th)
    for th in ths:
        th.start()
    if gate:
        gate.set()
    for th in ths:
        th.join()


def guard(run, fn):
    """An exception out of harness-driven code is a violation of the check's own property unless
    the step handles it: public calls of the workload must not raise (see driver.blame)."""
    def g(*a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa
            if type(e).__name__ == "Violation":
                run.violate(e.cls, str(e), e.prop)
            run.blame(e)
    return g


def sleep_ns(sim, ns):
    time.sleep(ns / 1e9)
