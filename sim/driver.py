"""Batch driver: seeds -> simulated runs (one forked child each) -> evidence, minimised replays."""
from . import core  # first: patches _thread and time
core.install()

import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MASK = (1 << 64) - 1


def _order_futures():
    """concurrent.futures orders and hashes futures by address: use their creation order instead."""
    import concurrent.futures._base as b
    import itertools
    n = itertools.count()
    init = b.Future.__init__

    def __init__(self):
        init(self)
        self._sim_n = next(n)

    class Acquire(b._AcquireFutures):
        def __init__(self, futures):
            self.futures = sorted(futures, key=hash)
    b.Future.__init__ = __init__
    b.Future.__hash__ = lambda self: self._sim_n
    b._AcquireFutures = Acquire


_order_futures()


class Violation(Exception):
    def __init__(self, cls, msg, prop=None):
        super().__init__(msg)
        self.cls = cls
        self.prop = prop


class HarnessError(Exception):
    pass


def seed_of(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


# ---- one run -----------------------------------------------------------------------------------

def blame(e):
    """The violation an exception stands for, or None if the harness itself failed.

    An exception that passed through the code under test, or that the workload or an oracle met
    while it used what the code under test gave it, is the code's; one about missing modules or
    private names (the harness does not fit this tree), or from the operating system, is not."""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = "%s:%s" % (last.filename, last.name) if last else "?"
    if any(f.filename.startswith("/repo/") for f in tb):
        if isinstance(e, MemoryError):
            return None
        return "unexpected exception %s: %s at %s" % (type(e).__name__, e, where)
    if isinstance(e, (ImportError, NameError, SyntaxError, OSError, MemoryError, AssertionError)):
        return None
    if isinstance(e, AttributeError) and str(getattr(e, "name", None) or "_").startswith("_"):
        return None
    if not isinstance(e, Exception):
        return None
    return "what the code gave cannot be used: %s: %s at %s" % (type(e).__name__, e, where)


class Run:
    """What a check sees of the running simulation (also: violation sink)."""

    def __init__(self, check, scenario, sched, strategy, out_fd, keep_history=False):
        self.check = check
        self.sc = scenario
        self.out_fd = out_fd
        self.keep = keep_history
        self.sim = core.Sim(strategy, sched)
        self.sim.on_deadlock = self._deadlock
        self.sim.on_overrun = self._overrun
        self.sim.on_timecap = self._timecap
        self.viol = None
        self.other = []
        self.error = None
        self.nontrivial = None
        self.finished = False
        self.pending = {}
        self.sched = sched
        self.children = []
        self.forked = False

    # -- API for checks
    def violate(self, cls, msg, prop=None):
        prop = prop or self.check.ID
        if self.forked:
            prop = self.check.ID
        if prop != self.check.ID:
            self.other.append((prop, cls))
            return
        if self.viol is None:
            self.viol = {"prop": prop, "cls": cls, "msg": msg}
        self.finish()

    def expect(self, cond, cls, msg, prop=None):
        if not cond:
            self.violate(cls, msg() if callable(msg) else msg, prop)

    def _deadlock(self, sim):
        d = "; ".join(sim.describe())
        if self.viol is None:
            self.viol = {"prop": self.check.ID, "cls": "deadlock",
                         "msg": "no task can ever run again: " + d}
        self.finish()

    def _timecap(self, sim):
        if self.viol is None:
            self.viol = {"prop": self.check.ID, "cls": "no-progress",
                         "msg": "simulated time ran to its cap without the operations finishing: pending %s; %s" % (
                             sorted(self.pending.values()), "; ".join(sim.describe()))}
        self.finish()

    def _overrun(self, sim):
        if self.viol is None:
            fr = sys._getframe()
            where = ""
            while fr is not None:
                if fr.f_code.co_filename.startswith("/repo/"):
                    where = "%s:%d" % (fr.f_code.co_filename, fr.f_lineno)
                    break
                fr = fr.f_back
            self.viol = {"prop": self.check.ID, "cls": "livelock",
                         "msg": "a task made %d steps without finishing, last in %s" % (sim.max_events, where)}
        self.finish()

    def fail(self, err):
        self.error = err
        self.finish()

    def blame(self, e, prefix=""):
        b = blame(e)
        if b is None:
            self.fail(prefix + "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        self.violate("exception", prefix + b)

    def result(self):
        sim = self.sim
        h = hashlib.blake2b(digest_size=12)
        for e in sim.history:
            h.update(repr(e).encode())
        res = {
            "viol": self.viol, "error": self.error, "other": self.other,
            "events": sum(t.n for t in sim.tasks), "switches": sim.switches, "preempts": sim.preempts,
            "tasks": len(sim.tasks), "sim_ns": sim.elapsed_ns(), "faults": sim.faults,
            "probes": sim.probes, "sched": sim.sched_hash, "digest": h.hexdigest(),
            "trace": sim.trace if (self.viol or self.keep) else None,
            "nontrivial": bool(sim.preempts or sim.faults) if self.nontrivial is None else self.nontrivial, "deaths": sim.thread_deaths,
        }
        if self.keep:
            res["history"] = sim.history
        return res

    def finish(self):
        """Ends the whole run from whatever thread calls it."""
        if not self.finished:
            self.finished = True
            self.sim.active = False
            data = pickle.dumps(self.result())
            fd = self.out_fd
            buf = struct.pack("<I", len(data)) + data
            while buf:
                buf = buf[os.write(fd, buf):]
        os._exit(0)


def _child(check, scenario, sched, strategy, fd, keep):
    run = Run(check, scenario, sched, strategy, fd, keep)
    sim = run.sim
    try:
        random.seed(scenario.get("seed", 0))
        core.instrument(check.codes, sched.get("gran", "line"))
        import threading

        def hook(args):
            e = args.exc_value
            if isinstance(e, Violation):
                run.viol = run.viol or {"prop": e.prop or check.ID, "cls": e.cls, "msg": str(e)}
                run.finish()
            sim.thread_deaths.append((sim.cur.name, "%s: %s" % (type(e).__name__, e)))

        threading.excepthook = hook
        from checks import common
        common.KIND[0] = scenario.get("boom_kind", 0)
        sim.start()
        check.run(run, scenario)
    except Violation as e:
        if (e.prop or check.ID) == check.ID:
            run.viol = run.viol or {"prop": check.ID, "cls": e.cls, "msg": str(e)}
        else:
            run.other.append((e.prop, e.cls))
    except BaseException as e:
        run.blame(e)
    run.finish()


def sim_fork(run, child_main):
    """os.fork() inside the simulation.  The child keeps only the forking task and runs
    child_main(); the parent waits for it (in real time, not simulated) and returns its result."""
    sim = run.sim
    r, w = os.pipe()
    sim.nopreempt += 1
    sim.fault("fork")
    pid = os.fork()
    if pid == 0:
        os.close(r)
        run.out_fd = w
        run.forked = True
        sim.trace = []
        cfg = dict(run.sched)
        sim.strategy = core.Seeded(random.Random(seed_of(run.sched["seed"], "child", len(run.children))), cfg)
        sim.strategy.attach(sim)
        for t in sim.tasks:
            sim.strategy.scheduled(t)
        sim.nopreempt -= 1
        try:
            child_main()
        except Violation as e:
            run.violate(e.cls, str(e), e.prop)
        except BaseException as e:
            run.blame(e, "in forked child: ")
        run.finish()
    os.close(w)
    data = b""
    deadline = core.real_monotonic() + 60
    while True:
        left = deadline - core.real_monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    sim.nopreempt -= 1
    if len(data) < 4:
        run.fail("forked child gave no result")
    res = pickle.loads(data[4:])
    run.children.append(res)
    sim.ev("child", res["digest"])
    for k, v in res["probes"].items():
        sim.probe("child_" + k, v)
    if res["error"]:
        run.fail(res["error"])
    if res["viol"]:
        run.viol = dict(res["viol"], msg="in the forked child: " + res["viol"]["msg"])
        run.finish()
    run.other.extend(res["other"])
    return res


def _child_at_fork():
    s = core.SIM
    if s is not None:
        s.after_fork_in_child()


os.register_at_fork(after_in_child=_child_at_fork)


def execute(check, scenario, sched, strategy, timeout=120, keep=False):
    """Run in a forked child; returns its result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child(check, scenario, sched, strategy, w, keep)
        finally:
            os._exit(77)
    os.close(w)
    data = b""
    err = None
    deadline = core.real_monotonic() + timeout
    try:
        while True:
            left = deadline - core.real_monotonic()
            if left <= 0:
                err = "run did not end within %d s of real time" % timeout
                break
            rr, _, _ = select.select([r], [], [], left)
            if not rr:
                continue
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
            if len(data) >= 4 and len(data) - 4 >= struct.unpack("<I", data[:4])[0]:
                break
    finally:
        os.close(r)
    if err:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if err is None and (len(data) < 4 or len(data) - 4 < struct.unpack("<I", data[:4])[0]):
        err = "child ended with status %r and no result" % st
    if err:
        return {"viol": None, "error": err, "other": [], "events": 0, "switches": 0, "preempts": 0, "tasks": 0,
                "sim_ns": 0, "faults": {}, "probes": {}, "sched": 0, "digest": "", "trace": None,
                "nontrivial": False, "deaths": []}
    return pickle.loads(data[4:])


def strategy_for(sched, trace=None):
    if trace is not None:
        return core.Replay(trace)
    return core.Seeded(random.Random(sched["seed"]), sched)


def gen_case(check, base, i, tier):
    """Seed number i -> (scenario, schedule configuration).  Pure."""
    s = seed_of(base, check.ID, i)
    rng = random.Random(s)
    sc = check.gen(rng, tier)
    sc["boom_kind"] = rng.choice([0, 0, 0, rng.randrange(10)])
    sc["gate"] = int(rng.random() < 0.4)        # clients start together or one by one
    sc["seed"] = s
    sched = check.sched(rng, sc, tier)
    sched["seed"] = seed_of(s, "sched")
    return sc, sched


# ---- batch ---------------------------------------------------------------------------------------

def _worker(check, base, ids, tier, deadline, wfd, stopfd, stop_on_violation=True):
    agg = new_agg()
    fh = open("/dev/null")
    for i in ids:
        if core.real_monotonic() > deadline:
            agg["capped"] = True
            break
        if select.select([stopfd], [], [], 0)[0]:
            break
        try:
            sc, sched = gen_case(check, base, i, tier)
            res = execute(check, sc, sched, strategy_for(sched))
        except Exception:
            agg["errors"].append((i, traceback.format_exc()))
            break
        fold(agg, i, res, sc, sched)
        if res["viol"]:
            agg["violations"].append({"i": i, "scenario": sc, "schedcfg": sched, "viol": res["viol"],
                                      "trace": res["trace"], "digest": res["digest"]})
            if stop_on_violation and len(agg["violations"]) >= 1:
                break
        if res["error"]:
            agg["errors"].append((i, res["error"]))
            if len(agg["errors"]) >= 3:
                break
    data = pickle.dumps(agg)
    buf = struct.pack("<I", len(data)) + data
    while buf:
        buf = buf[os.write(wfd, buf):]
    os._exit(0)


def new_agg():
    return {"runs": 0, "events": 0, "switches": 0, "preempts": 0, "sim_ns": 0, "faults": {}, "probes": {},
            "scheds": set(), "digests": set(), "nontrivial": set(), "violations": [], "errors": [], "other": {},
            "capped": False, "tasks": 0, "deaths": {}, "runs_with_fault": {}, "sample": []}


def fold(agg, i, res, sc, sched):
    agg["runs"] += 1
    for k in ("events", "switches", "preempts", "sim_ns", "tasks"):
        agg[k] += res[k]
    for k in ("faults", "probes"):
        for n, v in res[k].items():
            agg[k][n] = agg[k].get(n, 0) + v
    for n in res["faults"]:
        agg["runs_with_fault"][n] = agg["runs_with_fault"].get(n, 0) + 1
    agg["scheds"].add(res["sched"])
    agg["digests"].add(res["digest"])
    if res["nontrivial"]:
        agg["nontrivial"].add((res["sched"], res["digest"]))
    for p, c in res["other"]:
        k = "%s:%s" % (p, c)
        agg["other"][k] = agg["other"].get(k, 0) + 1
    for d in res["deaths"]:
        agg["deaths"][d[1]] = agg["deaths"].get(d[1], 0) + 1
    if len(agg["sample"]) < 1:
        agg["sample"].append({"run": i, "scenario": sc, "schedule": sched, "events": res["events"],
                              "switches": res["switches"], "simulated_s": round(res["sim_ns"] / 1e9, 3)})


def merge(a, b):
    for k in ("runs", "events", "switches", "preempts", "sim_ns", "tasks"):
        a[k] += b[k]
    for k in ("faults", "probes", "other", "deaths", "runs_with_fault"):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    for k in ("scheds", "digests", "nontrivial"):
        a[k] |= b[k]
    for k in ("violations", "errors", "sample"):
        a[k] += b[k]
    a["capped"] = a["capped"] or b["capped"]


def batch(check, base, n_runs, tier, wall_s, workers=8, stop_on_violation=True, first=0):
    gc.collect()
    gc.freeze()
    gc.disable()
    deadline = core.real_monotonic() + wall_s
    stop_r, stop_w = os.pipe()
    kids = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(check, base, range(first + w, first + n_runs, workers), tier, deadline, wr, stop_r, stop_on_violation)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(78)
        os.close(wr)
        kids[r] = [pid, b""]
    agg = new_agg()
    stopped = False
    while kids:
        rr, _, _ = select.select(list(kids), [], [], wall_s + 300)
        if not rr:
            raise HarnessError("workers hang")
        for r in rr:
            chunk = os.read(r, 1 << 20)
            if chunk:
                kids[r][1] += chunk
                continue
            pid, data = kids.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            if len(data) < 4:
                agg["errors"].append((-1, "worker died"))
                continue
            part = pickle.loads(data[4:])
            merge(agg, part)
            if part["violations"] and stop_on_violation and not stopped:
                stopped = True
                os.write(stop_w, b"x")
    os.close(stop_r)
    os.close(stop_w)
    return agg


# ---- minimisation -----------------------------------------------------------------------------------

class Minimiser:
    def __init__(self, check, v, budget_s):
        self.check = check
        self.prop = v["viol"]["prop"]
        self.cls = v["viol"]["cls"]
        self.sched = dict(v["schedcfg"])
        self.deadline = core.real_monotonic() + budget_s
        self.tries = 0

    def out_of_time(self):
        return core.real_monotonic() > self.deadline

    def attempt(self, sc, trace, sched=None):
        self.tries += 1
        sched = sched or self.sched
        res = execute(self.check, sc, sched, strategy_for(sched, trace), timeout=60)
        v = res["viol"]
        if v and v["prop"] == self.prop and v["cls"] == self.cls:
            return res
        return None

    def search(self, sc, trace, n_seeds):
        res = self.attempt(sc, trace)
        if res:
            return res
        for k in range(n_seeds):
            if self.out_of_time():
                return None
            sched = dict(self.sched)
            sched["seed"] = seed_of(self.sched["seed"], "min", k)
            res = self.attempt(sc, None, sched)
            if res:
                return res
        return None

    def run(self, sc, trace):
        best = self.attempt(sc, trace)
        if not best:
            return None
        sc = json.loads(json.dumps(sc))
        trace = best["trace"]
        # 1. scenario: drop list elements, largest chunks first
        progress = True
        while progress and not self.out_of_time():
            progress = False
            for path, lst in sorted(list(_lists(sc)), key=lambda e: -len(e[1])):
                n = len(lst)
                chunk = n
                while chunk >= 1 and not self.out_of_time():
                    i = 0
                    while i < len(_get(sc, path, [])) and not self.out_of_time():
                        cand = json.loads(json.dumps(sc))
                        l = _get(cand, path, None)
                        if l is None:
                            break
                        del l[i:i + chunk]
                        res = self.search(cand, trace, 6)
                        if res:
                            sc, trace, progress = cand, res["trace"], True
                        else:
                            i += chunk
                    chunk //= 2
        # 2. schedule: drop decisions
        chunk = max(1, len(trace) // 2)
        while chunk >= 1 and not self.out_of_time():
            i = 0
            while i < len(trace) and not self.out_of_time():
                cand = trace[:i] + trace[i + chunk:]
                res = self.attempt(sc, cand)
                if res:
                    trace = cand if len(res["trace"]) >= len(cand) else res["trace"]
                else:
                    i += chunk
            if chunk == 1:
                break
            chunk //= 2
        return sc, trace


def _lists(node, path=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if isinstance(k, str) and k.startswith("_"):
                continue
            yield from _lists(v, path + (k,))
    elif isinstance(node, list):
        if node and not (len(node) and isinstance(node[0], str) and path and isinstance(path[-1], int)):
            yield path, node
            for i, v in enumerate(node):
                yield from _lists(v, path + (i,))


def _get(node, path, default):
    try:
        for p in path:
            node = node[p]
        return node
    except (KeyError, IndexError, TypeError):
        return default
