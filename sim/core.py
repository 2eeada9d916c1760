"""Deterministic scheduler, locks and clocks.

MUST be imported before `threading` (it replaces the primitives of `_thread` and `time` that
`threading`, `queue`, `concurrent.futures`, `logging`, `asyncio` and the code under test bind).

Every simulated task is a real Python thread parked on a real lock (its baton); exactly one task
runs at a time and hands the baton on only inside `Sim.point` / `Sim.block` / thread exit.  Which
task gets it is decided by the strategy: seeded (exploration) or a recorded trace (replay).
"""
import sys
import _thread
import time as _time_mod

if "threading" in sys.modules:  # pragma: no cover
    raise RuntimeError("sim.core must be imported before threading")

# ---- the real primitives ---------------------------------------------------------------
real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
real_get_ident = _thread.get_ident
real_set_sentinel = _thread._set_sentinel
real_monotonic = _time_mod.monotonic
real_monotonic_ns = _time_mod.monotonic_ns
real_time = _time_mod.time
real_time_ns = _time_mod.time_ns
real_sleep = _time_mod.sleep
real_perf_counter = _time_mod.perf_counter
real_perf_counter_ns = _time_mod.perf_counter_ns
TIMEOUT_MAX = _thread.TIMEOUT_MAX

INF = 1 << 62
BASE_WALL_NS = 1_700_000_000_000_000_000
BASE_MONO_NS = 5_000_000_000_000

RUN, BLOCKED, DONE = 0, 1, 2

SIM = None  # the active simulation (None outside a run)


class SimAbort(BaseException):
    pass


class Task:
    __slots__ = ("id", "name", "baton", "state", "deadline", "timed_out", "waiting_on", "n",
                 "next_n", "prio", "sentinel", "ident", "stalled", "exc", "user", "held", "trace_pos",
                 "trace_list")

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.state = RUN
        self.deadline = None
        self.timed_out = False
        self.waiting_on = None
        self.n = 0
        self.next_n = INF
        self.prio = 0
        self.sentinel = None
        self.ident = None
        self.stalled = False
        self.exc = None
        self.user = None
        self.held = 0
        self.trace_pos = 0
        self.trace_list = None


class Sim:
    """One simulated execution."""

    def __init__(self, strategy, cfg):
        self.cfg = cfg
        self.tick = cfg.get("tick_ns", 0)          # added to the clock at every clock read
        self.gran_ns = cfg.get("gran_ns", 1)       # wall clock granularity
        self.now = BASE_MONO_NS
        self.wall_off = BASE_WALL_NS - BASE_MONO_NS
        self.tasks = []
        self.cur = None
        self.strategy = strategy
        self.active = False
        self.nopreempt = 0
        self.max_events = cfg.get("max_events", 3_000_000)
        self.max_now = BASE_MONO_NS + cfg.get("max_sim_ns", 40 * 24 * 3600 * 1_000_000_000)
        self.on_timecap = None
        self.seq = 0
        self.switches = 0
        self.preempts = 0
        self.sched_hash = 0
        self.faults = {}
        self.probes = {}
        self.trace = []            # recorded non-default decisions
        self.stall_total = 0
        self.stall_log = []
        self.stalls_on = True
        self.on_deadlock = None    # callback(sim, description) - must not return
        self.on_overrun = None
        self.thread_deaths = []
        self.history = []
        strategy.attach(self)

    # -- bookkeeping for harnesses --------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def ev(self, kind, *data):
        """Append to the history; returns the global sequence number."""
        self.seq += 1
        self.history.append((self.seq, self.now - BASE_MONO_NS, self.cur.id if self.cur else -1, kind) + data)
        return self.seq

    def stamp(self):
        self.seq += 1
        return self.seq

    # -- clock -------------------------------------------------------------------------
    def read_mono(self):
        self.now += self.tick
        return self.now

    def read_wall(self):
        self.now += self.tick
        w = self.now + self.wall_off
        if self.gran_ns > 1:
            w -= w % self.gran_ns
        return w

    def jump_wall(self, delta_ns):
        self.wall_off += delta_ns
        self.fault("wall_clock_jump_back" if delta_ns < 0 else "wall_clock_jump_forward")

    def stall_time(self, t0, t1):
        """Total injected stall time overlapping [t0, t1]."""
        return sum(max(0, min(b, t1) - max(a, t0)) for a, b in self.stall_log)

    def elapsed_ns(self):
        return self.now - BASE_MONO_NS

    # -- tasks ----------------------------------------------------------------------------
    def new_task(self, name):
        t = Task(len(self.tasks), name)
        self.tasks.append(t)
        self.strategy.new_task(t)
        return t

    def runnable(self):
        return [t for t in self.tasks if t.state == RUN]

    def wake_due(self):
        now = self.now
        for t in self.tasks:
            if t.state == BLOCKED and t.deadline is not None and t.deadline <= now:
                self._wake(t, True)

    def _wake(self, t, timed_out):
        t.state = RUN
        t.timed_out = timed_out
        t.deadline = None
        t.stalled = False
        w = t.waiting_on
        if w is not None:
            t.waiting_on = None
            if timed_out:
                try:
                    w.remove(t)
                except ValueError:
                    pass

    def _advance(self):
        """Nothing runnable: jump to the earliest deadline.  False when there is none."""
        d = None
        for t in self.tasks:
            if t.state == BLOCKED and t.deadline is not None and (d is None or t.deadline < d):
                d = t.deadline
        if d is None:
            return False
        if d > self.now:
            if d > self.max_now:
                self.on_timecap(self)
            self.now = d
        self.wake_due()
        return True

    def _switch_to(self, nxt):
        """Hand the baton to nxt; returns when this task gets it back."""
        me = self.cur
        if nxt is me:
            return
        self.switches += 1
        self.sched_hash = (self.sched_hash * 1000003 + (me.id << 40) + (me.n << 8) + nxt.id) & 0xFFFFFFFFFFFFFFFF
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()

    # -- scheduling points --------------------------------------------------------------
    def point(self, kind=0):
        """A sync point of the running task (lock op, sleep(0), thread start)."""
        me = self.cur
        me.n += 1
        if self.nopreempt:
            return
        if me.n > self.max_events:
            self.on_overrun(self)
        self.strategy.sync_point(me)

    def code_event(self):
        """Slow path of the byte-code callback: me.n >= me.next_n."""
        me = self.cur
        if me.n > self.max_events:
            self.on_overrun(self)
        if self.nopreempt:
            me.next_n = me.n + 1
            return
        self.strategy.code_point(me)

    def preempt_to(self, nxt):
        self.preempts += 1
        self._switch_to(nxt)

    def stall(self, dur_ns):
        """The running task is suspended for dur_ns of virtual time."""
        me = self.cur
        me.state = BLOCKED
        me.deadline = self.now + dur_ns
        me.waiting_on = None
        me.stalled = True
        self.stall_total += dur_ns
        self.stall_log.append((self.now, self.now + dur_ns))
        self.fault("thread_stall")
        self._resched()

    def block(self, waiters, deadline):
        """Block the running task; returns True if woken, False if timed out."""
        me = self.cur
        me.n += 1
        me.state = BLOCKED
        me.deadline = deadline
        me.waiting_on = waiters
        me.timed_out = False
        if waiters is not None:
            waiters.append(me)
        self._resched()
        return not me.timed_out

    def _resched(self):
        me = self.cur
        self.wake_due()
        r = self.runnable()
        while not r:
            if not self._advance():
                self.on_deadlock(self)
            r = self.runnable()
        nxt = self.strategy.pick(me, r)
        self._switch_to(nxt)

    def wake_all(self, waiters):
        for t in waiters:
            if t.state != BLOCKED:
                continue      # a task that did not survive a fork
            t.state = RUN
            t.timed_out = False
            t.deadline = None
            t.waiting_on = None
        del waiters[:]

    # -- threads ------------------------------------------------------------------------------
    def spawn(self, func, args, kwargs):
        t = self.new_task(getattr(func, "__name__", "thread"))

        def tramp():
            t.baton.acquire()
            try:
                func(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException as e:  # noqa
                t.exc = e
                self.thread_deaths.append((t.id, repr(e)))
            self._exit_task(t)

        real_start_new_thread(tramp, ())
        return t

    def _exit_task(self, t):
        t.state = DONE
        t.n += 1
        s = t.sentinel
        if s is not None:
            s._locked = False
            self.wake_all(s._waiters)
        self.wake_due()
        r = self.runnable()
        while not r:
            if not self._advance():
                self.on_deadlock(self)
            r = self.runnable()
        nxt = self.strategy.pick(t, r)
        self.switches += 1
        self.sched_hash = (self.sched_hash * 1000003 + (t.id << 40) + (t.n << 8) + nxt.id) & 0xFFFFFFFFFFFFFFFF
        self.cur = nxt
        nxt.baton.release()

    def start(self):
        """Make the calling (main) thread task 0."""
        global SIM
        t = self.new_task("main")
        self.cur = t
        SIM = self
        self.active = True
        self.strategy.scheduled(t)

    def stop(self):
        global SIM
        self.active = False
        SIM = None

    def after_fork_in_child(self):
        """Only the forking task exists in the child."""
        me = self.cur
        for t in self.tasks:
            if t is not me:
                t.state = DONE
                t.deadline = None
        for t in self.tasks:
            t.waiting_on = None

    def describe(self):
        out = []
        for t in self.tasks:
            if t.state == DONE:
                continue
            out.append("task %d %s %s%s" % (t.id, t.name, "blocked" if t.state == BLOCKED else "runnable",
                                              "" if t.deadline is None else " until +%.6fs" % ((t.deadline - BASE_MONO_NS) / 1e9)))
        return out


# ---- strategies -----------------------------------------------------------------------------

class Seeded:
    """Seeded random exploration; records every non-default decision in sim.trace."""

    def __init__(self, rng, cfg):
        self.rng = rng
        self.r = rng.random
        self.mode = cfg.get("policy", "random")       # random | pct
        self.p_sync = cfg.get("p_sync", 0.3)
        self.gap = cfg.get("gap", 0)                    # mean number of code events between preemptions
        self.stall_p = cfg.get("stall_p", 0.0)          # chance that a preemption is a stall
        self.stall_ns = cfg.get("stall_ns", [1_000_000])
        self.max_preempt = cfg.get("max_preempt", 1 << 30)
        self.left = self.max_preempt
        self.sleep_bias = None

    def attach(self, sim):
        self.sim = sim

    def new_task(self, t):
        t.prio = self.r()
        self.scheduled(t)

    def draw(self):
        if not self.gap or self.left <= 0:
            return INF
        # geometric-ish gap
        return 1 + int(self.rng.expovariate(1.0 / self.gap))

    def scheduled(self, t):
        t.next_n = t.n + self.draw()
        if t.next_n > self.sim.max_events:
            t.next_n = self.sim.max_events + 1

    def code_point(self, me):
        sim = self.sim
        if len(sim.tasks) == 1:
            self.scheduled(me)
            return
        self.left -= 1
        if self.mode == "pct":
            me.prio = -self.r()
        if self.stall_p and sim.stalls_on and self.r() < self.stall_p:
            d = self.rng.choice(self.stall_ns)
            sim.trace.append((me.id, me.n, "s", d))
            self.scheduled(me)
            sim.stall(d)
            return
        sim.wake_due()
        r = sim.runnable()
        self.scheduled(me)
        if len(r) > 1:
            nxt = self.choose(me, r)
            if nxt is not me:
                sim.trace.append((me.id, me.n, "t", nxt.id))
                sim.preempt_to(nxt)

    def choose(self, me, r):
        if self.mode == "pct":
            return max(r, key=_prio)
        return r[int(self.r() * len(r))]

    def sync_point(self, me):
        if self.mode == "pct":
            if len(self.sim.tasks) > 1:
                r = self.sim.runnable()
                nxt = max(r, key=_prio)
                if nxt is not me:
                    self.sim.trace.append((me.id, me.n, "t", nxt.id))
                    self.sim.preempt_to(nxt)
            return
        if self.r() < self.p_sync:
            sim = self.sim
            r = sim.runnable()
            if len(r) > 1:
                nxt = r[int(self.r() * len(r))]
                if nxt is not me:
                    sim.trace.append((me.id, me.n, "t", nxt.id))
                    sim.preempt_to(nxt)

    def pick(self, me, r):
        if len(r) == 1:
            return r[0]
        nxt = self.choose(me, r)
        d = default_pick(me, r)
        if nxt is not d:
            self.sim.trace.append((me.id, me.n, "b", nxt.id))
        return nxt


def _prio(t):
    return t.prio


def default_pick(me, r):
    for t in r:
        if t.id > me.id:
            return t
    return r[0]


class Replay:
    """Follows a recorded trace: list of (task, n, kind, arg)."""

    def __init__(self, trace):
        self.by_task = {}
        self.picks = {}
        for (tid, n, kind, arg) in trace:
            if kind == "b":
                self.picks[(tid, n)] = arg
            else:
                self.by_task.setdefault(tid, []).append((n, kind, arg))
        for v in self.by_task.values():
            v.sort(key=lambda e: e[0])

    def attach(self, sim):
        self.sim = sim

    def new_task(self, t):
        t.trace_list = self.by_task.get(t.id, [])
        t.trace_pos = 0
        self.scheduled(t)

    def scheduled(self, t):
        tl = t.trace_list
        while t.trace_pos < len(tl) and tl[t.trace_pos][0] <= t.n:
            t.trace_pos += 1
        t.next_n = tl[t.trace_pos][0] if t.trace_pos < len(tl) else self.sim.max_events + 1

    def _at(self, me):
        tl = me.trace_list
        if me.trace_pos < len(tl) and tl[me.trace_pos][0] == me.n:
            n, kind, arg = tl[me.trace_pos]
            self.scheduled(me)
            sim = self.sim
            if kind == "s":
                sim.trace.append((me.id, me.n, "s", arg))
                sim.stall(arg)
                return
            sim.wake_due()
            if 0 <= arg < len(sim.tasks):
                nxt = sim.tasks[arg]
                if nxt.state == RUN and nxt is not me:
                    sim.trace.append((me.id, me.n, "t", arg))
                    sim.preempt_to(nxt)
        else:
            self.scheduled(me)

    def code_point(self, me):
        self._at(me)

    def sync_point(self, me):
        if me.n >= me.next_n:
            self._at(me)

    def pick(self, me, r):
        d = default_pick(me, r)
        a = self.picks.get((me.id, me.n))
        if a is not None and a != d.id:
            for t in r:
                if t.id == a:
                    self.sim.trace.append((me.id, me.n, "b", a))
                    return t
        return d


# ---- simulated primitives -----------------------------------------------------------------------

def _check_timeout(blocking, timeout):
    if not blocking:
        if timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        return
    if timeout < 0 and timeout != -1:
        raise ValueError("timeout value must be a non-negative number")
    if timeout > TIMEOUT_MAX:
        raise OverflowError("timeout value is too large")


class SimLock:
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1 or not blocking:
            _check_timeout(blocking, timeout)
        s = SIM
        if s is None:
            if self._locked:
                if not blocking or timeout != -1:
                    return False
                raise RuntimeError("deadlock outside simulation")
            self._locked = True
            return True
        s.point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout == -1 else s.now + int(timeout * 1e9)
        while True:
            ok = s.block(self._waiters, deadline)
            if not self._locked:
                self._locked = True
                return True
            if not ok:
                return False

    __enter__ = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = SIM
        if s is not None:
            if self._waiters:
                s.wake_all(self._waiters)
            s.point()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __repr__(self):
        return "<SimLock %s>" % ("locked" if self._locked else "unlocked")


class SimRLock:
    __slots__ = ("_owner", "_count", "_waiters", "__weakref__")

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1 or not blocking:
            _check_timeout(blocking, timeout)
        me = real_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        s = SIM
        if s is None:
            if self._owner is not None:
                if not blocking or timeout != -1:
                    return False
                raise RuntimeError("deadlock outside simulation")
            self._owner = me
            self._count = 1
            return True
        s.point()
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout == -1 else s.now + int(timeout * 1e9)
        while True:
            ok = s.block(self._waiters, deadline)
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if not ok:
                return False

    __enter__ = acquire

    def release(self):
        if self._owner != real_get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = SIM
            if s is not None:
                if self._waiters:
                    s.wake_all(self._waiters)
                s.point()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        count = self._count
        self._count = 0
        owner = self._owner
        self._owner = None
        s = SIM
        if s is not None:
            if self._waiters:
                s.wake_all(self._waiters)
            s.point()
        return (count, owner)

    def _is_owned(self):
        return self._owner == real_get_ident()

    def _recursion_count(self):
        return self._count if self._owner == real_get_ident() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def __repr__(self):
        return "<SimRLock owner=%r count=%d>" % (self._owner, self._count)


def sim_start_new_thread(func, args, kwargs=None):
    s = SIM
    if s is None:
        return real_start_new_thread(func, args, kwargs or {})
    t = s.spawn(func, args, kwargs or {})
    s.point()
    return t.id + 1_000_000


def sim_set_sentinel():
    lock = SimLock()
    s = SIM
    if s is not None:
        s.cur.sentinel = lock
    return lock


def sim_time_ns():
    s = SIM
    return s.read_wall() if s is not None else real_time_ns()


def sim_time():
    s = SIM
    return s.read_wall() / 1e9 if s is not None else real_time()


def sim_monotonic():
    s = SIM
    return s.read_mono() / 1e9 if s is not None else real_monotonic()


def sim_monotonic_ns():
    s = SIM
    return s.read_mono() if s is not None else real_monotonic_ns()


def sim_sleep(secs):
    s = SIM
    if s is None:
        return real_sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    if secs == 0:
        s.point()
        return None
    s.block(None, s.now + int(secs * 1e9))
    return None


def install():
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = sim_start_new_thread
    _thread.start_new = sim_start_new_thread
    _thread._set_sentinel = sim_set_sentinel
    _time_mod.time_ns = sim_time_ns
    _time_mod.time = sim_time
    _time_mod.monotonic = sim_monotonic
    _time_mod.monotonic_ns = sim_monotonic_ns
    _time_mod.perf_counter = sim_monotonic
    _time_mod.perf_counter_ns = sim_monotonic_ns
    _time_mod.sleep = sim_sleep
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    import logging
    # logging may have created nothing before us: it was imported just now
    logging.raiseExceptions = False


# ---- byte-code level preemption -------------------------------------------------------------------
TOOL = 4
_codes = []


def collect_codes(prefix):
    """All code objects of loaded functions whose file is under prefix."""
    import gc
    import types
    seen = set()
    out = []

    def add(c):
        if type(c) is not types.CodeType or c in seen or not c.co_filename.startswith(prefix):
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


def setup_monitoring():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")

    def on_event(code, where):
        s = SIM
        if s is None:
            return
        me = s.cur
        me.n += 1
        if me.n >= me.next_n:
            s.code_event()

    mon.register_callback(TOOL, mon.events.INSTRUCTION, on_event)
    mon.register_callback(TOOL, mon.events.LINE, on_event)


def instrument(codes, kind):
    mon = sys.monitoring
    ev = {"line": mon.events.LINE, "instr": mon.events.INSTRUCTION, "none": 0}[kind]
    f = mon.set_local_events
    for c in codes:
        f(TOOL, c, ev)
