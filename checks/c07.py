import time

from sim.check import Check, MS, SEC
from . import common

SLACK = 100 * MS


class C07(Check):
    ID = "C07"
    RUNS = {"quick": 9000, "thorough": 400000}
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py",
                "/repo/opentelemetry-api/src/opentelemetry/util/"]
    REAL = ["TracerProvider, Tracer, Span", "LoggerProvider, Logger", "Synchronous/ConcurrentMulti(Span|LogRecord)Processor",
            "stdlib ThreadPoolExecutor on simulated locks"]
    STUB = ["span and log record processors behind the fan-out", "clocks", "thread scheduler"]
    STALL_NS = [1 * MS, 20 * MS, 300 * MS, 3 * SEC]
    RULE = ("A case is a provider with 1-4 stub processors (seeded speed and flush answers), seeded threads that produce, "
            "register processors, flush and shut down, wall-clock steps and a seeded schedule; non-trivial = operations "
            "overlapped or a fault fired.")

    def setup(self):
        from opentelemetry.sdk import trace, _logs, resources
        from opentelemetry.sdk._logs import _internal as li
        self.trace, self.logs, self.li = trace, _logs, li
        self.res = resources.Resource.get_empty()

    def gen(self, rng, tier):
        def flushes():
            out = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                k = rng.choice(["ok", "ok", "slow", "slow", "fail", "hang"])
                out.append([k, rng.choice([0, 1 * MS, 90 * MS, 400 * MS, 2 * SEC, 20 * SEC])])
            return out

        def proc():
            return {"plain": int(rng.random() < 0.12), "flush": flushes(), "end_ns": rng.choice([0, 0, 0, 1 * MS, 200 * MS]),
                    "boom": rng.choice([[], [], [], [], [rng.randrange(3)], [0, 1, 2, 3], ["start", rng.randrange(3)]])}
        w = {"rec": 6, "add": 1.5, "flush": 3, "sleep": 2, "jump": 0.7, "shutdown": 0.2}
        for k in list(w):
            if rng.random() < 0.3:
                w[k] *= rng.choice([0.01, 5])
        ths = []
        if rng.random() < 0.15:
            w = {"rec": 1, "add": 6}
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 7)):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if k == "rec":
                    ops.append(["rec", rng.choice([0, 0, 1000, 5 * MS]), rng.choice([0, 0, 0, 1, 2])])
                elif k == "add":
                    ops.append(["add", proc()])
                elif k == "flush":
                    ops.append(["flush", rng.choice([0, 1, 100, 500, 1000, 5000, 30000])])
                elif k == "sleep":
                    ops.append(["sleep", rng.choice([0, 1 * MS, 300 * MS, 2 * SEC])])
                elif k == "jump":
                    ops.append(["jump", rng.choice([-1, 1]) * rng.choice([1 * SEC, 3600 * SEC, 86400 * SEC])])
                else:
                    ops.append([k])
            ths.append(ops)
        return {"kind": rng.choice(["span", "log"]), "mode": rng.choice(["sync", "conc"]), "workers": rng.choice([1, 2, 2, 3]),
                "procs": [proc() for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))], "threads": ths}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["max_sim_ns"] = 3600 * SEC
        return c

    def run(self, run, sc):
        sim = run.sim
        span = sc["kind"] == "span"
        self.sim, self.sc = sim, sc
        self.procs = []
        self.recs = []
        self.flushes = []
        shuts = []
        fcalls = []
        chk = self

        class Quiet:
            def init(self, spec):
                self.spec = spec
                self.id = len(chk.procs)
                self.starts, self.ends, self.shut = {}, {}, []
                self.nflush = self.nend = self.nstart = 0
                self.add_inv = self.add_resp = None

            def _end(self, uid):
                s = sim.ev("on_end", self.id, uid)
                if self.spec["end_ns"]:
                    time.sleep(self.spec["end_ns"] / 1e9)
                sim.point()
                self.ends.setdefault(uid, []).append((s, sim.ev("on_end_done", self.id, uid)))
                n = self.nend
                self.nend += 1
                # the synchronous fan-out leaves what is behind a raising processor untold: not claimed
                if sc["mode"] == "conc" and n in self.spec["boom"] and "start" not in self.spec["boom"]:
                    sim.fault("processor_raises")
                    raise common.Boom("on_end")

            def shutdown(self):
                self.shut.append(sim.ev("p_shutdown", self.id))
                sim.point()

        class Base(Quiet):
            def force_flush(self, timeout_millis=30000):
                c = {"p": self, "t0": sim.now, "given": timeout_millis, "inv": sim.ev("p_flush", self.id, timeout_millis),
                     "ret": None, "t1": 1 << 62, "resp": 1 << 60}
                fcalls.append(c)
                b = self.spec["flush"][self.nflush] if self.nflush < len(self.spec["flush"]) else ["ok", 0]
                self.nflush += 1
                k, d = b
                ret = True
                if k == "slow":
                    sim.fault("flush_slow")
                    lim = max(0, int(timeout_millis * MS))
                    if d > lim:
                        d, ret = lim, False
                elif k == "fail":
                    sim.fault("flush_fails")
                    ret = False
                    d = min(d, max(0, int(timeout_millis * MS)))
                elif k == "hang":
                    sim.fault("flush_ignores_timeout")
                else:
                    d = 0
                if d:
                    time.sleep(d / 1e9)
                else:
                    sim.point()
                c["ret"] = ret
                c["t1"] = sim.now
                c["resp"] = sim.ev("p_flushed", self.id, ret)
                return ret

        if span:
            class Starts:
                def __init__(self, spec):
                    self.init(spec)

                def on_start(self, s, parent_context=None):
                    sim.point()
                    self.starts.setdefault(s.name, []).append(sim.ev("on_start", self.id, s.name))
                    n = self.nstart
                    self.nstart += 1
                    if sc["mode"] == "conc" and n in self.spec["boom"] and "start" in self.spec["boom"]:
                        sim.fault("processor_raises")
                        raise common.Boom("on_start")

                def on_end(self, s):
                    self._end(s.name)

            class P(Starts, Base, self.trace.SpanProcessor):
                pass

            class Plain(Starts, Quiet, self.trace.SpanProcessor):
                """Keeps nothing, so it leaves force_flush to the base class."""
            multi = self.trace.SynchronousMultiSpanProcessor() if sc["mode"] == "sync" else \
                self.trace.ConcurrentMultiSpanProcessor(sc["workers"])
            from opentelemetry.sdk.trace import sampling

            class Sampler(sampling.Sampler):
                def should_sample(self, parent_context, trace_id, name, *a, **k):
                    return sampling.SamplingResult([sampling.Decision.RECORD_AND_SAMPLE, sampling.Decision.RECORD_ONLY,
                                                    sampling.Decision.DROP][int(name[-1])])

                def get_description(self):
                    return "s"
            prov = self.trace.TracerProvider(resource=self.res, shutdown_on_exit=False, active_span_processor=multi, sampler=Sampler())
            src = prov.get_tracer("t")
            add_ = prov.add_span_processor
        else:
            class P(Base, self.logs.LogRecordProcessor):
                def __init__(self, spec):
                    self.init(spec)

                def emit(self, d):
                    self._end(d.log_record.body)
            multi = self.li.SynchronousMultiLogRecordProcessor() if sc["mode"] == "sync" else \
                self.li.ConcurrentMultiLogRecordProcessor(sc["workers"])
            prov = self.logs.LoggerProvider(resource=self.res, shutdown_on_exit=False, multi_log_record_processor=multi)
            src = prov.get_logger("t")
            add_ = prov.add_log_record_processor

        def add(spec):
            p = (Plain if span and spec["plain"] else P)(spec)
            self.procs.append(p)
            p.add_inv = sim.ev("add", p.id)
            add_(p)
            p.add_resp = sim.ev("added", p.id)
        for s in sc["procs"]:
            add(s)

        def step(run_, tid, op):
            k = op[0]
            if k == "rec":
                r = {"uid": "r%d-%d" % (len(self.recs), op[2]), "drop": span and op[2] == 2}
                self.recs.append(r)
                if span:
                    r["s_inv"] = sim.ev("start", r["uid"])
                    try:
                        s = src.start_span(r["uid"])
                    except common.Boom:
                        s = None
                    r["s_resp"] = sim.stamp()
                    if s is None:
                        r["inv"] = None
                        return
                    if op[1]:
                        time.sleep(op[1] / 1e9)
                    r["inv"] = sim.ev("end", r["uid"])
                    try:
                        s.end()
                    except common.Boom:
                        pass
                else:
                    lr = self.logs.LogRecord(body=r["uid"], timestamp=1, resource=self.res)
                    r["inv"] = sim.ev("emit", r["uid"])
                    try:
                        src.emit(lr)
                    except common.Boom:
                        pass
                r["resp"] = sim.ev("done", r["uid"])
            elif k == "add":
                add(op[1])
            elif k == "sleep":
                time.sleep(op[1] / 1e9)
            elif k == "jump":
                sim.jump_wall(op[1])
            elif k == "flush":
                f = {"timeout": op[1], "t0": sim.now, "inv": sim.ev("flush", op[1]), "tid": tid}
                f["ret"] = prov.force_flush(op[1])
                f["t1"] = sim.now
                f["resp"] = sim.ev("flushed", f["ret"])
                self.flushes.append(f)
            elif k == "shutdown":
                s = {"inv": sim.ev("shutdown")}
                prov.shutdown()
                s["resp"] = sim.ev("shutdown_done")
                shuts.append(s)

        common.clients(run, sc["threads"], step)
        sim.stalls_on = False
        step(run, -1, ["shutdown"])
        self.verify(run, sim, sc, shuts, fcalls)
        run.nontrivial = sim.preempts > 0 or bool(sim.faults)

    def deliveries(self, run, what, per, inv, resp, uid):
        order = []
        for p in self.procs:
            got = per(p).get(uid, [])
            if len(got) > 1:
                run.violate("dup-" + what, "processor %d got %s of %s %d times" % (p.id, what, uid, len(got)))
            if p.add_resp is not None and p.add_resp < inv and not got:
                run.violate("missed-" + what, "processor %d, registered before, never got %s of %s" % (p.id, what, uid))
            if got:
                if p.add_inv > resp:
                    run.violate("alien-" + what, "processor %d got %s of %s that happened before its registration" % (p.id, what, uid))
                if not (inv < got[0] < resp):
                    run.violate("late-" + what, "processor %d got %s of %s outside the triggering call" % (p.id, what, uid))
                order.append((got[0], p))
        if self.sc["mode"] == "sync":
            order.sort(key=lambda x: x[0])
            for (_, a), (_, b) in zip(order, order[1:]):
                if b.add_resp < a.add_inv:
                    run.violate("order-" + what, "processor %d got %s of %s before processor %d registered earlier" % (a.id, what, uid, b.id))

    def verify(self, run, sim, sc, shuts, fcalls):
        for r in self.recs:
            if r["drop"]:
                for p in self.procs:
                    if r["uid"] in p.starts or r["uid"] in p.ends:
                        run.violate("not-recorded", "processor %d was told of a span the sampler dropped" % p.id)
                continue
            if "s_inv" in r:
                self.deliveries(run, "on_start", lambda p: p.starts, r["s_inv"], r["s_resp"], r["uid"])
            if r["inv"] is not None:
                self.deliveries(run, "on_end", lambda p: {u: [x[1] for x in l] for u, l in p.ends.items()}, r["inv"], r["resp"], r["uid"])
        stall = lambda a, b: sim.stall_time(a, b)
        # attribute processor flush calls to flushes
        for f in self.flushes:
            if sc["mode"] == "sync":
                # a concurrent flush of another thread may interleave: match by window, keep those possible
                mine = [c for c in fcalls if f["inv"] < c["inv"] and c["resp"] < f["resp"]]
            else:
                mine = [c for c in fcalls if f["inv"] < c["inv"]]
            alone = not any(g is not f and g["inv"] < f["resp"] and f["inv"] < g["resp"] for g in self.flushes)
            T = f["timeout"] * MS
            el = f["t1"] - f["t0"]
            must = [p for p in self.procs if p.add_resp is not None and p.add_resp < f["inv"]]
            if f["ret"]:
                for p in must:
                    if sc["kind"] == "span" and p.spec["plain"]:
                        continue
                    ok = [c for c in mine if c["p"] is p and c["ret"] and c["resp"] < f["resp"]]
                    if not ok:
                        run.violate("flush-dishonest-true", "force_flush(%d) returned True though processor %d did not report success in it" % (f["timeout"], p.id))
                    if alone and sc["mode"] == "sync" and len([c for c in mine if c["p"] is p]) != 1:
                        run.violate("flush-count", "force_flush asked processor %d %d times" % (p.id, len([c for c in mine if c["p"] is p])))
                if alone and sc["mode"] == "sync" and any(not c["ret"] for c in mine):
                    run.violate("flush-dishonest-true", "force_flush returned True though processor %d reported failure" % [c["p"].id for c in mine if not c["ret"]][0])
                if sc["mode"] == "conc":
                    if el > T + SLACK + stall(f["t0"], f["t1"]):
                        run.violate("flush-late-true", "force_flush(%d) returned True after %.3f s" % (f["timeout"], el / 1e9))
            elif f["ret"] is False:
                failed = [c for c in mine if c["ret"] is False and c["resp"] < f["resp"]]
                if not failed and el + SLACK < T:
                    run.violate("flush-dishonest-false", "force_flush(%d) returned False after %.3f s though no processor reported failure" % (f["timeout"], el / 1e9))
            else:
                run.violate("flush-result", "force_flush returned %r" % (f["ret"],))
            if sc["mode"] == "conc":
                if el > T + SLACK + stall(f["t0"], f["t1"]):
                    run.violate("flush-unbounded", "force_flush(%d) took %.3f s" % (f["timeout"], el / 1e9))
            if alone and sc["mode"] == "sync":
                for c in mine:
                    left = T - (c["t0"] - f["t0"])
                    if c["given"] * MS > left + SLACK + stall(f["t0"], c["t0"]):
                        run.violate("flush-time-left", "force_flush(%d) gave processor %d %d ms with %.3f s left" % (f["timeout"], c["p"].id, c["given"], left / 1e9))
            else:
                tmax = max([g["timeout"] for g in self.flushes])
                for c in mine:
                    if c["given"] > tmax:
                        run.violate("flush-time-left", "a processor was given %d ms, more than any caller's timeout" % c["given"])
            if alone and sc["mode"] == "sync" and f["ret"] is False:
                # nobody behind a failed processor waits; nobody is skipped without reason
                pass
        n = len(shuts)
        for p in self.procs:
            lo = len([s for s in shuts if p.add_resp < s["inv"]])
            hi = len([s for s in shuts if p.add_inv < s["resp"]])
            if not lo <= len(p.shut) <= hi:
                run.violate("shutdown-count", "%d provider shutdown calls reached processor %d %d times" % (n, p.id, len(p.shut)))
            for s in shuts:
                if p.add_resp < s["inv"] and not any(s["inv"] < x < s["resp"] for x in p.shut):
                    run.violate("shutdown-missed", "processor %d was not shut down by the time provider.shutdown returned" % p.id)


CHECK = C07()
