import time

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
SLACK = 100 * MS


Boom = common.Boom


class C20(Check):
    ID = "C20"
    RUNS = {"quick": 8000, "thorough": 300000}
    PREFIXES = [SDK + "trace/__init__.py", SDK + "trace/export/", SDK + "_logs/", SDK + "_events/", SDK + "metrics/_internal/__init__.py",
                SDK + "metrics/_internal/export/", "/repo/opentelemetry-api/src/opentelemetry/util/"]
    STALLS = False
    GRAN = {"line": 6, "instr": 3, "sync": 2}
    REAL = ["TracerProvider, LoggerProvider, EventLoggerProvider, MeterProvider", "Synchronous/ConcurrentMulti(Span|LogRecord)Processor",
            "Batch and Simple span/log processors, PeriodicExportingMetricReader, InMemoryMetricReader", "stdlib thread pool and atexit registry"]
    STUB = ["exporters", "stub processors and readers (seeded failures and delays)", "clocks", "thread scheduler",
            "interpreter exit (the threading exit hooks, then the atexit callbacks, run while daemon threads go on)"]
    RULE = ("A case is up to one provider of each signal with 0-4 components that may fail or be slow in shutdown, seeded threads that "
            "produce, flush, add and shut down, and possibly a simulated interpreter exit; non-trivial = threads were preempted or a fault fired.")

    def setup(self):
        import atexit
        import concurrent.futures.thread  # noqa: F401  (its exit hook has to be registered)
        import logging
        import threading
        from opentelemetry.sdk import trace, _logs, _events, metrics, resources
        from opentelemetry.sdk._logs import _internal as li
        from opentelemetry.sdk._logs import export as lexp
        from opentelemetry.sdk.metrics import export as mexp
        from opentelemetry.sdk.trace import export as texp
        from opentelemetry import _events as eapi
        self.atexit, self.threading = atexit, threading
        self.trace, self.logs, self.events, self.metrics, self.li = trace, _logs, _events, metrics, li
        self.lexp, self.mexp, self.texp, self.eapi = lexp, mexp, texp, eapi
        self.res = resources.Resource.get_empty()
        logging.disable(logging.CRITICAL)

    def gen(self, rng, tier):
        def proc():
            return {"k": rng.choice(["stub", "stub", "stub", "batch", "simple"]), "raise": int(rng.random() < 0.2),
                    "d": rng.choice([0, 0, 1 * MS, 2 * SEC])}

        def reader():
            return {"k": rng.choice(["stub", "stub", "stub", "periodic", "periodic", "inmem"]), "raise": int(rng.random() < 0.25),
                    "d": rng.choice([0, 0, 0, 1 * MS, 2 * SEC, 40 * SEC]),
                    "flush": [rng.choice(["ok", "ok", "ok", "raise", "false", "slow"]) for _ in range(rng.randint(0, 3))],
                    "exp": rng.choice(["ok", "ok", "raise", "false"]), "iv": rng.choice([1000, 5000, 0])}
        sc = {"t": None, "l": None, "m": None, "exit": int(rng.random() < 0.5), "daemons": 0}
        sigs = rng.sample("tlm", rng.choice([1, 1, 2, 3]))
        for s in sigs:
            if s == "m":
                sc["m"] = {"readers": [reader() for _ in range(rng.choice([1, 2, 3, 3]))]}
            else:
                sc[s] = {"mode": rng.choice(["sync", "conc"]), "workers": rng.choice([1, 2, 3]), "procs": [proc() for _ in range(rng.choice([0, 1, 2, 3]))]}
        w = {"rec": 5, "shut": rng.choice([0, 0.5, 2]), "sleep": 1, "add": rng.choice([0, 0.5]), "mflush": 1.5, "get": 0.5, "dup": 0.4, "jump": 0.3,
             "eflush": 0.5}
        ths = []
        race = rng.choice(sigs) if rng.random() < 0.12 else 0      # nothing but shutdowns that race
        sc["race"] = int(bool(race))
        if race:
            w = {"shut": 1}
        for _ in range(rng.choice([2, 2, 3]) if race else rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(1 if race else rng.randint(1, 6)):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if race:
                    ops.append([k, race, 30000])
                    continue
                if k in ("rec", "shut", "add", "get"):
                    s = rng.choice(sigs)
                    op = [k, s]
                    if k == "shut":
                        op.append(rng.choice([30000, 30000, 1000, 10]))
                    if k == "add":
                        op.append(proc())
                    ops.append(op)
                elif k == "mflush":
                    ops.append([k, rng.choice([10000, 1000, 10, 0])])
                elif k == "sleep":
                    ops.append([k, rng.choice([0, 1 * MS, 900 * MS, 6 * SEC])])
                elif k == "jump":
                    ops.append([k, rng.choice([-1, 1]) * 3600 * SEC])
                else:
                    ops.append([k])
            ths.append(ops)
        if len(ths) > 1 and sc["exit"] and rng.random() < 0.5:
            sc["daemons"] = 1      # this many of the threads are still running at interpreter exit
        sc["threads"] = ths
        return sc

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["max_sim_ns"] = 3600 * SEC
        if sc["race"] and c["gap"]:
            c["gap"] = rng.choice([4, 8, 15, 30] if c["gran"] == "line" else [30, 60, 150])
        return c

    def run(self, run, sc):
        S(self, run, sc).go()


CHECK = C20()


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.procs = {"t": [], "l": []}
        self.prov = {}
        self.shuts = {"t": [], "l": [], "m": []}
        self.flushes = []
        self.recs = []
        self.readers = []
        self.fcalls = []
        self.unraisable = []
        self.exports = []

    # ---- set up ---------------------------------------------------------------------------
    def go(self):
        chk, sc = self.chk, self.sc
        chk.atexit._clear()
        import sys
        sys.unraisablehook = lambda a: self.unraisable.append(a.exc_value)
        soe = bool(sc["exit"])
        if sc["t"]:
            m = chk.trace.SynchronousMultiSpanProcessor() if sc["t"]["mode"] == "sync" else chk.trace.ConcurrentMultiSpanProcessor(sc["t"]["workers"])
            self.prov["t"] = chk.trace.TracerProvider(resource=chk.res, shutdown_on_exit=soe, active_span_processor=m)
            self.tracer = self.prov["t"].get_tracer("t")
        if sc["l"]:
            m = chk.li.SynchronousMultiLogRecordProcessor() if sc["l"]["mode"] == "sync" else \
                chk.li.ConcurrentMultiLogRecordProcessor(sc["l"]["workers"])
            self.prov["l"] = chk.logs.LoggerProvider(resource=chk.res, shutdown_on_exit=soe, multi_log_record_processor=m)
            self.logger = self.prov["l"].get_logger("t")
            self.eprov = chk.events.EventLoggerProvider(self.prov["l"])
        for s in "tl":
            if sc[s]:
                for p in sc[s]["procs"]:
                    self.add(s, p)
        if sc["m"]:
            for d in sc["m"]["readers"]:
                self.readers.append(self.reader(d))
            self.prov["m"] = chk.metrics.MeterProvider(metric_readers=[r.rd for r in self.readers], resource=chk.res, shutdown_on_exit=soe)
            self.counter = self.prov["m"].get_meter("m").create_counter("c")
        ths = sc["threads"]
        nd = min(sc["daemons"], len(ths))
        run, th = self.run, []
        import threading

        gate = threading.Event() if sc["race"] else None

        def body(tid, prog):
            if gate:
                gate.wait()
            for op in prog:
                self.step(tid, op)
        for tid, prog in enumerate(ths):
            th.append(threading.Thread(target=common.guard(run, body), args=(tid, prog), daemon=True))
        for t in th:
            t.start()
        if gate:
            gate.set()
        for t in th[nd:]:
            t.join()
        self.exit_inv = BIG
        if sc["exit"]:
            self.exit_inv = self.sim.ev("exit")
            self.sim.fault("interpreter exit")
            threading._SHUTTING_DOWN = True
            for f in reversed(threading._threading_atexits):
                f()
            chk.atexit._run_exitfuncs()
            self.sim.ev("exited")
        else:
            for s in "tlm":
                if sc[s]:
                    self.shut(s, 30000)
        self.check()

    def add(self, s, d):
        p = Proc(self, s, len(self.procs[s]), d)
        self.procs[s].append(p)
        p.adding = self.sim.ev("add", s, p.id)
        (self.prov["t"].add_span_processor if s == "t" else self.prov["l"].add_log_record_processor)(p.obj)
        p.added = self.sim.ev("added", s, p.id)

    def reader(self, d):
        return Reader(self, len(self.readers), d)

    # ---- operations -----------------------------------------------------------------------
    def step(self, tid, op):
        k = op[0]
        sim, sc = self.sim, self.sc
        if len(op) > 1 and isinstance(op[1], str) and not sc[op[1]]:
            return
        if k == "rec":
            r = {"s": op[1], "uid": "r%d" % len(self.recs), "resp": BIG}
            self.recs.append(r)
            r["inv"] = sim.ev("rec", op[1], r["uid"])
            if op[1] == "t":
                self.tracer.start_span(r["uid"]).end()
            elif op[1] == "l":
                self.logger.emit(self.chk.logs.LogRecord(body=r["uid"], timestamp=1, resource=self.chk.res))
            else:
                self.counter.add(1, {"k": "v"})
            r["resp"] = sim.ev("recd", r["uid"])
        elif k == "sleep":
            time.sleep(op[1] / 1e9)
        elif k == "jump":
            sim.jump_wall(op[1])
        elif k == "shut":
            self.shut(op[1], op[2])
        elif k == "add":
            if op[1] != "m":
                self.add(op[1], op[2])
        elif k == "get":
            if op[1] == "m":
                m = self.prov["m"].get_meter("m%d" % sim.stamp())
                m.create_histogram("h").record(1)
                m.create_observable_gauge("g", callbacks=[lambda o: []])
                m.create_counter("c").add(1)
            elif op[1] == "t":
                self.prov["t"].get_tracer("x")
            else:
                self.prov["l"].get_logger("x")
        elif k == "mflush":
            if sc["m"]:
                self.mflush(op[1])
        elif k == "eflush":
            if sc["l"] and not any(p.d["k"] == "stub" for p in self.procs["l"]):
                sim.ev("eflush")
                ret = self.eprov.force_flush(30000)
                sim.ev("eflushed", ret)
                if ret is not True and ret is not False:
                    self.run.violate("event-flush", "EventLoggerProvider.force_flush returned %r" % (ret,))
        elif k == "dup":
            if sc["m"] and self.readers:
                try:
                    self.chk.metrics.MeterProvider(metric_readers=[self.readers[-1].rd], resource=self.chk.res, shutdown_on_exit=bool(sc["exit"]))
                except Exception as e:
                    if type(e).__name__ == "Violation":
                        raise
                else:
                    self.run.violate("two-providers", "one reader was registered with two meter providers")

    def shut(self, s, tmo):
        sim = self.sim
        c = {"t0": sim.now, "tmo": tmo, "tid": sim.cur.id, "inv": sim.ev("shutdown", s, tmo), "resp": BIG, "exc": None}
        self.shuts[s].append(c)
        try:
            self.prov[s].shutdown(**({"timeout_millis": tmo} if s == "m" else {}))
        except Exception as e:      # noqa
            if type(e).__name__ == "Violation":
                raise
            c["exc"] = e
        c["t1"] = sim.now
        c["resp"] = sim.ev("shutdown-done", s, repr(c["exc"])[:80])

    def mflush(self, tmo):
        sim = self.sim
        c = {"t0": sim.now, "tmo": tmo, "inv": sim.ev("mflush", tmo), "resp": BIG, "exc": None, "ret": None}
        self.flushes.append(c)
        c["tid"] = sim.cur.id
        try:
            c["ret"] = self.prov["m"].force_flush(tmo)
        except Exception as e:      # noqa
            if type(e).__name__ == "Violation":
                raise
            c["exc"] = e
        c["t1"] = sim.now
        c["resp"] = sim.ev("mflushed", c["ret"], repr(c["exc"])[:60])

    # ---- oracle ---------------------------------------------------------------------------
    def check(self):
        V = self.run.violate
        for e in self.unraisable:
            if not isinstance(e, Boom) and "Boom" not in str(e) and "deadline" not in str(e):
                V("exit-error", "shutdown at interpreter exit failed: %s: %s" % (type(e).__name__, e))
        nm = {"t": "span", "l": "log record"}
        for s in "tl":
            for p in self.procs[s]:
                for c in self.shuts[s]:
                    if c["resp"] < BIG and p.added < c["inv"] and not any(c["inv"] < x < c["resp"] and y < c["resp"] for x, y in p.shuts):
                        V("not-shut-down", "%s processor %d (%s) was not shut down when the provider's shutdown returned (%r)" % (
                            nm[s], p.id, p.d["k"], c["exc"]))
                if self.sc["exit"] and p.added < min([self.exit_inv] + [c["inv"] for c in self.shuts[s]]) and not p.shuts:
                    V("not-shut-down", "%s processor %d (%s) was never shut down, also not at interpreter exit" % (nm[s], p.id, p.d["k"]))
                for x, n in p.exports:
                    if p.d["k"] == "batch" and any(y < x for y, _ in p.shuts):
                        V("export-after", "batch exporter of %s processor %d exported after it was shut down" % (nm[s], p.id))
                if p.d["k"] == "batch" and p.shuts:
                    lim = min([self.exit_inv] + [c["inv"] for c in self.shuts[s]])
                    got = [u for _, n in p.exports for u in n]
                    for r in self.recs:
                        if r["s"] == s and p.added < r["inv"] and r["resp"] < lim and got.count(r["uid"]) != 1:
                            V("lost", "%s %s was exported %d times by batch processor %d after shutdown" % (nm[s], r["uid"], got.count(r["uid"]), p.id))
            for c in self.shuts[s]:
                if c["resp"] >= BIG:
                    continue
                bad = [p for p in self.procs[s] if p.d["raise"] and p.added < c["inv"]]
                may = [p for p in self.procs[s] if p.d["raise"] and p.adding < c["resp"]]
                if c["exc"] is None and bad:
                    V("silent", "the shutdown of %s processor %d failed, the provider's shutdown reported nothing" % (nm[s], bad[0].id))
                if c["exc"] is not None and not (isinstance(c["exc"], Boom) and may):
                    V("raised", "%s provider shutdown raised %r" % (nm[s], c["exc"]))
        if self.sc["m"]:
            self.check_m(V)

    def check_m(self, V):
        calls = self.shuts["m"]
        tot = sum(r.d["d"] for r in self.readers) + SLACK * (1 + len(self.readers))
        allt = all(tot < c["tmo"] * MS for c in calls) and (not self.sc["exit"] or calls or tot < 30 * SEC)
        done = [c for c in calls if c["resp"] < BIG]
        for r in self.readers:
            if len(r.shuts) > 1:
                V("reader-twice", "reader %d (%s) was shut down %d times" % (r.id, r.d["k"], len(r.shuts)))
            if not r.shuts and allt and len(calls) == len(done):
                V("reader-missed", "reader %d (%s) was not shut down" % (r.id, r.d["k"]))
        win = [c for c in done if any(c["inv"] < x < c["resp"] and c["tid"] == tid for r in self.readers for x, _, _, tid in r.shuts)]
        exc = [c for c in done if c["exc"] is not None]
        if len(exc) > 1:
            V("raised", "%d shutdown calls of a meter provider raised" % len(exc))
        bad = [r for r in self.readers if r.d["raise"] and r.shuts]
        missed = [r for r in self.readers if not r.shuts]
        if done and len(calls) == len(done) and not self.sc["daemons"]:
            if bad and not exc:
                V("silent", "the shutdown of reader %d failed, the meter provider's shutdown reported nothing" % bad[0].id)
            if missed and not exc:
                V("silent", "reader %d was not shut down, the meter provider's shutdown reported nothing" % missed[0].id)
        if exc and not bad and not missed:
            V("raised", "meter provider shutdown raised %r" % exc[0]["exc"])
        if exc:
            for r in bad:
                if type(r.rd).__name__ not in str(exc[0]["exc"]):
                    V("unnamed", "the error of the provider does not name the failed reader: %s" % exc[0]["exc"])
        end = win[0]["resp"] if len(win) == 1 else BIG
        for r in self.readers:
            for x in r.exports:
                if r.shuts and x > end:
                    V("export-after", "periodic reader %d exported after the provider was shut down" % r.id)
                if r.expshut and x > r.expshut[0]:
                    V("export-after", "periodic reader %d exported after its exporter was shut down" % r.id)
        for r in self.readers:
            for x, given, t, tid in r.shuts:
                for c in win:
                    if c["inv"] < x < c["resp"] and c["tid"] == tid:
                        left = c["tmo"] * MS - (t - c["t0"])
                        if given * MS > left + SLACK:
                            V("time-left", "reader %d was given %.0f ms with %.0f ms left" % (r.id, given, left / MS))
        first = min([c["inv"] for c in calls] + [self.exit_inv])
        for f in self.flushes:
            if f["resp"] >= BIG:
                continue
            mine = [c for c in self.fcalls if f["inv"] < c["inv"] and c["tid"] == f["tid"] and c["inv"] < f["resp"]]
            for c in mine:
                left = f["tmo"] * MS - (c["t0"] - f["t0"])
                if c["given"] * MS > left + SLACK:
                    V("flush-time-left", "reader %d was given %.0f ms to flush with %.0f ms left" % (c["r"].id, c["given"], left / MS))
            el = f["t1"] - f["t0"]
            seen = {c["r"].id for c in mine}
            missing = [r for r in self.readers if r.d["k"] == "stub" and r.id not in seen]
            if missing and el + SLACK < f["tmo"] * MS:
                V("flush-missed", "force_flush(%d) did not reach reader %d within %.3f s" % (f["tmo"], missing[0].id, el / SEC))
            bad = [c for c in mine if c["res"] != "ok"]
            if f["ret"] is True and f["exc"] is None:
                if missing:
                    V("flush-dishonest", "force_flush(%d) reported success without reaching reader %d" % (f["tmo"], missing[0].id))
                if bad:
                    V("flush-dishonest", "force_flush reported success though reader %d answered %s" % (bad[0]["r"].id, bad[0]["res"]))
                for r in self.readers:
                    if r.d["k"] == "periodic" and r.shuts and r.shut_done < f["inv"]:
                        V("flush-dishonest", "force_flush reported success though periodic reader %d was shut down before" % r.id)
            elif el + SLACK < f["tmo"] * MS and not bad and f["resp"] < first and not any(
                    r.d["k"] == "periodic" and r.d["exp"] != "ok" for r in self.readers):
                V("flush-failed", "force_flush(%d) reported failure (%r) though every reader flushed" % (f["tmo"], f["exc"]))


class Proc:
    """A stub processor, or a real one with a stub exporter."""

    def __init__(self, st, s, id, d):
        self.id, self.d, self.shuts, self.exports = id, d, [], []
        self.adding = self.added = BIG
        sim, chk = st.sim, st.chk
        me = self

        def down():
            x = sim.ev("p-shutdown", s, id)
            me.shuts.append([x, BIG])
            rec = me.shuts[-1]
            if d["d"]:
                sim.fault("slow shutdown")
                time.sleep(d["d"] / 1e9)
            else:
                sim.point("p-shutdown")
            rec[1] = sim.ev("p-shutdown-done", s, id)
            if d["raise"]:
                sim.fault("shutdown raises")
                raise Boom("Boom %d" % id)

        if d["k"] == "stub":
            if s == "t":
                class P(chk.trace.SpanProcessor):
                    def shutdown(self):
                        down()

                    def force_flush(self, timeout_millis=30000):
                        return True
            else:
                class P(chk.logs.LogRecordProcessor):
                    def emit(self, log_data):
                        sim.point("emit")

                    def shutdown(self):
                        down()

                    def force_flush(self, timeout_millis=30000):
                        return True
            self.obj = P()
            return
        base, res = (chk.texp.SpanExporter, chk.texp.SpanExportResult) if s == "t" else (chk.lexp.LogExporter, chk.lexp.LogExportResult)

        class E(base):
            def export(self, batch):
                n = [b.name if s == "t" else b.log_record.body for b in batch]
                me.exports.append((sim.ev("export", s, id, n), n))
                sim.point("export")
                return res.SUCCESS

            def shutdown(self):
                down()

            def force_flush(self, timeout_millis=30000):
                return True
        if d["k"] == "batch":
            self.obj = (chk.texp.BatchSpanProcessor if s == "t" else chk.lexp.BatchLogRecordProcessor)(
                E(), max_queue_size=64, max_export_batch_size=4, schedule_delay_millis=2000)
        else:
            self.obj = (chk.texp.SimpleSpanProcessor if s == "t" else chk.lexp.SimpleLogRecordProcessor)(E())


class Reader:
    def __init__(self, st, id, d):
        self.id, self.d, self.shuts, self.exports, self.expshut, self.shut_done = id, d, [], [], [], BIG
        sim, chk = st.sim, st.chk
        me = self

        class Mixin:
            def shutdown(self, timeout_millis=30000, **kw):
                me.shuts.append((sim.ev("r-shutdown", id), timeout_millis, sim.now, sim.cur.id))
                if d["k"] != "periodic" and d["d"]:
                    sim.fault("slow shutdown")
                    time.sleep(d["d"] / 1e9)
                try:
                    super().shutdown(timeout_millis=timeout_millis, **kw)
                finally:
                    me.shut_done = sim.ev("r-shutdown-done", id)
                if d["k"] != "periodic" and d["raise"]:
                    sim.fault("shutdown raises")
                    raise Boom("Boom %d" % id)

            def force_flush(self, timeout_millis=10000):
                c = {"r": me, "t0": sim.now, "given": timeout_millis, "tid": sim.cur.id, "inv": sim.ev("r-flush", id), "res": "ok"}
                st.fcalls.append(c)
                me.nflush = getattr(me, "nflush", -1) + 1
                b = d["flush"][me.nflush] if d["k"] == "stub" and me.nflush < len(d["flush"]) else "ok"
                c["res"] = "raise"
                if b == "raise":
                    sim.fault("flush raises")
                    raise Boom("Boom flush %d" % id)
                if b == "slow":
                    sim.fault("slow flush")
                    time.sleep(0.6)
                r = super().force_flush(timeout_millis=timeout_millis)
                if b == "false":
                    sim.fault("flush fails")
                    r = False
                c["res"] = "ok" if r else "false"
                return r

        if d["k"] == "stub":
            class StubReader(Mixin, chk.mexp.InMemoryMetricReader):
                pass
            self.rd = StubReader()
        elif d["k"] == "inmem":
            class MemReader(Mixin, chk.mexp.InMemoryMetricReader):
                pass
            self.rd = MemReader()
        else:
            class E(chk.mexp.MetricExporter):
                def export(self, data, timeout_millis=10000, **kw):
                    me.exports.append(sim.ev("m-export", id))
                    sim.point("export")
                    return chk.mexp.MetricExportResult.SUCCESS

                def force_flush(self, timeout_millis=10000):
                    if d["exp"] == "raise":
                        raise Boom("Boom exporter flush")
                    return d["exp"] == "ok"

                def shutdown(self, timeout_millis=30000, **kw):
                    me.expshut.append(sim.ev("m-exp-shutdown", id))
                    if d["d"]:
                        sim.fault("slow shutdown")
                        time.sleep(d["d"] / 1e9)
                    if d["raise"]:
                        sim.fault("shutdown raises")
                        raise Boom("Boom exporter shutdown")

            class PeriodicReader(Mixin, chk.mexp.PeriodicExportingMetricReader):
                pass
            self.rd = PeriodicReader(E(), export_interval_millis=d["iv"] or float("inf"))
