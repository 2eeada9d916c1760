"""Workload and oracles for the batch span and log record processors (C01-C04)."""
import atexit
import random
import time

from sim import core
from sim.check import Check, MS, SEC
from . import common

SLACK = 100 * MS


class BatchCheck(Check):
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/_logs/",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py",
                "/repo/opentelemetry-api/src/opentelemetry/util/",
                "/repo/opentelemetry-api/src/opentelemetry/context/"]
    REAL = ["TracerProvider, Tracer, Span", "LoggerProvider, Logger", "BatchSpanProcessor", "BatchLogRecordProcessor",
            "stdlib threading.Condition/Event/Thread on simulated locks"]
    STUB = ["span/log exporter", "sampler", "clocks", "thread scheduler"]
    RULE = ("A case is a seeded workload (producer, flusher, shutdown and clock-jump threads, processor settings, "
            "exporter behaviour per call) plus a seeded schedule; non-trivial = at least one export call overlapped "
            "a producer/flush/shutdown operation or a fault fired.")

    def setup(self):
        from opentelemetry.sdk import trace, _logs, resources
        from opentelemetry.sdk.trace import export, sampling
        from opentelemetry.sdk._logs import export as lexport
        from opentelemetry._logs import SeverityNumber
        self.trace, self.logs, self.export, self.lexport = trace, _logs, export, lexport
        self.res = resources.Resource.get_empty()
        self.sampling = sampling
        S = sampling

        class Samp(S.Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                return S.SamplingResult(S.Decision.RECORD_ONLY if name.startswith("u") else S.Decision.RECORD_AND_SAMPLE)

            def get_description(self):
                return "stub"
        self.Samp = Samp

    # ---- generation -------------------------------------------------------------------
    def gen_cfg(self, rng):
        batch = rng.choice([1, 1, 2, 3, 4, 8])
        q = max(batch, rng.choice([1, 2, 3, 4, 6, 10, 1000]))
        return {"q": q, "batch": batch, "delay": rng.choice([50, 500, 1000, 5000, 30000]),
                "etimeout": rng.choice([50, 1000, 30000])}

    def gen_behav(self, rng, n, faults=True):
        out = []
        if not faults or rng.random() < 0.4:
            return out
        kinds = rng.sample(["ok", "fail", "raise", "slow", "stall", "raise2", "jump"], rng.randint(1, 5))
        for _ in range(n):
            k = rng.choice(kinds + ["ok"])
            if k == "slow":
                out.append(["slow", rng.choice([1 * MS, 30 * MS, 400 * MS])])
            elif k == "stall":
                out.append(["slow", rng.choice([2 * SEC, 10 * SEC, 40 * SEC])])
            elif k == "jump":
                out.append(["jump", self.gen_op(rng, {"jump": 1})[1]])
            else:
                out.append([k])
        return out

    def gen_op(self, rng, w):
        k = rng.choices(list(w), weights=list(w.values()))[0]
        if k == "rec":
            return ["rec", rng.choice([1, 1, 1, 2, 3, 5])]
        if k == "uns":
            return ["uns", 1]
        if k == "sleep":
            return ["sleep", rng.choice([0, 1000, 1 * MS, 20 * MS, 300 * MS, 499 * MS, 500 * MS, 1 * SEC, 5 * SEC, 7 * SEC])]
        if k == "flush":
            return ["flush", rng.choice([None, 1, 100, 1000, 30000, 30000, 30000])]
        if k == "jump":
            return ["jump", rng.choice([-1, 1]) * rng.choice([1 * SEC, 600 * SEC, 3600 * SEC, 86400 * 300 * SEC])]
        if k == "shutdown":
            return ["shutdown", rng.choice(["processor", "provider", "atexit"])]
        return [k]

    OPS = {"rec": 10, "uns": 1, "sleep": 4, "flush": 2, "jump": 0.3}
    P_SHUT = 0.3
    ENDS = ["shutdown", "flush", "wait"]

    def gen(self, rng, tier):
        kind = rng.choice(["span", "log"])
        threads = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            threads.append([self.gen_op(rng, self.OPS) for _ in range(rng.randint(1, 8))])
        if rng.random() < self.P_SHUT:
            t = [self.gen_op(rng, {"sleep": 1, "rec": 1}) for _ in range(rng.randint(0, 3))]
            t.append(self.gen_op(rng, {"shutdown": 1}))
            if rng.random() < 0.3:
                t.append(self.gen_op(rng, {"shutdown": 1, "rec": 1, "flush": 1}))
            threads.append(t)
            if rng.random() < 0.2:
                threads.append([self.gen_op(rng, {"sleep": 1, "rec": 1}) for _ in range(rng.randint(0, 2))] +
                               [self.gen_op(rng, {"shutdown": 1})])
        return {"kind": kind, "cfg": self.gen_cfg(rng), "threads": threads, "behav": self.gen_behav(rng, 12),
                "end": rng.choice(self.ENDS)}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["max_sim_ns"] = 6 * 3600 * SEC
        return c

    # ---- execution ----------------------------------------------------------------------
    def run(self, run, sc):
        st = State(self, run, sc)
        common.clients(run, sc["threads"], st.step)
        st.finale()
        st.check()
        run.nontrivial = bool(st.overlap or run.sim.faults) and st.n_exports > 0


class Rec:
    __slots__ = ("uid", "inv", "resp", "t_inv", "t_resp", "sampled", "exports")

    def __init__(self, uid, sampled):
        self.uid = uid
        self.sampled = sampled
        self.inv = self.resp = self.t_inv = self.t_resp = None
        self.exports = []


class Exp:
    __slots__ = ("k", "start", "end", "t_start", "t_end", "uids")


class State:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc = chk, run, sc
        self.sim = run.sim
        self.recs = {}
        self.parent_uids = set()
        self.exports = []
        self.in_export = 0
        self.n_exports = 0
        self.exp_shutdowns = []
        self.flushes = []
        self.shutdowns = []
        self.overlap = 0
        self.ops_active = 0
        self.behav = sc.get("behav", [])
        st = self
        c = sc["cfg"]
        kind = sc["kind"]
        SpanExporter = chk.export.SpanExporter
        R, LR = chk.export.SpanExportResult, chk.lexport.LogExportResult

        def do_export(items, uid_of, ok, bad):
            sim = st.sim
            uids = [uid_of(i) for i in items]
            e = Exp()
            e.k = st.n_exports
            st.n_exports += 1
            e.uids = uids
            e.start = sim.ev("export", e.k, tuple(uids))
            e.t_start = sim.now
            e.end = e.t_end = None
            st.exports.append(e)
            if st.ops_active:
                st.overlap += 1
            if st.in_export:
                run.violate("overlap", "export call %d started while another export call is in progress" % e.k, "C01")
            if not uids:
                run.violate("empty-batch", "export called with an empty batch", "C01")
            if len(uids) > c["batch"]:
                run.violate("batch-too-big", "export call with %d records, max_export_batch_size=%d" % (len(uids), c["batch"]), "C01")
            if st.exp_shutdowns:
                run.violate("export-after-shutdown", "export call %r starts after exporter.shutdown began" % (uids,), "C03")
            for u in uids:
                r = st.recs.get(u)
                if r is None and u in st.parent_uids:
                    run.violate("parent-record", "the forked child exported %s, which was handed over in the parent before the fork" % u, "C05")
                if r is None:
                    run.violate("alien-record", "exported %r which was never handed over" % (u,), "C01")
                    continue
                if r.exports:
                    run.violate("duplicate", "record %s exported twice: calls %d and %d" % (u, r.exports[0].k, e.k), "C01")
                if not r.sampled:
                    run.violate("unsampled-exported", "unsampled span %s was exported" % u, "C01")
                for s in st.shutdowns:
                    if s["resp"] is not None and s["resp"] < r.inv:
                        run.violate("exported-after-shutdown", "record %s handed over after shutdown returned was exported" % u, "C03")
                r.exports.append(e)
            st.in_export += 1
            b = st.behav[e.k] if e.k < len(st.behav) else ["ok"]
            try:
                if b[0] == "slow":
                    sim.fault("exporter_slow" if b[1] < SEC else "exporter_stall")
                    time.sleep(b[1] / 1e9)
                    return ok
                if b[0] == "jump":
                    sim.jump_wall(b[1])
                sim.point()
                if b[0] == "fail":
                    sim.fault("exporter_failure_result")
                    return bad
                if b[0] == "raise":
                    sim.fault("exporter_raises")
                    raise common.Boom("injected exporter failure")
                if b[0] == "raise2":
                    sim.fault("exporter_raises")
                    raise type("OddError", (Exception,), {})()
                return ok
            finally:
                st.in_export -= 1
                e.end = sim.ev("export_end", e.k)
                e.t_end = sim.now

        def do_shutdown():
            st.exp_shutdowns.append(st.sim.ev("exporter_shutdown"))
            if st.in_export:
                run.violate("shutdown-during-export", "exporter.shutdown called while an export call is in progress", "C03")

        if kind == "span":
            class E(SpanExporter):
                def export(self, spans):
                    return do_export(spans, lambda s: s.name, R.SUCCESS, R.FAILURE)

                def shutdown(self):
                    do_shutdown()
            self.provider = chk.trace.TracerProvider(sampler=chk.Samp(), resource=chk.res)
            self.proc = chk.export.BatchSpanProcessor(E(), max_queue_size=c["q"], schedule_delay_millis=c["delay"],
                                                      max_export_batch_size=c["batch"], export_timeout_millis=c["etimeout"])
            self.provider.add_span_processor(self.proc)
            self.src = self.provider.get_tracer("t")
        else:
            class E(chk.lexport.LogExporter):
                def export(self, batch):
                    return do_export(batch, lambda d: d.log_record.body, LR.SUCCESS, LR.FAILURE)

                def shutdown(self):
                    do_shutdown()
            self.provider = chk.logs.LoggerProvider(resource=chk.res)
            self.proc = chk.lexport.BatchLogRecordProcessor(E(), max_queue_size=c["q"], schedule_delay_millis=c["delay"],
                                                            max_export_batch_size=c["batch"], export_timeout_millis=c["etimeout"])
            self.provider.add_log_record_processor(self.proc)
            self.src = self.provider.get_logger("t")

    # -- operations
    def hand_over(self, sampled=True):
        sim = self.sim
        r = Rec("%s%d%s" % ("s" if sampled else "u", len(self.recs), "c" if self.run.forked else ""), sampled)
        self.recs[r.uid] = r
        if self.sc["kind"] == "span":
            span = self.src.start_span(r.uid)
            self.ops_active += 1
            r.t_inv = sim.now
            r.inv = sim.ev("end", r.uid)
            span.end()
        else:
            lr = self.chk.logs.LogRecord(body=r.uid, timestamp=1, resource=self.chk.res)
            self.ops_active += 1
            r.t_inv = sim.now
            r.inv = sim.ev("emit", r.uid)
            self.src.emit(lr)
        r.resp = sim.ev("done", r.uid)
        r.t_resp = sim.now
        self.ops_active -= 1

    def step(self, run, tid, op):
        sim = self.sim
        k = op[0]
        if k == "rec":
            for _ in range(op[1]):
                self.hand_over()
        elif k == "uns":
            self.hand_over(sampled=self.sc["kind"] != "span")
        elif k == "sleep":
            time.sleep(op[1] / 1e9)
        elif k == "flush":
            self.flush(op[1])
        elif k == "jump":
            sim.jump_wall(op[1])
        elif k == "shutdown":
            self.shutdown(op[1])
        elif k == "fork":
            self.fork(op[1])

    def fork(self, prog):
        """Fork here; the child runs prog on the inherited processor."""
        from sim import driver
        sim, run = self.sim, self.run
        if self.shutdowns:
            return

        def child():
            for r in self.recs.values():
                self.parent_uids.add(r.uid)
            sim.probe("fork_queue_nonempty", int(any(not r.exports for r in self.recs.values())))
            sim.probe("fork_during_export", int(self.in_export > 0))
            sim.probe("fork_during_flush", int(any(f["ret"] is None for f in self.flushes)))
            self.recs = {}
            self.exports = []
            self.in_export = 0
            self.ops_active = 0
            self.flushes = []
            self.shutdowns = []
            self.exp_shutdowns = []
            run.pending = {}
            self.behav = self.sc.get("child_behav", [])
            self.n_exports = 0
            for op in prog:
                self.step(run, 0, op)
            self.finale()
            self.check()
        driver.sim_fork(run, child)

    def flush(self, timeout):
        sim = self.sim
        f = {"timeout": timeout, "t0": sim.now, "ret": None, "task": sim.cur}
        f["inv"] = sim.ev("flush", timeout)
        f["id"] = f["inv"]
        self.flushes.append(f)
        self.run.pending[f["inv"]] = "force_flush"
        self.ops_active += 1
        ret = self.proc.force_flush() if timeout is None else self.proc.force_flush(timeout)
        self.ops_active -= 1
        del self.run.pending[f["inv"]]
        f["ret"] = ret
        f["t1"] = sim.now
        f["resp"] = sim.ev("flushed", ret)
        return ret

    def shutdown(self, how):
        sim = self.sim
        s = {"how": how, "t0": sim.now, "resp": None}
        if not self.shutdowns:
            for f in self.flushes:
                if f["ret"] is None:
                    f["waiting"] = f["task"].state == core.BLOCKED and f["task"].deadline is not None and f["task"].waiting_on is not None
        s["inv"] = sim.ev("shutdown", how)
        self.shutdowns.append(s)
        self.run.pending[s["inv"]] = "shutdown"
        self.ops_active += 1
        if how == "processor":
            self.proc.shutdown()
        elif how == "provider":
            self.provider.shutdown()
        else:
            sim.fault("interpreter_exit")
            atexit._run_exitfuncs()
        self.ops_active -= 1
        del self.run.pending[s["inv"]]
        s["resp"] = sim.ev("shutdown_done", how)
        s["t1"] = sim.now
        s["exp_shutdown"] = bool(self.exp_shutdowns)

    def finale(self):
        sim = self.sim
        end = self.sc.get("end", "shutdown")
        c = self.sc["cfg"]
        sim.stalls_on = False
        sim.ev("finale")
        self.wait_checked = False
        if not self.shutdowns and end == "wait":
            left = sum(b[1] for b in self.behav[self.n_exports:] if b[0] == "slow")
            cur = 45 * SEC
            time.sleep((c["delay"] * MS * 3 + left + cur) / 1e9 + 1)
            self.wait_checked = True
        self.t_end = sim.now
        self.final_flush = None
        if not self.shutdowns and end == "flush":
            self.final_flush = self.flush(3_600_000)
        if not self.shutdowns and end == "shutdown":
            self.shutdown("processor")
        else:
            if self.shutdowns:
                # let racing work finish
                time.sleep(c["delay"] / 1e3 * 3 + 1)

    # -- oracles ---------------------------------------------------------------------------------
    def may_be_lost(self, r):
        """Record r may have been evicted: max_queue_size later records were handed over before any
        later record was exported."""
        q = self.sc["cfg"]["q"]
        t_next = min([e.start for e in self.exports for u in e.uids if self.recs[u].inv > r.resp] or [1 << 60])
        n = 0
        for s in self.recs.values():
            if s is r or not s.sampled or s.inv is None:
                continue
            if s.inv < t_next and (s.resp is None or s.resp > r.inv):
                n += 1
        return n >= q

    def check(self):
        run, sim = self.run, self.sim
        recs = [r for r in self.recs.values() if r.sampled and r.resp is not None]
        shut_inv = min([s["inv"] for s in self.shutdowns] or [1 << 60])
        lost = set()
        for r in recs:
            if not r.exports and self.may_be_lost(r):
                lost.add(r.uid)
        if lost:
            sim.probe("overflow_loss", len(lost))
        # C01: order
        last = None
        seq = [self.recs[u] for e in sorted(self.exports, key=lambda e: e.start) for u in e.uids]
        # r before s in export order while s.resp < r.inv -> violation
        min_resp = None
        for r in reversed(seq):
            if min_resp is not None and min_resp[0] < r.inv:
                run.violate("order", "record %s was exported before %s although %s was handed over first" % (r.uid, min_resp[1], min_resp[1]), "C01")
            if r.resp is not None and (min_resp is None or r.resp < min_resp[0]):
                min_resp = (r.resp, r.uid)
        # C01: loss
        drained = self.shutdowns or self.wait_checked or self.final_flush
        for r in recs:
            if r.exports or r.uid in lost:
                continue
            if r.resp < shut_inv and drained:
                run.violate("lost", "record %s (handed over at #%d) was never exported, queue size %d never exceeded" % (r.uid, r.resp, self.sc["cfg"]["q"]), "C01")
        self.check_flush(recs, lost, shut_inv)
        self.check_shutdown(recs, lost)
        self.check_time(recs, lost, shut_inv)

    def exp_time(self, t0, t1):
        """Time the exporter spent in calls overlapping [t0, t1]."""
        tot = 0
        for e in self.exports:
            te = e.t_end if e.t_end is not None else 1 << 62
            if te >= t0 and e.t_start <= t1:
                tot += min(te, t1) - max(e.t_start, t0)
        return tot

    def check_flush(self, recs, lost, shut_inv):
        run = self.run
        for f in self.flushes:
            if f["ret"] is None:
                continue
            to = f["timeout"] if f["timeout"] is not None else self.sc["cfg"]["etimeout"]
            dur = f["t1"] - f["t0"]
            stalls = self.sim.stall_time(f["t0"], f["t1"])
            if dur > to * MS + stalls + SLACK:
                run.violate("flush-late", "force_flush(%s) took %.3fs (timeout %dms)" % (f["timeout"], dur / 1e9, to), "C02")
            if f["ret"] not in (True, False):
                run.violate("flush-type", "force_flush returned %r" % (f["ret"],), "C02")
            # a flush that was waiting before shutdown began is not excused by it
            racing = f["resp"] > shut_inv and not f.get("waiting")
            if f["ret"] is True and not racing:
                for r in recs:
                    if r.resp < f["inv"] and r.uid not in lost:
                        if not any(e.end is not None and e.end < f["resp"] for e in r.exports):
                            run.violate("flush-lie", "force_flush returned True at #%d but record %s handed over before it (#%d) was not exported by then" % (f["resp"], r.uid, r.resp), "C02")
            if f["ret"] is False:
                if dur < to * MS - SLACK:
                    run.violate("flush-early-false", "force_flush(%s) returned False after %.3fs" % (f["timeout"], dur / 1e9), "C02")
                busy = self.exp_time(f["t0"], f["t1"])
                if not racing and busy + stalls + SLACK < to * MS:
                    run.violate("flush-stuck", "force_flush(%s) timed out although the exporter was busy only %.3fs of it" % (f["timeout"], busy / 1e9), "C02")

    def check_shutdown(self, recs, lost):
        run = self.run
        for s in self.shutdowns:
            if s["resp"] is None:
                continue
            first = s is self.shutdowns[0]
            if not s["exp_shutdown"] and (first or s["how"] == "processor"):
                run.violate("exporter-not-shut-down", "shutdown returned but the exporter was not shut down", "C03")
            if first or s["how"] == "processor":
                for r in recs:
                    if r.resp < self.shutdowns[0]["inv"] and r.uid not in lost:
                        if not any(e.end is not None and e.end < s["resp"] for e in r.exports):
                            run.violate("shutdown-lost", "record %s handed over before shutdown was not exported when shutdown returned" % r.uid, "C03")
            if first:
                dur = s["t1"] - s["t0"]
                busy = self.exp_time(s["t0"], s["t1"])
                if dur > busy + self.sim.stall_time(s["t0"], s["t1"]) + SLACK:
                    run.violate("shutdown-slow", "shutdown took %.3fs though the exporter was busy only %.3fs of it" % (dur / 1e9, busy / 1e9), "C03")

    def check_time(self, recs, lost, shut_inv):
        run = self.run
        delay = self.sc["cfg"]["delay"] * MS
        batch = self.sc["cfg"]["batch"]
        stall_time = self.sim.stall_time
        # (a) every record within the delay
        for r in recs:
            if r.uid in lost or r.resp > shut_inv:
                continue
            e = r.exports[0] if r.exports else None
            t1 = e.t_start if e else self.t_end
            if e is None and not (self.wait_checked or self.shutdowns or self.final_flush):
                continue
            busy = self.exp_time(r.t_resp, t1)
            if t1 - r.t_resp > delay + busy + stall_time(r.t_resp, t1) + SLACK:
                run.violate("late", "record %s waited %.3fs (schedule delay %.3fs, exporter busy %.3fs of it)" % (r.uid, (t1 - r.t_resp) / 1e9, delay / 1e9, busy / 1e9), "C04")
        # (b) a full batch starts at once
        evs = [(r.resp, "r", r) for r in recs if r.uid not in lost and r.resp < shut_inv]
        evs += [(e.start, "s", e) for e in self.exports]
        evs.sort(key=lambda x: x[0])
        waiting = set()
        gone = set()
        full_since = None
        for seq, k, o in evs:
            if k == "r":
                if o.uid in gone:
                    continue
                waiting.add(o.uid)
                if len(waiting) >= batch and full_since is None:
                    full_since = o.t_resp
            else:
                if full_since is not None:
                    busy = self.exp_time(full_since, o.t_start)
                    if o.t_start - full_since > busy + stall_time(full_since, o.t_start) + SLACK:
                        run.violate("full-batch-waits", "%d records (a full batch) waited %.3fs before export" % (len(waiting), (o.t_start - full_since) / 1e9), "C04")
                waiting -= set(o.uids)
                gone |= set(o.uids)
                full_since = o.t_start if len(waiting) >= batch else None
                if full_since is not None:
                    full_since = o.t_end or o.t_start
        for d in self.sim.thread_deaths:
            run.violate("worker-died", "background thread died: %s" % (d,), "C04")
