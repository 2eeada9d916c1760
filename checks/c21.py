import io
import logging
import threading
import time

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
LEVELS = [(10, "DEBUG", 5), (20, "INFO", 9), (30, "WARN", 13), (40, "ERROR", 17), (50, "CRITICAL", 21), (25, "Level 25", None), (60, "Level 60", 24),
          (5, "Level 5", 0)]
KEYS = ["k1", "user", "request_id", "otelSpanID", "http.method", "duration", "value", "level", "time", "stack", "status", "messages"]
NAMES = [None, "app", "app.db", "other"]
DEPTH = 30


Boom = common.Boom


class Obj:
    def __init__(self, uid):
        self.uid = uid

    def __str__(self):
        return self.uid + " obj"


def uid_of(d):
    b = d.log_record.body
    if b is None or (d.log_record.attributes or {}).get("uid"):
        return d.log_record.attributes["uid"]
    if isinstance(b, Obj):
        return b.uid
    if isinstance(b, dict):
        return b.get("uid")
    if isinstance(b, str) and b.startswith("{'uid': '"):
        return b.split("'")[3]
    return b.split(" ")[0] if isinstance(b, str) else str(b)[:20]


def sendable(v):
    """Whether every exporter can send this body."""
    if isinstance(v, dict):
        return all(isinstance(k, str) and sendable(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(map(sendable, v))
    return v is None or isinstance(v, (str, int, float, bytes))


class Fmt:
    def __init__(self, uid):
        self.fmt = uid + " %s"

    def __str__(self):
        return self.fmt


class Short(logging.Formatter):
    """The formatter of a handler that has nothing to do with OpenTelemetry."""
    def formatException(self, ei):
        return "(short)"

    def formatTime(self, record, datefmt=None):
        return "now"


class C21(Check):
    ID = "C21"
    RUNS = {"quick": 7000, "thorough": 300000}
    PREFIXES = [SDK + "_logs/", "/repo/opentelemetry-api/src/opentelemetry/_logs/", "/repo/opentelemetry-api/src/opentelemetry/attributes/"]
    STALLS = False
    GRAN = {"line": 6, "instr": 3, "sync": 2}
    MAX_EVENTS = 400_000
    REAL = ["LoggingHandler, LoggerProvider, Logger", "Simple/BatchLogRecordProcessor, Synchronous/ConcurrentMultiLogRecordProcessor",
            "stdlib logging (loggers, handlers and their locks), spans and contexts"]
    STUB = ["log exporters (seeded: they log, fail, are slow)", "clocks", "thread scheduler"]
    RULE = ("A case is 1-2 handlers on the root or application loggers, 1-3 processors whose exporters may log, fail or be slow, seeded "
            "threads that log in and out of spans, flush and shut down; non-trivial = threads were preempted or a fault fired.")

    def setup(self):
        from opentelemetry import trace as tapi
        from opentelemetry.sdk import trace, _logs, resources
        from opentelemetry.sdk._logs import _internal as li
        from opentelemetry.sdk._logs import export as lexp
        from opentelemetry import _events as eapi
        from opentelemetry._logs import SeverityNumber
        from opentelemetry.sdk import _events as events
        self.eapi, self.events, self.sev = eapi, events, SeverityNumber
        self.tapi, self.trace, self.logs, self.li, self.lexp = tapi, trace, _logs, li, lexp
        self.res = resources.Resource({"service.name": "s"})
        logging.raiseExceptions = False
        self.tracer = trace.TracerProvider(resource=self.res, shutdown_on_exit=False).get_tracer("t")

    def gen(self, rng, tier):
        def proc():
            return {"k": rng.choice(["simple", "batch", "batch"]), "chat": int(rng.random() < 0.4), "fail": int(rng.random() < 0.2),
                    "d": rng.choice([0, 0, 0, 1 * MS, 1 * SEC]), "size": rng.choice([1, 2, 8])}

        w = {"log": 8, "in": 2, "out": 1.5, "event": 1.5, "flush": 1, "hflush": 0.7, "shutdown": rng.choice([0, 0.3]), "sleep": 1}
        ths = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([3, 8]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if k == "log":
                    ops.append([k, rng.randrange(len(NAMES)), rng.randrange(len(LEVELS) if rng.random() < 0.3 else 5),
                                rng.choice(["plain", "plain", "args", "extra", "exc", "exc0", "excobj", "obj", "objargs", "err", "map", "bad", "badattr", "excnone", "seq"]),
                                rng.choice(KEYS)])
                elif k == "event":
                    ops.append([k, rng.choice(["", "", "ids", "flags0"]), rng.choice([None, None, 5, 17]), rng.choice(["str", "map", "none"]), rng.choice([None, 1700000000 * SEC]),
                                rng.choice(KEYS)])
                elif k == "in":
                    ops.append([k, int(rng.random() < 0.2)])
                elif k == "sleep":
                    ops.append([k, rng.choice([0, 1 * MS, 900 * MS, 6 * SEC])])
                else:
                    ops.append([k])
            ths.append(ops)
        return {"mode": rng.choice(["sync", "sync", "conc"]), "workers": rng.choice([1, 2, 4]), "procs": [proc() for _ in range(rng.choice([0, 1, 1, 2]))],
                "handlers": [[rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 20, 30]), int(rng.random() < 0.2)] for _ in range(rng.choice([1, 1, 2]))],
                "foreign": [[rng.choice([0, 0, 1]), int(rng.random() < 0.6)] for _ in range(rng.choice([0, 0, 1]))], "threads": ths}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["max_sim_ns"] = 3600 * SEC
        return c

    def run(self, run, sc):
        common.guard(run, S(self, run, sc).go)()


CHECK = C21()


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.recs = []
        self.emits = {}
        self.flushes = []
        self.spans = {}
        self.shut = [BIG, BIG]
        self.depth = {}

    def go(self):
        chk, sc = self.chk, self.sc
        m = chk.li.SynchronousMultiLogRecordProcessor() if sc["mode"] == "sync" else chk.li.ConcurrentMultiLogRecordProcessor(sc["workers"])
        self.prov = chk.logs.LoggerProvider(resource=chk.res, shutdown_on_exit=False, multi_log_record_processor=m)
        st = self

        class R(chk.logs.LogRecordProcessor):
            def emit(self, d):
                uid = uid_of(d)
                st.emits.setdefault(uid, []).append((st.sim.ev("emit", uid if isinstance(uid, str) else None), st.sim.cur.id, d))

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=30000):
                return True
        self.prov.add_log_record_processor(R())
        self.evl = [chk.events.EventLoggerProvider(self.prov).get_event_logger("ev%d" % i, "1.%d" % i) for i in range(2)]
        self.exps = []
        for p in sc["procs"]:
            e = self.exporter(p, len(self.exps))
            self.exps.append((p, e))
            if p["k"] == "simple":
                self.prov.add_log_record_processor(chk.lexp.SimpleLogRecordProcessor(e))
            else:
                self.prov.add_log_record_processor(chk.lexp.BatchLogRecordProcessor(
                    e, schedule_delay_millis=2000, max_export_batch_size=p["size"], max_queue_size=4096, export_timeout_millis=10000))
        root = logging.getLogger()
        root.setLevel(1)

        def foreign(first):
            for where, before in sc.get("foreign", []):
                if bool(before) == first:
                    h = logging.StreamHandler(io.StringIO())
                    h.setFormatter(Short())
                    logging.getLogger(NAMES[where]).addHandler(h)
        foreign(True)
        self.handlers = []
        for where, lvl, fmt in sc["handlers"]:
            h = chk.logs.LoggingHandler(level=lvl, logger_provider=self.prov)
            if fmt:
                h.setFormatter(logging.Formatter("%(message)s [%(levelname)s]"))
            logging.getLogger(NAMES[where]).addHandler(h)
            self.handlers.append((where, lvl, fmt, h))
        foreign(False)
        if not any(w == 0 for w, _, _, _ in self.handlers):
            root.addHandler(logging.NullHandler())
        common.clients(self.run, sc["threads"], self.step)
        self.op_flush(-1)
        self.op_shutdown(-1)
        self.check()

    def exporter(self, p, n):
        st, sim, chk = self, self.sim, self.chk
        log = logging.getLogger("exporter.%d" % n)

        class E(chk.lexp.LogExporter):
            def __init__(self):
                self.got = []

            def export(self, batch):
                me = sim.cur.id
                st.depth[me] = st.depth.get(me, 0) + 1
                if st.depth[me] > DEPTH:
                    st.run.violate("recursion", "export calls of one thread are nested %d deep" % DEPTH)
                try:
                    for d in batch:
                        uid = uid_of(d)
                        self.got.append((sim.ev("export", n, uid if isinstance(uid, str) else None), me, uid))
                    if p["d"]:
                        time.sleep(p["d"] / 1e9)
                    else:
                        sim.point("export")
                    if p["chat"]:
                        sim.fault("exporter logs")
                        log.warning("exporter says %d", n)
                    if p["fail"]:
                        sim.fault("exporter raises")
                        raise Boom("exporter")
                    return chk.lexp.LogExportResult.SUCCESS
                finally:
                    st.depth[me] -= 1

            def shutdown(self):
                if p["chat"]:
                    log.warning("exporter %d says bye", n)
        return E()

    # ---- operations -----------------------------------------------------------------------
    def step(self, run, tid, op):
        getattr(self, "op_" + op[0])(tid, *op[1:])

    def op_sleep(self, tid, ns):
        time.sleep(ns / 1e9)

    def op_in(self, tid, remote=0):
        st = self.spans.setdefault(tid, [])
        if len(st) < 3:
            t = self.chk.tapi
            if remote:
                cm = t.use_span(t.NonRecordingSpan(t.SpanContext(0xabc0 + tid, 0xdef0 + len(st), True, t.TraceFlags(0))))
            else:
                cm = self.chk.tracer.start_as_current_span("s")
            st.append((cm, cm.__enter__()))

    def op_out(self, tid):
        st = self.spans.setdefault(tid, [])
        if st:
            st.pop()[0].__exit__(None, None, None)

    def op_log(self, tid, name, lvl, kind, key):
        st = self.spans.setdefault(tid, [])
        uid = "u%d" % len(self.recs)
        r = {"uid": uid, "name": name, "lvl": lvl, "kind": kind, "key": key, "span": st[-1][1].get_span_context() if st else None, "resp": BIG,
             "tid": self.sim.cur.id, "w0": time.time_ns()}
        self.recs.append(r)
        lg = logging.getLogger(NAMES[name])
        no = LEVELS[lvl][0]
        r["inv"] = self.sim.ev("log", uid, name, no, kind)
        if kind == "plain":
            lg.log(no, uid + " hello")
        elif kind == "args":
            lg.log(no, "%s hello %d", uid, 7)
        elif kind == "extra":
            lg.log(no, uid + " hello", extra={key: "v", "k2": 3})
        elif kind == "badattr":
            lg.log(no, uid + " hello", extra={key: object(), "k2": 3})
        elif kind == "exc":
            try:
                raise Boom("because")
            except Boom:
                lg.log(no, uid + " hello", exc_info=True)
        elif kind == "exc0":
            try:
                raise ValueError
            except ValueError as e:
                lg.log(no, uid + " hello", exc_info=e)
        elif kind == "excobj":
            lg.log(no, uid + " hello", exc_info=KeyError(("a", uid)))
        elif kind == "excnone":
            lg.log(no, uid + " hello 100%", exc_info=True)
        elif kind == "seq":
            vals = ["a", uid]
            lg.log(no, uid + " hello", extra={key: vals, "k2": 3})
            vals.append("late")
        elif kind == "obj":
            lg.log(no, Obj(uid))
        elif kind == "err":
            lg.log(no, Boom(uid + " hello"))
        elif kind == "map":
            lg.log(no, {"uid": uid, "x": [1, None, b"2"], "n": self.nest(uid)})
        elif kind == "objargs":
            lg.log(no, Fmt(uid), "hello")
        else:
            lg.log(no, uid + " %d", "x")
        r["resp"] = self.sim.ev("logged", uid)
        r["w1"] = time.time_ns()

    def op_event(self, tid, ids, sev, body, ts, key):
        st = self.spans.setdefault(tid, [])
        n = len(self.recs)
        uid = "u%d" % n
        r = {"uid": uid, "kind": "event", "span": st[-1][1].get_span_context() if st else None, "resp": BIG, "tid": self.sim.cur.id, "w0": time.time_ns(), "key": key,
             "sev": sev or 9, "ts": ts, "log": n % 2, "ids": None, "name": "e.%d" % n}
        self.recs.append(r)
        kw = {}
        if ids:
            kw = {"trace_id": 0x5000 + n, "span_id": 0x6000 + n, "trace_flags": self.chk.tapi.TraceFlags(int(ids == "ids"))}
            r["ids"] = tuple(kw.values())
        if sev:
            kw["severity_number"] = self.chk.sev(sev)
        if ts:
            kw["timestamp"] = ts
        attrs = {"uid": uid, key: "v"}
        r["attrs"] = {**attrs, "event.name": r["name"]}
        r["body"] = {"str": uid + " ev", "map": {"uid": uid, "x": [1, "2"]}, "none": None}[body]
        r["inv"] = self.sim.ev("event", uid, ids, sev, body)
        self.evl[r["log"]].emit(self.chk.eapi.Event(r["name"], body=r["body"], attributes=attrs, **kw))
        attrs[key] = "late"
        r["resp"] = self.sim.ev("evented", uid)
        r["w1"] = time.time_ns()

    def event(self, r, got):
        V = self.run.violate
        if len(got) != 1:
            V("event-count", "event %s was emitted %d times" % (r["uid"], len(got)))
        seq, tid, d = got[0]
        lr = d.log_record
        if not r["inv"] < seq < r["resp"] or self.sc["mode"] == "sync" and tid != r["tid"]:
            V("event-when", "event %s was emitted outside of the call, or by another thread" % r["uid"])
        sp = r["span"]
        want = r["ids"] or ((sp.trace_id, sp.span_id, sp.trace_flags) if sp else (0, 0, 0))
        if (lr.trace_id, lr.span_id, lr.trace_flags) != want:
            V("event-correlation", "event %s in span %r was emitted with trace id %x, span id %x, flags %r" % (r["uid"], want, lr.trace_id, lr.span_id, lr.trace_flags))
        sc = d.instrumentation_scope
        if (sc.name, sc.version) != ("ev%d" % r["log"], "1.%d" % r["log"]) or lr.resource != self.chk.res:
            V("event-scope", "event %s was emitted with scope %r and resource %r" % (r["uid"], sc, lr.resource))
        if lr.severity_number.value != r["sev"] or dict(lr.attributes) != r["attrs"] or lr.body != r["body"]:
            V("event-data", "event %r was emitted as %r %r %r" % (r, lr.severity_number, dict(lr.attributes), lr.body))
        if lr.timestamp != r["ts"] if r["ts"] else not r["w0"] - 2 * MS <= lr.timestamp <= r["w1"] + 2 * MS:
            V("event-time", "event %s was emitted with time %d" % (r["uid"], lr.timestamp))

    def nest(self, uid):
        return [{"o": Obj(uid)}] if len(self.recs) % 2 else {"y": 2.5}

    def op_flush(self, tid):
        f = {"inv": self.sim.ev("flush")}
        f["ret"] = self.prov.force_flush(60000)
        f["resp"] = self.sim.ev("flushed", f["ret"])
        if f["ret"]:
            self.flushes.append(f)

    def op_hflush(self, tid):
        self.sim.ev("hflush")
        self.handlers[0][3].flush()
        self.sim.ev("hflushed")

    def op_shutdown(self, tid):
        a = self.sim.ev("shutdown")
        self.shut[0] = min(self.shut[0], a)
        self.prov.shutdown()
        self.shut[1] = min(self.shut[1], self.sim.ev("shutdown-done"))

    # ---- oracle ---------------------------------------------------------------------------
    def chain(self, name):
        """Handlers a record of this logger reaches."""
        full = NAMES[name]
        up = {0}
        if full:
            parts = full.split(".")
            up |= {NAMES.index(".".join(parts[:k])) for k in range(1, len(parts) + 1)}
        return [h for h in self.handlers if h[0] in up]

    def check(self):
        V = self.run.violate
        for r in self.recs:
            if r["kind"] == "event":
                self.event(r, self.emits.get(r["uid"], []))
                continue
            hs = [h for h in self.chain(r["name"]) if LEVELS[r["lvl"]][0] >= h[1]]
            got = self.emits.get(r["uid"], [])
            exp = 0 if r["kind"] == "bad" else len(hs)
            if len(got) != exp:
                V("count", "log call %s (%s) through %d handlers was emitted %d times" % (r["uid"], r["kind"], len(hs), len(got)))
            bodies = []
            for seq, tid, d in got:
                lr = d.log_record
                if not r["inv"] < seq < r["resp"]:
                    V("when", "log call %s was emitted outside of the call" % r["uid"])
                if self.sc["mode"] == "sync" and tid != r["tid"]:
                    V("thread", "log call %s was emitted by another thread" % r["uid"])
                no, txt, sev = LEVELS[r["lvl"]]
                if lr.severity_text != txt or sev is not None and lr.severity_number.value != sev:
                    V("severity", "log call %s at level %d was emitted as %r %r" % (r["uid"], no, lr.severity_text, lr.severity_number))
                sp = r["span"]
                want = (sp.trace_id, sp.span_id, sp.trace_flags) if sp else (0, 0, 0)
                if (lr.trace_id, lr.span_id, lr.trace_flags) != want:
                    V("correlation", "log call %s in span %r was emitted with trace id %x span id %x" % (r["uid"], want, lr.trace_id, lr.span_id))
                if d.instrumentation_scope.name != (NAMES[r["name"]] or "root"):
                    V("scope", "log call %s of logger %r was emitted with scope %r" % (r["uid"], NAMES[r["name"]], d.instrumentation_scope.name))
                if lr.resource != self.chk.res:
                    V("resource", "log call %s was emitted without the provider's resource" % r["uid"])
                if not (r["w0"] - 2 * MS <= lr.timestamp <= r["w1"] + 2 * MS):
                    V("time", "log call %s at %d..%d was emitted with time %d" % (r["uid"], r["w0"], r["w1"], lr.timestamp))
                a = lr.attributes
                ex = {"extra": {r["key"]: "v", "k2": 3}, "badattr": {"k2": 3}, "exc": {"exception.type": "Boom", "exception.message": "because"},
                      "seq": {r["key"]: ("a", r["uid"]), "k2": 3}, "exc0": {"exception.type": "ValueError"},
                      "excobj": {"exception.type": "KeyError", "exception.message": str(("a", r["uid"]))}}.get(r["kind"], {})
                if ("exception.stacktrace" in a) != (r["kind"] in ("exc", "exc0")):
                    V("attributes", "log call %s (%s) was emitted with attributes %r" % (r["uid"], r["kind"], sorted(a)))
                if r["kind"] in ("exc", "exc0") and not ("Traceback" in a["exception.stacktrace"] and ("because" if r["kind"] == "exc" else "raise ValueError") in a["exception.stacktrace"]):
                    V("attributes", "log call %s was emitted with the stack trace of another exception" % r["uid"])
                for k in KEYS + ["k2", "exception.type", "exception.message"]:
                    if a.get(k) != ex.get(k):
                        V("attributes", "log call %s (%s) was emitted with %s=%r" % (r["uid"], r["kind"], k, a.get(k)))
                if a.get("code.function") != "op_log":
                    V("attributes", "log call %s was emitted with code.function %r" % (r["uid"], a.get("code.function")))
                bodies.append(lr.body)
            if r["kind"] == "bad":
                continue
            want = []
            for h in hs:
                if r["kind"] == "obj":
                    want.append(r["uid"] + " obj" if not h[2] else "%s obj [%s]" % (r["uid"], logging.getLevelName(LEVELS[r["lvl"]][0])))
                elif r["kind"] == "map":
                    want.append("MAP")
                else:
                    msg = r["uid"] + (" hello 7" if r["kind"] == "args" else " hello 100%" if r["kind"] == "excnone" else " hello")
                    want.append("%s [%s]" % (msg, logging.getLevelName(LEVELS[r["lvl"]][0])) if h[2] else msg)
            for b in bodies:
                if not sendable(b):
                    V("body", "log call %s (%s) was emitted with a body no exporter can send: %r" % (r["uid"], r["kind"], b))
                if r["kind"] == "map" and not isinstance(b, str) and b != {"uid": r["uid"], "x": [1, None, b"2"], "n": {"y": 2.5}}:
                    V("body", "log call %s was emitted with body %r" % (r["uid"], b))
            norm = ["MAP" if r["kind"] == "map" else b.split("\n")[0] if isinstance(b, str) else repr(b) for b in bodies]
            if r["kind"].startswith("exc"):
                norm = [b if not any(x[2] for x in hs) else b.split("\n")[0] for b in norm]
            if sorted(norm) != sorted(want):
                V("body", "log call %s was emitted with bodies %r, expected %r" % (r["uid"], norm, want))
        for p, e in self.exps:
            n = {}
            for seq, tid, uid in e.got:
                n.setdefault(uid, []).append(seq)
            for r in self.recs:
                exp = len(self.emits.get(r["uid"], []))
                got = n.get(r["uid"], [])
                if r["resp"] < self.shut[0] and len(got) != exp or len(got) > exp:
                    V("export", "log call %s, emitted %d times, was exported %d times by the %s processor" % (r["uid"], exp, len(got), p["k"]))
                for f in self.flushes:
                    if r["resp"] < f["inv"] and f["resp"] < self.shut[0] and len([x for x in got if x < f["resp"]]) != exp:
                        V("flush", "log call %s was not exported when a flush that began after it returned" % r["uid"])
