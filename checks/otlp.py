"""Workload and oracle shared by the OTLP exporter checks (C16 gRPC, C17 HTTP)."""
import time

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG

EX = "/repo/exporter/opentelemetry-exporter-otlp-proto-"


class Attempt:
    __slots__ = ("items", "data", "t0", "t1", "inv", "resp", "answer", "extra", "cut", "thread")


class Call:
    __slots__ = ("n", "items", "inv", "resp", "t0", "t1", "result", "exc", "stall0", "thread")


class Shut:
    __slots__ = ("inv", "resp", "t0", "t1", "timeout")


class OtlpCheck(Check):
    RUNS = {"quick": 7000, "thorough": 300000}
    STALL_NS = [1 * MS, 300 * MS, 3 * SEC]
    SHUT_ARG = False        # do all exporters take a shutdown timeout?

    def setup(self):
        from opentelemetry.sdk import resources, trace, _logs
        from opentelemetry import trace as tapi
        from opentelemetry.sdk.metrics import export as mx
        from opentelemetry.sdk.trace import export as tx
        from opentelemetry.sdk._logs import export as lx
        from opentelemetry.sdk.util.instrumentation import InstrumentationScope
        from opentelemetry._logs import SeverityNumber
        self.trace, self.logs, self.mx, self.tx, self.lx, self.tapi = trace, _logs, mx, tx, lx, tapi
        self.Scope, self.Sev = InstrumentationScope, SeverityNumber
        self.res = resources.Resource({"service.name": "svc"})
        self.OK = {"trace": tx.SpanExportResult.SUCCESS, "log": lx.LogExportResult.SUCCESS, "metric": mx.MetricExportResult.SUCCESS}
        self.FAIL = {"trace": tx.SpanExportResult.FAILURE, "log": lx.LogExportResult.FAILURE, "metric": mx.MetricExportResult.FAILURE}
        from opentelemetry.proto.collector.trace.v1 import trace_service_pb2 as t2
        from opentelemetry.proto.collector.logs.v1 import logs_service_pb2 as l2
        from opentelemetry.proto.collector.metrics.v1 import metrics_service_pb2 as m2
        self.PB = {"trace": t2.ExportTraceServiceRequest, "log": l2.ExportLogsServiceRequest, "metric": m2.ExportMetricsServiceRequest}
        import warnings
        warnings.simplefilter("ignore", DeprecationWarning)

    # ---- generation -----------------------------------------------------------------------
    def gen(self, rng, tier):
        sig = rng.choice(["trace", "log", "metric"])
        ths = []
        n = rng.choice([1, 1, 2, 2, 3])
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append(["export", rng.randint(1, 5)])
                if rng.random() < 0.3:
                    ops.append(["sleep", rng.choice([1, 100, 1000, 5000, 40_000]) * MS])
            ths.append(ops)
        p = rng.choice([0, 0.3, 0.6, 0.95])
        plan = []
        for _ in range(rng.randint(0, 14)):
            plan.append(self.gen_answer(rng, p))
        if rng.random() < 0.15:
            plan = [self.gen_answer(rng, 1.0, True)] * 7
        if rng.random() < 0.7:
            for _ in range(rng.choice([1, 1, 1, 2])):
                op = ["shutdown", rng.choice([None, None, 1, 500, 3000, 9000, 30_000])]
                sl = ["sleep", rng.choice([0, 1, 500, 1000, 2500, 6999, 7000, 15_000, 30_000]) * MS]
                if rng.random() < 0.7:
                    ths.append([sl, op] + ([["export", 1]] if rng.random() < 0.5 else []))
                else:
                    t = rng.choice(ths)
                    t.insert(rng.randint(0, len(t)), op)
        return {"sig": sig, "threads": ths, "plan": plan, "cfg": self.gen_cfg(rng, sig), "encbig": int(rng.random() < 0.1)}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["gran_ns"] = rng.choice([1, 1, 1000])
        return c

    def run(self, run, sc):
        self.STATE(self, run, sc).go()


class State:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.atts, self.calls, self.shuts = [], [], []
        self.sig = sc["sig"]

    # ---- telemetry ------------------------------------------------------------------------
    def batch(self, n, k):
        c = self.chk
        names = ["e%d-%d" % (n, i) for i in range(k)]
        scope = c.Scope("s%d" % (n % 2), "1")
        if self.sig == "trace":
            return names, [c.trace.ReadableSpan(
                name=x, context=c.tapi.SpanContext(1 + n, 1 + i, False, c.tapi.TraceFlags(1)), resource=c.res, attributes={"i": i},
                instrumentation_scope=scope, start_time=1, end_time=2) for i, x in enumerate(names)]
        if self.sig == "log":
            return names, [c.logs.LogData(c.logs.LogRecord(timestamp=1, observed_timestamp=1, trace_id=1, span_id=1, trace_flags=c.tapi.TraceFlags(1),
                                                           severity_text="I", severity_number=c.Sev.INFO, body=x, resource=c.res, attributes={"i": i}), scope)
                           for i, x in enumerate(names)]
        m = c.mx
        dps = [m.NumberDataPoint(attributes={"x": x}, start_time_unix_nano=1, time_unix_nano=2, value=i) for i, x in enumerate(names)]
        half = max(1, k // 2) if n % 2 else k
        ms = [m.Metric(name="m%d" % j, description="", unit="",
                       data=m.Sum(data_points=part, aggregation_temporality=m.AggregationTemporality.DELTA, is_monotonic=True))
              for j, part in enumerate([dps[:half], dps[half:]]) if part]
        return names, m.MetricsData(resource_metrics=[m.ResourceMetrics(
            resource=c.res, scope_metrics=[m.ScopeMetrics(scope=scope, metrics=ms, schema_url="")], schema_url="")])

    def decode(self, data):
        p = self.chk.PB[self.sig].FromString(data)
        out = []
        if self.sig == "trace":
            for rs in p.resource_spans:
                for ss in rs.scope_spans:
                    out += [s.name for s in ss.spans]
        elif self.sig == "log":
            for rs in p.resource_logs:
                for sl in rs.scope_logs:
                    out += [r.body.string_value for r in sl.log_records]
        else:
            for rm in p.resource_metrics:
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        out += [d.attributes[0].value.string_value for d in m.sum.data_points]
        return tuple(sorted(out))

    # ---- server ---------------------------------------------------------------------------
    def arrive(self, data, extra):
        a = Attempt()
        a.items, a.data, a.extra = self.decode(data), data, extra
        a.t0, a.inv = self.sim.now, self.sim.ev("attempt", len(self.atts))
        a.t1, a.resp, a.answer, a.cut = None, BIG, None, False
        a.thread = self.sim.cur.id
        self.atts.append(a)
        i = len(self.atts) - 1
        return a, (self.sc["plan"][i] if i < len(self.sc["plan"]) else ["ok", 0])

    def answered(self, a, answer):
        a.answer = answer
        a.t1, a.resp = self.sim.now, self.sim.ev("answer", self.atts.index(a), *answer[:2])

    # ---- workload -------------------------------------------------------------------------
    def go(self):
        self.exp = self.make()
        common.clients(self.run, self.sc["threads"], self.step)
        self.check()

    def step(self, run, tid, op):
        sim = self.sim
        if op[0] == "sleep":
            time.sleep(op[1] / 1e9)
        elif op[0] == "export":
            c = Call()
            c.n = len(self.calls)
            self.calls.append(c)
            names, data = self.batch(c.n, op[1])
            c.items = tuple(sorted(names))
            c.resp, c.result, c.exc, c.thread = BIG, None, None, sim.cur.id
            c.inv, c.t0 = sim.ev("export", c.n), sim.now
            try:
                c.result = self.exp.export(data)
            except Exception as e:      # noqa: judged below
                if type(e).__name__ == "Violation":
                    raise
                import traceback
                c.exc = "%s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].name)
            c.t1 = sim.now
            c.resp = sim.ev("exported", c.n, c.exc or c.result.name)
        elif op[0] == "shutdown":
            s = Shut()
            s.timeout = op[1] if op[1] is not None and self.takes_timeout() else None
            s.t0, s.inv, s.resp = sim.now, sim.ev("shutdown", s.timeout or 0), BIG
            self.shuts.append(s)
            if s.timeout is None:
                self.exp.shutdown()
            else:
                self.exp.shutdown(timeout_millis=s.timeout)
            s.t1, s.resp = sim.now, sim.ev("shutdown-done")

    # ---- oracle ---------------------------------------------------------------------------
    def check(self):
        V = self.run.violate
        sim = self.sim
        chk = self.chk
        first_shut = min([s.inv for s in self.shuts] or [BIG])
        shut_done = min([s.resp for s in self.shuts] or [BIG])
        known = {x: c for c in self.calls for x in c.items}
        by = {}
        for a in self.atts:
            owners = {known.get(x) for x in a.items}
            if len(owners) != 1 or None in owners:
                V("payload", "attempt %r carries items of several or unknown exports" % (a.items,))
            by.setdefault(owners.pop(), []).append(a)
            self.check_attempt(a)
        for c in self.calls:
            if c.exc:
                V("raises", "export %d raised %s" % (c.n, c.exc))
            atts = by.get(c, [])
            groups = {}
            for a in atts:
                groups.setdefault(a.items, []).append(a)
            mx = self.sc["cfg"].get("max")
            if c.inv > shut_done:
                if atts:
                    V("sent-after-shutdown", "export %d began after shutdown returned and sent a request" % c.n)
                if c.result is not chk.FAIL[self.sig]:
                    V("result-after-shutdown", "export %d began after shutdown returned and reported %s" % (c.n, c.result))
                continue
            seen = [x for g in groups for x in g]
            if len(seen) != len(set(seen)):
                V("payload", "parts of export %d overlap: %r" % (c.n, sorted(groups)))
            if not mx and groups and set(groups) != {c.items}:
                V("payload", "export %d of %r sent %r" % (c.n, c.items, sorted(groups)))
            if mx and any(len(g) > mx for g in groups):
                V("payload", "export %d sent a part of more than %d points: %r" % (c.n, mx, sorted(groups)))
            ok = True
            for g, al in groups.items():
                ok = self.check_group(c, g, al, first_shut) and ok
            all_sent = set(seen) == set(c.items)
            if c.result is chk.OK[self.sig]:
                if not ok or not all_sent:
                    V("false-success", "export %d reported success, answers %r" % (c.n, [a.answer for a in atts]))
            elif c.result is chk.FAIL[self.sig]:
                if ok and all_sent:
                    V("false-failure", "export %d reported failure although the server accepted it, answers %r" % (c.n, [a.answer for a in atts]))
                if not all_sent and first_shut > c.resp:
                    V("not-sent", "export %d reported failure without sending everything" % c.n)
            else:
                V("result", "export %d returned %r" % (c.n, c.result))

    def check_group(self, c, g, al, first_shut):
        """One payload: the attempts made for it.  Returns whether the server accepted it."""
        V = self.run.violate
        sim = self.sim
        for k, a in enumerate(al):
            if a.data != al[0].data:
                V("payload", "attempt %d of export %d carries other bytes than the first" % (k, c.n))
            last = k == len(al) - 1
            kind = self.kind(a)
            if kind in ("ok", "fatal") and not last:
                V("retried", "export %d was sent again after answer %r" % (c.n, a.answer))
            if kind == "retry":
                want = self.wait_after(a, k)
                if last:
                    if k + 1 < self.ATTEMPTS and first_shut > c.resp:
                        V("gave-up", "export %d gave up after %d attempts, answers %r" % (c.n, k + 1, [x.answer for x in al]))
                else:
                    got = al[k + 1].t0 - a.t1
                    if got < want - 1000:
                        V("too-early", "attempt %d of export %d was sent %.3f s after a retryable answer, must wait %.3f s" % (
                            k + 1, c.n, got / 1e9, want / 1e9))
                    if got > want + 100 * MS + sim.stall_time(a.t1, al[k + 1].t0) and self.alone(c):
                        V("too-late", "attempt %d of export %d was sent %.3f s after a retryable answer, must wait %.3f s" % (
                            k + 1, c.n, got / 1e9, want / 1e9))
        if len(al) > self.ATTEMPTS:
            V("too-many", "export %d made %d attempts" % (c.n, len(al)))
        if al and self.alone(c) and c.t1 is not None:
            tail = c.t1 - al[-1].t1
            lim = (self.wait_after(al[-1], len(al) - 1) if self.kind(al[-1]) == "retry" else 0)
            if self.sc["cfg"].get("max") is None and tail > lim + 100 * MS + sim.stall_time(al[-1].t1, c.t1):
                V("slow", "export %d returned %.3f s after its last answer %r" % (c.n, tail / 1e9, al[-1].answer))
        return bool(al) and self.kind(al[-1]) == "ok"

    def alone(self, c):
        return not self.LOCKED or not any(o is not c and o.inv < c.resp and o.resp > c.inv for o in self.calls)
