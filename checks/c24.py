import threading
import time

from sim.check import Check, MS
from . import common
from .metrics import BIG

A = "/repo/opentelemetry-api/src/opentelemetry/"
SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"


Boom = common.Boom


class Quit(BaseException):
    pass


class C24(Check):
    ID = "C24"
    RUNS = {"quick": 8000, "thorough": 300000}
    PREFIXES = [A + "context/", SDK + "trace/export/__init__.py", SDK + "_logs/_internal/", SDK + "trace/__init__.py"]
    STALLS = False
    REAL = ["SimpleSpanProcessor, SimpleLogRecordProcessor", "tracer and logger providers, spans, log records, samplers", "context API over contextvars"]
    STUB = ["exporters (seeded: slow, fail, raise, log, start spans themselves)", "thread scheduler", "clock"]
    RULE = ("A case is 1-4 threads that end spans and emit log records through 1-2 simple processors whose exporters are seeded to be slow, fail, raise "
            "(also exceptions that are no Exception) or use the SDK; non-trivial = threads were preempted or an exporter misbehaved.")

    def setup(self):
        from opentelemetry import context as capi, trace as tapi
        from opentelemetry.sdk import trace, _logs, resources
        from opentelemetry.sdk.trace import export as texp, sampling
        from opentelemetry.sdk._logs import export as lexp
        self.capi, self.tapi, self.trace, self.logs, self.texp, self.lexp, self.sampling = capi, tapi, trace, _logs, texp, lexp, sampling
        self.res = resources.Resource.get_empty()
        self.key = capi.create_key("c24")

    def gen(self, rng, tier):
        w = {"span": 5, "log": 5, "nest": 2, "cross": 1, "flush": 0.7, "sleep": 0.7, "val": 1, "shutdown": rng.choice([0, 0, 0.3])}
        ths = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([3, 8]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                ops.append([k, rng.choice([0, 1, 100]) * MS] if k == "sleep" else [k, int(rng.random() < 0.3)])
            ths.append(ops)
        return {"threads": ths, "nproc": rng.choice([1, 1, 2]),
                "behav": [[rng.choice(["ok", "ok", "ok", "raise", "fail", "quit", "use"]), rng.choice([0, 0, 1, 50]) * MS] for _ in range(rng.randint(1, 12))]}

    def run(self, run, sc):
        common.guard(run, S(self, run, sc).go)()


CHECK = C24()


class Rec:
    def __init__(self, nm, sampled, tid):
        self.nm, self.sampled, self.tid, self.inv, self.resp, self.exports = nm, sampled, tid, BIG, BIG, []


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.recs, self.calls, self.shut, self.cross = {}, 0, [BIG, BIG], []
        self.inside = set()
        self.tls = threading.local()

    def go(self):
        chk, sc, st = self.chk, self.sc, self
        V = self.run.violate
        SUP = chk.capi._SUPPRESS_INSTRUMENTATION_KEY

        def body(idx, items):
            me = st.sim.cur.id
            names = [x.name if hasattr(x, "name") else x.log_record.body for x in items]
            b = sc["behav"][st.calls % len(sc["behav"])]
            st.calls += 1
            at = st.sim.ev("export", idx, names)
            if chk.capi.get_value(SUP) is not True:
                V("not-suppressed", "instrumentation is not suppressed while %r is exported" % names)
            if len(names) != 1:
                V("batch", "one export call got %r" % names)
            for nm in names:
                if nm not in st.recs:
                    V("unknown", "exported %r" % nm)
                st.recs[nm].exports.append((idx, me, at))
            if b[1]:
                time.sleep(b[1] / 1e9)
            st.sim.point("exporting")
            if b[0] != "ok":
                st.sim.fault("export-" + b[0])
            if b[0] == "use" and st.depth() < 2:
                # an exporter that is itself instrumented
                st.tls.depth = st.depth() + 1
                try:
                    st.one(b[1] and "span" or "log", 0, me)
                finally:
                    st.tls.depth -= 1
            if chk.capi.get_value(SUP) is not True:
                V("not-suppressed", "suppression ended while %r was being exported" % names)
            if b[0] == "raise":
                raise Boom("exporter")
            if b[0] == "quit":
                raise Quit("exporter")
            return b[0] != "fail"

        class SE(chk.texp.SpanExporter):
            def __init__(self, i):
                self.i = i

            def export(self, spans):
                return chk.texp.SpanExportResult.SUCCESS if body(self.i, spans) else chk.texp.SpanExportResult.FAILURE

        class LE(chk.lexp.LogExporter):
            def __init__(self, i):
                self.i = i

            def export(self, batch):
                return chk.lexp.LogExportResult.SUCCESS if body(self.i, batch) else chk.lexp.LogExportResult.FAILURE

            def shutdown(self):
                pass

        class Samp(chk.sampling.Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                D = chk.sampling.Decision
                return chk.sampling.SamplingResult({"n": D.DROP, "r": D.RECORD_ONLY}.get(name[0], D.RECORD_AND_SAMPLE))

            def get_description(self):
                return "names"
        self.tp = chk.trace.TracerProvider(sampler=Samp(), resource=chk.res, shutdown_on_exit=False)
        self.lp = chk.logs.LoggerProvider(resource=chk.res, shutdown_on_exit=False)
        for i in range(sc["nproc"]):
            self.tp.add_span_processor(chk.texp.SimpleSpanProcessor(SE(i)))
            self.lp.add_log_record_processor(chk.lexp.SimpleLogRecordProcessor(LE(i)))
        self.tr, self.lg = self.tp.get_tracer("t"), self.lp.get_logger("l")
        common.clients(self.run, sc["threads"], self.step)
        self.state(None, "main at the end")
        self.check()

    def depth(self):
        return getattr(self.tls, "depth", 0)

    def state(self, val, where):
        c = self.chk.capi
        if c.get_value(c._SUPPRESS_INSTRUMENTATION_KEY) is not None and not self.depth():
            self.run.violate("suppression-leak", "%s: instrumentation is suppressed in application code" % where)
        if c.get_value(self.chk.key) != val:
            self.run.violate("context", "%s: context value is %r, must be %r" % (where, c.get_value(self.chk.key), val))

    def step(self, run, tid, op):
        self.op(op, tid, None)

    def op(self, op, tid, val):
        k, x = op
        self.state(val, "before " + k)
        if k in ("span", "log"):
            self.one(k, x, tid, val)
        elif k == "nest":
            ctx = self.chk.capi.get_current()
            try:
                r = self.rec("s", x, tid)
                with self.tr.start_as_current_span(r.nm):
                    self.one("log", 0, tid, val)
                    self.one("span", x, tid, val)
                    r.tid = self.sim.cur.id
                    r.inv = self.sim.ev("end", r.nm)
                r.resp = self.sim.ev("ended", r.nm)
            except Quit:
                r.resp = self.sim.ev("ended-quit", r.nm)
                r.quit = True
            self.same(ctx, "after a span block")
        elif k == "cross":
            # started here, ended by the next thread that comes along
            if self.cross:
                r, sp = self.cross.pop()
                self.end(r, sp)
            else:
                r = self.rec("s", x, tid)
                self.cross.append((r, self.tr.start_span(r.nm)))
        elif k == "flush":
            if self.tp.force_flush() is not True or self.lp.force_flush() is not True:
                self.run.violate("flush", "force_flush of simple processors is not True")
        elif k == "sleep":
            time.sleep(x / 1e9)
        elif k == "val":
            c = self.chk.capi
            tok = c.attach(c.set_value(self.chk.key, tid))
            self.one("span" if x else "log", 0, tid, tid)
            self.state(tid, "in val")
            c.detach(tok)
        elif k == "shutdown":
            self.shut[0] = min(self.shut[0], self.sim.ev("shutdown"))
            self.lp.shutdown()
            self.shut[1] = min(self.shut[1], self.sim.ev("shut"))
        self.state(val, "after " + k)

    def rec(self, kind, x, tid):
        nm = "%s%d" % (kind if not x else "nr"[len(self.recs) % 2], len(self.recs))
        r = Rec(nm, not x, tid)
        r.log = kind == "l"
        r.quit = False
        self.recs[nm] = r
        return r

    def one(self, k, x, tid, val=None):
        if k == "span":
            r = self.rec("s", x, tid)
            self.end(r, self.tr.start_span(r.nm))
            return
        r = self.rec("l", 0, tid)
        self.call(r, lambda: self.lg.emit(self.chk.logs.LogRecord(body=r.nm, resource=self.chk.res)))

    def end(self, r, sp):
        self.call(r, sp.end)

    def call(self, r, f):
        ctx = self.chk.capi.get_current()
        r.tid = self.sim.cur.id
        r.inv = self.sim.ev("hand", r.nm)
        try:
            f()
        except Quit:
            r.quit = True
        r.resp = self.sim.ev("handed", r.nm, r.quit)
        self.same(ctx, "after %s was handed over" % r.nm)

    def same(self, ctx, where):
        c = self.chk.capi
        if c.get_current() is not ctx and dict(c.get_current()) != dict(ctx):
            self.run.violate("context", "%s: the context is %r, was %r" % (where, dict(c.get_current()), dict(ctx)))

    def check(self):
        V = self.run.violate
        for r in self.recs.values():
            if r.inv == BIG:
                if r.exports:
                    V("early", "%s was exported before it was handed over" % r.nm)
                continue
            got = [i for i, _, _ in r.exports]
            if not r.sampled:
                if got:
                    V("unsampled", "%s is not sampled and was exported" % r.nm)
                continue
            if len(set(got)) != len(got):
                V("twice", "%s was exported %r" % (r.nm, got))
            for i, me, at in r.exports:
                if me != r.tid:
                    V("thread", "%s was exported by another thread" % r.nm)
                if not r.inv < at < r.resp:
                    V("late", "%s was exported outside the call that handed it over" % r.nm)
            want = self.sc["nproc"]
            if r.quit or r.log and r.resp > self.shut[0]:
                continue
            if len(got) != want:
                V("lost", "%s reached %d of %d exporters" % (r.nm, len(got), want))
        for r in self.recs.values():
            if r.log and r.inv > self.shut[1] and r.exports:
                V("after-shutdown", "%s was exported after shutdown" % r.nm)
