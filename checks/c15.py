import asyncio
import random
import threading
import time

from sim import aio
from sim.check import Check, MS, SEC
from . import common

A = "/repo/opentelemetry-api/src/opentelemetry/"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"


Boom = common.Boom


class Model:
    """What the running thread or task must see: its own attachments only."""
    __slots__ = ("span", "vals", "ctx")

    def __init__(self, span=None, vals=(), ctx=None):
        self.span, self.vals, self.ctx = span, vals, ctx

    def with_span(self, ids):
        return Model(ids, self.vals)

    def with_val(self, k, v):
        return Model(self.span, tuple(x for x in self.vals if x[0] != k) + ((k, v),))


class Rec:
    def __init__(self, n, parent):
        self.n, self.parent, self.ended, self.exc, self.ids = n, parent, 0, None, None


class C15(Check):
    ID = "C15"
    RUNS = {"quick": 7000, "thorough": 300000}
    PREFIXES = [A + "context/", A + "trace/__init__.py", A + "util/_decorator.py", A + "baggage/__init__.py", S + "trace/", S + "_logs/_internal/export/",
                S + "metrics/_internal/export/"]
    STALLS = False
    REAL = ["context API over contextvars, tracer, spans, simple and batch processors, periodic metric reader, id generator, asyncio tasks and timers"]
    STUB = ["exporters (seeded outcomes)", "asyncio selector and clock (virtual time)", "random.getrandbits (seeded, sometimes 0)", "thread scheduler"]
    RULE = ("A case is 1-4 threads, some of which run an asyncio loop with several tasks, each a tree of nested spans, attachments, "
            "awaits, raises, exports and flushes, with seeded cancellations; non-trivial = a thread was preempted, a task cancelled or an exporter failed.")

    def setup(self):
        from opentelemetry import trace as tapi, context as capi, baggage, metrics as mapi
        from opentelemetry.sdk import trace, metrics, resources, _logs
        from opentelemetry.sdk.trace import export
        from opentelemetry.sdk._logs import export as lexport
        from opentelemetry.sdk.metrics import export as mexport
        self.tapi, self.capi, self.baggage, self.trace, self.export, self.metrics, self.mexport = tapi, capi, baggage, trace, export, metrics, mexport
        self.logs, self.lexport = _logs, lexport
        self.res = resources.Resource.get_empty()
        self.KEYS = {"k1": "k1", "k2": "k2", "sup": capi._SUPPRESS_INSTRUMENTATION_KEY}

    # ---- generation -----------------------------------------------------------------------
    def gen(self, rng, tier):
        self.left = rng.choice([12, 25, 40])
        ths = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            a = rng.random() < 0.5
            ths.append({"async": int(a), "prog": self.prog(rng, a, 0)})
        return {"threads": ths, "proc": rng.choice(["simple", "simple", "batch", "both"]), "log": int(rng.random() < 0.4),
                "metric": int(rng.random() < 0.4),
                "behav": [[rng.choice(["ok", "ok", "raise", "fail", "slow"]), rng.choice([0, 1, 50]) * MS] for _ in range(rng.randint(0, 6))],
                "zeros": rng.choice([0, 0, 0.2, 0.7])}

    def prog(self, rng, a, depth):
        out = []
        for _ in range(rng.randint(1, 4 if depth < 3 else 2)):
            if self.left <= 0:
                break
            self.left -= 1
            r = rng.random()
            if depth < 4 and r < 0.36:
                out.append(["span", rng.choice(["cur", "cur", "use", "deco", "with", "noend", "norec"]), int(rng.random() < 0.25), rng.choice([-1, -1, -1, -2, 0, 1]),
                            self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.46:
                out.append(["val", rng.choice(["k1", "k2", "bag", "sup"]), int(rng.random() < 0.15), self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.50:
                out.append(["adopt", rng.randrange(4), self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.53:
                out.append(["thread", self.prog(rng, False, depth + 1)])
            elif a and depth < 4 and r < 0.66:
                out.append(["task", self.prog(rng, a, depth + 1), rng.choice([None, None, 0, 0, 1, 5, 30])])
            elif r < 0.80:
                out.append(["pause", rng.choice([0, 0, 1, 5, 20]) * MS])
            elif r < 0.86:
                out.append(["start", rng.choice([-1, -1, 0, 1, 2])])
            elif r < 0.90:
                out.append(["pub"])
            elif r < 0.93:
                out.append(["log"])
            elif r < 0.96:
                out.append(["flush"])
            else:
                out.append(["mflush"])
        return out

    def run(self, run, sc):
        St(self, run, sc).go()


CHECK = C15()


def drive(coro):
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("suspended")


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.recs = []
        self.pub = []
        self.exported = []
        self.nexp = 0
        self.extra = []

    def go(self):
        chk, sc, st = self.chk, self.sc, self
        V = self.run.violate
        SUP = chk.capi._SUPPRESS_INSTRUMENTATION_KEY

        def export_body(what):
            if chk.capi.get_value(SUP) is not True:
                V("not-suppressed", "instrumentation is not suppressed while the %s exporter runs" % what)
            b = sc["behav"][st.nexp] if st.nexp < len(sc["behav"]) else ["ok", 0]
            st.nexp += 1
            if b[1]:
                time.sleep(b[1] / 1e9)
            st.sim.point("export")
            if b[0] != "ok":
                st.sim.fault("export-" + b[0])
            if b[0] == "raise":
                raise Boom("exporter")
            return b[0] != "fail"

        class SE(chk.export.SpanExporter):
            def export(self, spans):
                st.exported.extend(spans)
                return chk.export.SpanExportResult.SUCCESS if export_body("span") else chk.export.SpanExportResult.FAILURE

        class LE(chk.lexport.LogExporter):
            def export(self, batch):
                return chk.lexport.LogExportResult.SUCCESS if export_body("log") else chk.lexport.LogExportResult.FAILURE

            def shutdown(self):
                pass

        class ME(chk.mexport.MetricExporter):
            def export(self, metrics_data, timeout_millis=10_000, **kw):
                return chk.mexport.MetricExportResult.SUCCESS if export_body("metric") else chk.mexport.MetricExportResult.FAILURE

            def shutdown(self, timeout_millis=30_000, **kw):
                pass

            def force_flush(self, timeout_millis=10_000):
                return True
        grb = random.getrandbits
        rng = random.Random(repr(sc["threads"]))

        def getrandbits(k):
            if k in (64, 128) and rng.random() < sc["zeros"]:
                self.sim.fault("random-zero")
                return 0
            return grb(k)
        random.getrandbits = getrandbits
        self.tp = chk.trace.TracerProvider(resource=chk.res, shutdown_on_exit=False)
        self.copies = 0
        if sc["proc"] in ("simple", "both"):
            self.tp.add_span_processor(chk.export.SimpleSpanProcessor(SE()))
            self.copies += 1
        if sc["proc"] in ("batch", "both"):
            self.tp.add_span_processor(chk.export.BatchSpanProcessor(SE(), schedule_delay_millis=20, max_export_batch_size=8, max_queue_size=2048))
            self.copies += 1
        self.tr = self.tp.get_tracer("t")
        self.lp = chk.logs.LoggerProvider(resource=chk.res, shutdown_on_exit=False)
        if sc["log"]:
            self.lp.add_log_record_processor(chk.lexport.SimpleLogRecordProcessor(LE()))
        self.lg = self.lp.get_logger("l")
        self.rd = None
        if sc["metric"]:
            self.rd = chk.mexport.PeriodicExportingMetricReader(ME(), export_interval_millis=50)
            self.mp = chk.metrics.MeterProvider(metric_readers=[self.rd], resource=chk.res, shutdown_on_exit=False)
            self.mp.get_meter("m").create_counter("c").add(1)
        ths = [threading.Thread(target=common.guard(self.run, self.thread), args=(t,)) for t in sc["threads"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for t in self.extra:
            t.join()
        self.check(Model(), "main after join")
        if self.rd:
            self.mp.shutdown()
        self.tp.shutdown()
        self.check(Model(), "main after shutdown")
        self.final()

    def thread(self, t):
        m = Model()
        self.check(m, "thread start")
        if t["async"]:
            async def main():
                await self.top(t["prog"], m, True)
            aio.run(main())
        else:
            drive(self.top(t["prog"], m, False))
        self.check(m, "thread end")

    async def top(self, prog, m, a):
        tasks = []
        try:
            await self.exec(prog, m, a, tasks)
        except Boom:
            pass
        finally:
            self.check(m, "end of program")
        while tasks:
            t = tasks.pop()
            try:
                await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
            self.check(m, "after await of a task")

    # ---- what is visible ------------------------------------------------------------------
    def check(self, m, where):
        c = self.chk
        V = self.run.violate
        self.sim.point("check")
        sp = c.tapi.get_current_span().get_span_context()
        got = (sp.trace_id, sp.span_id) if sp.is_valid else None
        if got != m.span:
            V("current-span", "%s: current span is %s, must be %s" % (where, self.name(got), self.name(m.span)))
        vals = dict(m.vals)
        for k, key in c.KEYS.items():
            g = c.capi.get_value(key)
            if g != vals.get(k):
                V("suppression" if k == "sup" else "context-value", "%s: context value %s is %r, must be %r" % (where, k, g, vals.get(k)))
        g = c.baggage.get_baggage("b")
        if g != vals.get("bag"):
            V("baggage", "%s: baggage is %r, must be %r" % (where, g, vals.get("bag")))

    def name(self, ids):
        if ids is None:
            return "none"
        for r in self.recs:
            if r.ids == ids:
                return "span %d" % r.n
        return "unknown %x/%x" % ids

    # ---- the interpreter ------------------------------------------------------------------
    async def exec(self, prog, m, a, tasks):
        for op in prog:
            self.sim.ev("op", op[0])
            await getattr(self, "op_" + op[0])(m, a, tasks, *op[1:])
            self.check(m, "after " + op[0])

    def explicit(self, k):
        """-1: no explicit context; -2: an explicit empty one; else a published one."""
        if k == -2:
            return self.chk.capi.Context(), None, True
        if k >= 0 and self.pub:
            c, m = self.pub[k % len(self.pub)]
            return c, m.span, True
        return None, None, False

    def started(self, r, sp, m):
        V = self.run.violate
        c = sp.get_span_context()
        r.ids = (c.trace_id, c.span_id)
        if not c.trace_id or not c.span_id:
            V("zero-id", "span %d has ids %r" % (r.n, r.ids))
        p = sp.parent
        got = (p.trace_id, p.span_id) if p is not None else None
        if got != r.parent:
            V("parent", "parent of span %d is %s, must be %s" % (r.n, self.name(got), self.name(r.parent)))
        if r.parent and r.parent[0] != c.trace_id:
            V("trace-id", "span %d is not in the trace of its parent" % r.n)
        for o in self.recs:
            if o is not r and o.ids:
                if o.ids[1] == c.span_id or (not r.parent and o.ids[0] == c.trace_id):
                    V("same-id", "spans %d and %d share an id" % (o.n, r.n))

    def new(self, k, m):
        ctx, par, ex = self.explicit(k)
        r = Rec(len(self.recs), par if ex else m.span)
        self.recs.append(r)
        return r, ({"context": ctx} if ex else {}), (Model(r.ids, ()) if ex else None)

    async def op_span(self, m, a, tasks, mode, boom, k, body):
        tr, c = self.tr, self.chk
        r, kw, _ = self.new(k, m)
        nm = "s%d" % r.n

        async def inner(sp):
            self.started(r, sp, m)
            m2 = m.with_span(r.ids)
            self.check(m2, "in " + mode)
            await self.exec(body, m2, a, tasks)
            if boom:
                self.sim.fault("block-raises")
                raise Boom(nm)
        r.mode = mode
        try:
            if mode == "cur":
                with tr.start_as_current_span(nm, **kw) as sp:
                    await inner(sp)
            elif mode == "norec":
                with tr.start_as_current_span(nm, record_exception=False, set_status_on_exception=False, **kw) as sp:
                    await inner(sp)
            elif mode == "noend":
                with tr.start_as_current_span(nm, end_on_exit=False, **kw) as sp:
                    await inner(sp)
            elif mode == "use":
                with c.tapi.use_span(tr.start_span(nm, **kw), end_on_exit=True) as sp:
                    await inner(sp)
            elif mode == "with":
                with tr.start_span(nm, **kw) as sp:
                    with c.tapi.use_span(sp, record_exception=False, set_status_on_exception=False):
                        await inner(sp)
            else:
                if a:
                    @tr.start_as_current_span(nm, **kw)
                    async def f():
                        await inner(c.tapi.get_current_span())
                    await f()
                else:
                    @tr.start_as_current_span(nm, **kw)
                    def f():
                        drive(inner(c.tapi.get_current_span()))
                    f()
        except BaseException as e:
            r.exc = e
            self.sim.ev("span-exc", r.n, type(e).__name__)
            self.check(m, "after a span block left by %s" % type(e).__name__)
            if mode == "noend":
                sp.end()
            if not (boom and isinstance(e, Boom) and str(e) == nm):
                raise
        else:
            if boom:
                self.run.violate("swallowed", "the exception raised in span block %d did not come out of it" % r.n)
            if mode == "noend":
                if not sp.is_recording():
                    self.run.violate("ended", "span %d was ended although end_on_exit is false" % r.n)
                sp.end()

    async def op_val(self, m, a, tasks, k, boom, body):
        c = self.chk
        self.nval = getattr(self, "nval", 0) + 1
        v = True if k == "sup" else "v%d" % self.nval
        ctx = c.baggage.set_baggage("b", v) if k == "bag" else c.capi.set_value(c.KEYS[k], v)
        tok = c.capi.attach(ctx)
        try:
            m2 = m.with_val(k, v)
            self.check(m2, "in val")
            await self.exec(body, m2, a, tasks)
            if boom:
                raise Boom("val")
        except Boom as e:
            if str(e) != "val" or not boom:
                raise
        finally:
            c.capi.detach(tok)
            self.check(m, "after detach")

    async def op_adopt(self, m, a, tasks, k, body):
        if not self.pub:
            return
        ctx, pm = self.pub[k % len(self.pub)]
        tok = self.chk.capi.attach(ctx)
        try:
            m2 = Model(pm.span, pm.vals)
            self.check(m2, "in adopted context")
            await self.exec(body, m2, a, tasks)
        finally:
            self.chk.capi.detach(tok)
            self.check(m, "after detach")

    async def op_thread(self, m, a, tasks, body):
        th = threading.Thread(target=common.guard(self.run, self.thread), args=({"async": 0, "prog": body},))
        th.start()
        if not a:
            self.check(m, "after starting a thread")
        self.extra.append(th)
        if not a:
            th.join()

    async def op_task(self, m, a, tasks, body, cancel):
        async def t():
            self.check(m, "task start")
            try:
                await self.top(body, m, True)
            except asyncio.CancelledError:
                self.check(m, "cancelled task")
                raise
        loop = asyncio.get_running_loop()
        task = loop.create_task(t())
        tasks.append(task)
        if cancel is not None:
            def do():
                if not task.done():
                    self.sim.fault("task-cancelled")
                    task.cancel()
            loop.call_later(cancel / 1000, do)

    async def op_pause(self, m, a, tasks, ns):
        if a:
            await asyncio.sleep(ns / 1e9)
        else:
            time.sleep(ns / 1e9)

    async def op_start(self, m, a, tasks, k):
        r, kw, _ = self.new(k, m)
        r.mode = "start"
        sp = self.tr.start_span("s%d" % r.n, **kw)
        self.started(r, sp, m)
        self.check(m, "after start_span")
        sp.end()

    async def op_pub(self, m, a, tasks):
        self.pub.append((self.chk.capi.get_current(), m))

    async def op_log(self, m, a, tasks):
        self.lg.emit(self.chk.logs.LogRecord(timestamp=1, body="x", resource=self.chk.res))

    async def op_flush(self, m, a, tasks):
        self.tp.force_flush()

    async def op_mflush(self, m, a, tasks):
        if self.rd:
            self.rd.force_flush()

    # ---- afterwards -----------------------------------------------------------------------
    def final(self):
        V = self.run.violate
        by = {}
        for s in self.exported:
            by.setdefault(s.name, []).append(s)
        for r in self.recs:
            if r.ids is None:
                continue
            ss = by.get("s%d" % r.n, [])
            if len(ss) != self.copies:
                V("ended-once", "span %d was exported %d times by %d processors" % (r.n, len(ss), self.copies))
            s = ss[0]
            p = s.parent
            if (s.context.trace_id, s.context.span_id) != r.ids or ((p.trace_id, p.span_id) if p else None) != r.parent:
                V("parent", "exported span %d has other ids or another parent than when started" % r.n)
            ev = [e for e in s.events if e.name == "exception"]
            is_exc = isinstance(r.exc, Exception)
            if r.mode in ("norec", "start"):
                want = 0
            elif r.mode == "with":
                want = int(r.exc is not None)
            else:
                want = int(is_exc)
            if len(ev) != want:
                V("exception-event", "span %d left by %r has %d exception events" % (r.n, r.exc, len(ev)))
            if want and is_exc and ev[0].attributes.get("exception.message") != str(r.exc):
                V("exception-event", "span %d left by %r has the event of %r" % (r.n, r.exc, ev[0].attributes.get("exception.message")))
            code = s.status.status_code.name
            if code != ("ERROR" if want else "UNSET"):
                V("status", "span %d left by %r has status %s" % (r.n, r.exc, code))
