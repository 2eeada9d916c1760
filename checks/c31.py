"""C31: OpenCensus - the tracing shim and the span exporter for the OpenCensus collector."""
import os
import threading
import time
from collections import Counter

from sim.check import Check, MS, SEC
from . import common
from .c26 import RES, mk, mka, CHECK as c26

EX = "/repo/exporter/opentelemetry-exporter-opencensus/"
SH = "/repo/shim/opentelemetry-opencensus-shim/"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
TZS = [None, "UTC0", "EST5EDT,M3.2.0,M11.1.0", "JST-9", "<+0530>-5:30", "NST3:30NDT,M3.2.0,M11.1.0"]
# seconds of message events: ordinary ones, hours no local clock shows and hours it shows twice, before the epoch's first year ended
TIMES = [1_672_531_200, 1_678_602_600, 1_678_604_400, 1_699_162_200, 1_699_165_800, 1_720_000_000, 86_400 * 40, 2_000_000_000]
STATES = [None, [], [["a", "1"], ["b@c", "x y"]], [["z", "q"]]]


class Call:
    """One call of the exporter's export()."""


class C31(Check):
    ID = "C31"
    RUNS = {"quick": 4000, "thorough": 250000}
    PREFIXES = [EX, SH, S + "trace/export/"]
    REAL = ["install_shim, ShimTracer and ShimSpan under the OpenCensus library's own Tracer and execution context; OpenCensusSpanExporter with its client stub and protobuf messages; "
            "BatchSpanProcessor and SimpleSpanProcessor, tracer provider and spans"]
    STUB = ["gRPC channel and the OpenCensus collector (seeded status codes, delays, streams of responses)", "clock", "thread scheduler"]
    RULE = ("A case is 1-4 threads nesting OpenCensus and OpenTelemetry spans, one exporter and a seeded list of collector answers; non-trivial = an answer was not an immediate "
            "success or a thread was preempted.")
    one, val, attrs = type(c26).one, type(c26).val, type(c26).attrs

    def setup(self):
        import grpc
        self.grpc, self.state = grpc, None
        grpc.insecure_channel = lambda target, **kw: Channel(self.state, target)
        from opencensus.trace import execution_context, span_context, status, time_event, trace_options, tracer, tracestate
        from opencensus.trace.samplers import AlwaysOnSampler, AlwaysOffSampler
        from opencensus.proto.agent.trace.v1 import trace_service_pb2
        from opencensus.proto.trace.v1 import trace_pb2
        from opentelemetry import baggage, context, trace as tapi
        from opentelemetry.sdk import resources, trace
        from opentelemetry.sdk.trace import export as tx
        from opentelemetry.exporter.opencensus import trace_exporter
        from opentelemetry.shim.opencensus import install_shim, uninstall_shim
        self.oc = {"ec": execution_context, "sc": span_context.SpanContext, "status": status.Status, "msg": time_event.MessageEvent,
                   "opt": trace_options.TraceOptions, "tracer": tracer.Tracer, "ts": tracestate.Tracestate, "on": AlwaysOnSampler, "off": AlwaysOffSampler}
        self.req, self.tpb = trace_service_pb2.ExportTraceServiceRequest, trace_pb2
        self.bag, self.capi, self.tapi, self.res, self.trace, self.tx, self.ex = baggage, context, tapi, resources, trace, tx, trace_exporter
        self.install, self.uninstall = install_shim, uninstall_shim

        class Boom(grpc.RpcError):
            pass
        self.RpcError = Boom
        import logging
        logging.getLogger("opentelemetry").addHandler(logging.NullHandler())

    # ---- generation -----------------------------------------------------------------------------
    def body(self, rng, depth):
        return [self.op(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 1, 2]) if depth < 4 else 0)]

    def ann(self, rng):
        k = rng.choice(["attr", "ann", "msg", "msg", "status", "link", "cur", "raise" if rng.random() < 0.4 else "attr"])
        if k == "attr" or k == "cur":
            return [k, rng.choice("abc"), self.one(rng, rng.choice("sidb"))]
        if k == "ann":
            return [k, rng.choice(["note", "", "ünï"]), [[n, self.one(rng, rng.choice("sidb"))] for n in rng.sample("xyz", rng.choice([0, 1, 3]))]]
        if k == "msg":
            return [k, rng.randrange(len(TIMES)), rng.choice([0, 1, 123456, 999999, 500000, rng.randrange(10 ** 6)]), rng.choice([1, "id", 2 ** 40]), rng.choice([None, 0, 1, 2]),
                    rng.choice([None, 0, 7, 2 ** 33]), rng.choice([None, 0, 5])]
        if k == "status":
            return [k, rng.choice([0, 0, 1, 2, 5, 13]), rng.choice([None, "why", ""])]
        return [k]

    def op(self, rng, depth=0):
        r = rng.random()
        if r < 0.45:
            return ["oc", rng.randrange(3), rng.choice(["with", "with", "end", "end", "child", "finish"]), [self.ann(rng) for _ in range(rng.choice([0, 1, 2, 4]))], self.body(rng, depth)]
        if r < 0.7:
            return ["otel", rng.randrange(5), self.attrs(rng), [[self.attrs(rng), int(rng.random() < 0.5)] for _ in range(rng.choice([0, 0, 1, 3]))],
                    [[rng.randrange(3), self.attrs(rng)] for _ in range(rng.choice([0, 0, 1, 2]))], rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 0, 1]), self.body(rng, depth)]
        if r < 0.76:
            return ["remote", int(rng.random() < 0.6), self.body(rng, depth)]
        if r < 0.84:
            return ["bag", rng.choice("kl"), self.body(rng, depth)]
        if r < 0.92:
            return ["sleep", rng.choice([1, 100, 1000, 6000]) * MS]
        return ["flush"]

    def gen(self, rng, tier):
        p = rng.choice([0, 0, 0.3, 0.6])
        plan = [[rng.choice(["late", "early", "call", "two", "mid"]) if rng.random() < p else "ok", rng.choice([0, 0, 1, 100, 900, 7000]) * MS] for _ in range(rng.randint(0, 10))]
        return {"threads": [[self.op(rng) for _ in range(rng.choice([1, 3, 6]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))], "plan": plan,
                "tracers": [[rng.choice([None, None, "header", "local", "nospan"]), int(rng.random() < 0.6), int(rng.random() < 0.5), rng.randrange(len(STATES))] for _ in range(3)],
                "proc": rng.choice(["batch", "batch", "simple"]), "endpoint": rng.choice([None, "col:1"]), "host": rng.choice([None, "box"]), "res": rng.randrange(len(RES)),
                "global": int(rng.random() < 0.3), "same": int(rng.random() < 0.3), "tz": rng.randrange(len(TZS)), "limits": rng.choice([None, None, {"max_span_attributes": 2, "max_events": 2}]),
                "bsp": {"delay": rng.choice([100, 1000, 5000]), "batch": rng.choice([1, 2, 5, 512])}, "seed": rng.randrange(2 ** 63)}

    def run(self, run, sc):
        st = self.state = St(self, run, sc)
        common.guard(run, st.go)()


class Channel:
    def __init__(self, st, target):
        st.targets.append(target)
        self.st = st

    def close(self):
        pass

    def stream_stream(self, method, request_serializer=None, response_deserializer=None, **kw):
        def call(requests, timeout=None, **kw):
            if method.rsplit("/", 1)[1] != "Export":
                self.st.V("payload", "a call of %s" % method)
            return self.st.serve(requests, request_serializer, response_deserializer)
        return call

    unary_unary = unary_stream = stream_unary = stream_stream


class Span:
    """A span as the model knows it: what the program said."""

    def __init__(self, name, parent, sampled, state):
        self.name, self.parent, self.sampled, self.state = name, parent, sampled, state
        self.attrs, self.events, self.status, self.ended = {}, [], ("UNSET", None), 0
        self.ctx = None


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.calls, self.now, self.nreq, self.nspan = [], {}, 0, 0
        self.targets, self.truth, self.spans = [], Counter(), {}

    def V(self, cls, msg):
        self.run.violate(cls, msg)

    # ---- what a span must look like at the collector ---------------------------------------------
    @staticmethod
    def av(v):
        if isinstance(v, bool):
            return "b", v
        if isinstance(v, int):
            return "i", v
        if isinstance(v, float):
            return "d", repr(v)
        return "s", v if isinstance(v, str) else str(v)

    def avs(self, attrs):
        return tuple(sorted((k, self.av(v)) for k, v in (attrs or {}).items()))

    def want(self, s):
        c, p = s.context, s.parent
        links = tuple((x.context.trace_id, x.context.span_id, int(bool(p) and (x.context.trace_id, x.context.span_id) == (p.trace_id, p.span_id)) * 2, self.avs(x.attributes)) for x in s.links)
        return (c.trace_id, c.span_id, p.span_id if p else 0, s.name, {"SERVER": 1, "CLIENT": 2}.get(s.kind.name, 0), s.start_time, s.end_time,
                s.status.status_code.value, s.status.description or "", self.avs(s.attributes), tuple((e.name, e.timestamp, self.avs(e.attributes)) for e in s.events), links,
                tuple((c.trace_state or {}).items()))

    FIELDS = ["trace_id", "span_id", "parent_span_id", "name", "kind", "start_time", "end_time", "status.code", "status.message", "attributes", "events", "links", "tracestate"]

    def decode(self, s):
        num = lambda b: int.from_bytes(b, "big")     # noqa: E731
        ns = lambda t: t.seconds * SEC + t.nanos     # noqa: E731

        def at(a):
            out = []
            for k, v in a.attribute_map.items():
                w = v.WhichOneof("value")
                out.append((k, ("b", v.bool_value) if w == "bool_value" else ("i", v.int_value) if w == "int_value" else
                            ("d", repr(v.double_value)) if w == "double_value" else ("s", v.string_value.value)))
            return tuple(sorted(out))
        if len(s.trace_id) != 16 or len(s.span_id) != 8 or len(s.parent_span_id) not in (0, 8):
            self.V("payload", "ids of %r" % s)
        return (num(s.trace_id), num(s.span_id), num(s.parent_span_id), s.name.value, s.kind, ns(s.start_time), ns(s.end_time), s.status.code, s.status.message, at(s.attributes),
                tuple((e.annotation.description.value, ns(e.time), at(e.annotation.attributes)) for e in s.time_events.time_event),
                tuple((num(x.trace_id), num(x.span_id), x.type, at(x.attributes)) for x in s.links.link), tuple((e.key, e.value) for e in s.tracestate.entries))

    # ---- collector --------------------------------------------------------------------------------
    def serve(self, requests, ser, deser):
        kind, d = self.sc["plan"][self.nreq] if self.nreq < len(self.sc["plan"]) else ["ok", 0]
        self.nreq += 1
        c = self.now.get(self.sim.cur.id)
        if c is None:
            self.V("payload", "an RPC outside of an export")
        if kind != "ok":
            self.sim.fault("grpc-" + kind)
        self.sim.ev("rpc", c.n, kind)
        if kind == "call":
            c.answers.append("error")
            raise self.chk.RpcError("simulated")
        done = threading.Event()
        box = {}

        def feed():         # gRPC reads the requests in a thread of its own
            try:
                for r in requests:
                    self.received(c, ser(r))
            except Exception as e:  # noqa
                box["exc"] = e
            done.set()
        if kind == "early":
            c.unread = True
        else:
            threading.Thread(target=feed, daemon=True).start()

        def answers():
            if kind != "early":
                done.wait()
                if "exc" in box:
                    e = box["exc"]
                    if type(e).__name__ == "Violation":
                        self.run.violate(e.cls, str(e), e.prop)
                    self.V("raises", "the requests of export %d raised %s: %s" % (c.n, type(e).__name__, e))
            if d:
                time.sleep(d / 1e9)
            c.answers.append("ok" if kind in ("ok", "two") else "error")
            if kind in ("early", "late"):
                raise self.chk.RpcError("simulated")
            for _ in range({"two": 2, "mid": 1}.get(kind, self.nreq % 2)):
                yield deser(b"")
            if kind == "mid":
                raise self.chk.RpcError("simulated")
        return answers()

    def received(self, c, data):
        req = self.chk.req.FromString(data)
        c.msgs += 1
        n = req.node
        svc = self.service if self.service is not None else n.service_info.name if n.service_info.name.startswith("unknown_service") else "" if self.sc["global"] else "unknown_service"
        ident = (n.identifier.host_name, n.identifier.pid, n.service_info.name, n.library_info.language)
        if ident != (self.host, os.getpid(), svc, 8):
            self.V("node", "node %r, must be %r" % (ident, (self.host, os.getpid(), svc, 8)))
        got = [self.decode(s) for s in req.spans]
        for s in got:
            if s not in c.items:
                o = next((x for x in c.items if x[:2] == s[:2]), None)
                if o is None:
                    self.V("lossless", "span %r arrived, the export has none such" % (s,))
                self.V("lossless", "span arrived changed: %s" % "; ".join("%s is %r, must be %r" % (f, g, x) for f, g, x in zip(self.FIELDS, s, o) if g != x))
        if Counter(got) != c.items:
            self.V("lossless", "a request of %d spans for an export of %d" % (len(got), sum(c.items.values())))

    # ---- workload ---------------------------------------------------------------------------------
    def go(self):
        chk, sc, st = self.chk, self.sc, self
        tz = TZS[sc["tz"]]
        os.environ.pop("TZ", None)
        if tz:
            os.environ["TZ"] = tz
        time.tzset()
        attrs, url = RES[sc["res"]]
        self.service = attrs.get("service.name")
        lim = chk.trace.SpanLimits(**sc["limits"]) if sc["limits"] else None
        self.tp = chk.trace.TracerProvider(resource=chk.res.Resource(dict(attrs), url), shutdown_on_exit=False, span_limits=lim)
        if sc["global"]:
            chk.tapi.set_tracer_provider(self.tp)
        kw = {}
        if sc["endpoint"]:
            kw["endpoint"] = sc["endpoint"]
        if sc["host"]:
            kw["host_name"] = sc["host"]
        import socket
        self.host = sc["host"] or socket.gethostname()
        ex = self.ex = chk.ex.OpenCensusSpanExporter(**kw)
        if self.targets != [sc["endpoint"] or "localhost:55678"]:
            self.V("config", "channels to %r" % self.targets)
        real = ex.export

        def export(data):
            c = Call()
            c.n, c.answers, c.res, c.msgs, c.unread = len(st.calls), [], None, 0, False
            c.items = Counter(st.want(s) for s in data)
            st.calls.append(c)
            st.now[st.sim.cur.id] = c
            st.sim.ev("export", c.n, len(c.items))
            try:
                c.res = real(data)
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                st.V("raises", "export %d raised %s: %s" % (c.n, type(e).__name__, e))
            finally:
                st.now.pop(st.sim.cur.id, None)
                st.sim.ev("exported", c.n, c.res.name if c.res else "exc")
            return c.res
        ex.export = export

        class Rec(chk.trace.SpanProcessor):
            def on_end(self, span):
                st.truth[st.want(span)] += 1
                st.compare(span)
        self.tp.add_span_processor(Rec())
        b = sc["bsp"]
        self.tp.add_span_processor(chk.tx.SimpleSpanProcessor(ex) if sc["proc"] == "simple" else
                                   chk.tx.BatchSpanProcessor(ex, schedule_delay_millis=b["delay"], max_export_batch_size=b["batch"], max_queue_size=2048))
        self.tracers = [self.oc_tracer(i, t, 0) for i, t in enumerate(sc["tracers"][:2])]
        if sc["global"]:
            chk.install()
        else:
            chk.install(self.tp)
        self.tracers += [self.oc_tracer(2, sc["tracers"][2], 1)]
        ths = [threading.Thread(target=common.guard(self.run, self.thread), args=(t,)) for t in sc["threads"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        t0 = self.sim.now
        flushed = self.tp.force_flush()
        if not flushed and self.sim.now - t0 < 29.9 * SEC:
            self.V("flush", "force_flush reported False after %.3f s" % ((self.sim.now - t0) / 1e9))
        n = sum(sum(c.items.values()) for c in self.calls if c.res is not None)
        if flushed and n != sum(self.truth.values()):
            self.V("flush", "force_flush returned True with %d of %d spans exported" % (n, sum(self.truth.values())))
        self.tp.shutdown()
        chk.uninstall()
        self.check()

    def oc_tracer(self, i, t, late):
        O = self.chk.oc
        kind, enabled, sampler, state = t
        kw = {}
        ctx = None
        tid = 0xabc0 + (i if not self.sc["same"] else 0)
        if kind:
            ts = STATES[state]
            if ts is not None:
                o = O["ts"]()
                for k, v in ts:
                    o[k] = v
                ts = o
            kw["span_context"] = ctx = O["sc"](trace_id="%032x" % tid, span_id=None if kind == "nospan" else "%016x" % (0xd0 + i), trace_options=O["opt"]("1" if enabled else "0"),
                                               tracestate=ts, from_header=kind == "header")
        x = O["tracer"](sampler=(O["on"] if sampler else O["off"])(), **kw)
        if ctx is None or kind == "nospan":
            return x, None
        par = Span("header", None, bool(enabled or sampler), tuple((ts or {}).items()))
        par.ctx, par.remote = (tid, 0xd0 + i), kind == "header"
        return x, par

    # model of one thread: the current span, OpenCensus' current span, baggage
    def thread(self, prog):
        st = [None, None, {}]
        self.agree(st, "a new thread")
        for op in prog:
            self.step(op, st)
        self.agree(st, "the end of the thread")

    def agree(self, st, where):
        chk = self.chk
        cur, shim, bag = st
        c = chk.tapi.get_current_span().get_span_context()
        have = (c.trace_id, c.span_id)
        if have != (cur.ctx if cur else (0, 0)):
            self.V("current", "after %s the current span is %s, must be %s" % (where, have, cur and (cur.name, cur.ctx)))
        if chk.oc["ec"].get_current_span() is not shim or self.tracers[0][0].current_span() is not shim:
            self.V("current", "after %s OpenCensus' current span is %r (tracer: %r), must be %r" % (where, chk.oc["ec"].get_current_span(), self.tracers[0][0].current_span(), shim))
        if dict(chk.bag.get_all()) != bag:
            self.V("current", "after %s baggage is %r, must be %r" % (where, dict(chk.bag.get_all()), bag))

    def new(self, name, parent, kind, sp):
        """Enter a span just started into the model."""
        m = Span(name, parent, parent.sampled if parent else True, parent.state if parent else ())
        m.kind = kind
        c = sp.get_span_context()
        m.ctx = (c.trace_id, c.span_id)
        m.t0 = None
        if parent and c.trace_id != parent.ctx[0]:
            self.V("parent", "span %s is in trace %x, its parent %s in %x" % (name, c.trace_id, parent.name, parent.ctx[0]))
        if bool(c.trace_flags & 1) != m.sampled or tuple(c.trace_state.items()) != m.state:
            self.V("parent", "span %s has flags %r and state %r, must be sampled=%s and %r" % (name, c.trace_flags, c.trace_state, m.sampled, m.state))
        self.spans[m.ctx] = m
        return m

    def step(self, op, st):
        chk = self.chk
        T, O = chk.tapi, chk.oc
        cur, shim, bag = st
        if op[0] == "sleep":
            time.sleep(op[1] / 1e9)
        elif op[0] == "flush":
            self.tp.force_flush()
        elif op[0] == "bag":
            tok = chk.capi.attach(chk.bag.set_baggage(op[1], "v%d" % len(bag)))
            inner = [cur, shim, {**bag, op[1]: "v%d" % len(bag)}]
            for o in op[2]:
                self.step(o, inner)
            chk.capi.detach(tok)
        elif op[0] == "remote":
            self.nspan += 1
            p = Span("remote", None, bool(op[1]), ())
            p.ctx = (0x111 + self.nspan, 0x222)
            with T.use_span(T.NonRecordingSpan(T.SpanContext(p.ctx[0], p.ctx[1], True, T.TraceFlags(op[1])))):
                inner = [p, shim, bag]
                for o in op[2]:
                    self.step(o, inner)
        elif op[0] == "otel":
            self.otel(op, st)
        else:
            self.ocspan(op, st)
        self.agree(st, op[0] if op[0] != "oc" else "oc/" + op[2])

    def otel(self, op, st):
        chk, T = self.chk, self.chk.tapi
        _, kind, attrs, events, links, status, exc, body = op
        cur, shim, bag = st
        self.nspan += 1
        name = "otel%d" % self.nspan
        ls = []
        for k, at in links:
            ctx = cur.ctx if k == 0 and cur else (0x777, cur.ctx[1]) if k == 1 and cur else (0x888 + k, 0x999)
            ls.append(T.Link(T.SpanContext(ctx[0], ctx[1], False), mka(at)))
        with self.tp.get_tracer("app").start_as_current_span(name, kind=list(T.SpanKind)[kind], attributes=mka(attrs), links=ls) as sp:
            m = self.new(name, cur, "otel", sp)
            m.kindn = list(T.SpanKind)[kind].name
            inner = [m, shim, bag]
            for at, et in events:
                sp.add_event("event", mka(at), timestamp=1_600_000_000_000_000_500 if et else None)
            if status:
                sp.set_status(T.StatusCode.OK if status == 1 else T.StatusCode.ERROR, "bad" if status == 2 else None)
            for o in body:
                self.step(o, inner)

    def ocspan(self, op, st):
        chk, T, O = self.chk, self.chk.tapi, self.chk.oc
        _, ti, style, notes, body = op
        cur, shim, bag = st
        tracer, head = self.tracers[ti]
        self.nspan += 1
        name = "oc%d" % self.nspan
        parent = cur or head
        child = style == "child" and shim is not None
        start = (shim.span if child else tracer.span if self.nspan % 2 else tracer.start_span)
        if child:
            parent = cur or self.shead(shim)
        before = self.sim.now
        sp = start(name=name)
        osp = T.get_current_span()
        m = self.new(name, parent, "oc", osp)
        m.kindn = "INTERNAL"
        m.head = head if not child else self.shead(shim)
        sp._self_model = m
        if sp.span_id != m.ctx[1] and sp.span_id != "%016x" % m.ctx[1]:
            self.V("current", "span_id %r of a shim span of %x" % (sp.span_id, m.ctx[1]))
        inner = [m, sp, bag]
        self.agree(inner, "start of an OpenCensus span")

        def work():
            for n in notes:
                self.note(n, sp, m, tracer)
            for o in body:
                self.step(o, inner)
        if style in ("with", "child"):
            try:
                with sp as got:
                    if got is not sp:
                        self.V("current", "entering a span returned another one")
                    work()
            except common.Boom:
                pass
        else:
            try:
                work()
            except common.Boom:
                m.boom = False
            if style == "finish":
                sp.finish()
                m.extra = True
                sp.add_attribute("late", 1)
                sp.add_annotation("late")
            tracer.end_span()
        if not m.ended and m.sampled:
            self.V("recorded", "span %s of OpenCensus was not ended by %s" % (name, style))

    def shead(self, shim):
        return shim._self_model.head

    def note(self, n, sp, m, tracer):
        O = self.chk.oc
        k = n[0]
        if k in ("attr", "cur"):
            (sp.add_attribute if k == "attr" else tracer.add_attribute_to_current_span)(n[1], mk(n[2]))
            m.attrs[n[1]] = mk(n[2])
        elif k == "ann":
            a = {x: mk(v) for x, v in n[2]}
            t0 = time.time_ns()
            sp.add_annotation(n[1], **a)
            m.events.append((n[1], None, self.avs(a)))
        elif k == "msg":
            import datetime
            t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=TIMES[n[1]], microseconds=n[2])
            ev = O["msg"](t, n[3], *([n[4]] if n[4] is not None else [None]), uncompressed_size_bytes=n[5], compressed_size_bytes=n[6])
            a = {"message.event.type": ["TYPE_UNSPECIFIED", "SENT", "RECEIVED"][n[4] or 0]}
            if n[5] is not None:
                a["message.event.size.uncompressed"] = n[5]
            z = n[6] if n[6] is not None else n[5]
            if z is not None:
                a["message.event.size.compressed"] = z
            sp.add_message_event(ev)
            m.events.append((str(n[3]), TIMES[n[1]] * SEC + n[2] * 1000, self.avs(a)))
        elif k == "status":
            sp.set_status(O["status"](n[1], n[2]))
            if m.status[0] != "OK":
                m.status = ("OK", None) if n[1] == 0 else ("ERROR", n[2])
        elif k == "link":
            sp.add_link(object())
            sp.span_kind = 1
            if sp.span_kind != 0:
                self.V("recorded", "span kind %r" % sp.span_kind)
        else:
            m.boom = True
            raise common.Boom("boom")

    # ---- oracle -----------------------------------------------------------------------------------
    def compare(self, s):
        c = s.context
        m = self.spans.get((c.trace_id, c.span_id))
        if m is None:
            self.V("recorded", "span %s ended that was never seen" % s.name)
        m.ended += 1
        p = (s.parent.trace_id, s.parent.span_id) if s.parent else None
        if m.ended > 1 or not m.sampled or s.name != m.name or s.kind.name != m.kindn or p != (m.parent.ctx if m.parent else None):
            self.V("recorded", "span %s kind %s parent %s, end %d; must be %s %s below %s, sampled=%s" % (
                s.name, s.kind.name, p, m.ended, m.name, m.kindn, m.parent and (m.parent.name, m.parent.ctx), m.sampled))
        if m.parent is not None and s.parent.is_remote != (getattr(m.parent, "remote", m.parent.name == "remote")):
            self.V("recorded", "span %s has a parent with is_remote %s" % (s.name, s.parent.is_remote))
        if m.kind != "oc":
            return
        ev, status = list(m.events), m.status
        got = [(e.name, e.timestamp, self.avs(e.attributes)) for e in s.events]
        if getattr(m, "boom", False):
            ev.append(("exception", None, None))
            if status[0] != "OK":
                status = ("ERROR", "Boom: boom")
        lim = self.sc["limits"] or {}
        ev = ev[-lim.get("max_events", 128):]
        at = dict(m.attrs)
        while len(at) > lim.get("max_span_attributes", 128):
            del at[next(iter(at))]
        ok = len(got) == len(ev) and all(g[0] == w[0] and (w[1] is None and s.start_time <= g[1] <= s.end_time or w[1] is not None and abs(g[1] - w[1]) < 1000) and
                                         (w[2] is None or g[2] == w[2]) for g, w in zip(got, ev))
        if not ok:
            self.V("recorded", "span %s has events %r, must have %r" % (s.name, got, ev))
        st = (s.status.status_code.name, s.status.description or None)
        if st != (status[0], status[1] or None):
            self.V("recorded", "span %s has status %r, must have %r" % (s.name, st, status))
        if not lim and self.avs(s.attributes) != self.avs(at):
            self.V("recorded", "span %s has attributes %r, must have %r" % (s.name, self.avs(s.attributes), self.avs(at)))

    def check(self):
        for m in self.spans.values():
            if m.ended != int(m.sampled):
                self.V("recorded", "span %s, sampled %s, ended %d times" % (m.name, m.sampled, m.ended))
        given = Counter()
        for c in self.calls:
            given.update(c.items)
            if len(c.answers) != 1 or c.msgs != (0 if c.unread or c.answers == ["error"] and not c.msgs else 1):
                self.V("once", "export %d made %d calls with %d messages" % (c.n, len(c.answers), c.msgs))
            if (c.answers[0] == "ok") != (c.res is not None and c.res.name == "SUCCESS"):
                self.V("result", "export %d was answered %s and reported %s" % (c.n, c.answers[0], c.res))
        if given != self.truth:
            d = (self.truth - given) or (given - self.truth)
            x = next(iter(d))
            self.V("exported-once", "span %r was exported %d times and ended %d times" % (x, given[x], self.truth[x]))


CHECK = C31()
