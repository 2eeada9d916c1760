import ipaddress
import json
import threading
import time
from collections import Counter

from sim.check import Check, MS, SEC
from . import common
from .c26 import STR, RES, mk, mka, SCOPES, CHECK as c26

EX = "/repo/exporter/opentelemetry-exporter-zipkin-"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
UP = ["ünï €" * 3, "q\"uote\\", "abc", "", "a" * 30]


class Call:
    """One call of the exporter's export()."""


class C27(Check):
    ID = "C27"
    RUNS = {"quick": 6000, "thorough": 250000}
    PREFIXES = [EX, S + "trace/export/"]
    REAL = ["ZipkinExporter of JSON v1, JSON v2 and protobuf with its encoders, requests.Session, BatchSpanProcessor and SimpleSpanProcessor, tracer provider and spans"]
    STUB = ["requests transport and the Zipkin collector (seeded statuses, delays, broken connections, timeouts)", "clock", "thread scheduler"]
    RULE = ("A case is one exporter (protocol, tag length limit, endpoint by argument or environment), 1-4 threads recording spans and flushing, and a seeded list of collector "
            "answers; non-trivial = an answer was not an immediate success or a thread was preempted.")
    one, val, attrs = type(c26).one, type(c26).val, type(c26).attrs

    def setup(self):
        import requests
        self.requests, self.state = requests, None

        def send(ad, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return self.state.serve(request, timeout)
        requests.adapters.HTTPAdapter.send = send
        from opentelemetry import context, trace as tapi
        from opentelemetry.sdk import resources, trace
        from opentelemetry.sdk.trace import export as tx
        from opentelemetry.exporter.zipkin import json as zj
        from opentelemetry.exporter.zipkin.proto import http as zp
        from opentelemetry.exporter.zipkin.proto.http.v2.gen import zipkin_pb2
        self.capi, self.tapi, self.res, self.trace, self.tx, self.zj, self.zp, self.pb = context, tapi, resources, trace, tx, zj, zp, zipkin_pb2

    # ---- generation -----------------------------------------------------------------------------
    def op(self, rng, depth=0):
        r = rng.random()
        if r < 0.8 and depth < 3:
            return ["span", rng.randrange(3), rng.randrange(5), self.attrs(rng) + ([["u", ["u", [rng.randrange(len(UP)) for _ in range(rng.randint(0, 4))]]]] if rng.random() < 0.3 else []),
                    [[rng.randrange(2), self.attrs(rng), int(rng.random() < 0.5)] for _ in range(rng.choice([0, 0, 1, 3]))],
                    rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 999, 1500]), rng.choice(["cur", "cur", "root", "remote"]), [self.op(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2]))]]
        if r < 0.85:
            return ["flush"]
        return ["sleep", rng.choice([1, 100, 1000, 6000]) * MS]

    def gen(self, rng, tier):
        ths = [[self.op(rng) for _ in range(rng.choice([1, 3, 6, 10]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        p = rng.choice([0, 0, 0.3, 0.6])
        plan = [[rng.choice(["202", "503", "400", "drop", "slow", "204"]) if rng.random() < p else "200", rng.choice([0, 0, 1, 100, 900]) * MS] for _ in range(rng.randint(0, 10))]
        return {"kind": rng.choice(["v1", "v2", "proto"]), "max": rng.choice([None, None, 0, 1, 2, 5, 20, 128]), "proc": rng.choice(["batch", "batch", "simple"]),
                "by": rng.choice(["arg", "env", "default"]), "timeout": rng.choice([None, 3, 7]), "node": rng.randrange(4), "res": rng.randrange(len(RES)),
                "scopes": [rng.randrange(len(SCOPES)) for _ in range(3)], "threads": ths, "plan": plan,
                "bsp": {"delay": rng.choice([100, 1000, 5000]), "batch": rng.choice([1, 2, 5, 512])}, "seed": rng.randrange(2 ** 63),
                "limits": rng.choice([None, None, {"max_span_attributes": 2, "max_events": 1, "max_event_attributes": 1}])}

    def run(self, run, sc):
        st = self.state = St(self, run, sc)
        common.guard(run, st.go)()


def cv(v):
    return "true" if v is True else "false" if v is False else str(v)


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.calls, self.now, self.nreq, self.nspan = [], {}, 0, 0
        self.truth = Counter()

    def V(self, cls, msg):
        self.run.violate(cls, msg)

    # ---- what a span must look like at the collector ---------------------------------------------
    def tags(self, attrs):
        mx = self.sc["max"]
        out = {}
        for k, v in (attrs or {}).items():
            if isinstance(v, (tuple, list)):
                if mx == 1:
                    continue
                vs = [x if x is None else cv(x) for x in v]
                while mx and vs and len(json.dumps(vs, separators=(",", ":"))) > mx:
                    vs.pop()
                out[k] = json.dumps(vs, separators=(",", ":"))
            else:
                out[k] = cv(v)[:mx] if mx else cv(v)
        return out

    def want(self, s):
        c, mx = s.context, self.sc["max"]
        t = self.tags(s.attributes)
        t.update(self.tags(s.resource.attributes))
        sc = s.instrumentation_scope
        x = {"otel.library.name": sc.name, "otel.scope.name": sc.name}
        if sc.version is not None:
            x.update({"otel.library.version": sc.version, "otel.scope.version": sc.version})
        if s.status.status_code.name != "UNSET":
            x["otel.status_code"] = s.status.status_code.name
            if s.status.status_code.name == "ERROR":
                x["error"] = s.status.description or ""
        for k, n in (("attributes", s.dropped_attributes), ("events", s.dropped_events), ("links", s.dropped_links)):
            if n:
                x["otel.dropped_%s_count" % k] = str(n)
        if self.sc["kind"] == "v1" and mx:
            x = {k: v[:mx] for k, v in x.items()}
        t.update(x)
        ann = []
        for e in s.events:
            a = {k: v[:mx] if isinstance(v, str) and mx else v for k, v in (e.attributes or {}).items()}
            ann.append(((e.timestamp + 500) // 1000, repr(json.loads(json.dumps({e.name: a}, sort_keys=True)))))
        return ("%032x" % c.trace_id, "%016x" % c.span_id, "%016x" % s.parent.span_id if s.parent else "", s.name, (s.start_time + 500) // 1000,
                (s.end_time - s.start_time + 500) // 1000, "" if self.sc["kind"] == "v1" or s.kind.name == "INTERNAL" else s.kind.name, tuple(sorted(t.items())), tuple(ann))

    FIELDS = ["traceId", "id", "parentId", "name", "timestamp", "duration", "kind", "tags", "annotations"]

    def decode(self, req):
        kind = self.sc["kind"]
        ann = lambda xs: tuple((t, repr(json.loads(v))) for t, v in xs)     # noqa: E731
        out = []
        if kind == "proto":
            for s in self.chk.pb.ListOfSpans.FromString(req.body).spans:
                k = self.chk.pb.Span.Kind.Name(s.kind)
                e = s.local_endpoint
                out.append(((s.trace_id.hex(), s.id.hex(), s.parent_id.hex(), s.name, s.timestamp, s.duration, "" if k == "SPAN_KIND_UNSPECIFIED" else k,
                             tuple(sorted(s.tags.items())), ann((a.timestamp, a.value) for a in s.annotations)),
                            (e.service_name, e.ipv4, e.ipv6, e.port)))
            return out
        for s in json.loads(req.body):
            if kind == "v1":
                e = s["binaryAnnotations"][0]["endpoint"]
                if any(b["endpoint"] != e for b in s["binaryAnnotations"] + s.get("annotations", [])):
                    self.V("payload", "endpoints differ inside of a span: %r" % (s,))
                tags = [(b["key"], b["value"]) for b in s["binaryAnnotations"]]
                if len(dict(tags)) != len(tags):
                    self.V("payload", "a tag is there twice: %r" % (tags,))
            else:
                e, tags = s["localEndpoint"], s.get("tags", {}).items()
            bad = [x for x in tags if not isinstance(x[1], str)]
            if bad:
                self.V("payload", "tag %r has %r for a value, tags are strings" % bad[0])
            ip = lambda x: ipaddress.ip_address(x).packed if x else b""     # noqa: E731
            out.append(((s["traceId"], s["id"], s.get("parentId", ""), s["name"], s["timestamp"], s["duration"], s.get("kind") or "",
                         tuple(sorted(tags)), ann((a["timestamp"], a["value"]) for a in s.get("annotations", []))),
                        (e["serviceName"], ip(e.get("ipv4")), ip(e.get("ipv6")), e.get("port", 0))))
        return out

    # ---- collector --------------------------------------------------------------------------------
    def serve(self, req, timeout):
        R = self.chk.requests
        kind, d = self.sc["plan"][self.nreq] if self.nreq < len(self.sc["plan"]) else ["200", 0]
        self.nreq += 1
        ctype = "application/x-protobuf" if self.sc["kind"] == "proto" else "application/json"
        if (req.method, req.url, timeout, req.headers.get("Content-Type")) != ("POST", self.url, self.sc["timeout"] or 10, ctype):
            self.V("config", "request %s %s timeout %r type %r; configured %s %r %s" % (req.method, req.url, timeout, req.headers.get("Content-Type"), self.url, self.sc["timeout"], ctype))
        c = self.now.get(self.sim.cur.id)
        if c is None:
            self.V("payload", "a request outside of an export")
        try:
            spans = self.decode(req)
        except (ValueError, KeyError, IndexError, TypeError) as e:
            self.V("payload", "the collector cannot decode a request: %s: %s" % (type(e).__name__, e))
        self.sim.ev("request", c.n, kind)
        for s, ep in spans:
            w = self.endpoint
            if ep[1:] != w[1:] or not (ep[0] == w[0] or w[0] is None and ep[0].startswith("unknown_service")):
                self.V("endpoint", "local endpoint %r, must be %r" % (ep, w))
            if s not in c.items:
                o = next((x for x in c.items if x[:2] == s[:2]), None)
                if o is None:
                    self.V("lossless", "span %r arrived, the export has none such" % (s,))
                self.V("lossless", "span arrived changed: %s" % "; ".join("%s is %r, must be %r" % (f, g, x) for f, g, x in zip(self.FIELDS, s, o) if g != x))
        if Counter(s for s, _ in spans) != c.items:
            self.V("lossless", "a request of %d spans for an export of %d" % (len(spans), sum(c.items.values())))
        if d:
            time.sleep(d / 1e9)
        c.answers.append(kind)
        if kind != "200":
            self.sim.fault("http-" + kind)
        if kind == "slow":
            time.sleep(timeout)
            raise R.exceptions.ReadTimeout("simulated", request=req)
        if kind == "drop":
            raise R.exceptions.ConnectionError("simulated", request=req)
        r = R.Response()
        r.status_code, r.reason, r.url, r.request, r._content = int(kind), "simulated", req.url, req, b"text"
        return r

    # ---- workload ---------------------------------------------------------------------------------
    def go(self):
        import os
        chk, sc, st = self.chk, self.sc, self
        kw, env = {}, {}
        self.url = "http://localhost:9411/api/v2/spans" if sc["by"] == "default" else "http://zipkin:1/spans"
        if sc["by"] == "arg":
            kw["endpoint"] = self.url
            env["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = "http://wrong:1/"
        elif sc["by"] == "env":
            env["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = self.url
        if sc["timeout"] and sc["by"] == "env":
            env["OTEL_EXPORTER_ZIPKIN_TIMEOUT"] = str(sc["timeout"])
        elif sc["timeout"]:
            kw["timeout"] = sc["timeout"]
            env["OTEL_EXPORTER_ZIPKIN_TIMEOUT"] = "99"
        if sc["node"] & 1:
            kw.update(local_node_ipv4="192.168.0.1", local_node_port=31313)
        if sc["node"] & 2:
            kw["local_node_ipv6"] = "2001:db8::c001"
        if sc["kind"] != "proto" and (sc["kind"] == "v1" or sc["node"]):
            kw["version"] = chk.zj.Protocol.V1 if sc["kind"] == "v1" else chk.zj.Protocol.V2
        if sc["max"] is not None:
            kw["max_tag_value_length"] = sc["max"]
        os.environ.update(env)
        ex = (chk.zp if sc["kind"] == "proto" else chk.zj).ZipkinExporter(**kw)
        for k in env:
            del os.environ[k]
        attrs, url = RES[sc["res"]]
        self.endpoint = (attrs.get("service.name"), ipaddress.ip_address("192.168.0.1").packed if sc["node"] & 1 else b"",
                         ipaddress.ip_address("2001:db8::c001").packed if sc["node"] & 2 else b"", 31313 if sc["node"] & 1 else 0)
        self.ex = ex
        real = ex.export

        def export(data):
            c = Call()
            c.n, c.answers, c.res = len(st.calls), [], None
            c.items = Counter(st.want(s) for s in data)
            st.calls.append(c)
            st.now[st.sim.cur.id] = c
            st.sim.ev("export", c.n, len(c.items))
            c.exc = None
            try:
                c.res = real(data)
            except chk.requests.exceptions.RequestException as e:
                c.exc = e
                raise
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                st.V("raises", "export %d raised %s: %s" % (c.n, type(e).__name__, e))
            finally:
                st.now.pop(st.sim.cur.id, None)
                st.sim.ev("exported", c.n, c.res.name if c.res else "exc")
            return c.res
        ex.export = export

        class Rec(chk.trace.SpanProcessor):
            def on_end(self, span):
                st.truth[st.want(span)] += 1
        lim = chk.trace.SpanLimits(**sc["limits"]) if sc["limits"] else None
        self.tp = chk.trace.TracerProvider(resource=chk.res.Resource(dict(attrs), url), shutdown_on_exit=False, span_limits=lim)
        self.tp.add_span_processor(Rec())
        b = sc["bsp"]
        self.tp.add_span_processor(chk.tx.SimpleSpanProcessor(ex) if sc["proc"] == "simple" else
                                   chk.tx.BatchSpanProcessor(ex, schedule_delay_millis=b["delay"], max_export_batch_size=b["batch"], max_queue_size=2048))
        ths = [threading.Thread(target=common.guard(self.run, self.thread), args=(t,)) for t in sc["threads"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.tp.shutdown()
        n = self.nreq
        sp = chk.trace.TracerProvider(resource=self.tp.resource, shutdown_on_exit=False).get_tracer("late").start_span("late")
        sp.end()
        r = real([sp])
        if r.name != "FAILURE" or self.nreq != n:
            self.V("after-shutdown", "export after shutdown reported %s and sent %d requests" % (r, self.nreq - n))
        if not ex.force_flush():
            self.V("after-shutdown", "force_flush of an exporter that keeps nothing reported False")
        self.check()

    def thread(self, prog):
        for op in prog:
            self.step(op)

    def step(self, op):
        chk, sc = self.chk, self.sc
        T = chk.tapi
        if op[0] == "sleep":
            time.sleep(op[1] / 1e9)
        elif op[0] == "flush":
            self.tp.force_flush()
        else:
            _, scope, kind, attrs, events, status, dur, parent, body = op
            s = SCOPES[sc["scopes"][scope]]
            tr = self.tp.get_tracer(s[0], s[1], s[2], s[3])
            self.nspan += 1
            kw = {}
            if dur:
                kw["start_time"] = 1_600_000_000_000_000_000 + self.nspan
            if parent == "root":
                kw["context"] = chk.capi.Context()
            elif parent == "remote":
                kw["context"] = T.set_span_in_context(T.NonRecordingSpan(T.SpanContext(0xabc0 + self.nspan, 0xdef, True, T.TraceFlags(1))))
            a = {k: [UP[i] for i in v[1]] if v[0] == "u" else mk(v) for k, v in attrs}
            sp = tr.start_span("span%d" % self.nspan, kind=list(T.SpanKind)[kind], attributes=a, **kw)
            with T.use_span(sp, end_on_exit=not dur):
                for e, at, et in events:
                    if e:
                        sp.record_exception(ValueError("boom"), mka(at))
                    else:
                        sp.add_event("event", mka(at), timestamp=1_600_000_000_000_000_500 if et else None)
                if status == 1:
                    sp.set_status(T.StatusCode.OK)
                elif status:
                    sp.set_status(T.StatusCode.ERROR, "bad" if status == 2 else None)
                for o in body:
                    self.step(o)
            if dur:
                sp.end(kw["start_time"] + dur)

    # ---- oracle -----------------------------------------------------------------------------------
    def check(self):
        given = Counter()
        for c in self.calls:
            given.update(c.items)
            if len(c.answers) != 1:
                self.V("once", "export %d sent %d requests" % (c.n, len(c.answers)))
            ok = c.answers[0] in ("200", "202")
            if ok != (c.res is not None and c.res.name == "SUCCESS"):
                self.V("result", "export %d was answered %s and reported %s" % (c.n, c.answers[0], c.exc or c.res))
        if given != self.truth:
            d = (self.truth - given) or (given - self.truth)
            x = next(iter(d))
            self.V("exported-once", "span %r was exported %d times and ended %d times" % (x, given[x], self.truth[x]))


CHECK = C27()
