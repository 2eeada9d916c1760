import gzip
import os
import threading
import time
import zlib
from collections import Counter

from sim.check import Check, MS, SEC
from . import common
from .c16 import Channel

EX = "/repo/exporter/opentelemetry-exporter-otlp-proto-"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"

STR = ["v", "", "ünï €", "a,b=c;d", "x" * 300, "y" * 4000, "line\nbreak", "0", "\U0001f600"]
INT = [0, 1, -1, 2 ** 63 - 1, -2 ** 63, 7]
FLT = [0.0, 1.5, -2.25, 1e308, 5e-324, float("inf"), float("-inf"), float("nan")]
BODY = ["text", "", None, True, False, 0, -5, 2 ** 40, 1.5, b"\x00\xff", [1, "a", None, 2.5, [True]], {"k": "v", "n": {"m": [1, 2]}}, [], {}, ["", 0, False, None], {"z": None, "e": ""}]
SCOPES = [["s1", None, None, None], ["s3", None, None, None], ["s4", "2", None, None], ["s5", None, None, {"a": "b"}], ["s1", "1.0", None, None], ["s1", "1.0", "https://x/1", None], ["s1", "1.0", "https://x/2", None], ["s2", "", "", {"a": "b"}], ["s2", "", "", {"a": "c", "n": 3}]]
RES = [[{"service.name": "a"}, ""], [{"service.name": "a"}, "https://x/r"], [{"service.name": "b", "n": 5, "f": 1.5, "t": True, "l": ["x", "y"]}, ""], [{}, ""], [{}, "https://x/e"]]
CLS = ["Counter", "UpDownCounter", "Histogram", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge"]
KINDOF = {"inst0": "Counter", "inst1": "UpDownCounter", "inst2": "Histogram", "inst4": "Counter", "inst5": "Histogram", "oc": "ObservableCounter", "ou": "ObservableUpDownCounter"}
# the text of the header variable and the headers it stands for
HEADERS = [
    ("", {}),
    ("k=v%201,k2=v2", {"k": "v 1", "k2": "v2"}),
    # not encoded: taken as it is
    ("k=v 1,k2=v2", {"k": "v 1", "k2": "v2"}),
    ("authorization=Basic dXNlcjpwYXNz==,k=a%20b c", {"authorization": "Basic dXNlcjpwYXNz==", "k": "a%20b c"}),
    # names in any case, space around the parts, "=" in values, empty entries
    ("Key-One = v1 , K2=a=b%3D ,,k3=", {"key-one": "v1", "k2": "a=b=", "k3": ""}),
    # an entry that cannot be read is left out
    ("novalue,k=v%2C1, =x,k2=Bearer t", {"k": "v,1", "k2": "Bearer t"}),
]
CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")


# ---- canonical forms: what was recorded and what the collector decoded, in the same shape ---------
def pyv(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return "b", v
    if isinstance(v, str):
        return "s", v
    if isinstance(v, int):
        return "i", v
    if isinstance(v, float):
        return "d", repr(v)
    if isinstance(v, bytes):
        return "y", v
    if hasattr(v, "items"):
        return "m", tuple((k, pyv(x)) for k, x in v.items())
    return "a", tuple(pyv(x) for x in v)


def pbv(v):
    w = v.WhichOneof("value")
    if w is None:
        return None
    x = getattr(v, w)
    if w == "array_value":
        return "a", tuple(pbv(y) for y in x.values)
    if w == "kvlist_value":
        return "m", tuple((y.key, pbv(y.value)) for y in x.values)
    return {"bool_value": "b", "string_value": "s", "int_value": "i", "double_value": "d", "bytes_value": "y"}[w], repr(x) if w == "double_value" else x


def pya(a):
    return tuple(sorted(((k, pyv(v)) for k, v in (a or {}).items()), key=repr))


def pba(a):
    return tuple(sorted(((x.key, pbv(x.value)) for x in a), key=repr))


def py_scope(s):
    return (s.name, s.version or "", pya(s.attributes), s.schema_url or "")


def py_res(r):
    return pya(r.attributes), r.schema_url or ""


def py_ts(ts):
    return ",".join("%s=%s" % x for x in (ts or {}).items())


def py_span(s):
    c, p = s.context, s.parent

    def remote(x):
        return 0x100 | (0x200 if x is not None and x.is_remote else 0)
    return (("name", s.name), ("kind", s.kind.name), ("trace", "%032x" % c.trace_id), ("span", "%016x" % c.span_id), ("parent", "%016x" % p.span_id if p else ""),
            ("state", py_ts(c.trace_state)), ("start", s.start_time), ("end", s.end_time), ("attributes", pya(s.attributes)),
            ("events", tuple((e.name, e.timestamp, pya(e.attributes), e.dropped_attributes) for e in s.events)),
            ("links", tuple(("%032x" % x.context.trace_id, "%016x" % x.context.span_id, py_ts(x.context.trace_state), pya(x.attributes), x.dropped_attributes, remote(x.context))
                            for x in s.links)),
            ("status", (s.status.status_code.name, s.status.description or "")), ("dropped", (s.dropped_attributes, s.dropped_events, s.dropped_links)), ("flags", remote(p)))


KINDS = ["?", "INTERNAL", "SERVER", "CLIENT", "PRODUCER", "CONSUMER"]


def pb_span(s):
    return (("name", s.name), ("kind", KINDS[s.kind]), ("trace", s.trace_id.hex()), ("span", s.span_id.hex()), ("parent", s.parent_span_id.hex()),
            ("state", s.trace_state), ("start", s.start_time_unix_nano), ("end", s.end_time_unix_nano), ("attributes", pba(s.attributes)),
            ("events", tuple((e.name, e.time_unix_nano, pba(e.attributes), e.dropped_attributes_count) for e in s.events)),
            ("links", tuple((x.trace_id.hex(), x.span_id.hex(), x.trace_state, pba(x.attributes), x.dropped_attributes_count, x.flags & 0x300) for x in s.links)),
            ("status", (["UNSET", "OK", "ERROR"][s.status.code], s.status.message)), ("dropped", (s.dropped_attributes_count, s.dropped_events_count, s.dropped_links_count)),
            ("flags", s.flags & 0x300))


def py_log(r):
    return (("time", r.timestamp or 0), ("observed", r.observed_timestamp or 0), ("trace", "%032x" % r.trace_id if r.trace_id else ""), ("span", "%016x" % r.span_id if r.span_id else ""),
            ("flags", int(r.trace_flags or 0)), ("body", pyv(r.body)), ("severity", (r.severity_number.value if r.severity_number else 0, r.severity_text or "")),
            ("attributes", pya(r.attributes)), ("dropped", r.dropped_attributes))


def pb_log(r):
    return (("time", r.time_unix_nano), ("observed", r.observed_time_unix_nano), ("trace", r.trace_id.hex()), ("span", r.span_id.hex()), ("flags", r.flags),
            ("body", pbv(r.body)), ("severity", (r.severity_number, r.severity_text)), ("attributes", pba(r.attributes)), ("dropped", r.dropped_attributes_count))


def num(v):
    return ("i", v) if isinstance(v, int) else ("d", repr(float(v)))


def py_ex(es):
    return tuple((num(e.value), e.time_unix_nano, "%016x" % e.span_id if e.span_id is not None and e.trace_id is not None else "",
                  "%032x" % e.trace_id if e.span_id is not None and e.trace_id is not None else "", pya(e.filtered_attributes)) for e in es)


def pb_num(p):
    return ("i", p.as_int) if p.WhichOneof("value") == "as_int" else ("d", repr(p.as_double))


def pb_ex(es):
    return tuple((pb_num(e), e.time_unix_nano, e.span_id.hex(), e.trace_id.hex(), pba(e.filtered_attributes)) for e in es)


def py_metrics(data):
    out = []
    for rm in data.resource_metrics:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                head = (py_res(rm.resource), py_scope(sm.scope), m.name, m.description or "", m.unit or "")
                d = m.data
                nm = type(d).__name__
                for p in d.data_points:
                    a, ex = pya(p.attributes), py_ex(p.exemplars)
                    if nm == "Gauge":
                        b = (a, p.time_unix_nano, num(p.value), ex)
                    elif nm == "Sum":
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, num(p.value), int(d.aggregation_temporality), d.is_monotonic, ex)
                    elif nm == "Histogram":
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, p.count, repr(float(p.sum)), repr(float(p.min)), repr(float(p.max)), tuple(p.bucket_counts),
                             tuple(float(x) for x in p.explicit_bounds), int(d.aggregation_temporality), ex)
                    else:
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, p.count, repr(float(p.sum)), repr(float(p.min)), repr(float(p.max)), p.scale, p.zero_count,
                             bk(p.positive), bk(p.negative), p.flags, int(d.aggregation_temporality), ex)
                    out.append((head, nm, b))
    return out


def bk(b):
    cs = tuple(b.bucket_counts)
    return (b.offset, cs) if any(cs) else ()


def pb_metrics(req):
    out = []
    for rm in req.resource_metrics:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                head = ((pba(rm.resource.attributes), rm.schema_url), (sm.scope.name, sm.scope.version, pba(sm.scope.attributes), sm.schema_url), m.name, m.description, m.unit)
                w = m.WhichOneof("data")
                d = getattr(m, w) if w else None
                for p in d.data_points if d is not None else ():
                    a, ex = pba(p.attributes), pb_ex(p.exemplars)
                    if w == "gauge":
                        b = (a, p.time_unix_nano, pb_num(p), ex)
                    elif w == "sum":
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, pb_num(p), d.aggregation_temporality, d.is_monotonic, ex)
                    elif w == "histogram":
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, p.count, repr(p.sum), repr(p.min), repr(p.max), tuple(p.bucket_counts),
                             tuple(p.explicit_bounds), d.aggregation_temporality, ex)
                    else:
                        b = (a, p.start_time_unix_nano, p.time_unix_nano, p.count, repr(p.sum), repr(p.min), repr(p.max), p.scale, p.zero_count,
                             bk(p.positive), bk(p.negative), p.flags, d.aggregation_temporality, ex)
                    out.append((head, {"gauge": "Gauge", "sum": "Sum", "histogram": "Histogram", "exponential_histogram": "ExponentialHistogram"}[w], b))
    return out


class C26(Check):
    ID = "C26"
    RUNS = {"quick": 4500, "thorough": 200000}
    PREFIXES = [EX, S + "trace/export/", S + "_logs/_internal/export/", S + "metrics/_internal/export/"]
    REAL = ["SDK tracer, logger and meter providers with batch processors and periodic readers, OTLP exporters of all signals over gRPC and HTTP, "
            "protobuf encoders and protobuf, requests.Session, compression, reading of the exporter environment variables"]
    STUB = ["grpc channel, requests transport adapter and the collector (seeded answers, delays, lost answers)", "clock", "thread scheduler"]
    RULE = ("A case is 1-2 resources with tracers, loggers and instruments of several scopes, 1-4 threads recording, one exporter per signal over gRPC or HTTP configured by "
            "arguments or environment, and a seeded list of collector answers; non-trivial = an answer was not an immediate success or a thread was preempted.")

    def setup(self):
        import grpc
        import requests
        self.grpc, self.requests = grpc, requests
        grpc.insecure_channel = lambda target, **kw: Channel(self.state, target, kw)
        grpc.secure_channel = lambda target, credentials, **kw: Channel(self.state, target, dict(kw, credentials=credentials))
        grpc.ssl_channel_credentials = lambda root_certificates=None, private_key=None, certificate_chain=None: (root_certificates, private_key, certificate_chain)
        import importlib
        from opentelemetry import context, trace as tapi, metrics as mapi
        from opentelemetry._logs import SeverityNumber
        from opentelemetry.exporter.otlp.proto.http import Compression
        from opentelemetry.sdk import _logs, metrics, resources, trace
        from opentelemetry.sdk._logs import export as lx
        from opentelemetry.sdk.metrics import export as mx, view
        from opentelemetry.sdk.trace import export as tx
        self.capi, self.tapi, self.mapi, self.Sev, self.HttpComp = context, tapi, mapi, SeverityNumber, Compression
        self.logs, self.metrics, self.res, self.trace, self.lx, self.mx, self.tx, self.view = _logs, metrics, resources, trace, lx, mx, tx, view
        self.EXP = {}
        for proto in ("grpc", "http"):
            for sig, mod, cls in (("trace", "trace_exporter", "OTLPSpanExporter"), ("log", "_log_exporter", "OTLPLogExporter"), ("metric", "metric_exporter", "OTLPMetricExporter")):
                self.EXP[proto, sig] = getattr(importlib.import_module("opentelemetry.exporter.otlp.proto.%s.%s" % (proto, mod)), cls)
        from opentelemetry.proto.collector.trace.v1 import trace_service_pb2 as t2
        from opentelemetry.proto.collector.logs.v1 import logs_service_pb2 as l2
        from opentelemetry.proto.collector.metrics.v1 import metrics_service_pb2 as m2
        self.PB = {"trace": t2.ExportTraceServiceRequest, "log": l2.ExportLogsServiceRequest, "metric": m2.ExportMetricsServiceRequest}
        from .c16 import CHECK as c16

        class Err(grpc.RpcError, grpc.Call):
            def __init__(self, code, meta):
                self._code, self._meta = code, meta

            def code(self):
                return self._code

            def details(self):
                return "simulated"

            def trailing_metadata(self):
                return self._meta

            initial_metadata = is_active = time_remaining = cancel = add_callback = lambda self, *a: None
        self.Err = Err
        self.state = None
        import warnings
        warnings.simplefilter("ignore")

    # ---- generation -----------------------------------------------------------------------------
    def val(self, rng, seq=True):
        k = rng.choice(["s", "s", "i", "d", "b"] + (["q", "q"] if seq else []))
        if k == "q":
            t = rng.choice("sidb")
            vs = [self.one(rng, t) for _ in range(rng.randint(0, 3))]
            return ["q", vs]
        return self.one(rng, k)

    def one(self, rng, k):
        return [k, rng.randrange({"s": len(STR), "i": len(INT), "d": len(FLT), "b": 2}[k])]

    def attrs(self, rng):
        return [[rng.choice(["a", "b", "c", "k.ü"]), self.val(rng)] for _ in range(rng.choice([0, 0, 1, 2, 4]))]

    def op(self, rng, depth=0):
        r = rng.random()
        if r < 0.42 and depth < 3:
            return ["span", rng.randrange(10), rng.randrange(5), self.attrs(rng),
                    [[rng.randrange(2), self.attrs(rng), int(rng.random() < 0.5)] for _ in range(rng.choice([0, 0, 1, 3]))],
                    [[rng.randrange(4), self.attrs(rng)] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                    rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1]), rng.choice(["cur", "cur", "root", "remote"]), [self.op(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2]))]]
        if r < 0.68:
            return ["log", rng.randrange(10), rng.randrange(len(BODY)), self.attrs(rng), rng.randrange(4), rng.choice(["ctx", "ctx", "none", "own"])]
        if r < 0.92:
            return ["rec", rng.randrange(6), rng.choice([0, 1, 2, 5, 100, 2 ** 40, 0.5, 1e-9]), rng.randrange(5)]
        return ["sleep", rng.choice([1, 100, 1000, 6000]) * MS]

    def gen(self, rng, tier):
        nres = rng.choice([1, 1, 2])
        ths = [{"res": rng.randrange(nres), "prog": [self.op(rng) for _ in range(rng.choice([1, 3, 6, 10, 25]))]} for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        p = rng.choice([0, 0, 0.3, 0.6])
        plan = {}
        for sig in ("trace", "log", "metric"):
            plan[sig] = [[rng.choice(["retry", "retry", "fatal", "drop", "lost", "slow"]) if rng.random() < p else "ok", rng.choice([0, 0, 1, 100, 900]) * MS] for _ in range(rng.randint(0, 8))]
        cfg = {}
        for sig in ("trace", "log", "metric"):
            cfg[sig] = {"proto": rng.choice(["grpc", "http"]), "by": rng.choice(["arg", "arg-env", "env", "env-sig", "env-both"]), "comp": rng.choice(["none", "none", "gzip", "deflate"]),
                        "headers": rng.choice([0, 1, 1, 2, 3, 4, 5]), "timeout": rng.choice([None, 3, 7]), "endpoint": rng.choice(["", "", "/", "/base", "/base/"]), "scheme": rng.choice(["http", "http", "https", ""]), "insecure": rng.choice([None, True, False]), "tls": rng.choice([0, 1, 2])}
        bsp = {"delay": rng.choice([100, 1000, 5000]), "batch": rng.choice([1, 2, 5, 512])}
        lim = rng.choice([None, None, {"max_span_attributes": 2, "max_events": 1, "max_links": 1, "max_event_attributes": 1, "max_link_attributes": 1},
                          {"max_span_attributes": 1, "max_attribute_length": 3}])
        return {"res": [rng.randrange(len(RES)) for _ in range(nres)], "scopes": [rng.randrange(len(SCOPES)) for _ in range(rng.choice([1, 3, 3, 6, 10]))], "threads": ths, "plan": plan, "cfg": cfg, "bsp": bsp,
                "limits": lim, "share": int(rng.random() < 0.4), "temp": rng.choice(["cumulative", "delta", "lowmemory"]), "exp": rng.choice(["", "base2_exponential_bucket_histogram"]),
                "interval": rng.choice([500, 5000, 60_000]), "targ": [rng.randrange(len(CLS)), rng.choice(["DELTA", "CUMULATIVE"])] if rng.random() < 0.3 else None, "aarg": int(rng.random() < 0.3), "maxpts": rng.choice([None, None, 1, 2]), "ex": rng.choice(["on", "off"])}

    def run(self, run, sc):
        self.state = St(self, run, sc)
        common.guard(run, self.state.go)()


CHECK = C26()


def mk(v):
    k = v[0]
    if k == "n":
        return None
    if k == "q":
        return [mk(x) for x in v[1]]
    return {"s": STR, "i": INT, "d": FLT, "b": [False, True]}[k][v[1]]


def mka(a):
    return {k: mk(v) for k, v in a}


class Call:
    """One call of an exporter's export()."""


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.calls, self.now = [], {}
        self.n = Counter()
        self.truth = {"trace": Counter(), "log": Counter()}
        self.last = None

    def V(self, cls, msg):
        self.run.violate(cls, msg)

    # ---- set-up ---------------------------------------------------------------------------------
    def exporter(self, sig):
        chk, sc, st = self.chk, self.sc, self
        cfg = sc["cfg"][sig]
        http = cfg["proto"] == "http"
        up = {"trace": "TRACES", "log": "LOGS", "metric": "METRICS"}[sig]
        path = {"trace": "v1/traces", "log": "v1/logs", "metric": "v1/metrics"}[sig]
        scheme = cfg["scheme"] or ("http" if http else "")
        base = (scheme + "://" if scheme else "") + "collector-%s:43" % sig
        target = "collector-%s:43" % sig
        kw, env = {}, {}
        want = {"timeout": cfg["timeout"] or 10, "headers": HEADERS[cfg["headers"]][1]}
        comp = cfg["comp"]
        want["comp"] = comp
        gcomp = {"gzip": chk.grpc.Compression.Gzip, "deflate": chk.grpc.Compression.Deflate, "none": chk.grpc.Compression.NoCompression}[comp]
        secure = scheme == "https" or not scheme and not cfg["insecure"]
        tls = cfg["tls"] if http or secure else 0
        pem = {k: os.path.join(CERTS, f + ".pem") for k, f in (("CERTIFICATE", "ca"), ("CLIENT_KEY", "key"), ("CLIENT_CERTIFICATE", "cert"))}
        names = [["CERTIFICATE"], ["CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE"]][tls - 1] if tls else []
        want["verify"] = pem["CERTIFICATE"] if tls else True
        want["cert"] = (pem["CLIENT_CERTIFICATE"], pem["CLIENT_KEY"]) if tls == 2 else None
        by = cfg["by"]
        bad = {"ENDPOINT": "http://wrong:1", "TIMEOUT": "99", "HEADERS": "wrong=1", "COMPRESSION": "none" if comp != "none" else "gzip",
               "CERTIFICATE": os.path.join(CERTS, "ca-wrong.pem"), "CLIENT_KEY": os.path.join(CERTS, "key-wrong.pem"), "CLIENT_CERTIFICATE": os.path.join(CERTS, "cert-wrong.pem")}
        if by in ("arg", "arg-env"):
            kw["endpoint"] = base + ("/x" if http else "")
            want["url"] = base + "/x"
            if cfg["timeout"]:
                kw["timeout"] = cfg["timeout"]
            if cfg["headers"]:
                kw["headers"] = want["headers"] if http else HEADERS[cfg["headers"]][0] if cfg["headers"] in (3, 5) else tuple(want["headers"].items())
            if comp != "none" or by == "arg-env":
                kw["compression"] = chk.HttpComp(comp) if http else gcomp
            if http:
                for k in names:
                    kw[k.lower() + "_file"] = pem[k]
            elif tls:
                kw["credentials"] = tuple(open(pem[k], "rb").read() if k in names else None for k in ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE"))
            if not http and not scheme and cfg["insecure"] is not None:
                kw["insecure"] = cfg["insecure"]
            if by == "arg-env":
                # what the caller gives wins over the variables
                given = {"ENDPOINT": 1, "TIMEOUT": cfg["timeout"], "HEADERS": cfg["headers"], "COMPRESSION": 1}
                given.update(dict.fromkeys(names, 1))
                for k in given:
                    if given[k]:
                        env["OTEL_EXPORTER_OTLP_" + k] = env["OTEL_EXPORTER_OTLP_%s_%s" % (up, k)] = bad[k]
                if not http and not scheme and cfg["insecure"] is not None:
                    env["OTEL_EXPORTER_OTLP_INSECURE"] = env["OTEL_EXPORTER_OTLP_%s_INSECURE" % up] = "false" if cfg["insecure"] else "true"
        else:
            sigenv = by != "env"
            pre = "OTEL_EXPORTER_OTLP_" + (up + "_" if sigenv else "")
            ep = base + (cfg["endpoint"] if http else "")
            env[pre + "ENDPOINT"] = ep
            want["url"] = (ep + ("" if "/" in ep[8:] else "/")) if sigenv else ep.rstrip("/") + "/" + path
            if cfg["timeout"]:
                env[pre + "TIMEOUT"] = str(cfg["timeout"])
            if cfg["headers"]:
                env[pre + "HEADERS"] = HEADERS[cfg["headers"]][0]
            if comp != "none" or by == "env-both":
                env[pre + "COMPRESSION"] = comp
            for k in names:
                env[pre + k] = pem[k]
            if not http and not scheme and cfg["insecure"] is not None:
                env[pre + "INSECURE"] = "true" if cfg["insecure"] else "False"
            if by == "env-both":
                # the variable of the signal wins
                for k in bad:
                    if pre + k in env:
                        env["OTEL_EXPORTER_OTLP_" + k] = bad[k]
                if pre + "INSECURE" in env:
                    env["OTEL_EXPORTER_OTLP_INSECURE"] = "false" if cfg["insecure"] else "true"
        if sig == "metric":
            T = chk.mx.AggregationTemporality
            env["OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE"] = sc["temp"]
            delta = {"cumulative": [], "delta": ["Counter", "Histogram", "ObservableCounter"], "lowmemory": ["Counter", "Histogram"]}[sc["temp"]]
            self.temps = {c: T.DELTA if c in delta else T.CUMULATIVE for c in CLS}
            if sc["targ"]:
                c, t = sc["targ"]
                kw["preferred_temporality"] = {getattr(chk.metrics, CLS[c]): T[t]}
                self.temps[CLS[c]] = T[t]
            if sc["exp"]:
                env["OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION"] = sc["exp"]
            self.hist = "ExponentialHistogram" if sc["exp"] else "Histogram"
            if sc["aarg"]:
                kw["preferred_aggregation"] = {chk.metrics.Histogram: chk.view.ExplicitBucketHistogramAggregation((1, 10))}
                self.hist = "Histogram"
            if sc["maxpts"] and not http:
                kw["max_export_batch_size"] = sc["maxpts"]
        self.want[sig] = want
        for k in [k for k in os.environ if k.startswith("OTEL_EXPORTER")]:
            del os.environ[k]
        os.environ.update(env)
        if http:
            R = chk.requests

            class Adapter(R.adapters.BaseAdapter):
                def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
                    return st.http(sig, request, timeout, verify, cert)

                def close(self):
                    pass
            s = R.Session()
            s.trust_env = False
            s.mount("http://", Adapter())
            s.mount("https://", Adapter())
            kw["session"] = s
        ex = chk.EXP[cfg["proto"], sig](**kw)
        if not http:
            c = self.chan_kw.get("compression")
            creds = tuple(open(pem[k], "rb").read() if k in names else None for k in ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE")) if secure else 0
            if self.target != target or c != gcomp or self.chan_kw.get("credentials", 0) != creds:
                self.V("config", "%s channel to %s with %r; configured %s, %s, credentials %r" % (sig, self.target, self.chan_kw, target, comp, creds))
        for k in env:
            del os.environ[k]
        real = ex.export

        def export(data, *a, **k):
            c = Call()
            c.sig, c.n, c.reqs, c.res, c.max = sig, len(st.calls), [], None, sc["maxpts"] if sig == "metric" and not http else None
            c.items = Counter(st.canon(sig, data))
            st.calls.append(c)
            tid = st.sim.cur.id
            if tid in st.now:
                self.V("nested", "an export runs inside of another")
            st.now[tid] = c
            st.sim.ev("export", c.n, sig, len(c.items))
            try:
                c.res = real(data, *a, **k)
            finally:
                del st.now[tid]
            st.sim.ev("exported", c.n, c.res.name)
            return c.res
        ex.export = export
        return ex

    def canon(self, sig, data):
        if sig == "trace":
            return [(py_res(s.resource), py_scope(s.instrumentation_scope), py_span(s)) for s in data]
        if sig == "log":
            return [(py_res(d.log_record.resource), py_scope(d.instrumentation_scope), py_log(d.log_record)) for d in data]
        return py_metrics(data)

    def go(self):
        chk, sc, st = self.chk, self.sc, self
        self.want = {}
        ex = {s: self.exporter(s) for s in ("trace", "log", "metric")}
        b = dict(schedule_delay_millis=sc["bsp"]["delay"], max_export_batch_size=sc["bsp"]["batch"], max_queue_size=2048)
        res = [chk.res.Resource(dict(RES[i][0]), RES[i][1]) for i in sc["res"]]

        class Rec(chk.trace.SpanProcessor):
            def on_end(self, span):
                st.truth["trace"][st.canon("trace", [span])[0]] += 1
                st.sim.ev("ended", span.name)

        self.tps, self.lps, self.mps = [], [], []
        lim = chk.trace.SpanLimits(**sc["limits"]) if sc["limits"] else None
        tproc = [chk.tx.BatchSpanProcessor(ex["trace"], **b)]
        lproc = [chk.lx.BatchLogRecordProcessor(ex["log"], **b)]
        for i, r in enumerate(res):
            if i and not sc["share"]:
                tproc.append(chk.tx.BatchSpanProcessor(self.exporter("trace"), **b))
                lproc.append(chk.lx.BatchLogRecordProcessor(self.exporter("log"), **b))
            tp = chk.trace.TracerProvider(resource=r, shutdown_on_exit=False, span_limits=lim)
            tp.add_span_processor(Rec())
            tp.add_span_processor(tproc[-1])
            lp = chk.logs.LoggerProvider(resource=r, shutdown_on_exit=False)
            lp.add_log_record_processor(lproc[-1])
            self.tps.append(tp)
            self.lps.append(lp)
        rd = chk.mx.PeriodicExportingMetricReader(ex["metric"], export_interval_millis=sc["interval"], export_timeout_millis=30_000)
        mp = chk.metrics.MeterProvider([rd], resource=res[0], shutdown_on_exit=False,
                                       exemplar_filter=chk.metrics.AlwaysOnExemplarFilter() if sc["ex"] == "on" else chk.metrics.AlwaysOffExemplarFilter())
        self.insts = []
        self.total = Counter()
        for j, (f, g) in enumerate([("create_counter", "add"), ("create_up_down_counter", "add"), ("create_histogram", "record"), ("create_gauge", "set"), ("create_counter", "add"),
                                    ("create_histogram", "record")]):
            s = self.scope(j)
            m = mp.get_meter(s[0], s[1], s[2], s[3])
            self.insts.append(getattr(getattr(m, f)("inst%d" % j, unit="By" if j % 2 else "", description="d%d" % j), g))
        self.mp = mp

        def ocb(opts):
            st.n["obs"] += 1
            return [chk.mapi.Observation(st.n["obs"], {"o": 1}), chk.mapi.Observation(0.5)]
        mp.get_meter("obs").create_observable_gauge("og", [ocb])
        mp.get_meter("obs").create_observable_counter("oc", [lambda opts: [chk.mapi.Observation(5)]])
        mp.get_meter("obs").create_observable_up_down_counter("ou", [lambda opts: [chk.mapi.Observation(-5)]])
        ths = [threading.Thread(target=common.guard(self.run, self.thread), args=(t,)) for t in sc["threads"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for k, p in enumerate(self.tps):
            p.shutdown()
        for k, p in enumerate(self.lps):
            p.shutdown()
        mp.shutdown(timeout_millis=10 ** 9)
        self.check()

    # ---- recording ------------------------------------------------------------------------------
    def thread(self, t):
        for op in t["prog"]:
            self.step(t["res"], op)

    def scope(self, i):
        return SCOPES[self.sc["scopes"][i % len(self.sc["scopes"])]]

    def step(self, r, op):
        chk, sc = self.chk, self.sc
        T = chk.tapi
        r %= len(self.tps)
        if op[0] == "sleep":
            time.sleep(op[1] / 1e9)
        elif op[0] == "span":
            _, scope, kind, attrs, events, links, status, times, parent, body = op
            s = self.scope(scope)
            tr = self.tps[r].get_tracer(s[0], s[1], s[2], s[3])
            ls = []
            for k, a in links:
                ts = T.TraceState([("l", "%d" % k)]) if k % 2 else None
                ls.append(T.Link(T.SpanContext(100 + k, 200 + k, k > 1, T.TraceFlags(1), ts), mka(a)))
            self.n["span"] += 1
            nm = "span%d" % self.n["span"]
            kw = {}
            if times:
                kw["start_time"] = 1_600_000_000_000_000_000 + self.n["span"]
            if parent == "root":
                kw["context"] = chk.capi.Context()
            elif parent == "remote":
                kw["context"] = T.set_span_in_context(T.NonRecordingSpan(T.SpanContext(0xabc0 + self.n["span"], 0xdef, True, T.TraceFlags(1), T.TraceState([("r", "1"), ("q", "2")]))))
            sp = tr.start_span(nm, kind=list(T.SpanKind)[kind], attributes=mka(attrs), links=ls, **kw)
            with T.use_span(sp, end_on_exit=not times):
                for e, a, et in events:
                    if e:
                        sp.record_exception(ValueError("boom"), mka(a))
                    else:
                        sp.add_event("event", mka(a), timestamp=1_600_000_000_000_000_500 if et else None)
                if status == 1:
                    sp.set_status(T.StatusCode.OK)
                elif status:
                    sp.set_status(T.StatusCode.ERROR, "bad" if status == 2 else None)
                for o in body:
                    self.step(r, o)
            if times:
                sp.end(kw["start_time"] + 1_000_000)
        elif op[0] == "log":
            _, scope, body, attrs, sev, ids = op
            s = self.scope(scope)
            lg = self.lps[r].get_logger(s[0], s[1], s[2], s[3])
            kw = {}
            sc_ = T.get_current_span().get_span_context()
            if ids == "ctx":
                kw = dict(trace_id=sc_.trace_id, span_id=sc_.span_id, trace_flags=sc_.trace_flags)
            elif ids == "own":
                kw = dict(trace_id=0x77, span_id=0x66, trace_flags=T.TraceFlags(1))
            if sev:
                kw.update(severity_number=[chk.Sev.INFO, chk.Sev.ERROR, chk.Sev.FATAL4][sev - 1], severity_text=["info", None, ""][sev - 1])
            self.n["log"] += 1
            if sev != 1:
                kw["timestamp"] = 1_600_000_000_000_000_000 + self.n["log"]
            rec = chk.logs.LogRecord(body=BODY[body], attributes={**mka(attrs), "n": self.n["log"]}, resource=self.lps[r].resource, **kw)
            self.truth["log"][(py_res(self.lps[r].resource), (s[0], s[1] or "", pya(s[3]), s[2] or ""), py_log(rec))] += 1
            self.sim.ev("emit", self.n["log"])
            lg.emit(rec)
        else:
            _, i, v, a = op
            if i == 1 and a == 2:
                v = -v
            at = [None, {}, {"a": 1}, {"a": 1, "l": ("x", "y"), "f": 0.5, "b": True}, {"long": "z" * 3000}][a]
            if i in (0, 1, 4):
                self.total["inst%d" % i, pya(at)] += v
            self.insts[i](v, at)

    # ---- the collector --------------------------------------------------------------------------
    def plan(self, sig):
        self.n["req" + sig] += 1
        p = self.sc["plan"][sig]
        i = self.n["req" + sig] - 1
        return p[i] if i < len(p) else ["ok", 0]

    def request(self, sig, raw, kind):
        try:
            p = self.chk.PB[sig].FromString(raw)
        except Exception as e:
            self.V("payload", "the collector cannot decode a %s request: %s" % (sig, e))
        items = []
        if sig == "trace":
            groups = [(rs, ss, [pb_span(x) for x in ss.spans]) for rs in p.resource_spans for ss in rs.scope_spans]
        elif sig == "log":
            groups = [(rs, ss, [pb_log(x) for x in ss.log_records]) for rs in p.resource_logs for ss in rs.scope_logs]
        else:
            groups, items = [], pb_metrics(p)
        for rs, ss, xs in groups:
            h = ((pba(rs.resource.attributes), rs.schema_url), (ss.scope.name, ss.scope.version, pba(ss.scope.attributes), ss.schema_url))
            items += [h + (x,) for x in xs]
        c = self.now.get(self.sim.cur.id)
        if c is None or c.sig != sig:
            self.V("payload", "a %s request outside of an export" % sig)
        got = Counter(items)
        self.sim.ev("request", c.n, kind)
        # every item is one of the export, as it was recorded
        for it in got:
            if it not in c.items:
                self.differ(sig, it, c.items)
        ok = kind in ("ok", "lost", "slow")
        c.reqs.append((got, kind, ok))
        return p

    def differ(self, sig, it, items):
        """Name the field that was changed."""
        if sig != "metric":
            key = {"trace": "span", "log": "time"}[sig]
            for x in items:
                a, b = dict(x[2]), dict(it[2])
                same = [k for k in b if a[k] == b[k]]
                if (sig == "trace" and a["span"] == b["span"]) or (sig == "log" and (a["attributes"] == b["attributes"] and x[2] != it[2] and len(same) > 5 or x[2] == it[2])):
                    bad = [(k, a[k], b[k]) for k in b if a[k] != b[k]]
                    self.V("lossless", "%s arrived changed: %s" % (sig, "; ".join("%s is %r, must be %r" % (k, g, w) for k, w, g in bad) or "resource or scope %r, must be %r" % (it[:2], x[:2])))
        near = next((x for x in items if x[0] == it[0]), None)
        self.V("lossless", "%s %r arrived, but the export has none such; one of it: %r" % (sig, it, near))

    def http(self, sig, req, timeout, verify, cert):
        R = self.chk.requests
        w = self.want[sig]
        enc = req.headers.get("Content-Encoding") or "none"
        body = req.body
        try:
            raw = gzip.decompress(body) if enc == "gzip" else zlib.decompress(body) if enc == "deflate" else bytes(body)
        except Exception as e:
            self.V("payload", "the collector cannot decompress a request sent as %r: %s" % (enc, e))
        url = req.url
        if url != w["url"] or enc != w["comp"] or verify != w["verify"] or cert != w["cert"] or timeout != w["timeout"] or any(req.headers.get(k) != v for k, v in w["headers"].items()) or "wrong" in req.headers:
            self.V("config", "%s request to %s, compression %s, timeout %r, headers %r, verify %r, cert %r; configured %r" % (sig, url, enc, timeout, dict(req.headers), verify, cert, w))
        kind, d = self.plan(sig)
        self.request(sig, raw, kind)
        if kind != "ok":
            self.sim.fault("http-" + kind)
        if kind == "slow":
            time.sleep(timeout)
            raise R.exceptions.ReadTimeout("simulated", request=req)
        if d:
            time.sleep(d / 1e9)
        if kind in ("drop", "lost"):
            raise R.exceptions.ConnectionError("simulated", request=req)
        r = R.Response()
        r.status_code = {"ok": 200, "retry": 503, "fatal": 400}[kind]
        r.reason, r.url, r.request, r._content = "simulated", req.url, req, b""
        return r

    # the interface c16.Channel calls
    def arrive(self, data, extra):
        method, timeout, meta = extra
        sig = "trace" if "TraceService" in method else "log" if "LogsService" in method else "metric"
        w = self.want[sig]
        meta = dict(meta)
        if timeout != w["timeout"] or any(meta.get(k) != v for k, v in w["headers"].items()) or "wrong" in meta:
            self.V("config", "%s request with timeout %r, metadata %r; configured %r" % (sig, timeout, meta, w))
        kind, d = self.plan(sig)
        self.request(sig, data, kind)
        if kind != "ok":
            self.sim.fault("grpc-" + kind)

        class A:
            cut = False
        return A(), {"ok": ["ok", d], "retry": ["UNAVAILABLE", d, None], "drop": ["UNAVAILABLE", d, None], "lost": ["UNAVAILABLE", d, None],
                     "fatal": ["INVALID_ARGUMENT", d, None], "slow": ["ok", 100 * SEC]}[kind]

    def answered(self, a, answer):
        pass

    # ---- oracle ---------------------------------------------------------------------------------
    def check(self):
        for sig in ("trace", "log"):
            # what was recorded and what was handed to the exporter
            given = Counter()
            for c in self.calls:
                if c.sig == sig:
                    given.update(c.items)
            miss = self.truth[sig] - given
            more = given - self.truth[sig]
            if miss or more:
                x = next(iter(miss or more))
                self.V("exported-once", "%s %r was exported %d times and recorded %d times" % (sig, x, given[x], self.truth[sig][x]))
        for c in self.calls:
            groups = {}
            for got, kind, ok in c.reqs:
                groups.setdefault(frozenset(got.items()), []).append((kind, ok))
            sent = Counter()
            for g in groups:
                sent.update(dict(g))
            http = self.sc["cfg"][c.sig]["proto"] == "http"
            failed = c.res is None or c.res.name != "SUCCESS"
            if not c.items:
                continue
            if sent != c.items and not (c.max and failed and not sent - c.items):
                d = (c.items - sent) or (sent - c.items)
                self.V("lossless", "%s export %d: %r was sent %d times, must be %d" % (c.sig, c.n, next(iter(d)), sent[next(iter(d))], c.items[next(iter(d))]))
            for g, al in groups.items():
                for k, (kind, ok) in enumerate(al[:-1]):
                    again = kind == "retry" or not http and kind in ("drop", "lost", "slow")
                    if not again:
                        self.V("repeated", "%s export %d was sent again after %r" % (c.sig, c.n, kind))
            acc = all(al[-1][0] == "ok" for al in groups.values()) and sent == c.items
            if acc == failed:
                self.V("result", "%s export %d: answers %r, result %r" % (c.sig, c.n, list(groups.values()), c.res))
            if c.max and any(sum(n for _, n in g) > c.max for g in groups):
                self.V("batch-size", "%s export %d: a request of more than %d points" % (c.sig, c.n, c.max))
        # temporality and aggregation are the ones configured
        for c in self.calls:
            for (head, nm, b) in c.items if c.sig == "metric" else ():
                kind = KINDOF.get(head[2])
                if nm == "Gauge" or not kind:
                    continue
                t = b[4] if nm == "Sum" else b[9] if nm == "Histogram" else b[12]
                if t != self.temps[kind].value:
                    self.V("config", "%s of a %s was exported with temporality %r; configured %r" % (head[2], kind, t, self.temps[kind]))
                if kind == "Histogram" and nm != self.hist:
                    self.V("config", "%s was exported as %s; configured %s" % (head[2], nm, self.hist))
        # counters: the exported points add up to what was recorded
        tot, cum = Counter(), {}
        for c in self.calls:
            if c.sig == "metric":
                for (head, nm, b), n in c.items.items():
                    if nm == "Sum":
                        v = b[3][1] if b[3][0] == "i" else float(b[3][1])
                        if b[4] == 1:
                            tot[head[2], b[0]] += v * n
                        else:
                            cum[head[2], b[0]] = v
        tot.update(cum)
        tot = Counter({k: v for k, v in tot.items() if k[0][:4] == "inst"})
        for k in set(tot) | set(self.total):
            if abs(tot[k] - self.total[k]) > 1e-3:
                self.V("metric-total", "exported sums of %r add up to %r, recorded %r" % (k, tot[k], self.total[k]))
