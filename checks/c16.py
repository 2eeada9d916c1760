import threading
import time

from sim.check import MS, SEC
from .otlp import OtlpCheck, State, EX
from .metrics import BIG

RETRY = ["CANCELLED", "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "ABORTED", "OUT_OF_RANGE", "UNAVAILABLE", "DATA_LOSS"]
FATAL = ["UNKNOWN", "INVALID_ARGUMENT", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "FAILED_PRECONDITION", "UNIMPLEMENTED",
         "INTERNAL", "UNAUTHENTICATED"]


class C16(OtlpCheck):
    ID = "C16"
    PREFIXES = [EX + "grpc/src/", EX + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py"]
    REAL = ["OTLPSpanExporter, OTLPLogExporter, OTLPMetricExporter (gRPC), protobuf encoders, generated service stubs"]
    STUB = ["grpc channel and server (seeded statuses, delays, retry hints, deadline and close semantics of grpc)", "clock", "thread scheduler"]
    RULE = ("A case is an exporter of one signal, 1-4 threads exporting batches and shutting down, and a seeded list of server answers; "
            "non-trivial = a retryable or fatal answer was given or threads were preempted.")

    def setup(self):
        import grpc
        self.grpc = grpc
        self.state = None
        self.real_ch = grpc.insecure_channel, grpc.secure_channel
        grpc.insecure_channel = lambda target, **kw: Channel(self.state, target, kw)
        grpc.secure_channel = lambda target, credentials, **kw: Channel(self.state, target, kw)
        super().setup()
        from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter
        from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter
        from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter
        self.EXP = {"trace": OTLPSpanExporter, "log": OTLPLogExporter, "metric": OTLPMetricExporter}
        from google.rpc.error_details_pb2 import RetryInfo
        from google.protobuf.duration_pb2 import Duration
        self.RetryInfo, self.Duration = RetryInfo, Duration

        class Err(grpc.RpcError, grpc.Call if hasattr(grpc, "Call") else object):
            def __init__(self, code, meta):
                self._code, self._meta = code, meta

            def code(self):
                return self._code

            def details(self):
                return "simulated"

            def trailing_metadata(self):
                return self._meta

            def initial_metadata(self):
                return ()

            def is_active(self):
                return False

            def time_remaining(self):
                return None

            def cancel(self):
                return False

            def add_callback(self, cb):
                return False
        self.Err = Err

    def gen_answer(self, rng, p, retry=False):
        d = rng.choice([0, 0, 1, 100, 900, 4000, 9999, 12_000, 60_000]) * MS
        if rng.random() >= p:
            return ["ok", d]
        if retry or rng.random() < 0.8:
            ri = rng.choice([None, None, None, [0, 1], [0, 500_000_000], [3, 0], [1, 1], [2, 500_000_000], [0, 64_000], [40, 0], "bad", [-1, 0]])
            return [rng.choice(RETRY), rng.choice([0, 0, 1, 500]) * MS, ri]
        return [rng.choice(FATAL), rng.choice([0, 100]) * MS, None]

    def gen_cfg(self, rng, sig):
        return {"timeout": rng.choice([None, 1, 5]), "headers": rng.choice([0, 1, 2]), "gzip": int(rng.random() < 0.3), "tls": int(rng.random() < 0.2),
                "max": rng.choice([None, None, 1, 2, 3]) if sig == "metric" else None}

    def run(self, run, sc):
        st = S(self, run, sc)
        self.state = st
        st.go()


class Channel:
    def __init__(self, st, target, kw):
        self.st, self.closed = st, False
        self.flying = []
        st.channel = self
        st.target = target
        st.chan_kw = kw

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, *a, **k):
        return Multi(self, method, request_serializer, response_deserializer)

    def close(self):
        st = self.st
        self.closed = True
        st.sim.ev("channel-close", len(self.flying))
        for a, ev in list(self.flying):
            a.cut = True
            ev.set()

    def subscribe(self, *a, **k):
        pass

    unsubscribe = subscribe

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Multi:
    def __init__(self, ch, method, ser, des):
        self.ch, self.method, self.ser, self.des = ch, method, ser, des

    def with_call(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        return self(request, timeout, metadata), None

    def __call__(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        ch = self.ch
        st = ch.st
        G = st.chk.grpc
        if ch.closed:
            raise ValueError("Cannot invoke RPC on closed channel!")
        data = self.ser(request)
        a, plan = st.arrive(data, (self.method, timeout, tuple(metadata or ())))
        ev = threading.Event()
        ch.flying.append((a, ev))
        d = plan[1]
        lim = None if timeout is None else int(timeout * 1e9)
        late = lim is not None and d >= lim
        cut = ev.wait((lim if late else d) / 1e9) if d else ev.is_set()
        ch.flying.remove((a, ev))
        if cut:
            st.sim.fault("cut-by-close")
            st.answered(a, ["CANCELLED", "channel closed", None])
            raise st.chk.Err(G.StatusCode.CANCELLED, ())
        if late:
            st.sim.fault("deadline")
            st.answered(a, ["DEADLINE_EXCEEDED", "timeout", None])
            raise st.chk.Err(G.StatusCode.DEADLINE_EXCEEDED, ())
        st.answered(a, [plan[0]] + plan[2:3] if plan[0] != "ok" else ["ok"])
        if plan[0] == "ok":
            return self.des(b"")
        st.sim.fault("status-" + ("retry" if plan[0] in RETRY else "fatal"))
        a.answer = [plan[0], "server", plan[2]]
        meta = ()
        if plan[2] == "bad":
            st.sim.fault("bad-retry-info")
            meta = (("google.rpc.retryinfo-bin", b"\xff\xff\xff"),)
        elif plan[2] is not None:
            ri = st.chk.RetryInfo(retry_delay=st.chk.Duration(seconds=plan[2][0], nanos=plan[2][1]))
            meta = (("x", "y"), ("google.rpc.retryinfo-bin", ri.SerializeToString()))
        raise st.chk.Err(getattr(G.StatusCode, plan[0]), meta)


class S(State):
    ATTEMPTS = 6
    LOCKED = True

    def takes_timeout(self):
        return self.sig == "metric"

    def make(self):
        cfg = self.sc["cfg"]
        kw = {}
        if cfg["timeout"]:
            kw["timeout"] = cfg["timeout"]
        self.headers = (("k", "v"), ("k2", "v2")) if cfg["headers"] else ()
        if cfg["headers"]:
            kw["headers"] = self.headers if cfg["headers"] == 1 else dict(self.headers)
        if cfg["gzip"]:
            kw["compression"] = self.chk.grpc.Compression.Gzip
        if cfg["max"]:
            kw["max_export_batch_size"] = cfg["max"]
        return self.chk.EXP[self.sig](endpoint="%s://collector:4317" % ("https" if cfg["tls"] else "http"), **kw)

    def kind(self, a):
        return "ok" if a.answer[0] == "ok" else "retry" if a.answer[0] in RETRY else "fatal"

    def wait_after(self, a, k):
        ri = a.answer[2]
        if isinstance(ri, list):
            return max(0, ri[0] * SEC + ri[1])
        return 2 ** k * SEC

    def check_attempt(self, a):
        V = self.run.violate
        method, timeout, meta = a.extra
        want = {"trace": "TraceService", "log": "LogsService", "metric": "MetricsService"}[self.sig]
        if want not in method:
            V("method", "a %s export called %s" % (self.sig, method))
        if timeout != (self.sc["cfg"]["timeout"] or 10):
            V("timeout", "request with timeout %r, configured %r" % (timeout, self.sc["cfg"]["timeout"]))
        if not set(self.headers) <= set(meta):
            V("headers", "request with metadata %r, configured %r" % (meta, self.headers))

    def check(self):
        V = self.run.violate
        sim = self.sim
        for s in self.shuts:
            lim = (s.timeout if s.timeout is not None else 30_000) * MS
            took = s.t1 - s.t0
            if took > lim + 100 * MS + sim.stall_time(s.t0, s.t1):
                V("shutdown-slow", "shutdown took %.3f s, its timeout is %.3f s" % (took / 1e9, lim / 1e9))
        done = min([s.resp for s in self.shuts] or [BIG])
        for a in self.atts:
            if a.inv > done:
                V("sent-after-shutdown", "a request was sent after shutdown had returned")
            if a.cut:
                # its shutdown must have waited its whole timeout
                if not any(s.inv < a.resp and a.t1 - s.t0 >= (s.timeout if s.timeout is not None else 30_000) * MS - 1000 for s in self.shuts):
                    V("cut-off", "a request in flight was cut off by a shutdown before its timeout")
        super().check()


CHECK = C16()
