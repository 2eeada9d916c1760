import gzip
import time
import zlib

from sim.check import MS, SEC
from .otlp import OtlpCheck, State, EX
from .metrics import BIG


class C17(OtlpCheck):
    ID = "C17"
    PREFIXES = [EX + "http/src/", EX + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py"]
    REAL = ["OTLPSpanExporter, OTLPLogExporter, OTLPMetricExporter (HTTP), protobuf encoders, requests.Session"]
    STUB = ["requests transport adapter and server (seeded answers, delays, dropped connections, read timeouts)", "clock", "thread scheduler"]
    RULE = ("A case is an exporter of one signal, 1-4 threads exporting batches and shutting down, and a seeded list of server answers; "
            "non-trivial = an error answer was given or threads were preempted.")

    def setup(self):
        import requests
        self.requests = requests
        super().setup()
        from opentelemetry.exporter.otlp.proto.http import Compression
        from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter
        from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter
        from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter
        self.EXP = {"trace": OTLPSpanExporter, "log": OTLPLogExporter, "metric": OTLPMetricExporter}
        self.Compression = Compression

    def gen_answer(self, rng, p, retry=False):
        d = rng.choice([0, 0, 1, 100, 900, 4000, 9999, 12_000]) * MS
        if rng.random() >= p:
            return ["ok", d, rng.choice([200, 200, 202])]
        if retry or rng.random() < 0.75:
            return ["status", rng.choice([0, 0, 1, 500]) * MS, rng.choice([408, 500, 502, 503, 503, 504, 599])]
        if rng.random() < 0.5:
            return ["status", rng.choice([0, 100]) * MS, rng.choice([400, 401, 403, 404, 407, 409, 413, 429, 499])]
        return [rng.choice(["reset", "refused", "hang", "chunk"]), rng.choice([0, 100, 3000]) * MS, 0]

    def gen_cfg(self, rng, sig):
        return {"timeout": rng.choice([None, 1, 5]), "headers": rng.choice([0, 1]), "comp": rng.choice(["none", "none", "gzip", "deflate"]),
                "own": int(rng.random() < 0.7)}

    def run(self, run, sc):
        S(self, run, sc).go()


class S(State):
    ATTEMPTS = 6
    LOCKED = False

    def takes_timeout(self):
        return self.sig == "metric"

    def make(self):
        c, cfg, st = self.chk, self.sc["cfg"], self
        R = c.requests

        class Adapter(R.adapters.BaseAdapter):
            def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
                return st.serve(request, timeout)

            def close(self):
                st.sim.ev("session-close")
        kw = {}
        if cfg["timeout"]:
            kw["timeout"] = cfg["timeout"]
        if cfg["headers"]:
            kw["headers"] = {"k": "v", "k2": "v2"}
        if cfg["comp"] != "none":
            kw["compression"] = c.Compression(cfg["comp"])
        if cfg["own"]:
            s = R.Session()
            s.trust_env = False
            s.mount("http://", Adapter())
            kw["session"] = s
        else:
            init = R.Session.__init__

            def patched(self, *a, **k):
                init(self, *a, **k)
                self.trust_env = False
                self.mount("http://", Adapter())
            R.Session.__init__ = patched
        return c.EXP[self.sig](endpoint="http://collector:4318/v1/x", **kw)

    def serve(self, req, timeout):
        R = self.chk.requests
        body = req.body
        enc = req.headers.get("Content-Encoding")
        try:
            raw = gzip.decompress(body) if enc == "gzip" else zlib.decompress(body) if enc == "deflate" else bytes(body)
            a, plan = self.arrive(raw, (req.url, timeout, dict(req.headers), enc, req.method))
        except Exception as e:      # noqa
            self.run.violate("payload", "the server cannot decode a request body (encoding %r): %s" % (enc, e))
        lim = timeout if not isinstance(timeout, tuple) else timeout[-1]
        plan = plan if len(plan) > 2 else plan + [200]
        d = plan[1]
        if plan[0] == "hang" or (lim is not None and d >= lim * 1e9):
            if lim is None:
                self.run.violate("timeout", "a request without timeout to a server that hangs")
            time.sleep(lim)
            self.sim.fault("read-timeout")
            self.answered(a, ["conn", "timeout"])
            raise R.exceptions.ReadTimeout("simulated", request=req)
        if d:
            time.sleep(d / 1e9)
        if plan[0] in ("reset", "refused", "chunk"):
            self.sim.fault("conn-" + plan[0])
            self.answered(a, ["conn", plan[0]])
            raise {"reset": R.exceptions.ConnectionError, "refused": R.exceptions.ConnectTimeout,
                   "chunk": R.exceptions.ChunkedEncodingError}[plan[0]]("simulated", request=req)
        r = R.Response()
        r.status_code = plan[2]
        r.reason = "simulated"
        r.url = req.url
        r.request = req
        r._content = b""
        r.headers["Retry-After"] = "1"
        if plan[0] != "ok":
            self.sim.fault("status-%d" % plan[2])
        self.answered(a, ["status", plan[2]])
        return r

    def kind(self, a):
        if a.answer[0] == "conn":
            return "fatal"
        c = a.answer[1]
        return "ok" if c < 300 else "retry" if c == 408 or 500 <= c <= 599 else "fatal"

    def wait_after(self, a, k):
        return 2 ** k * SEC

    def check_attempt(self, a):
        V = self.run.violate
        url, timeout, hd, enc, method = a.extra
        cfg = self.sc["cfg"]
        if method != "POST" or url != "http://collector:4318/v1/x":
            V("request", "%s %s" % (method, url))
        if timeout != (cfg["timeout"] or 10):
            V("timeout", "request with timeout %r, configured %r" % (timeout, cfg["timeout"]))
        if hd.get("Content-Type") != "application/x-protobuf":
            V("headers", "content type %r" % hd.get("Content-Type"))
        if (enc or "none") != cfg["comp"]:
            V("compression", "request encoded as %r, configured %r" % (enc, cfg["comp"]))
        if cfg["headers"] and (hd.get("k"), hd.get("k2")) != ("v", "v2"):
            V("headers", "configured headers are missing: %r" % hd)

    def check(self):
        for s in self.shuts:
            if s.t1 - s.t0 > 100 * MS + self.sim.stall_time(s.t0, s.t1):
                self.run.violate("shutdown-slow", "shutdown took %.3f s" % ((s.t1 - s.t0) / 1e9))
        super().check()


CHECK = C17()
