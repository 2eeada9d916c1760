import os
import sys
import threading
import time

from sim.check import Check, MS, SEC
from . import common

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
DEFAULTS = {"queue": 2048, "batch": 512, "delay": 5000, "timeout": 30000}
OTLP = {"grpc": "otlp_proto_grpc", "http/protobuf": "otlp_proto_http"}
NAMES = {"t": ["sx0", "sx1"], "m": ["mx0", "mx1", "mrd"], "l": ["lx0", "lx1"]}
ENV = {"t": "TRACES", "m": "METRICS", "l": "LOGS"}
FIELDS = {"tracecontext": {"traceparent"}, "baggage": {"baggage"}, "b3": {"b3"}, "b3multi": {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled"},
          "jaeger": {"uber-trace-id", "uberctx-bk"}}
EPS = 50 * MS


class C29(Check):
    ID = "C29"
    RUNS = {"quick": 6000, "thorough": 250000}
    PREFIXES = [SDK + "_configuration/", SDK + "trace/export/", SDK + "_logs/_internal/", SDK + "metrics/_internal/export/", "/repo/opentelemetry-api/src/opentelemetry/trace/__init__.py"]
    REAL = ["SDK configurator, entry point loading, TracerProvider, MeterProvider, LoggerProvider, EventLoggerProvider, batch processors, periodic reader, "
            "samplers, resources, logging handler, global providers and proxies, global propagator"]
    STUB = ["exporters, a metric reader, samplers and an id generator behind entry points of a distribution of the harness", "clocks", "thread scheduler",
            "interpreter exit (the threading exit hooks, then the atexit callbacks)"]
    STALLS = False
    RULE = ("A case is an environment (exporters, protocols, sampler, id generator, resource, batch and interval settings, switches, propagators), arguments for "
            "the configurator, 1-3 threads that produce all signals, and an end by flush, shutdown or interpreter exit; non-trivial = the SDK was configured and threads were preempted.")

    def setup(self):
        import atexit
        import concurrent.futures.thread  # noqa: F401
        import importlib
        import logging
        import opentelemetry.propagate
        from opentelemetry import _events, _logs, baggage, context, metrics, trace
        from opentelemetry.sdk import _configuration
        from opentelemetry.sdk.trace import sampling
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "ep"))
        import verif_stubs
        self.remember_distributions()
        from opentelemetry.util._importlib_metadata import entry_points
        for g in ("opentelemetry_traces_exporter", "opentelemetry_propagator", "opentelemetry_traces_sampler", "opentelemetry_id_generator", "opentelemetry_resource_detector"):
            for e in entry_points(group=g):
                try:
                    e.load()
                except Exception:
                    pass
        self.importlib, self.logging, self.atexit, self.stubs = importlib, logging, atexit, verif_stubs
        self.trace, self.metrics, self.logs, self.events, self.baggage, self.context = trace, metrics, _logs, _events, baggage, context
        self.conf, self.sampling, self.propagate = _configuration, sampling, opentelemetry.propagate

    def remember_distributions(self):
        """Looking up an entry point reads the files of every distribution: once is enough."""
        import importlib_metadata

        class Dist:
            def __init__(self, d):
                self.d, self.entry_points, self._normalized_name = d, d.entry_points, d._normalized_name

            def __getattr__(self, n):
                return getattr(self.d, n)
        all_ = [Dist(d) for d in importlib_metadata.distributions()]
        real = importlib_metadata.distributions
        importlib_metadata.distributions = lambda **k: real(**k) if k else all_

    # ---- generation -----------------------------------------------------------------------
    def gen(self, rng, tier):
        env, kw = {}, {}
        proto = lambda: rng.choice(["grpc", "http/protobuf", "http/protobuf", " grpc ", "", "bad"])
        if rng.random() < 0.3:
            env["OTEL_EXPORTER_OTLP_PROTOCOL"] = proto()
        for s in "tml":
            if rng.random() < 0.2:
                env["OTEL_EXPORTER_OTLP_%s_PROTOCOL" % ENV[s]] = proto()
            r = rng.random()
            if r < 0.1:
                env["OTEL_%s_EXPORTER" % ENV[s]] = rng.choice(["none", " None ", ""])
            elif r < 0.85:
                ns = rng.choices(NAMES[s] * 2 + ["otlp", "otlp", "otlp_proto_grpc", "otlp_proto_http"], k=rng.choice([1, 1, 2, 3]))
                if rng.random() < 0.03:
                    ns.insert(rng.randint(0, len(ns)), rng.choice(["nosuch", "wrong"]))
                env["OTEL_%s_EXPORTER" % ENV[s]] = rng.choice([",", " , "]).join(ns)
            if rng.random() < 0.15:
                kw["names_" + s] = rng.sample(NAMES[s], rng.randint(1, 2))
        if rng.random() < 0.5:
            env["OTEL_TRACES_SAMPLER"] = rng.choice(["always_on", "always_off", "traceidratio", "parentbased_always_on", "parentbased_always_off", "parentbased_traceidratio",
                                                     "traceidratio", "parentbased_traceidratio", "ALWAYS_OFF", "by_name", "by_name", "no_sampler", "raises", "unknown", ""])
        if rng.random() < 0.6:
            env["OTEL_TRACES_SAMPLER_ARG"] = rng.choice(["0", "1", "0.0", "1.0", "0.5", "abc", "", "a", "1.5", "-1", "nan"])
        if rng.random() < 0.15:
            kw["sampler"] = rng.choice(["on", "off"])
        if rng.random() < 0.3:
            env["OTEL_PYTHON_ID_GENERATOR"] = rng.choice(["random", "seq", "seq", " seq ", "nosuch", "wrong"])
        if rng.random() < 0.2:
            kw["ids"] = 1
        if rng.random() < 0.4:
            env["OTEL_SERVICE_NAME"] = rng.choice(["svc", "svc b"])
        if rng.random() < 0.5:
            env["OTEL_RESOURCE_ATTRIBUTES"] = rng.choice(["a=1,b=2", "service.name=other,a=1", "a=x%20y", "a=1,broken,b=2"])
        if rng.random() < 0.3:
            kw["attrs"] = rng.choice([{"a": "kw"}, {"service.name": "kw"}, {"c": 3, "telemetry.auto.version": "user"}])
        if rng.random() < 0.2:
            kw["version"] = "0.1b2"
        for p in ("BSP", "BLRP"):
            if rng.random() < 0.6:
                b = rng.choice([1, 2, 3, 5])
                v = {"MAX_EXPORT_BATCH_SIZE": str(b), "SCHEDULE_DELAY": rng.choice(["40", "700", "20000", "600000", "x", "1.5"]),
                     "EXPORT_TIMEOUT": rng.choice(["100", "5000", "90000", "x"]), "MAX_QUEUE_SIZE": rng.choice([str(b + 60), "4096", "y"])}
                for k in v:
                    if rng.random() < 0.6:
                        env["OTEL_%s_%s" % (p, k)] = v[k]
                if "OTEL_%s_MAX_QUEUE_SIZE" % p in env and "OTEL_%s_MAX_EXPORT_BATCH_SIZE" % p not in env:
                    del env["OTEL_%s_MAX_QUEUE_SIZE" % p]
        if rng.random() < 0.6:
            env["OTEL_METRIC_EXPORT_INTERVAL"] = rng.choice(["50", "1000", "20000.5", "x", "3600000"])
        if rng.random() < 0.5:
            env["OTEL_METRIC_EXPORT_TIMEOUT"] = rng.choice(["40", "777", "60000", "x"])
        if rng.random() < 0.12:
            env["OTEL_SDK_DISABLED"] = rng.choice(["true", "TRUE", " True ", "false", "", "1"])
        if rng.random() < 0.6:
            env["OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED"] = rng.choice(["true", "true", " True ", "false", "", "1"])
        if rng.random() < 0.2:
            kw["handler"] = rng.randrange(2)
        if rng.random() < 0.3:
            env["OTEL_METRICS_EXEMPLAR_FILTER"] = rng.choice(["always_on", "always_off", "trace_based"])
        if rng.random() < 0.15:
            env["OTEL_PROPAGATORS"] = rng.choice([",", " , "]).join(rng.sample(list(FIELDS), rng.randint(1, 3)))
            if rng.random() < 0.1:
                env["OTEL_PROPAGATORS"] += ",nosuch"
        ths = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([3, 8, 16]))):
                k = rng.choice(["span", "span", "span", "log", "log", "emit", "event", "add", "add", "sleep", "sleep"])
                if k == "span":
                    ops.append(["span", rng.choice(["none", "none", "yes", "no", "bad"]), rng.choice("ab1"), rng.choice([[], [], ["add"], ["log"], ["span"]])])
                elif k == "sleep":
                    ops.append(["sleep", rng.choice([1, 30, 500, 3000, 20000, 100000]) * MS])
                else:
                    ops.append([k])
            ths.append(ops)
        if rng.random() < 0.2:
            rng.choice(ths).insert(0, ["jump", rng.choice([-1, 1]) * 3600 * SEC])
        return {"env": env, "kw": kw, "threads": ths, "early": rng.randrange(2), "direct": int(rng.random() < 0.3), "slow": rng.choice([1, 200, 8000]) * MS if rng.random() < 0.25 else 0,
                "fail": rng.choice(["", "", "", "raise", "fail"]), "end": rng.choice(["exit", "exit", "shutdown", "shutdown", "flush"]), "quiet": rng.choice([0, 1, 1])}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["tick_ns"] = min(c["tick_ns"], 100)
        return c

    # ---- what the environment says ------------------------------------------------------------
    def exporters(self, sc, s):
        """The exporters of a signal, or None if the configuration is an error."""
        env = sc["env"]
        names = list(sc["kw"].get("names_" + s, []))
        val = env.get("OTEL_%s_EXPORTER" % ENV[s])
        if val and val.lower().strip() != "none":
            for n in val.split(","):
                n = n.strip()
                if n == "otlp":
                    p = env.get("OTEL_EXPORTER_OTLP_%s_PROTOCOL" % ENV[s]) or env.get("OTEL_EXPORTER_OTLP_PROTOCOL") or "grpc"
                    n = OTLP.get(p.strip(), "nosuch")
                names.append(n)
        if "nosuch" in names or "wrong" in names:
            return None
        return set(names)

    def number(self, sc, var, default, kind=int):
        try:
            return kind(sc["env"].get(var, default))
        except ValueError:
            return default

    def sampled(self, sc, name, parent, direct=False):
        """True, False or None (either) for a span of this name with that remote parent."""
        if "sampler" in sc["kw"] and not direct:
            return sc["kw"]["sampler"] == "on"
        n = sc["env"].get("OTEL_TRACES_SAMPLER") or "parentbased_always_on"
        arg = sc["env"].get("OTEL_TRACES_SAMPLER_ARG")
        n = n.lower()
        if n == "by_name" and not direct:
            return arg is not None and arg in name
        if n in ("by_name", "no_sampler", "raises", "unknown"):
            n = "parentbased_always_on"
        if n.endswith("traceidratio"):
            try:
                rate = float(arg)
                if not 0 <= rate <= 1:
                    rate = None
            except (TypeError, ValueError):
                rate = 1.0
            root = True if rate in (1.0, None) else False if rate == 0 else None
        else:
            root = n.endswith("on")
        return parent == "yes" if n.startswith("parentbased") and parent in ("yes", "no") else root

    # ---- execution -----------------------------------------------------------------------
    def run(self, run, sc):
        sim, V = run.sim, run.violate
        env, kw = sc["env"], sc["kw"]
        made, calls, world = {}, {}, self
        self.sim = sim
        for k in list(os.environ):
            if k.startswith("OTEL_"):
                del os.environ[k]
        os.environ.update(env)
        self.atexit._clear()
        trouble = []
        sys.unraisablehook = lambda a: trouble.append(a.exc_value)

        class World:
            boom = common.Boom
            ids = [1]

            def made(self, x):
                x.calls, x.close, x.t0 = [], [], sim.now
                made.setdefault((type(x).__mro__[1].__name__, x.name), []).append(x)

            def export(self, x, data, timeout):
                c = {"t0": sim.now, "inv": sim.ev("export", x.name, timeout), "data": data, "timeout": timeout, "task": sim.cur.id}
                if x.close:
                    V("after-shutdown", "%s was called after its shutdown" % x.name)
                x.calls.append(c)
                if sc["slow"] and x.name != "mrd":
                    sim.fault("slow export")
                    time.sleep(sc["slow"] / 1e9)
                c["t1"] = sim.now
                sim.ev("exported", x.name)
                if sc["fail"] and x.name != "mrd":
                    sim.fault("export " + sc["fail"])
                if sc["fail"] == "raise" and x.name != "mrd":
                    raise common.Boom("export")
                return sc["fail"] != "fail"

            def closed(self, x):
                x.close.append(sim.ev("closed", x.name))

            def new_id(self):
                self.ids[0] += 1
                return self.ids[0]
        self.stubs.WORLD[0] = w = World()
        self.propagators(run, sc)
        early = self.handles() if sc["early"] else None
        # configure
        a = {}
        for s, k in (("t", "trace_exporter_names"), ("m", "metric_exporter_names"), ("l", "log_exporter_names")):
            if "names_" + s in kw:
                a[k] = list(kw["names_" + s])
        if "sampler" in kw:
            a["sampler"] = self.sampling.ALWAYS_ON if kw["sampler"] == "on" else self.sampling.ALWAYS_OFF
        if "ids" in kw:
            a["id_generator"] = self.stubs.SeqIds()
        if "attrs" in kw:
            a["resource_attributes"] = dict(kw["attrs"])
        if "version" in kw:
            a["auto_instrumentation_version"] = kw["version"]
        if "handler" in kw:
            a["setup_logging_handler"] = bool(kw["handler"])
        want = {s: self.exporters(sc, s) for s in "tml"}
        gen = env.get("OTEL_PYTHON_ID_GENERATOR", "random").strip() if "ids" not in kw else "seq"
        bad = None in want.values() or gen in ("nosuch", "wrong")
        conf = type("Configurator", (self.conf._OTelSDKConfigurator,), {})()
        sim.ev("configure")
        try:
            conf.configure(**a)
        except RuntimeError as e:
            if not bad:
                V("config-error", "configure raised RuntimeError: %s" % e)
            return
        except Exception as e:
            V("config-raised", "configure raised %s: %s" % (type(e).__name__, e))
        if bad:
            V("config-accepted", "configure accepted exporters %r, id generator %r" % (want, gen))
        self.t_conf = sim.now
        # the exporters that are there
        byname = {s: {} for s in "tml"}
        for (cls, name), xs in made.items():
            s = {"SpanExporter": "t", "LogExporter": "l"}.get(cls, "m")
            if len(xs) != 1:
                V("made-twice", "%d exporters %s of %s were made" % (len(xs), name, ENV[s]))
            byname[s][name] = xs[0]
        for s in "tml":
            if set(byname[s]) != want[s]:
                V("exporters", "%s is exported to %s instead of %s" % (ENV[s], sorted(byname[s]), sorted(want[s])))
        if sc["direct"]:
            self.direct(V, sc)
        # use
        h = early or self.handles()
        self.hist = {"t": [], "l": [], "m": []}

        def step(run, tid, op):
            self.step(sc, h, tid, op)
        common.clients(run, sc["threads"], step)
        if sc["quiet"]:
            time.sleep(self.wait(sc) / 1e3)
        for x in byname["m"].values():
            if x.name == "mrd" and not self.disabled(sc):
                x.collect()
        self.end_inv = sim.ev("end", sc["end"])
        self.t_end = sim.now
        tr, mt, lg = self.trace.get_tracer_provider(), self.metrics.get_meter_provider(), self.logs.get_logger_provider()
        if sc["end"] == "exit":
            sim.fault("interpreter exit")
            threading._SHUTTING_DOWN = True
            for f in reversed(threading._threading_atexits):
                f()
            self.atexit._run_exitfuncs()
        elif sc["end"] == "shutdown":
            tr.shutdown()
            mt.shutdown()
            lg.shutdown()
        else:
            for p in (tr, mt, lg):
                try:
                    r = p.force_flush(1_000_000)
                except Exception as e:
                    V("flush-raised", "force_flush raised %s: %s" % (type(e).__name__, e))
                if not r:
                    V("flush-failed", "force_flush of %s returned %r" % (type(p).__name__, r))
        if trouble and not sc["fail"]:
            V("exit-error", "at exit: %r" % trouble)
        self.check(run, sc, byname)
        run.nontrivial = sim.preempts > 0

    def handles(self):
        m = self.metrics.get_meter("m")
        return {"t": self.trace.get_tracer("t"), "c": m.create_counter("c"), "h": m.create_histogram("h"), "l": self.logs.get_logger("l"), "e": self.events.get_event_logger("e")}

    def direct(self, V, sc):
        """A tracer provider made without the configurator."""
        from opentelemetry.sdk.trace import TracerProvider
        t = TracerProvider(shutdown_on_exit=False).get_tracer("d")
        for parent in ("none", "yes", "no"):
            ctx = self.context.Context()
            if parent != "none":
                ctx = self.trace.set_span_in_context(self.trace.NonRecordingSpan(self.trace.SpanContext(
                    0xabc << 64 | 5, 77, True, self.trace.TraceFlags(1 if parent == "yes" else 0))), ctx)
            c = t.start_span("d", context=ctx).get_span_context()
            s = self.sampled(sc, "d", parent, True)
            if s is not None and not self.disabled(sc) and bool(c.trace_flags & 1) != s:
                V("sampling", "a provider of its own gives a span (parent %s) flags %d with sampler %r(%r)" % (
                    parent, c.trace_flags, sc["env"].get("OTEL_TRACES_SAMPLER"), sc["env"].get("OTEL_TRACES_SAMPLER_ARG")))

    def wait(self, sc):
        ds = [self.number(sc, "OTEL_BSP_SCHEDULE_DELAY", 5000), self.number(sc, "OTEL_BLRP_SCHEDULE_DELAY", 5000), self.number(sc, "OTEL_METRIC_EXPORT_INTERVAL", 60000, float)]
        return min(1.6 * max(ds) + 10, (100 if sc["fail"] else 400) * min(ds))

    def disabled(self, sc):
        return sc["env"].get("OTEL_SDK_DISABLED", "").strip().lower() == "true"

    def handler(self, sc):
        return bool(sc["kw"]["handler"]) if "handler" in sc["kw"] else sc["env"].get("OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED", "false").strip().lower() == "true"

    def propagators(self, run, sc):
        env, V = sc["env"], run.violate
        if "OTEL_PROPAGATORS" not in env:
            return
        names = [n.strip() for n in env["OTEL_PROPAGATORS"].split(",")]
        try:
            p = self.importlib.reload(self.propagate)
        except ValueError:
            if "nosuch" not in names:
                V("propagators-raised", "OTEL_PROPAGATORS=%r raised" % env["OTEL_PROPAGATORS"])
            return
        if "nosuch" in names:
            V("propagators-accepted", "OTEL_PROPAGATORS=%r was accepted" % env["OTEL_PROPAGATORS"])
        ctx = self.baggage.set_baggage("bk", "bv", self.trace.set_span_in_context(self.trace.NonRecordingSpan(
            self.trace.SpanContext(5, 6, False, self.trace.TraceFlags(1)))))
        car = {}
        p.inject(car, ctx)
        want = set().union(*[FIELDS[n] for n in names])
        if {k.lower() for k in car} != want:
            V("propagators", "OTEL_PROPAGATORS=%r injected %r" % (env["OTEL_PROPAGATORS"], car))
        back = self.trace.get_current_span(p.extract(car)).get_span_context()
        if names != ["baggage"] and (back.trace_id, back.span_id) != (5, 6):
            V("propagators", "OTEL_PROPAGATORS=%r extracted %r from %r" % (env["OTEL_PROPAGATORS"], back, car))

    def step(self, sc, h, tid, op):
        sim, hist = self.sim, self.hist
        k = op[0]
        if k == "sleep":
            time.sleep(min(op[1] / 1e9, self.wait(sc) / 1e3))
        elif k == "jump":
            sim.jump_wall(op[1])
        elif k == "span":
            ctx = None
            if op[1] in ("yes", "no"):
                ctx = self.trace.set_span_in_context(self.trace.NonRecordingSpan(self.trace.SpanContext(
                    0xabc << 64 | 5, 77, True, self.trace.TraceFlags(1 if op[1] == "yes" else 0))), self.context.Context())
            elif op[1] == "bad":
                ctx = self.trace.set_span_in_context(self.trace.NonRecordingSpan(self.trace.INVALID_SPAN_CONTEXT), self.context.Context())
            n = "%s-%d" % (op[2], len(hist["t"]))
            r = {"name": n, "parent": op[1], "t": None}
            hist["t"].append(r)
            with h["t"].start_as_current_span(n, context=ctx) as sp:
                c = sp.get_span_context()
                r["ctx"], r["rec"] = c, sp.is_recording()
                cur = self.trace.get_current_span().get_span_context()
                for o in op[3]:
                    if o == "span":
                        self.child(h, r, n)
                    else:
                        self.step(sc, h, tid, [o, r])
                r["t"] = sim.now
            r["done"] = sim.ev("ended", n)
        elif k == "add":
            j = len(hist["m"])
            r = {"v": 2 ** j, "span": op[1] if len(op) > 1 else None}
            hist["m"].append(r)
            h["c"].add(2 ** j)
            h["h"].record(2 ** j)
            r["t"] = sim.now
            r["done"] = sim.ev("added", j)
        else:
            j = len(hist["l"])
            r = {"b": "%s-%d" % (k, j), "k": k, "t": sim.now}
            hist["l"].append(r)
            if k == "log":
                self.logging.getLogger("app").error(r["b"])
            elif k == "emit":
                from opentelemetry.sdk._logs import LogRecord
                h["l"].emit(LogRecord(timestamp=1, body=r["b"], trace_id=0, span_id=0, trace_flags=None, severity_number=self.logs.SeverityNumber.INFO))
            else:
                h["e"].emit(self.events.Event(name="ev", timestamp=1, body=r["b"], severity_number=self.logs.SeverityNumber.INFO))
            r["done"] = sim.ev("logged", r["b"])

    def child(self, h, r, n):
        q = {"name": n + "-child", "parent": "local", "of": r, "t": None}
        self.hist["t"].append(q)
        with h["t"].start_as_current_span(q["name"]) as sp:
            q["ctx"], q["rec"] = sp.get_span_context(), sp.is_recording()
            q["t"] = self.sim.now
        q["done"] = self.sim.ev("ended", q["name"])

    # ---- judgement -----------------------------------------------------------------------
    def check(self, run, sc, byname):
        V, hist, off = run.violate, self.hist, self.disabled(sc)
        env, kw = sc["env"], sc["kw"]
        # which spans are sampled
        exp = []
        seq = "ids" in kw or env.get("OTEL_PYTHON_ID_GENERATOR", "").strip() == "seq"
        for r in hist["t"]:
            if off:
                if r["rec"]:
                    V("disabled", "span %s is recorded although the SDK is disabled" % r["name"])
                continue
            s = self.sampled(sc, r["name"], r["parent"])
            if r["parent"] == "local":
                s = self.sampled(sc, r["name"], "yes" if r["of"]["ctx"].trace_flags & 1 else "no")
            if s is not None and bool(r["ctx"].trace_flags & 1) != s:
                V("sampling", "span %s (parent %s) has flags %d with sampler %r(%r)" % (r["name"], r["parent"], r["ctx"].trace_flags, env.get("OTEL_TRACES_SAMPLER"), env.get("OTEL_TRACES_SAMPLER_ARG")))
            if r["ctx"].trace_flags & 1:
                exp.append(r)
            if seq and (r["ctx"].span_id > 10 ** 6 or r["parent"] in ("none", "bad") and r["ctx"].trace_id & 0xffffffffffffffff != 7):
                V("ids", "span %s has ids %x %x" % (r["name"], r["ctx"].trace_id, r["ctx"].span_id))
        for x in byname["t"].values():
            self.batches(run, sc, x, "BSP", exp, lambda d: d.name, lambda r: r["name"])
            for c in x.calls:
                for d in c["data"]:
                    self.resource(V, sc, x, d.resource)
        logs = [] if off else [r for r in hist["l"] if r["k"] != "log" or self.handler(sc)]
        for x in byname["l"].values():
            # what the SDK itself logs goes through the handler as well
            for c in x.calls:
                for d in c["data"]:
                    if not str(d.log_record.body).startswith("emit"):      # these have none
                        self.resource(V, sc, x, d.log_record.resource)
                c["data"] = [d for d in c["data"] if not self.foreign(d)]
            self.batches(run, sc, x, "BLRP", logs, lambda d: d.log_record.body, lambda r: r["b"], noisy=self.handler(sc))
        for x in byname["m"].values():
            self.measured(run, sc, x, [] if off else hist["m"])
        if sc["end"] != "flush":
            for s in "tml":
                for x in byname[s].values():
                    if len(x.close) != 1 and x.name != "mrd" or not x.close:
                        V("not-shut-down", "%s exporter %s was shut down %d times at %s" % (ENV[s], x.name, len(x.close), sc["end"]))

    def foreign(self, d):
        n = getattr(d.instrumentation_scope, "name", "")
        return n.startswith(("opentelemetry", "concurrent", "asyncio"))

    def resource(self, V, sc, x, res):
        env, kw = sc["env"], sc["kw"]
        at = dict(res.attributes)
        want = {"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry", "service.name": "unknown_service"}
        want.update({"a=1,b=2": {"a": "1", "b": "2"}, "service.name=other,a=1": {"service.name": "other", "a": "1"}, "a=x%20y": {"a": "x y"},
                     "a=1,broken,b=2": {"a": "1", "b": "2"}}.get(env.get("OTEL_RESOURCE_ATTRIBUTES"), {}))
        if "OTEL_SERVICE_NAME" in env:
            want["service.name"] = env["OTEL_SERVICE_NAME"]
        want.update(kw.get("attrs", {}))
        if "version" in kw:
            want["telemetry.auto.version"] = kw["version"]
        at.pop("telemetry.sdk.version", None)
        if at != want:
            V("resource", "%s received the resource %r instead of %r" % (x.name, at, want))

    def batches(self, run, sc, x, p, recs, ident, name, noisy=False):
        V = run.violate
        batch = self.number(sc, "OTEL_%s_MAX_EXPORT_BATCH_SIZE" % p, DEFAULTS["batch"])
        delay = self.number(sc, "OTEL_%s_SCHEDULE_DELAY" % p, DEFAULTS["delay"]) * MS
        want, where = {name(r): r for r in recs}, {}
        for c in x.calls:
            if len(c["data"]) > batch:
                V("batch-size", "%s was given %d records at once, OTEL_%s_MAX_EXPORT_BATCH_SIZE is %d" % (x.name, len(c["data"]), p, batch))
            for d in c["data"]:
                n = ident(d)
                if n not in want:
                    V("alien", "%s received %r, which was not to be exported" % (x.name, n))
                if n in where:
                    V("twice", "%s received %r twice" % (x.name, n))
                where[n] = c
        for n in want:
            if n not in where:
                V("lost", "%s never received %r (end: %s)" % (x.name, n, sc["end"]))
        if sc["slow"] or noisy:
            return
        # by the configured delay, and not much earlier unless there is a whole batch
        for n, c in where.items():
            if c["t0"] > want[n]["t"] + delay + delay // 2 + EPS and c["t0"] <= self.t_end:
                V("late", "%s received %r %d ms after it was recorded, OTEL_%s_SCHEDULE_DELAY is %d ms" % (x.name, n, (c["t0"] - want[n]["t"]) // MS, p, delay // MS))
        for c in x.calls[:1]:
            if c["inv"] < self.end_inv and c["t0"] < x.t0 + delay // 2 - EPS and len([r for r in recs if r["t"] <= c["t0"] + MS]) < batch:
                V("early", "%s received %d records %d ms after the start, OTEL_%s_SCHEDULE_DELAY is %d ms" % (x.name, len(c["data"]), (c["t0"] - x.t0) // MS, p, delay // MS))

    def measured(self, run, sc, x, recs):
        V = run.violate
        total, n = sum(r["v"] for r in recs), len(recs)
        interval = self.number(sc, "OTEL_METRIC_EXPORT_INTERVAL", 60000, float) * MS
        timeout = self.number(sc, "OTEL_METRIC_EXPORT_TIMEOUT", 30000, float)
        last, ex = {}, 0
        for c in x.calls:
            names = set()
            for rm in c["data"].resource_metrics if c["data"] is not None else ():
                self.resource(V, sc, x, rm.resource)
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        if m.name in names or len(m.data.data_points) != 1 or m.name not in ("c", "h"):
                            V("metric", "%s received metric %s with %d points" % (x.name, m.name, len(m.data.data_points)))
                        names.add(m.name)
                        pt = m.data.data_points[0]
                        last[m.name] = pt.value if m.name == "c" else pt.sum
                        self.exemplars(V, sc, x, pt)
        if recs and not all(last.get(k) == total for k in "ch"):
            V("metrics-lost", "%s last received %r, recorded was %d (end: %s)" % (x.name, last, total, sc["end"]))
        if not recs and last:
            V("metrics-alien", "%s received %r" % (x.name, last))
        if recs and sc["env"].get("OTEL_METRICS_EXEMPLAR_FILTER") == "always_on" and not x.exemplars:
            V("exemplars", "%s received no exemplars with filter always_on" % x.name)
        if x.name == "mrd" or not recs:
            return
        tick = [c for c in x.calls if c["inv"] < self.end_inv]
        for c in tick:
            if c["timeout"] > timeout * 1.01 or not sc["slow"] and c["timeout"] < timeout * 0.5:
                V("timeout", "%s was given %r ms, OTEL_METRIC_EXPORT_TIMEOUT is %r" % (x.name, c["timeout"], timeout))
        if sc["slow"]:
            return
        ts = [c["t0"] for c in tick]
        for a, b in zip(ts, ts[1:]):
            if not interval // 2 - EPS <= b - a <= interval * 1.5 + EPS:
                V("interval", "%s was called %d ms after the last time, OTEL_METRIC_EXPORT_INTERVAL is %r ms" % (x.name, (b - a) // MS, interval / MS))
        if ts and ts[0] < x.t0 + interval // 2 - EPS:
            V("interval", "%s was called %d ms after the start, OTEL_METRIC_EXPORT_INTERVAL is %r ms" % (x.name, (ts[0] - x.t0) // MS, interval / MS))
        if not ts and self.t_end > max(x.t0, recs[0].get("t", self.t_end)) + 1.5 * interval + EPS:
            V("interval", "%s was not called in %d ms, OTEL_METRIC_EXPORT_INTERVAL is %r ms" % (x.name, (self.t_end - x.t0) // MS, interval / MS))

    def exemplars(self, V, sc, x, pt):
        f = sc["env"].get("OTEL_METRICS_EXEMPLAR_FILTER", "trace_based")
        for e in pt.exemplars:
            if f == "always_off":
                V("exemplars", "%s received an exemplar with filter always_off" % x.name)
            r = [r for r in self.hist["m"] if r["v"] == e.value]
            if f == "trace_based" and (not r or not r[0]["span"] or not r[0]["span"]["ctx"].trace_flags & 1):
                V("exemplars", "%s received the exemplar %r, which is of no sampled span" % (x.name, e))
        x.exemplars = getattr(x, "exemplars", 0) + len(pt.exemplars)


CHECK = C29()
