import time

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG

CLS = {"counter": "create_counter", "updown": "create_up_down_counter", "hist": "create_histogram", "gauge": "create_gauge",
       "ocounter": "create_observable_counter", "oupdown": "create_observable_up_down_counter", "ogauge": "create_observable_gauge"}


class Ent:
    """One instrument identity: everything recorded through any of its handles."""

    def __init__(self, ident):
        self.ident = ident
        self.handles = []
        self.ms = []          # (value, inv, resp)
        self.creates = []     # [inv, resp]
        self.cbs = []
        self.calls = []       # (cb, collection)


class C10(Check):
    ID = "C10"
    RUNS = {"quick": 8000, "thorough": 350000}
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py",
                "/repo/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/util/instrumentation.py"]
    REAL = ["MeterProvider, Meter, instruments, MeasurementConsumer, MetricReaderStorage, aggregations, LoggerProvider, TracerProvider"]
    STUB = ["metric reader subclass, log and span processors that keep what they receive", "clocks", "thread scheduler"]
    GRAN = {"line": 5, "instr": 6, "sync": 1}
    STALLS = False
    RULE = ("A case is 2-4 threads that look up meters, tracers and loggers, create instruments of few identities, record "
            "through their own handles and collect, under a seeded schedule; non-trivial = threads were preempted.")

    def setup(self):
        from opentelemetry.sdk import metrics, resources, trace, _logs
        from opentelemetry.sdk.metrics import export
        from opentelemetry import metrics as mapi, _logs as lapi, trace as tapi
        self.metrics, self.export, self.trace, self.logs, self.mapi, self.lapi, self.tapi = metrics, export, trace, _logs, mapi, lapi, tapi
        self.res = resources.Resource.get_empty()

        class Reader(export.MetricReader):
            def __init__(self, **k):
                super().__init__(**k)
                self.sink = {}

            def _receive_metrics(self, data, timeout_millis=10_000, **kw):
                from sim import core
                self.sink.setdefault(core.SIM.cur.id, []).append(data)

            def shutdown(self, timeout_millis=30_000, **kw):
                pass
        self.Reader = Reader

    SCOPES = [("m", None, None, None), ("m", "1", None, None), ("m", "1", "http://s", None), ("m", None, None, {"a": 1}), ("n", None, None, None)]

    def gen(self, rng, tier):
        scopes = rng.choice([[0], [0], [0, 0, 1], [0, 3], [0, 1, 2, 3, 4]])
        kinds = rng.choice([["counter"], ["hist"], ["updown"], ["gauge"], ["ocounter"], ["ogauge"], ["oupdown"], ["counter", "ocounter"],
                            ["counter", "updown", "hist", "gauge"], list(CLS)])
        names = rng.choice([["x"], ["x"], ["x", "X"], ["x", "y"]])
        units = rng.choice([[""], [""], ["", "s"]])
        descs = rng.choice([[""], [""], ["", "d"]])
        w = {"new": 5, "rec": 4, "collect": 2, "logger": 1, "tracer": 0.3, "sleep": 0.2}
        foc = rng.random()
        if foc < 0.35:
            w = {"new": 3, "rec": 2, "collect": rng.choice([0, 1])}
        elif foc < 0.45:
            w = {"logger": 1}
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([2, 5, 9]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if k == "new":
                    ops.append(["new", rng.choice(scopes), rng.choice(kinds), rng.choice(names), rng.choice(units), rng.choice(descs)])
                elif k == "rec":
                    ops.append(["rec", rng.randrange(4)])
                elif k == "collect":
                    ops.append(["collect", rng.randrange(2)])
                elif k == "logger":
                    ops.append(["logger", rng.choice([0, 0, 1, 2, 3])])
                elif k == "tracer":
                    ops.append(["tracer", rng.choice([0, 1, 3])])
                else:
                    ops.append(["sleep", rng.choice([0, 1000])])
            ths.append(ops)
        return {"readers": [rng.choice("DC") for _ in range(2)], "threads": ths, "pre": int(rng.random() < 0.15)}

    def run(self, run, sc):
        sim = run.sim
        m = self.metrics
        T = self.export.AggregationTemporality
        from opentelemetry.sdk.metrics._internal import instrument as I
        kl = [m.Counter, m.UpDownCounter, m.Histogram, m.ObservableCounter, m.ObservableUpDownCounter, m.ObservableGauge, I.Gauge]
        readers = [self.Reader(preferred_temporality={k: T.DELTA if t == "D" else T.CUMULATIVE for k in kl}) for t in sc["readers"]]
        prov = m.MeterProvider(metric_readers=readers, resource=self.res, shutdown_on_exit=False)
        emitted, ended = [], []

        class LP(self.logs.LogRecordProcessor):
            def emit(self, log_data):
                emitted.append(log_data)

            def shutdown(self):
                pass

            def force_flush(self, timeout_millis=30000):
                return True

        class SP(self.trace.SpanProcessor):
            def on_end(self, span):
                ended.append(span)
        lprov = self.logs.LoggerProvider(resource=self.res, shutdown_on_exit=False)
        lprov.add_log_record_processor(LP())
        tprov = self.trace.TracerProvider(resource=self.res, shutdown_on_exit=False)
        tprov.add_span_processor(SP())
        ents = {}
        cols = [[] for _ in readers]
        handles = {}
        current = {}
        logs_sent, spans_sent = [], []

        def new(tid, op):
            _, s, kind, name, unit, desc = op
            name0, ver, url, attrs = self.SCOPES[s]
            ident = (s, kind, name.lower(), unit, desc)
            e = ents.get(ident)
            if e is None:
                e = ents[ident] = Ent(ident)
            cr = [0, BIG]
            e.creates.append(cr)
            cr[0] = sim.ev("create", *ident)
            mt = prov.get_meter(name0, ver, url, attrs)
            f = getattr(mt, CLS[kind])
            if kind[0] == "o":
                n = len(e.cbs)

                def cb(opts):
                    c = current.get(sim.cur.id)
                    sim.ev("callback", n)
                    if c is None:
                        run.violate("callback-outside", "callback called outside of any collection")
                    e.calls.append((n, c))
                    return [self.mapi.Observation(2 ** n)]
                e.cbs.append(cb)
                h = f(name, [cb], unit, desc)
            else:
                h = f(name, unit, desc)
            cr[1] = sim.stamp()
            e.handles.append(h)
            if kind[0] != "o":
                handles.setdefault(tid, []).append((e, h))

        def rec(tid, op):
            hs = handles.get(tid)
            if not hs:
                return
            e, h = hs[op[1] % len(hs)]
            v = 2 ** len(e.ms)
            x = [v, 0, BIG]
            e.ms.append(x)
            x[1] = sim.ev("rec", e.ident, v)
            k = e.ident[1]
            (h.add if k in ("counter", "updown") else h.set if k == "gauge" else h.record)(v)
            x[2] = sim.stamp()

        def collect(r):
            rd = readers[r]
            c = {"r": r, "n": len(cols[r]), "resp": BIG, "pts": {}, "done": False}
            cols[r].append(c)
            c["inv"] = sim.ev("collect", r, c["n"])
            current[sim.cur.id] = c
            rd.sink[sim.cur.id] = []
            rd.collect()
            got = rd.sink.pop(sim.cur.id)
            current.pop(sim.cur.id)
            c["resp"] = sim.ev("collected", r, c["n"])
            c["done"] = True
            if got:
                self.parse(run, c, got[0])

        def step(run, tid, op):
            k = op[0]
            if k == "new":
                new(tid, op)
            elif k == "rec":
                rec(tid, op)
            elif k == "collect":
                collect(op[1])
            elif k == "sleep":
                time.sleep(op[1] / 1e9)
            elif k == "logger":
                sc_ = self.SCOPES[op[1]]
                lg = lprov.get_logger(*sc_)
                n = len(logs_sent)
                logs_sent.append(op[1])
                sim.ev("log", n, op[1])
                lg.emit(self.logs.LogRecord(timestamp=1, body=n))
            elif k == "tracer":
                sc_ = self.SCOPES[op[1]]
                tr = tprov.get_tracer(*sc_)
                n = len(spans_sent)
                spans_sent.append(op[1])
                sim.ev("span", n, op[1])
                tr.start_span("s%d" % n).end()

        if sc["pre"] and sc["threads"] and sc["threads"][0]:
            step(run, 0, sc["threads"][0][0])
        common.clients(run, sc["threads"], step)
        for _ in range(2):
            for r in range(len(readers)):
                collect(r)
        self.check(run, sc, ents, cols)
        self.check_scopes(run, "log record", logs_sent, [(d.log_record.body, d.instrumentation_scope) for d in emitted])
        self.check_scopes(run, "span", spans_sent, [(int(d.name[1:]), d.instrumentation_scope) for d in ended])
        run.nontrivial = sim.preempts > 0

    def check_scopes(self, run, what, sent, got):
        n = [0] * len(sent)
        for i, scope in got:
            n[i] += 1
            name, ver, url, attrs = self.SCOPES[sent[i]]
            if scope.name != name or (scope.version or None) != ver or (scope.schema_url or None) != url or dict(scope.attributes or {}) != (attrs or {}):
                run.violate("wrong-scope", "%s sent through scope %r arrived with %r" % (what, self.SCOPES[sent[i]], scope))
        for i, k in enumerate(n):
            if k != 1:
                run.violate("not-once", "%s %d arrived %d times" % (what, i, k))

    def parse(self, run, c, data):
        E = self.export
        seen = set()
        for rm in data.resource_metrics:
            for s in rm.scope_metrics:
                si = (s.scope.name, s.scope.version or None, s.scope.schema_url or None, dict(s.scope.attributes or {}) or None)
                if si not in self.SCOPES:
                    run.violate("wrong-scope", "collected scope %r" % (si,))
                si = self.SCOPES.index(si)
                if si in seen:
                    run.violate("dup-scope", "scope %r appears twice in one collection" % (si,))
                seen.add(si)
                for m in s.metrics:
                    d = m.data
                    if isinstance(d, E.Sum):
                        kind = "counter" if d.is_monotonic else "updown"
                    elif isinstance(d, E.Gauge):
                        kind = "gauge"
                    else:
                        kind = "hist"
                    key = (si, kind, m.name.lower(), m.unit or "", m.description or "")
                    c["pts"].setdefault(key, []).append(m)

    def check(self, run, sc, ents, cols):
        V = run.violate
        # a sync and an observable instrument of one name produce metrics that look alike
        known = {}
        for (s, kind, name, unit, desc), e in ents.items():
            known.setdefault((s, kind[1:] if kind[0] == "o" else kind, name, unit, desc), []).append(e)
        for r, cs in enumerate(cols):
            for c in cs:
                for k, l in c["pts"].items():
                    if k not in known:
                        V("alien-metric", "collection has metric %r that nobody created" % (k,))
                    if len(l) > len(known[k]):
                        V("dup-metric", "metric %r appears %d times in one collection" % (k, len(l)))
                    for m in l:
                        if len(m.data.data_points) != 1:
                            V("dup-point", "metric %r has %d points" % (k, len(m.data.data_points)))
        for k, es in known.items():
            if len(es) > 1:
                continue
            e = es[0]
            kind = e.ident[1]
            for r, cs in enumerate(cols):
                if kind[0] == "o":
                    self.check_obs(run, e, k, r, cs)
                else:
                    self.check_sync(run, e, k, r, cs, sc["readers"][r] == "D")

    def check_sync(self, run, e, k, r, cs, delta):
        V = run.violate
        kind = e.ident[1]
        tot = 0
        for c in cs:
            l = c["pts"].get(k)
            must = [x for x in e.ms if x[2] < c["inv"]]
            if not l:
                fresh = [x for x in must if not any(o is not c and o["resp"] > x[1] and o["inv"] < c["resp"] for o in cs)]
                if (must and not delta and kind != "gauge") or fresh:
                    V("missing", "%r: collection %d misses the metric" % (e.ident, c["n"]))
                continue
            p = l[0].data.data_points[0]
            v = p.sum if kind == "hist" else p.value
            if kind == "gauge":
                if not any(x[0] == v for x in e.ms):
                    V("gauge-value", "%r: reports %r" % (e.ident, v))
                for x in e.ms:
                    if x[0] == v:
                        for y in must:
                            if y[1] > x[2]:
                                V("gauge-stale", "%r: reports %r although %r was set later" % (e.ident, v, y[0]))
                continue
            if delta:
                if tot & v:
                    V("double-count", "%r: delta %r overlaps what was reported before (%r)" % (e.ident, v, tot))
                tot += v
            else:
                tot = max(tot, v)
            if v >= 2 ** len(e.ms):
                V("bad-sum", "%r: sum %r exceeds all recorded" % (e.ident, v))
            if not delta:
                for x in must:
                    if not v & x[0]:
                        V("lost", "%r: collection %d misses a measurement recorded before it" % (e.ident, c["n"]))
        if kind != "gauge" and e.ms and tot != 2 ** len(e.ms) - 1:
            V("lost", "%r: reader %d got %r in total, recorded %r" % (e.ident, r, tot, 2 ** len(e.ms) - 1))

    def check_obs(self, run, e, k, r, cs):
        V = run.violate
        first = min(cr[1] for cr in e.creates)
        # the racing creators: those that started before the first one returned
        ready = max(cr[1] for cr in e.creates if cr[0] < first)
        for c in cs:
            calls = [n for n, cc in e.calls if cc is c]
            if len(calls) > 1:
                V("callback-twice", "%r: callbacks %r called in one collection" % (e.ident, calls))
            if c["inv"] > ready and len(calls) != 1:
                V("callback-missed", "%r: callback not called in collection %d though created before it" % (e.ident, c["n"]))
            l = c["pts"].get(k)
            if calls and not l:
                V("missing", "%r: collection %d misses the observed metric" % (e.ident, c["n"]))
            if l and e.ident[1] == "ogauge" and l[0].data.data_points[0].value != 2 ** calls[0]:
                V("gauge-value", "%r: reports %r" % (e.ident, l[0].data.data_points[0].value))
        if len(set(n for n, _ in e.calls)) > 1:
            V("two-callbacks", "%r: callbacks %r of one instrument are registered" % (e.ident, sorted(set(n for n, _ in e.calls))))


CHECK = C10()
