import time

from sim.check import Check, MS
from . import common
from .metrics import BIG

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"


class Exp:
    def __init__(self, n, items):
        self.n, self.items, self.inv, self.resp, self.ok = n, items, BIG, BIG, None


class C23(Check):
    ID = "C23"
    RUNS = {"quick": 9000, "thorough": 400000}
    PREFIXES = [SDK + "trace/export/in_memory_span_exporter.py", SDK + "_logs/_internal/export/", SDK + "trace/export/__init__.py", SDK + "metrics/_internal/"]
    STALLS = False
    GRAN = {"line": 5, "instr": 4, "sync": 1}
    REAL = ["InMemorySpanExporter, InMemoryLogExporter, InMemoryMetricReader", "simple processors and providers in front of them", "metric storage and aggregations"]
    STUB = ["thread scheduler", "clock"]
    RULE = ("A case is 2-4 threads that export (directly and through a provider), read, clear and shut down an in-memory exporter, or record into and read "
            "an in-memory metric reader; non-trivial = threads were preempted.")

    def setup(self):
        from opentelemetry.sdk import trace, _logs, metrics, resources
        from opentelemetry.sdk.trace import export as texp
        from opentelemetry.sdk.trace.export import in_memory_span_exporter as tmem
        from opentelemetry.sdk._logs import export as lexp
        from opentelemetry.sdk.metrics import export as mexp
        self.trace, self.logs, self.metrics, self.texp, self.tmem, self.lexp, self.mexp = trace, _logs, metrics, texp, tmem, lexp, mexp
        self.res = resources.Resource.get_empty()

    def gen(self, rng, tier):
        what = rng.choice(["span", "log", "metric"])
        if what == "metric":
            w = {"rec": 6, "read": 3, "sleep": 1}
        else:
            w = {"export": 4, "pipe": 3, "read": 3, "clear": rng.choice([0, 1, 2]), "shutdown": rng.choice([0, 0.4]), "sleep": 0.5}
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([4, 9]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if k == "export":
                    ops.append([k, rng.choice([0, 1, 1, 2, 5])])
                elif k == "rec":
                    ops.append([k, rng.randrange(3), rng.randrange(2)])
                elif k == "sleep":
                    ops.append([k, rng.choice([0, 1, 100]) * MS])
                else:
                    ops.append([k])
            ths.append(ops)
        return {"what": what, "threads": ths, "kinds": [rng.choice(["counter", "updown", "hist"]) for _ in range(3)], "temp": rng.choice(["delta", "delta", "cumulative"])}

    def run(self, run, sc):
        common.guard(run, (Metric if sc["what"] == "metric" else Mem)(self, run, sc).go)()


CHECK = C23()


class Mem:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.exps, self.reads, self.clears, self.shut = [], [], [], [BIG, BIG]
        self.n = 0

    def go(self):
        chk, sc = self.chk, self.sc
        if sc["what"] == "span":
            self.x = chk.tmem.InMemorySpanExporter()
            p = chk.trace.TracerProvider(resource=chk.res, shutdown_on_exit=False)
            p.add_span_processor(chk.texp.SimpleSpanProcessor(self.x))
            self.tr = p.get_tracer("t")
            self.OK = chk.texp.SpanExportResult.SUCCESS
        else:
            self.x = chk.lexp.InMemoryLogExporter()
            p = chk.logs.LoggerProvider(resource=chk.res, shutdown_on_exit=False)
            p.add_log_record_processor(chk.lexp.SimpleLogRecordProcessor(self.x))
            self.lg = p.get_logger("l")
            self.OK = chk.lexp.LogExportResult.SUCCESS
        common.clients(self.run, sc["threads"], lambda run, tid, op: getattr(self, "op_" + op[0])(*op[1:]))
        self.op_read()
        self.op_read()
        self.check()

    def span(self):
        self.n += 1
        return "r%d" % self.n

    def op_export(self, k):
        names = [self.span() for _ in range(k)]
        if self.sc["what"] == "span":
            items = [self.chk.trace.ReadableSpan(name=x, resource=self.chk.res) for x in names]
        else:
            items = [self.chk.logs.LogData(self.chk.logs.LogRecord(body=x, resource=self.chk.res), None) for x in names]
        e = Exp(len(self.exps), names)
        self.exps.append(e)
        e.inv = self.sim.ev("export", names)
        r = self.x.export(items)
        e.ok = r is self.OK
        e.resp = self.sim.ev("exported", e.n, e.ok)

    def op_pipe(self):
        nm = self.span()
        e = Exp(len(self.exps), [nm])
        self.exps.append(e)
        e.inv = self.sim.ev("pipe", nm)
        if self.sc["what"] == "span":
            self.tr.start_span(nm).end()
        else:
            self.lg.emit(self.chk.logs.LogRecord(body=nm, resource=self.chk.res))
        e.resp = self.sim.ev("piped", e.n)

    def op_read(self):
        a = self.sim.ev("read")
        got = self.x.get_finished_spans() if self.sc["what"] == "span" else self.x.get_finished_logs()
        names = [s.name for s in got] if self.sc["what"] == "span" else [d.log_record.body for d in got]
        self.reads.append((a, self.sim.ev("got", names), names, got))

    def op_clear(self):
        a = self.sim.ev("clear")
        c = [a, BIG]
        self.clears.append(c)
        self.x.clear()
        c[1] = self.sim.ev("cleared")

    def op_shutdown(self):
        if self.shut[0] != BIG:
            return
        self.shut[0] = self.sim.ev("shutdown")
        self.x.shutdown()
        self.shut[1] = self.sim.ev("shut")

    def op_sleep(self, ns):
        time.sleep(ns / 1e9)

    def check(self):
        V = self.run.violate
        owner = {}
        for e in self.exps:
            for k, nm in enumerate(e.items):
                owner[nm] = (e, k)
            if e.ok is False and e.resp < self.shut[0]:
                V("failure", "export %d failed although the exporter was not shut down" % e.n)
            if e.ok is True and e.inv > self.shut[1]:
                V("after-shutdown", "export %d succeeded after shutdown" % e.n)
        for n, (a, b, names, got) in enumerate(self.reads):
            for nm in names:
                if nm not in owner:
                    V("unknown", "read %d returned %r" % (n, nm))
                e, _ = owner[nm]
                if names.count(nm) > 1:
                    V("duplicate", "read %d returned %s twice" % (n, nm))
                if e.inv > b:
                    V("unknown", "read %d returned %s, which was exported after it" % (n, nm))
                if e.ok is False or e.inv > self.shut[1]:
                    V("stored-failed", "read %d returned %s of an export that failed or began after shutdown" % (n, nm))
                if any(c[0] > e.resp and c[1] < a for c in self.clears):
                    V("not-cleared", "read %d returned %s although it was cleared" % (n, nm))
            for e in self.exps:
                must = e.resp < a and (e.ok is True or e.ok is None and e.resp < self.shut[0])
                if must and not any(c[1] > e.inv and c[0] < b for c in self.clears):
                    for nm in e.items:
                        if nm not in names:
                            V("lost", "read %d lacks %s" % (n, nm))
            at = {nm: i for i, nm in enumerate(names)}
            for x in names:
                for y in names:
                    (e, i), (f, j) = owner[x], owner[y]
                    if (e.resp < f.inv or e is f and i < j) and at[x] > at[y]:
                        V("order", "read %d returned %s before %s" % (n, y, x))
            for m, (a2, b2, names2, _) in enumerate(self.reads):
                if b < a2:
                    at2 = {nm: i for i, nm in enumerate(names2)}
                    both = [nm for nm in names if nm in at2]
                    if [at2[nm] for nm in both] != sorted(at2[nm] for nm in both):
                        V("order", "reads %d and %d disagree on the order" % (n, m))
                    if not any(c[1] > a and c[0] < b2 for c in self.clears) and len(both) != len(names):
                        V("lost", "read %d lacks records that read %d returned" % (m, n))
            if [s.name for s in got] != names if self.sc["what"] == "span" else [d.log_record.body for d in got] != names:
                V("changed", "what read %d returned changed later" % n)


class Metric:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.ms, self.reads = {}, []

    def go(self):
        chk, sc = self.chk, self.sc
        m, T = chk.metrics, chk.mexp.AggregationTemporality
        t = T.DELTA if sc["temp"] == "delta" else T.CUMULATIVE
        self.rd = chk.mexp.InMemoryMetricReader(preferred_temporality={k: t for k in (m.Counter, m.UpDownCounter, m.Histogram)})
        self.mp = m.MeterProvider(metric_readers=[self.rd], resource=chk.res, shutdown_on_exit=False)
        meter = self.mp.get_meter("m")
        mk = {"counter": "create_counter", "updown": "create_up_down_counter", "hist": "create_histogram"}
        self.h = [getattr(meter, mk[k])("i%d" % i) for i, k in enumerate(sc["kinds"])]
        common.clients(self.run, sc["threads"], lambda run, tid, op: getattr(self, "op_" + op[0])(*op[1:]))
        self.op_read()
        self.op_read()
        self.check()

    op_sleep = Mem.op_sleep

    def op_rec(self, i, a):
        ms = self.ms.setdefault((i, a), [])
        r = [2 ** len(ms), 0, BIG]
        ms.append(r)
        r[1] = self.sim.ev("rec", i, a, r[0])
        getattr(self.h[i], "record" if self.sc["kinds"][i] == "hist" else "add")(r[0], {"k": a})
        r[2] = self.sim.ev("recd", i, a, r[0])

    def op_read(self):
        a = self.sim.ev("read")
        d = self.rd.get_metrics_data()
        out = {}
        for rm in d.resource_metrics if d else ():
            for s in rm.scope_metrics:
                for m in s.metrics:
                    for p in m.data.data_points:
                        k = (int(m.name[1:]), p.attributes["k"])
                        if k in out:
                            self.run.violate("duplicate", "one read has two points for %r" % (k,))
                        out[k] = (p.sum, p.count) if self.sc["kinds"][k[0]] == "hist" else (p.value, None)
        self.reads.append((a, self.sim.ev("got", sorted((k, v[0]) for k, v in out.items())), out))

    def check(self):
        V = self.run.violate
        for key, ms in self.ms.items():
            seen, prev = {}, None
            for n, (a, b, out) in enumerate(self.reads):
                v, cnt = out.get(key, (0, None))
                bits = {k for k in range(len(ms)) if int(v) >> k & 1}
                if int(v) != v or int(v) >= 2 ** len(ms):
                    V("value", "read %d: %r reports %r" % (n, key, v))
                if cnt is not None and cnt != len(bits):
                    V("value", "read %d: %r has count %r for %d measurements" % (n, key, cnt, len(bits)))
                for k in bits:
                    if ms[k][1] > b:
                        V("early", "read %d reports a measurement recorded after it" % n)
                    if self.sc["temp"] == "delta" and k in seen:
                        V("twice", "measurement %d of %r is in reads %d and %d" % (k, key, seen[k], n))
                    seen.setdefault(k, n)
                for k, r in enumerate(ms):
                    if self.sc["temp"] != "delta" and r[2] < a and k not in bits:
                        V("lost", "read %d of %r lacks measurement %d" % (n, key, k))
                    if r[2] < a and k not in bits:
                        # delta: another read took it, one that is over or overlaps
                        if not any(o is not self.reads[n] and int(o[2].get(key, (0,))[0]) >> k & 1 and o[0] < b for o in self.reads):
                            V("lost", "measurement %d of %r is missing from read %d and those before" % (k, key, n))
            for k in range(len(ms)):
                if k not in seen:
                    V("lost", "measurement %d of %r was never read" % (k, key))
