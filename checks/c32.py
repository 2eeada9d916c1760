import base64
import collections.abc
import dataclasses
import datetime
import enum
import errno
import io
import json
import os
import time
import types
import warnings

from sim.check import Check, MS
from . import common
from .metrics import BIG

A = "/repo/opentelemetry-api/src/opentelemetry/"
SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
TEXTS = ["", "x", "zwei W\u00f6rter", "line\nline", "\"q\" \\ {[", "\u2028\u0000\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "}{", "long " * 40]


def value(rng, deep=0):
    """A value of AnyValue, in a form the scenario file can hold (see build)."""
    k = rng.choice(["str", "str", "int", "float", "bool", "none", "bytes"] + (["list", "map", "map"] if deep < 3 else []))
    if k == "str":
        return rng.choice(TEXTS)
    if k == "int":
        return rng.choice([0, -1, 7, 2 ** 53 + 1, -2 ** 63])
    if k == "float":
        return rng.choice([0.0, -0.5, 1e300, 0.1])
    if k == "bool":
        return rng.random() < 0.5
    if k == "bytes":
        return {"bytes": rng.choice([[], [0, 255, 128], [104, 105]])}
    if k == "list":
        return {rng.choice(["list", "tuple"]): [value(rng, deep + 1) for _ in range(rng.randint(0, 3))]}
    if k == "map":
        return {rng.choice(["map", "map", "view"]): [[rng.choice(TEXTS[1:]) + str(i), value(rng, deep + 1)] for i in range(rng.randint(0, 3))]}
    return None


def build(v):
    if not isinstance(v, dict):
        return v
    (k, x), = v.items()
    if k == "bytes":
        return bytes(x)
    if k in ("list", "tuple"):
        return (list if k == "list" else tuple)(build(y) for y in x)
    d = {a: build(b) for a, b in x}
    return d if k == "map" else types.MappingProxyType(d)


def attrs(rng):
    out = {}
    for i in range(rng.choice([0, 1, 2, 4])):
        out["k%d %s" % (i, rng.choice(TEXTS))] = rng.choice([
            rng.choice(TEXTS), rng.choice([0, 1, -5, 2 ** 62]), rng.choice([0.5, 1e-9, -0.0]), True, False,
            [rng.choice(TEXTS) for _ in range(rng.randint(0, 3))], [1, 2, 3], [True, False], [0.5], ["a", None]])
    return out


def stamp(rng):
    return rng.choice([1, 1_000, 999_999_999, 1_600_000_000_000_000_000, 1_600_000_000_123_456_789, 1_732_078_799_999_999_999, 4_102_444_799_999_999_000]) + rng.randrange(1000)


class C32(Check):
    ID = "C32"
    RUNS = {"quick": 6000, "thorough": 250000}
    PREFIXES = [SDK + "trace/", SDK + "_logs/_internal/", SDK + "util/", SDK + "metrics/_internal/export/", SDK + "metrics/_internal/point.py", A + "attributes/", SDK + "resources/"]
    STALLS = False
    GRAN = {"line": 5, "instr": 3, "sync": 2}
    REAL = ["ConsoleSpanExporter, ConsoleLogExporter, ConsoleMetricExporter", "to_json of spans, log records, metrics, resources and scopes",
            "simple and batch processors, periodic metric reader, providers"]
    STUB = ["output stream (seeded: slow, failing writes and flushes)", "thread scheduler", "clock"]
    RULE = ("A case is 1-4 threads that end spans, emit log records, record, flush and print live spans, with 1-4 console exporters behind simple or batch processors "
            "or a periodic reader on one or two streams; non-trivial = threads were preempted or the stream failed.")

    def setup(self):
        from opentelemetry import trace as tapi
        from opentelemetry.sdk import trace, _logs, metrics, resources
        from opentelemetry.sdk.trace import export as texp
        from opentelemetry.sdk._logs import export as lexp
        from opentelemetry.sdk.metrics import export as mexp, view
        from opentelemetry.sdk.util import instrumentation
        from opentelemetry._logs import SeverityNumber
        from opentelemetry.trace import status
        warnings.simplefilter("ignore")
        self.tapi, self.trace, self.logs, self.metrics, self.texp, self.lexp, self.mexp, self.view = tapi, trace, _logs, metrics, texp, lexp, mexp, view
        self.resources, self.scope, self.sev, self.status = resources, instrumentation.InstrumentationScope, SeverityNumber, status

    def gen(self, rng, tier):
        exps = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            k = rng.choice(["span", "span", "log", "log", "metric"])
            if k == "metric" and any(e[0] == "metric" for e in exps):
                k = "span"
            exps.append([k, rng.choice(["simple", "simple", "batch"]), rng.choice([0, 0, 0, 1]), rng.choice([4, 4, None]), rng.choice([1, 2, 5]), rng.choice([50, 1000, 60000])])
        kinds = [e[0] for e in exps]
        w = {"span": 5 * ("span" in kinds), "log": 5 * ("log" in kinds), "metric": 5 * ("metric" in kinds), "flush": 1, "sleep": 1,
             "live": 2 * ("span" in kinds), "print": 2 * ("span" in kinds)}
        ths, n = [], 0
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([3, 8]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                n += 1
                if k == "span":
                    t = stamp(rng)
                    d = {"name": rng.choice(TEXTS), "attrs": attrs(rng), "kind": rng.randrange(5), "start": t, "end": t + rng.choice([0, 1, 10 ** 9]),
                         "parent": rng.random() < 0.5, "state": rng.random() < 0.4, "status": rng.choice([None, ["OK", None], ["ERROR", rng.choice(TEXTS)], ["ERROR", None]]),
                         "events": [[rng.choice(TEXTS), attrs(rng), stamp(rng)] for _ in range(rng.choice([0, 0, 1, 2]))],
                         "links": [[rng.getrandbits(128) | 1, rng.getrandbits(64) | 1, attrs(rng)] for _ in range(rng.choice([0, 0, 1, 2]))]}
                    ops.append([k, n, d])
                elif k == "log":
                    d = {"body": value(rng), "attrs": attrs(rng), "ts": rng.choice([None, stamp(rng), stamp(rng)]), "obs": rng.choice([None, stamp(rng)]),
                         "sev": rng.choice([None, "INFO", "FATAL4"]), "text": rng.choice([None, "info"] + TEXTS),
                         "lim": rng.choice([None, None, [rng.choice(["unset", None, 1, 2, 4]), rng.choice(["unset", None, 1, 5])]]), "ids": rng.choice([None, [rng.getrandbits(128) | 1, rng.getrandbits(64) | 1, rng.randrange(2)]])}
                    ops.append([k, n, d])
                elif k == "metric":
                    ops.append([k, rng.randrange(5), rng.choice([0, 1, 2.5, 100, 1e9]), attrs(rng) if rng.random() < 0.6 else {}])
                elif k == "sleep":
                    ops.append([k, rng.choice([0, 1, 60, 1500]) * MS])
                else:
                    ops.append([k, n] if k != "flush" else [k])
            ths.append(ops)
        io = [rng.choice(["ok"] * rng.choice([6, 20, 100]) + ["write", "flush", "slow"]) for _ in range(40)]
        return {"exps": exps, "threads": ths, "io": io if rng.random() < 0.6 else ["ok"], "res": attrs(rng), "env": [rng.choice([None, None, 3]), rng.choice([None, None, 2])], "schema": rng.choice(["", "https://s/1"]), "scope": attrs(rng)}

    def run(self, run, sc):
        common.guard(run, S(self, run, sc).go)()


CHECK = C32()


class Out(io.TextIOBase):
    """A text stream: what is written is buffered, flush makes it durable; both may fail."""

    def __init__(self, st, name):
        super().__init__()
        self.st, self.label, self.parts, self.flushed, self.n = st, name, [], 0, 0
        self.failed = {}

    def _io(self, what):
        st = self.st
        k = st.sc["io"][st.io % len(st.sc["io"])]
        st.io += 1
        st.sim.point("out." + what)
        if k == "slow":
            time.sleep(0.02)
        if k == what:
            st.sim.fault("stream-" + what)
            me = st.sim.cur.id
            self.failed[me] = self.failed.get(me, 0) + 1
            raise OSError(errno.ENOSPC, "No space left on device")

    def write(self, text):
        self._io("write")
        self.parts.append(text)
        self.st.sim.ev("write", self.label, len(text))
        return len(text)

    def close(self):
        pass

    def flush(self):
        n = len(self.parts)
        self._io("flush")
        self.flushed = max(self.flushed, n)


class Call:
    def __init__(self, out, items):
        self.out, self.items, self.failed, self.first, self.flushed, self.n, self.resp = out, items, True, len(out.parts), 0, 0, BIG


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.io, self.calls, self.want, self.lives, self.handed = 0, [], {}, [], {}
        self.used = set()

    def call(self, x, out, items, real):
        """One export call; items are the keys of what it must print."""
        c = Call(out, items)
        c.n = len(self.calls)
        self.calls.append(c)
        me = self.sim.cur.id
        out.failed[me] = 0
        self.sim.ev("export", c.n, len(items))
        r = None
        try:
            r = real()
        except Exception as e:
            if not out.failed[me]:
                self.run.violate("raised", "export of %s raised %s: %s" % (self.show(items), type(e).__name__, str(e)[:200]))
            raise
        finally:
            c.failed = bool(out.failed[me]) and not (r and r.name == "SUCCESS")
            c.flushed = out.flushed
            c.resp = self.sim.ev("exported", c.n, c.failed)
        if r.name != "SUCCESS" and not c.failed:
            self.run.violate("result", "export of %s returned %r" % (self.show(items), r))
        return r

    def show(self, items):
        return ", ".join(repr(self.want.get(i, i))[:200] for i in items[:3])

    def go(self):
        chk, sc, st = self.chk, self.sc, self

        class SE(chk.texp.ConsoleSpanExporter):
            def export(self, spans):
                return st.call(self, self.out, [("span", s.context.span_id) for s in spans], lambda: super(SE, self).export(spans))

        class LE(chk.lexp.ConsoleLogExporter):
            def export(self, batch):
                return st.call(self, self.out, [("log", d.log_record.attributes["n"]) for d in batch], lambda: super(LE, self).export(batch))

        class ME(chk.mexp.ConsoleMetricExporter):
            def export(self, metrics_data, timeout_millis=10_000, **kw):
                w = conv(metrics_data)
                k = ("metric", json.dumps(w, sort_keys=True, default=str))
                st.want[k] = w
                return st.call(self, self.out, [k], lambda: super(ME, self).export(metrics_data, timeout_millis, **kw))
        outs = [Out(self, "a"), Out(self, "b")]
        res = chk.resources.Resource(sc["res"], sc["schema"])
        self.res = {"attributes": plain(sc["res"]), "schema_url": sc["schema"]}
        self.tp = chk.trace.TracerProvider(resource=res, shutdown_on_exit=False)
        self.lp = chk.logs.LoggerProvider(resource=res, shutdown_on_exit=False)
        self.mp = None
        for kind, proc, o, indent, batch, delay in sc["exps"]:
            kw = {"out": outs[o]}
            if indent is None:
                kw["formatter"] = lambda x: x.to_json(indent=None) + "\n"
            if kind == "metric":
                x = ME(**kw)
                E = chk.view.ExponentialBucketHistogramAggregation
                self.mp = chk.metrics.MeterProvider(metric_readers=[chk.mexp.PeriodicExportingMetricReader(x, export_interval_millis=delay)], resource=res, shutdown_on_exit=False,
                                                    views=[chk.view.View(instrument_name="exp", aggregation=E(max_size=4))])
            else:
                x = (SE if kind == "span" else LE)(**kw)
                if proc == "simple":
                    p = (chk.texp.SimpleSpanProcessor if kind == "span" else chk.lexp.SimpleLogRecordProcessor)(x)
                else:
                    p = (chk.texp.BatchSpanProcessor if kind == "span" else chk.lexp.BatchLogRecordProcessor)(x, max_export_batch_size=batch, schedule_delay_millis=delay)
                if kind == "span":
                    self.tp.add_span_processor(p)
                else:
                    self.lp.add_log_record_processor(p)
        self.tr = self.tp.get_tracer("t", "1", "https://s/2", plain(sc["scope"]))
        self.lg = self.lp.get_logger("l", "1", "https://s/2", plain(sc["scope"]))
        if self.mp:
            m = self.mp.get_meter("m", "1", "https://s/2", plain(sc["scope"]))
            self.inst = [m.create_counter("c", "u", "the counter").add, m.create_up_down_counter("u").add, m.create_histogram("h").record, m.create_histogram("exp").record,
                         m.create_gauge("g").set]
            m.create_observable_gauge("og", [lambda o: [chk.metrics.Observation(3, {"a": "b"})]])
        # the limits of spans were read when their provider was made
        for k, v in zip(("COUNT", "VALUE_LENGTH"), sc["env"]):
            if v:
                os.environ["OTEL_ATTRIBUTE_%s_LIMIT" % k] = str(v)
        self.live = self.tr.start_span("live")
        self.liveset = []
        common.clients(self.run, sc["threads"], lambda run, tid, op: getattr(self, "op_" + op[0])(*op[1:]))
        if "flush" not in sc["io"]:
            self.op_flush()
        self.tp.shutdown()
        self.lp.shutdown()
        if self.mp:
            self.mp.shutdown()
        for o in outs:
            self.check(o)

    def op_span(self, n, d):
        chk = self.chk
        T = chk.tapi
        ctx = None
        par = None
        if d["parent"]:
            par = T.SpanContext(n + (1 << 100), n + (1 << 40), True, T.TraceFlags(1), T.TraceState([("key", "v%d" % n)]) if d["state"] else None)
            ctx = T.set_span_in_context(T.NonRecordingSpan(par))
        sp = self.tr.start_span(d["name"], context=ctx, kind=list(T.SpanKind)[d["kind"]], attributes=plain(d["attrs"]), start_time=d["start"],
                                links=[T.Link(T.SpanContext(t, s, True), plain(a)) for t, s, a in d["links"]])
        for nm, a, ts in d["events"]:
            sp.add_event(nm, plain(a), timestamp=ts)
        if d["status"]:
            sp.set_status(chk.status.Status(chk.status.StatusCode[d["status"][0]], d["status"][1]))
        c = sp.get_span_context()
        want = {"name": d["name"], "kind": "SpanKind." + list(T.SpanKind)[d["kind"]].name, "start_time": Time(d["start"]), "end_time": Time(d["end"]),
                "context": {"trace_id": "0x%032x" % c.trace_id, "span_id": "0x%016x" % c.span_id}, "parent_id": par and "0x%016x" % par.span_id,
                "attributes": plain(d["attrs"]), "resource": self.res,
                "status": {"status_code": d["status"][0] if d["status"] else "UNSET"},
                "events": [{"name": nm, "timestamp": Time(ts), "attributes": plain(a)} for nm, a, ts in d["events"]],
                "links": [{"context": {"trace_id": "0x%032x" % t, "span_id": "0x%016x" % s}, "attributes": plain(a)} for t, s, a in d["links"]]}
        if d["status"] and d["status"][1]:
            want["status"]["description"] = d["status"][1]
        if d["state"] and par:
            want["context"]["trace_state"] = Has("key", "v%d" % n)
        self.hand(("span", c.span_id), want, lambda: sp.end(d["end"]))

    def op_log(self, n, d):
        chk = self.chk
        body = build(d["body"])
        kw = {}
        if d["ids"]:
            kw = {"trace_id": d["ids"][0], "span_id": d["ids"][1], "trace_flags": chk.tapi.TraceFlags(d["ids"][2])}
        kept, dropped = {**plain(d["attrs"]), "n": n}, 0
        if d["lim"]:
            most, longest = d["lim"]
            kw["limits"] = chk.logs.LogLimits(*[chk.logs.LogLimits.UNSET if x == "unset" else x for x in (most, longest)])
            most, longest = [None if x == "unset" else x or y for x, y in zip((most, longest), self.sc["env"])]
            if most and len(kept) > most:
                dropped = len(kept) - most
                kept = dict(list(kept.items())[-most:])
            if longest:
                kept = {k: cut(v, longest) for k, v in kept.items()}
        rec = chk.logs.LogRecord(timestamp=d["ts"], observed_timestamp=d["obs"], severity_text=d["text"], severity_number=d["sev"] and chk.sev[d["sev"]], body=body,
                                 resource=self.tp.resource, attributes={**plain(d["attrs"]), "n": n}, **kw)
        want = {"body": plain(body), "severity_number": d["sev"] and chk.sev[d["sev"]].value, "severity_text": d["text"], "attributes": kept,
                "dropped_attributes": dropped, "resource": self.res}
        if d["ts"]:
            want["timestamp"] = Time(d["ts"])
        if d["obs"]:
            want["observed_timestamp"] = Time(d["obs"])
        if d["ids"]:
            want.update(trace_id="0x%032x" % d["ids"][0], span_id="0x%016x" % d["ids"][1], trace_flags=d["ids"][2])
        self.hand(("log", n), want, lambda: self.lg.emit(rec))

    def hand(self, key, want, f):
        self.want[key] = want
        inv = self.sim.ev("hand", list(key))
        f()
        self.handed[key] = (inv, self.sim.ev("handed", list(key)))

    def op_metric(self, i, v, a):
        if self.mp:
            self.inst[i](v, plain(a))

    def op_flush(self):
        a = self.sim.ev("flush")
        oks = {"span": self.tp.force_flush(), "log": self.lp.force_flush(), "metric": self.mp.force_flush() if self.mp else True}
        for (k, n), (inv, resp) in list(self.handed.items()):
            if resp < a and oks[k]:
                want = sum(1 for e in self.sc["exps"] if e[0] == k)
                got = sum(1 for c in self.calls if (k, n) in c.items and c.resp != BIG)
                if got != want:
                    self.run.violate("flush", "after a successful flush %s %s was exported by %d of %d exporters" % (k, n, got, want))

    def op_sleep(self, ns):
        time.sleep(ns / 1e9)

    def op_live(self, n):
        a = ("a%d" % n, n)
        self.sim.ev("live", n)
        self.live.set_attribute(*a)
        self.live.add_event("e%d" % n, {"x": n})
        self.liveset.append(n)

    def op_print(self, n):
        before = list(self.liveset)
        self.sim.ev("print", len(before))
        doc = json.loads(self.live.to_json())
        got = doc["attributes"] or {}
        evs = [e["name"] for e in doc["events"]]
        for x in before:
            if got.get("a%d" % x) != x or evs.count("e%d" % x) != 1:
                self.run.violate("live", "the live span printed lacks attribute or event %d: %r" % (x, doc))

    # ---- history ----
    def check(self, out):
        V = self.run.violate
        text = "".join(out.parts)
        ends, pos = [], 0
        for p in out.parts:
            pos += len(p)
            ends.append(pos)
        dec, docs, pos = json.JSONDecoder(), [], 0
        while True:
            while pos < len(text) and text[pos] in " \r\n\t":
                pos += 1
            if pos >= len(text):
                break
            try:
                d, pos = dec.raw_decode(text, pos)
            except ValueError as e:
                V("unreadable", "what was printed cannot be read: %s near %r" % (e, text[max(0, pos - 60):pos + 100]))
            docs.append((d, pos))
        seen = {}
        for d, pos in docs:
            part = next(i for i, e in enumerate(ends) if e >= pos)
            key = self.key(d, out)
            if key is None or key not in self.want:
                V("unknown", "printed a document that was never exported: %r" % (d,))
            bad = diff(self.want[key], d)
            if bad:
                V("wrong", "%s %s was printed wrong: %s" % (key[0], key[1], bad))
            seen.setdefault(key, []).append(part)
        calls = [c for c in self.calls if c.out is out]
        total, sure = {}, {}
        for c in calls:
            for i in c.items:
                total[i] = total.get(i, 0) + 1
                sure[i] = sure.get(i, 0) + (not c.failed)
        for i, parts in seen.items():
            if len(parts) > total.get(i, 0):
                V("twice", "%s %s was printed %d times for %d exports" % (i[0], i[1], len(parts), total.get(i, 0)))
        for i, n in sure.items():
            if len(seen.get(i, [])) < n:
                V("missing", "%s was exported %d times to stream %s and printed %d times" % (self.show([i]), n, out.label, len(seen.get(i, []))))
        for c in calls:
            if c.failed:
                continue
            at = -1
            for i in c.items:
                parts = [p for p in seen[i] if c.first <= p]
                if not any(p < c.flushed for p in parts):
                    V("unflushed", "export %d returned before %s %s was written out" % (c.n, i[0], i[1]))
                if total[i] == 1:
                    if parts[0] < at:
                        V("order", "%s %s was printed out of order" % i)
                    at = parts[0]

    def key(self, d, out):
        if not isinstance(d, dict):
            return None
        if "resource_metrics" in d:
            ks = [c.items[0] for c in self.calls if c.out is out and c.items and c.items[0][0] == "metric"]
            k = next((k for k in ks if not diff(self.want[k], d)), None) or next((k for k in ks if k not in self.used), ks[0] if ks else None)
            self.used.add(k)
            return k
        if "body" in d:
            return ("log", (d.get("attributes") or {}).get("n"))
        try:
            return ("span", int(d["context"]["span_id"], 16))
        except (KeyError, TypeError, ValueError):
            return None


class Time:
    def __init__(self, ns):
        self.ns = ns


class Has:
    def __init__(self, *parts):
        self.parts = parts


def plain(v):
    if isinstance(v, collections.abc.Mapping):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def cut(v, n):
    return v[:n] if isinstance(v, str) else [cut(x, n) for x in v] if isinstance(v, list) else v


def conv(o):
    """What the points of a MetricsData say, as plain values."""
    if isinstance(o, enum.IntEnum):
        return int(o)
    if type(o).__name__ == "Resource":
        return {"attributes": plain(o.attributes), "schema_url": o.schema_url}
    if type(o).__name__ == "InstrumentationScope":
        return {"name": o.name, "version": o.version, "schema_url": o.schema_url, "attributes": plain(o.attributes) or None}
    if dataclasses.is_dataclass(o):
        return {f.name: conv(getattr(o, f.name)) for f in dataclasses.fields(o)}
    if isinstance(o, collections.abc.Mapping):
        return {k: conv(x) for k, x in o.items()}
    if isinstance(o, (list, tuple)):
        return [conv(x) for x in o]
    return o


def diff(want, got, where=""):
    """Where got is not want; got may say more than want, but only in mappings that are records."""
    if isinstance(want, Time):
        try:
            t = datetime.datetime.strptime(got, "%Y-%m-%dT%H:%M:%S.%fZ").replace(tzinfo=datetime.timezone.utc)
        except (TypeError, ValueError):
            return "%s is %r, not a time" % (where, got)
        us = (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)
        return None if abs(us - want.ns // 1000) <= 1 else "%s is %s, must be %d us" % (where, got, want.ns // 1000)
    if isinstance(want, Has):
        return None if isinstance(got, str) and all(p in got for p in want.parts) else "%s is %r, must contain %r" % (where, got, want.parts)
    if isinstance(want, bytes):
        ok = [base64.b64encode(want).decode(), want.hex(), repr(want), want.decode("utf-8", "replace"), list(want)]
        return None if got in ok else "%s is %r, must be %r" % (where, got, want)
    if isinstance(want, dict):
        if got is None and not want:
            return None
        if not isinstance(got, dict):
            return "%s is %r, must be %r" % (where, got, want)
        for k, v in want.items():
            if k not in got:
                return "%s.%s is missing" % (where, k)
            b = diff(v, got[k], where + "." + k)
            if b:
                return b
        if where.endswith((".attributes", ".body")) and set(got) - set(want):
            return "%s also has %r" % (where, sorted(set(got) - set(want)))
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return "%s is %r, must be %r" % (where, got, want)
        for i, (a, b) in enumerate(zip(want, got)):
            x = diff(a, b, "%s[%d]" % (where, i))
            if x:
                return x
        return None
    if type(want) is bool or type(got) is bool:
        return None if want is got else "%s is %r, must be %r" % (where, got, want)
    return None if want == got else "%s is %r, must be %r" % (where, got, want)
