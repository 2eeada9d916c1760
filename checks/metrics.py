"""Workload and oracles for the metrics pipeline (C08, C09, C10, C11, C13).

Measurements carry values that identify them: the j-th measurement of an instrument has the value
2**j (3**j with a sign for up-down counters), so any reported sum decodes into the exact set of
measurements it contains.
"""
import time

from sim.check import Check, MS, SEC
from . import common

BIG = 1 << 60
SYNC = ("counter", "updown", "hist", "exp", "gauge")


def canon(attrs):
    """Attributes as a comparable key; a list is as good as a tuple."""
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in (attrs or {}).items()))


class M:
    """One measurement."""
    __slots__ = ("i", "j", "a", "zero", "val", "inv", "resp", "w_inv", "w_resp", "tid", "span", "x", "got", "sampled")


class C:
    """One collection."""
    __slots__ = ("r", "n", "inv", "resp", "w_inv", "w_resp", "pts", "err", "times", "raw", "final", "timeout", "tid", "t_inv", "t_resp")


class MetricsCheck(Check):
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/",
                "/repo/opentelemetry-api/src/opentelemetry/metrics/"]
    REAL = ["MeterProvider, Meter, instruments, MeasurementConsumer, MetricReaderStorage, aggregations, views, exemplar reservoirs"]
    STUB = ["metric reader subclass that keeps what it receives", "clocks", "thread scheduler"]
    STALLS = True
    STALL_NS = [1 * MS, 300 * MS, 3 * SEC]
    GRAN = {"line": 6, "instr": 4, "sync": 1}
    RULE = ("A case is a provider with 1-3 readers and 1-4 instruments, 1-4 threads of seeded recordings and collections "
            "and a seeded schedule; non-trivial = operations of different threads overlapped.")
    KINDS = {"counter": 3, "updown": 2, "hist": 3, "exp": 2, "gauge": 2}
    OPS = {"rec": 8, "collect": 3, "sleep": 1}
    JUMPS = False
    EXEMPLARS = False

    def setup(self):
        from opentelemetry.sdk import metrics, resources, trace
        from opentelemetry.sdk.metrics import export, view
        from opentelemetry import trace as tapi, context as capi, metrics as mapi
        from opentelemetry.sdk.metrics._internal import exemplar
        self.metrics, self.export, self.view, self.trace, self.tapi, self.capi, self.mapi = metrics, export, view, trace, tapi, capi, mapi
        self.exemplar = exemplar
        self.res = resources.Resource.get_empty()

        class Reader(export.MetricReader):
            def __init__(self, **k):
                super().__init__(**k)
                self.sink = {}

            def _receive_metrics(self, data, timeout_millis=10_000, **kw):
                from sim import core
                self.sink.setdefault(core.SIM.cur.id, []).append(data)

            def shutdown(self, timeout_millis=30_000, **kw):
                pass
        self.Reader = Reader

    # ---- generation -----------------------------------------------------------------------
    def gen_inst(self, rng):
        k = rng.choices(list(self.KINDS), weights=list(self.KINDS.values()))[0]
        d = {"kind": k, "meter": rng.choice([0, 0, 1]), "float": rng.random() < 0.3, "view": rng.choice([None, None, None, "k", "both"])}
        if k == "hist":
            d["bounds"] = rng.choice([None, None, [], [4], [1, 16, 256], [0, 3, 5, 1000, 2 ** 30]])
        if k == "exp":
            d["max_size"] = rng.choice([160, 160, 2, 4, 8, 20])
            d["max_scale"] = rng.choice([20, 20, 3, 0, -2])
        if k in ("hist", "exp"):
            # the instrument the histogram is a view of; only an up-down counter or a gauge gives negative values
            d["inst"] = rng.choice(["hist", "hist", "hist", "counter", "updown", "updown", "gauge"])
            d["neg"] = rng.choice([0, 1, 2, 2]) if d["inst"] in ("updown", "gauge") else 0
            if d["inst"] != "hist" and k == "hist" and d["bounds"] is None:
                d["bounds"] = rng.choice([[], [0], [-64, -1, 0, 16, 4096]])
        return d

    def gen_reader(self, rng):
        m = rng.choice(["D", "D", "C", "mix"])
        ks = ["Counter", "UpDownCounter", "Histogram", "Gauge", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge"]
        return {k: (m if m != "mix" else rng.choice("DC")) for k in ks}

    def gen_op(self, rng, ninst, nreaders, w):
        k = rng.choices(list(w), weights=list(w.values()))[0]
        if k == "rec":
            return ["rec", rng.randrange(ninst), rng.choice(self.attrs), int(rng.random() < 0.06)]
        if k == "collect":
            return ["collect", rng.randrange(nreaders)]
        if k == "sleep":
            return ["sleep", rng.choice([0, 1000, 1 * MS, 1 * SEC])]
        if k == "jump":
            return ["jump", rng.choice([-1, 1]) * rng.choice([1 * SEC, 3600 * SEC])]
        return [k]

    def gen(self, rng, tier):
        self.attrs = rng.choice([[0], [0], [0, 1], [0, 1, 2, 3]])
        ninst = rng.choice([1, 1, 2, 3])
        nr = rng.choice([1, 1, 2, 3])
        w = dict(self.OPS)
        for k in list(w):
            if rng.random() < 0.2:
                w[k] *= rng.choice([0.2, 4])
        ths = []
        left = 45
        nops = rng.choice([3, 6, 12])
        for _ in range(rng.choice([2, 2, 3, 3, 4])):
            n = rng.randint(1, min(nops, max(1, left)))
            left -= n
            ths.append([self.gen_op(rng, ninst, nr, w) for _ in range(n)])
            if rng.random() < 0.2:
                ths[-1] = [o for o in ths[-1] if o[0] != "rec"] or [["collect", 0]]
        return {"insts": [self.gen_inst(rng) for _ in range(ninst)], "readers": [self.gen_reader(rng) for _ in range(nr)],
                "threads": ths, "exemplar": rng.choice(["on", "on", "trace", "off"]), "pre": rng.choice([0, 0, 1]), "reuse": rng.choice([0, 0, 1, 2]), "lists": int(rng.random() < 0.3)}

    # ---- execution -----------------------------------------------------------------------------
    def run(self, run, sc):
        st = self.make(run, sc)
        common.clients(run, sc["threads"], st.step)
        st.finale()
        st.check()
        run.nontrivial = run.sim.preempts > 0

    def make(self, run, sc):
        return State(self, run, sc)


class State:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        m = chk.metrics
        T = chk.export.AggregationTemporality
        cls = {n: getattr(m, n) for n in ("Counter", "UpDownCounter", "Histogram", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge")}
        try:
            from opentelemetry.sdk.metrics import _Gauge  # noqa
        except ImportError:
            pass
        from opentelemetry.sdk.metrics._internal.instrument import Gauge
        cls["Gauge"] = Gauge
        self.tempo = [{k: v for k, v in r.items()} for r in sc["readers"]]
        self.active = {}
        self.readers = []
        for r in sc["readers"]:
            pt = {cls[k]: (T.DELTA if v == "D" else T.CUMULATIVE) for k, v in r.items()}
            self.readers.append(self.make_reader(pt))
        views = self.make_views()
        X = chk.exemplar
        filt = {"on": X.AlwaysOnExemplarFilter, "trace": X.TraceBasedExemplarFilter, "off": X.AlwaysOffExemplarFilter}[sc.get("exemplar", "on")]()
        self.prov = m.MeterProvider(metric_readers=self.readers, resource=chk.res, exemplar_filter=filt, shutdown_on_exit=False, views=views)
        self.meters = [self.prov.get_meter("m%d" % k) for k in range(2)]
        self.insts = [self.make_inst(n, d) for n, d in enumerate(sc["insts"])]
        self.ms = [[] for _ in self.insts]       # measurements per instrument
        self.cs = [[] for _ in self.readers]     # collections per reader
        self.nuid = 0
        self.dicts = {}
        if sc.get("pre"):
            for n in range(len(self.insts)):
                if sc["insts"][n]["kind"] in SYNC:
                    self.rec(n, 0, False, 0)

    def make_views(self):
        views = []
        V, sc = self.chk.view, self.sc
        for n, d in enumerate(sc["insts"]):
            if d["kind"] not in SYNC:
                continue
            agg = None
            if d["kind"] == "exp":
                agg = V.ExponentialBucketHistogramAggregation(max_size=d["max_size"], max_scale=d["max_scale"])
            elif d["kind"] == "hist" and d["bounds"] is not None:
                agg = V.ExplicitBucketHistogramAggregation(boundaries=tuple(d["bounds"]))
            kw = {"aggregation": agg} if agg is not None else {}
            kw.update(self.view_kw(d))
            if kw or d["view"]:
                views.append(V.View(instrument_name="i%d" % n, attribute_keys={"k"} if d["view"] else None, **kw))
            if d["view"] == "both":
                views.append(V.View(instrument_name="i%d" % n, name="i%d_b" % n, attribute_keys=set(), **kw))
        return views

    def view_kw(self, d):
        return {}

    def make_reader(self, pt):
        return self.chk.Reader(preferred_temporality=pt)

    def make_inst(self, n, d):
        mt = self.meters[d["meter"]]
        name = "i%d" % n
        k = d.get("inst") or d["kind"]
        if k == "counter":
            return mt.create_counter(name)
        if k == "updown":
            return mt.create_up_down_counter(name)
        if k == "gauge":
            return mt.create_gauge(name)
        return mt.create_histogram(name)

    def wall(self):
        return self.sim.now + self.sim.wall_off

    def aval(self, a):
        """The attribute value number a: an int, or with "lists" a list."""
        return ["v", "%d" % a] if self.sc.get("lists") and a != 1 else a

    def rec(self, n, a, zero, tid, ctx=None, span=None):
        sim = self.sim
        d = self.sc["insts"][n]
        m = M()
        m.i, m.a, m.zero, m.tid, m.span = n, a, bool(zero) and d["kind"] != "gauge", tid, span
        m.j = len(self.ms[n])
        m.resp = m.w_resp = BIG
        m.got = {}
        if d["kind"] == "updown":
            v = 0 if m.zero else 3 ** m.j * (1 if m.j % 3 else -1)
        elif d.get("neg"):
            v = 0 if m.zero else 4 ** m.j * (-1 if d["neg"] == 1 or m.j % 3 == 0 else 1)
        else:
            v = 0 if m.zero else 2 ** m.j
        if d["float"] and d["kind"] != "updown" and not d.get("neg"):
            v = float(v)
        m.val = v
        self.nuid += 1
        m.x = "u%d" % self.nuid
        self.ms[n].append(m)
        at = {"k": self.aval(a)} if a != 3 else {}
        if d["view"]:
            at["x"] = m.x
        attrs = at or None
        if self.sc.get("reuse"):
            attrs = self.dicts.setdefault(sim.cur.id, {})
            attrs.clear()
            attrs.update(at)
        m.w_inv = self.wall()
        m.inv = sim.ev("rec", n, m.j, a, m.zero)
        inst = self.insts[n]
        k = d.get("inst") or d["kind"]
        f = inst.add if k in ("counter", "updown") else inst.set if k == "gauge" else inst.record
        if ctx is None:
            f(v, attrs)
        else:
            f(v, attrs, ctx)
        m.resp = sim.stamp()
        m.w_resp = self.wall()
        if self.sc.get("reuse"):
            if isinstance(attrs.get("k"), list) and not d["view"]:
                attrs["k"].append("late")
            attrs.clear()
            if self.sc["reuse"] == 2:
                attrs["k"] = attrs["late"] = "clobbered"
        return m

    def step(self, run, tid, op):
        k = op[0]
        if k == "rec":
            self.rec(op[1], op[2], op[3], tid)
        elif k == "collect":
            self.collect(op[1], tid)
        elif k == "sleep":
            time.sleep(op[1] / 1e9)
        elif k == "jump":
            self.sim.jump_wall(op[1])

    def collect(self, r, tid=-1, final=False, timeout=None):
        sim = self.sim
        rd = self.readers[r]
        c = C()
        c.r, c.n, c.final, c.err, c.pts, c.raw, c.timeout, c.tid = r, len(self.cs[r]), final, None, {}, None, timeout, tid
        c.resp = c.w_resp = c.t_resp = BIG
        c.w_inv = self.wall()
        c.t_inv = sim.now
        c.inv = sim.ev("collect", r, c.n)
        self.cs[r].append(c)
        rd.sink[sim.cur.id] = []
        self.active[sim.cur.id] = c
        try:
            if timeout is None:
                rd.collect()
            else:
                rd.collect(timeout_millis=timeout)
        except Exception as e:
            c.err = e
            self.collect_failed(c, e)
        self.active.pop(sim.cur.id)
        got = rd.sink.pop(sim.cur.id)
        c.w_resp = self.wall()
        c.t_resp = sim.now
        if len(got) > 1:
            self.run.violate("received-twice", "one collect() delivered %d batches to the reader" % len(got), "C08")
        c.raw = got[0] if got else None
        c.resp = sim.ev("collected", r, c.n, self.digest(c.raw))
        if c.raw is not None:
            self.parse(c)
        return c

    def collect_failed(self, c, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        self.run.violate("collect-raised", "collect() raised %s: %s at %s:%s" % (type(e).__name__, e, tb.filename, tb.name))

    def digest(self, raw):
        if raw is None:
            return None
        out = []
        for rm in raw.resource_metrics:
            for s in rm.scope_metrics:
                for m in s.metrics:
                    for p in m.data.data_points:
                        out.append((m.name, canon(p.attributes), getattr(p, "value", None) if hasattr(p, "value") else (p.count, p.sum)))
        return tuple(out)

    def parse(self, c):
        run = self.run
        if len(c.raw.resource_metrics) != 1:
            run.violate("resource-metrics", "%d resource metrics in one collection" % len(c.raw.resource_metrics), "C10")
        scopes = [s.scope for s in c.raw.resource_metrics[0].scope_metrics]
        if len(set(scopes)) != len(scopes):
            run.violate("dup-scope", "scope appears twice in one collection", "C10")
        seen = set()
        for s in c.raw.resource_metrics[0].scope_metrics:
            for m in s.metrics:
                if (s.scope, m.name) in seen:
                    run.violate("dup-metric", "metric %s appears twice in one collection" % m.name, "C10")
                seen.add((s.scope, m.name))
                for p in m.data.data_points:
                    key = (m.name, canon(p.attributes))
                    if key in c.pts:
                        run.violate("dup-point", "two points for %r in one collection" % (key,), "C08")
                    c.pts[key] = (p, m, s.scope)

    def finale(self):
        self.sim.stalls_on = False
        for _ in range(self.sc.get("final", 2)):
            for r in range(len(self.readers)):
                self.collect(r, final=True)

    # ---- oracles -------------------------------------------------------------------------------
    KIND_CLASS = {"counter": "Counter", "updown": "UpDownCounter", "hist": "Histogram", "exp": "Histogram", "gauge": "Gauge"}

    def is_delta(self, r, d):
        return self.tempo[r][self.KIND_CLASS[d.get("inst") or d["kind"]]] == "D"

    def streams(self, n):
        """[(metric name, key of measurement)] of instrument n."""
        d = self.sc["insts"][n]
        name = "i%d" % n
        base = lambda m: canon({"k": self.aval(m.a)} if m.a != 3 else {})
        out = [(name, base)]
        if d["view"] == "both":
            out.append((name + "_b", lambda m: ()))
        return out

    def decode(self, n, value, ms):
        """Set of measurements whose values sum to value, or None."""
        d = self.sc["insts"][n]
        by = {m.j: m for m in ms}
        if value != int(value):
            return None
        v = int(value)
        out = []
        if d["kind"] == "updown":
            j = 0
            while v:
                r = v % 3
                if r == 2:
                    r = -1
                if r:
                    m = by.get(j)
                    if m is None or m.zero or (m.val > 0) != (r > 0):
                        return None
                    out.append(m)
                v = (v - r) // 3
                j += 1
            return out
        j = 0
        if d.get("neg"):
            while v:
                r = v % 4
                if r == 3:
                    r = -1
                if r:
                    m = by.get(j)
                    if m is None or m.zero or m.val != r * 4 ** j:
                        return None
                    out.append(m)
                v = (v - r) // 4
                j += 1
            return out
        if v < 0:
            return None
        while v:
            if v & 1:
                m = by.get(j)
                if m is None or m.zero:
                    return None
                out.append(m)
            v >>= 1
            j += 1
        return out

    def check(self):
        for n in range(len(self.insts)):
            if self.sc["insts"][n]["kind"] not in SYNC:
                continue
            for name, keyf in self.streams(n):
                keys = {}
                for m in self.ms[n]:
                    keys.setdefault(keyf(m), []).append(m)
                for r in range(len(self.readers)):
                    for c in self.cs[r]:
                        for (nm, k) in c.pts:
                            if nm == name and k not in keys:
                                self.run.violate("alien-point", "%s reports attributes %r nobody recorded" % (name, k), "C08")
                    for k, ms in keys.items():
                        if self.sc["insts"][n]["kind"] == "gauge":
                            self.check_gauge(r, n, (name, k), ms)
                        else:
                            self.check_sum(r, n, (name, k), ms)
                        self.check_times(r, n, (name, k), ms)

    def unknown_names(self):
        pass

    def check_sum(self, r, n, key, ms):
        V = lambda cls, msg: self.run.violate(cls, "reader %d %s%r: %s" % (r, key[0], key[1], msg), "C08")
        d = self.sc["insts"][n]
        delta = self.is_delta(r, d)
        hist = d["kind"] in ("hist", "exp")
        seen = {}
        zeros_seen = 0
        nz = sum(1 for m in ms if m.zero)
        prev = None
        for c in self.cs[r]:
            if c.err is not None:
                continue
            pt = c.pts.get(key)
            must = [m for m in ms if m.resp < c.inv]
            may = [m for m in ms if m.inv < c.resp]
            if pt is None:
                S, zeros = [], 0
                if not delta and must:
                    V("missing-point", "recorded measurements but collection %d has no point" % c.n)
            else:
                p = pt[0]
                val = p.sum if hist else p.value
                S = self.decode(n, val, ms)
                if S is None:
                    V("bad-sum", "collection %d reports %r, not a sum of distinct recorded values" % (c.n, val))
                zeros = 0
                if hist:
                    zeros = self.check_hist(V, d, p, S, c)
                    hi = sum(1 for m in may if m.zero)
                    if zeros < 0 or zeros > hi:
                        V("hist-count", "count %d for %d measurements with non-zero value and at most %d zeros" % (p.count, len(S), hi))
                    if not delta:
                        lo = sum(1 for m in must if m.zero)
                        if zeros < lo:
                            V("lost", "collection %d misses zero-valued measurements recorded before it" % c.n)
                temp = getattr(pt[1].data, "aggregation_temporality", None)
                if temp is not None and int(temp) != (1 if delta else 2):
                    V("temporality", "reported temporality %r" % temp)
                if d["kind"] in ("counter", "updown") and pt[1].data.is_monotonic != (d["kind"] == "counter"):
                    V("monotonic", "is_monotonic is wrong")
            for m in S:
                if m.inv > c.resp:
                    V("from-future", "collection %d contains measurement %d recorded after it" % (c.n, m.j))
            if delta:
                for m in S:
                    if m.j in seen:
                        V("double-count", "measurement %d is in collections %d and %d" % (m.j, seen[m.j].n, c.n))
                    seen[m.j] = c
                zeros_seen += zeros
            else:
                s = set(m.j for m in S)
                for m in must:
                    if not m.zero and m.j not in s:
                        V("lost", "cumulative collection %d misses measurement %d recorded before it" % (c.n, m.j))
        if not hist:
            # a zero changes no sum, but the stream it was recorded in is reported
            for m in ms:
                after = [c for c in self.cs[r] if c.inv > m.resp and c.err is None]
                end = min([c.resp for c in after] or [0])
                if m.zero and after and not any(key in c.pts and c.resp > m.inv and c.inv < end for c in self.cs[r]):
                    V("zero-lost", "no collection has a point for measurement %d, a zero" % m.j)
        if delta:
            for m in ms:
                if m.zero:
                    continue
                c = seen.get(m.j)
                if c is None:
                    V("lost", "measurement %d was never reported" % m.j)
                    continue
                for c2 in self.cs[r]:
                    if c2.err is None and c2.inv > m.resp and c2.resp < c.inv:
                        V("late", "measurement %d recorded before collection %d is only in the later collection %d" % (m.j, c2.n, c.n))
            if hist and zeros_seen != nz:
                V("lost", "%d zero-valued measurements recorded, %d reported" % (nz, zeros_seen))
        else:
            sets = [(c, set(m.j for m in self.decode(n, (c.pts[key][0].sum if hist else c.pts[key][0].value), ms)))
                    for c in self.cs[r] if key in c.pts]
            for c1, s1 in sets:
                for c2, s2 in sets:
                    if c1.resp < c2.inv and not s1 <= s2:
                        V("cumulative-lost", "collection %d misses measurements that the earlier collection %d contains" % (c2.n, c1.n))

    def check_hist(self, V, d, p, S, c):
        zeros = p.count - len(S)
        vals = [m.val for m in S] + [0] * max(0, zeros)
        if vals:
            if p.min != min(vals) or p.max != max(vals):
                V("hist-minmax", "min %r max %r, recorded %r..%r" % (p.min, p.max, min(vals), max(vals)))
        if d["kind"] == "hist":
            b = d["bounds"]
            if b is None:
                b = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)
            if tuple(p.explicit_bounds) != tuple(b):
                V("hist-bounds", "bounds %r" % (p.explicit_bounds,))
            exp = [0] * (len(b) + 1)
            for v in vals:
                i = 0
                while i < len(b) and v > b[i]:
                    i += 1
                exp[i] += 1
            if list(p.bucket_counts) != exp:
                V("hist-buckets", "bucket counts %r for %r" % (tuple(p.bucket_counts), sorted(vals)))
            if sum(p.bucket_counts) != p.count:
                V("hist-count", "count %d but buckets sum to %d" % (p.count, sum(p.bucket_counts)))
        else:
            if p.zero_count != zeros:
                V("exp-zero-count", "zero_count %d, expected %d" % (p.zero_count, zeros))
            for sign, name, b in ((1, "positive", p.positive), (-1, "negative", p.negative)):
                exp = {}
                for m in S:
                    if (m.val > 0) == (sign > 0):
                        j = abs(int(m.val)).bit_length() - 1     # every value is a power of two
                        i = ((j << p.scale) - 1) if p.scale >= 0 else ((j - 1) >> -p.scale)
                        exp[i] = exp.get(i, 0) + 1
                got = {b.offset + i: n for i, n in enumerate(b.bucket_counts) if n}
                if got != exp:
                    V("exp-buckets", "scale %d %s buckets %r, expected %r" % (p.scale, name, got, exp))
                if len(b.bucket_counts) > max(d["max_size"], 1):
                    V("exp-size", "%d %s buckets, max_size %d" % (len(b.bucket_counts), name, d["max_size"]))
            if p.scale > d["max_scale"] and S:
                V("exp-scale", "scale %d, max_scale %d" % (p.scale, d["max_scale"]))
        return zeros

    def check_gauge(self, r, n, key, ms):
        V = lambda cls, msg: self.run.violate(cls, "reader %d %s%r: %s" % (r, key[0], key[1], msg), "C08")
        by = {m.val: m for m in ms}
        for c in self.cs[r]:
            if c.err is not None:
                continue
            pt = c.pts.get(key)
            if pt is None:
                lo = max([p.resp for p in self.cs[r] if p.inv < c.inv] or [0])
                # something set after every other collection that may have taken it, before this one
                fresh = [m for m in ms if m.resp < c.inv and not any(o is not c and o.resp > m.inv and o.inv < c.resp for o in self.cs[r])]
                if fresh:
                    V("gauge-missing", "collection %d has no point though a value was set since the previous one" % c.n)
                continue
            m = by.get(pt[0].value)
            if m is None:
                V("gauge-value", "reports %r which was never set" % pt[0].value)
            if m.inv > c.resp:
                V("gauge-future", "reports a value set after the collection")
            for m2 in ms:
                if m2.inv > m.resp and m2.resp < c.inv:
                    V("gauge-stale", "collection %d reports measurement %d though %d was set later, before it" % (c.n, m.j, m2.j))

        # every value set reaches some collection, unless one that may be later took its place
        for c in self.cs[r]:
            for m in ms:
                if m.resp > c.inv:
                    continue
                for o in self.cs[r]:
                    if o.resp > m.inv and o.inv < c.resp:
                        if o.err is not None:
                            break
                        pt = o.pts.get(key)
                        m2 = by.get(pt[0].value) if pt is not None else None
                        if m2 is not None and m2.resp > m.inv:
                            break
                else:
                    V("gauge-lost", "measurement %d was set before collection %d, but no collection until its end reports it or one set later" % (m.j, c.n))

    def check_times(self, r, n, key, ms):
        V = lambda cls, msg: self.run.violate(cls, "reader %d %s%r: %s" % (r, key[0], key[1], msg), "C09")
        d = self.sc["insts"][n]
        hist = d["kind"] in ("hist", "exp")
        delta = self.is_delta(r, d)
        gran = self.sim.gran_ns
        cs = [c for c in self.cs[r] if key in c.pts]
        for c in cs:
            p = c.pts[key][0]
            if p.time_unix_nano + gran < c.w_inv or p.time_unix_nano > c.w_resp:
                V("time-outside", "point time is not within the collection call")
            for m2, (q, mm, s) in c.pts.items():
                if m2[0] == key[0] and q.time_unix_nano != p.time_unix_nano:
                    V("time-skew", "points of one metric in one collection have different times")
            for c2 in cs:
                if c.resp < c2.inv and c2.pts[key][0].time_unix_nano < p.time_unix_nano:
                    V("time-decreases", "collection %d has an earlier time than collection %d" % (c2.n, c.n))
            if d["kind"] == "gauge":
                continue
            if p.start_time_unix_nano > p.time_unix_nano:
                V("start-after-end", "point starts %d ns after it ends" % (p.start_time_unix_nano - p.time_unix_nano))
            S = self.decode(n, p.sum if hist else p.value, ms) or []
            for m in S:
                if m.w_resp < p.start_time_unix_nano:
                    V("recorded-before-start", "contains measurement %d recorded before the interval starts" % m.j)
        if d["kind"] == "gauge" or not cs:
            return
        cs.sort(key=lambda c: (c.pts[key][0].time_unix_nano, c.pts[key][0].start_time_unix_nano))
        if delta:
            for a, b in zip(cs, cs[1:]):
                pa, pb = a.pts[key][0], b.pts[key][0]
                if pb.start_time_unix_nano < pa.time_unix_nano:
                    V("overlap", "points overlap: next one starts before the previous one ended")
                # gap: only a collection of this reader that had nothing to report may lie between
                if pb.start_time_unix_nano > pa.time_unix_nano:
                    ok = [c for c in self.cs[r] if c is not a and c is not b and key not in c.pts and
                          c.w_inv - gran <= pb.start_time_unix_nano <= c.w_resp]
                    if not ok:
                        V("gap", "point starts %d ns after the previous one ended" % (pb.start_time_unix_nano - pa.time_unix_nano))
        else:
            st = set(c.pts[key][0].start_time_unix_nano for c in cs)
            if len(st) > 1:
                V("start-moves", "cumulative points have start times %r" % sorted(st))
        first = min(m.w_inv for m in ms)
        p = cs[0].pts[key][0]
        if p.start_time_unix_nano + gran < first and not any(c.w_inv - gran <= p.start_time_unix_nano <= c.w_resp for c in self.cs[r]):
            V("start-early", "stream starts %d ns before anything was recorded" % (first - p.start_time_unix_nano))


class Call:
    """One call of an observable callback."""
    __slots__ = ("cb", "c", "n", "t0", "t1", "timeout", "obs", "opt", "end", "inst")


OBS = {"ocounter": ("create_observable_counter", "ObservableCounter"), "oupdown": ("create_observable_up_down_counter", "ObservableUpDownCounter"),
       "ogauge": ("create_observable_gauge", "ObservableGauge")}


Boom = common.Boom


class ObsState(State):
    """State with observable instruments: callbacks follow a plan and log what they were asked and what they gave."""
    dyn = ()        # instruments created by callbacks

    def make_inst(self, n, d):
        if d["kind"] in SYNC:
            return super().make_inst(n, d)
        if not hasattr(self, "calls"):
            self.calls = {}
            self.dyn = []
            self.ncall = 0
        self.calls[n] = []
        cbs = [self.make_gen(n, i, cb) if cb["gen"] else self.make_cb(n, i, cb) for i, cb in enumerate(d["cbs"])]
        f = getattr(self.meters[d["meter"]], OBS[d["kind"]][0])
        return f("i%d" % n, cbs)

    def begin(self, n, i, opts):
        sim = self.sim
        k = Call()
        k.inst, k.cb, k.obs, k.opt, k.end, k.t1 = n, i, [], False, BIG, BIG
        k.c = self.active.get(sim.cur.id)
        if k.c is None:
            self.run.violate("callback-outside", "callback of i%d called outside of a collection" % n, "C11")
        self.ncall += 1
        k.n = self.ncall
        k.timeout = opts.timeout_millis
        k.t0 = sim.now
        sim.ev("callback", n, i)
        self.calls[n].append(k)
        return k

    def value(self, n, i, k, a):
        v = k.n * 1000 + i * 10 + a
        if self.sc["insts"][n]["kind"] != "ocounter" and k.n % 2:
            v = -v
        return v

    def act(self, n, i, k, a):
        """Perform one planned action; returns the iterable to give to the SDK."""
        O = self.chk.mapi.Observation
        op = a[0]
        if op not in ("ok", "empty", "reuse", "create"):
            self.sim.fault("cb-" + op)
        if op == "create":
            self.create(a[1])
        if op == "slow":
            time.sleep(a[2] / 1e9)
        if op == "raise":
            raise Boom("callback")
        if op == "none":
            return None
        if op == "empty":
            return []
        out = []
        for x in range(a[1]):
            v = self.value(n, i, k, x)
            at = {"cb": i, "a": x}
            out.append(O(v, at))
            k.obs.append((v, (("a", x), ("cb", i))))
        if op == "badattr":
            k.opt = True
            out.insert(len(out) // 2, O(1, {"cb": {"no": "value"}}))
            if self.sc["insts"][n]["view"]:
                k.obs.append((1, ()))    # the view drops the unusable attribute
        if op == "junk":
            k.opt = True
            out.insert(len(out) // 2, 17)
        if op == "reuse":
            def h():
                at = {}
                for v, key in k.obs:
                    at.clear()
                    at.update(key)
                    yield O(v, at)
                    at["a"] = at["late"] = "clobbered"
                if a[2] % 2:
                    at.clear()
            return h()
        if op == "mid":
            k.opt = True

            def g():
                for x in out[:-1]:
                    yield x
                raise Boom("callback iterator")
            return g()
        return out

    def create(self, how):
        """A callback may itself use the API: get a meter, create instruments, record."""
        if len(self.dyn) >= 3:
            return
        O = self.chk.mapi.Observation
        d = {"name": "dyn%d" % len(self.dyn), "resp": BIG}
        self.dyn.append(d)
        self.sim.probe("created-in-callback")
        mt = self.prov.get_meter(d["name"]) if how == 3 else self.meters[0]
        if how == 2:
            mt.create_counter(d["name"]).add(7)
        else:
            mt.create_observable_gauge(d["name"], [lambda opts: [O(7)]])
        d["resp"] = self.sim.ev("created", d["name"])
        d["once"] = how == 2

    def make_cb(self, n, i, cb):
        cnt = [0]

        def callback(opts):
            k = self.begin(n, i, opts)
            a = cb["plan"][cnt[0] % len(cb["plan"])]
            cnt[0] += 1
            try:
                return self.act(n, i, k, a)
            finally:
                k.t1 = self.sim.now
                k.end = self.sim.stamp()
        return callback

    def make_gen(self, n, i, cb):
        def gen():
            opts = yield
            m = 0
            while True:
                k = self.begin(n, i, opts)
                a = cb["plan"][m % len(cb["plan"])]
                m += 1
                r = self.act(n, i, k, a if a[0] in ("ok", "slow", "empty", "reuse", "create") else ["empty"])
                k.t1 = self.sim.now
                k.end = self.sim.stamp()
                opts = yield r
        return gen()

    def collect_failed(self, c, e):
        if type(e).__name__ != "MetricsTimeoutError":
            return super().collect_failed(c, e)
        self.sim.probe("collection-timeout")
        to = c.timeout if c.timeout is not None else 10_000
        if self.sim.now - c.t_inv < to * MS:
            self.run.violate("early-timeout", "collection with timeout %s ms gave up after %d ns" % (to, self.sim.now - c.t_inv), "C11")

    def step(self, run, tid, op):
        if op[0] == "collect" and len(op) > 2:
            self.collect(op[1], tid, timeout=op[2])
        else:
            super().step(run, tid, op)

    def check(self):
        super().check()
        for n, d in enumerate(self.sc["insts"]):
            if d["kind"] in SYNC:
                continue
            for r in range(len(self.readers)):
                self.check_obs(r, n, d)
        for d in self.dyn:
            for r, cs in enumerate(self.cs):
                have = [c for c in cs if (d["name"], ()) in c.pts]
                for c in cs:
                    if c.err is None and c.inv > d["resp"] and c not in have and not (d["once"] and any(x.inv < c.resp for x in have)):
                        self.run.violate("created-missing", "reader %d: %s, which a callback created, is missing from collection %d" % (r, d["name"], c.n), "C11")

    def check_obs(self, r, n, d):
        V = lambda cls, msg: self.run.violate(cls, "reader %d i%d: %s" % (r, n, msg), "C11")
        delta = self.tempo[r][OBS[d["kind"]][1]] == "D"
        gauge = d["kind"] == "ogauge"
        total = {}
        last_c = {}
        prev_end = None
        for c in sorted(self.cs[r], key=lambda c: min([k.n for k in self.calls[n] if k.c is c] or [BIG])):
            calls = [k for k in self.calls[n] if k.c is c]
            per = {}
            for k in calls:
                per[k.cb] = per.get(k.cb, 0) + 1
                if per[k.cb] > 1:
                    V("callback-twice", "callback %d called twice in collection %d" % (k.cb, c.n))
            to = c.timeout if c.timeout is not None else 10_000
            for k in calls:
                if k.timeout > min(10_000, to) + 1e-3:
                    V("deadline", "callback got timeout %r ms in a collection with timeout %r" % (k.timeout, to))
                # callbacks of earlier instruments used up part of the time
                before = [o for m, l in self.calls.items() if m != n for o in l if o.c is c and o.n < k.n and o.t1 < BIG]
                if before and to <= 10_000:
                    first = min(o.t0 for o in before)
                    used = max(o.t1 for o in before) - first
                    if k.timeout > to - (used - self.sim.gran_ns) / 1e6 + 1e-3:
                        V("deadline", "callback got timeout %r ms although %d of %r ms were used up" % (k.timeout, used / 1e6, to))
            spent = [k for l in self.calls.values() for k in l if k.c is c and k.t1 < BIG]
            if c.err is None and spent and max(k.t1 for k in spent) - min(k.t0 for k in spent) > to * MS + self.sim.gran_ns:
                V("late-collection", "collection %d with timeout %r ms went on after its callbacks had used that up" % (c.n, to))
            if c.err is not None:
                for k in calls:
                    self.sim.probe("observed-in-failed-collection", len(k.obs))
                continue
            for cb in range(len(d["cbs"])):
                dead = False
                if per.get(cb, 0) != 1:
                    V("callback-missed", "callback %d was not called in collection %d" % (cb, c.n))
            exp, opt = {}, {}
            for k in calls:
                for v, key in k.obs:
                    if d["view"]:
                        key = ()
                    (opt if k.opt else exp).setdefault(key, []).append(v)
            got = {k[1]: p for k, p in c.pts.items() if k[0] == "i%d" % n}
            for key in got:
                if key not in exp and key not in opt:
                    V("alien-point", "collection %d reports %r that no callback observed in it" % (c.n, key))
            for key, vs in exp.items():
                if key not in got:
                    V("missing-observation", "collection %d lacks %r although its callback observed it" % (c.n, key))
            for key, (p, m, _) in got.items():
                vs, os_ = exp.get(key, []), opt.get(key, [])
                if gauge:
                    if p.value not in ([vs[-1]] if not os_ else vs + os_):
                        V("gauge-value", "collection %d reports %r for %r, observed %r" % (c.n, p.value, key, vs + os_))
                else:
                    v = p.value + total.get(key, 0) if delta else p.value
                    lo = sum(vs)
                    ok = v == lo
                    if os_ and not ok:
                        sub = {lo}
                        for o in os_:
                            sub |= {x + o for x in sub}
                        ok = v in sub
                    if not ok:
                        V("sum-value", "collection %d reports %r for %r (cumulative %r), observed %r" % (c.n, p.value, key, v, vs + os_))
                    total[key] = v
                    tp = getattr(m.data, "aggregation_temporality", None)
                    if int(tp) != (1 if delta else 2) or m.data.is_monotonic != (d["kind"] == "ocounter"):
                        V("temporality", "collection %d reports temporality %r monotonic %r" % (c.n, tp, m.data.is_monotonic))
                self.obs_times(r, n, c, key, p, last_c, delta, gauge)

    def obs_times(self, r, n, c, key, p, last, delta, gauge):
        if self.chk.JUMPS:
            return
        V = lambda cls, msg: self.run.violate(cls, "reader %d i%d%r collection %d: %s" % (r, n, key, c.n, msg), "C09")
        gran = self.sim.gran_ns
        if p.time_unix_nano + gran < c.w_inv or p.time_unix_nano > c.w_resp:
            V("time-outside", "point time is not within the collection call")
        if not gauge:
            if p.start_time_unix_nano > p.time_unix_nano:
                V("start-after-end", "point starts after it ends")
            if key in last:
                q = last[key]
                if delta and p.start_time_unix_nano != q.time_unix_nano:
                    V("tile", "delta point starts %d ns after the previous one ended" % (p.start_time_unix_nano - q.time_unix_nano))
                if not delta and p.start_time_unix_nano != q.start_time_unix_nano:
                    V("start-moves", "cumulative start time changed")
        if key in last and p.time_unix_nano < last[key].time_unix_nano:
            V("time-decreases", "earlier than the previous collection")
        last[key] = p
