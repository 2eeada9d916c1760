from bisect import bisect_left
from fnmatch import fnmatchcase

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG, canon

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/"
KINDS = {"counter": "Counter", "updown": "UpDownCounter", "hist": "Histogram", "gauge": "_Gauge",
         "ocounter": "ObservableCounter", "oupdown": "ObservableUpDownCounter", "ogauge": "ObservableGauge"}
CREATE = {"counter": "create_counter", "updown": "create_up_down_counter", "hist": "create_histogram", "gauge": "create_gauge",
          "ocounter": "create_observable_counter", "oupdown": "create_observable_up_down_counter", "ogauge": "create_observable_gauge"}
ASYNC = ("ocounter", "oupdown", "ogauge")
SCOPES = [("m1", None, None), ("m1", "1", None), ("m1", "1", "http://s"), ("m2", "2", None), ("M1", None, None)]
NAMES = ["req.count", "Req.Size", "mem", "db.pool.used", "x", "queue/len", "a-b_c", "x1"]
PATTERNS = ["*", "req.*", "?em", "*.used", "Req.*", "x", "x?", "Req.Size", "req.count", "mem", "db.?ool.*", "a-b_c", "queue/*", "nothing*", "[rm]e*"]
DEFAULT = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)
BOUNDS = [[1, 4, 64], [2], [0, 8, 100, 1000]]


class C28(Check):
    ID = "C28"
    RUNS = {"quick": 8000, "thorough": 350000}
    PREFIXES = [SDK, "/repo/opentelemetry-api/src/opentelemetry/metrics/"]
    REAL = ["MeterProvider, Meter, instruments, views, aggregations, MeasurementConsumer, MetricReaderStorage, MetricReader"]
    STUB = ["metric reader subclass that keeps what it receives", "clocks", "thread scheduler"]
    GRAN = {"line": 6, "instr": 3, "sync": 2}
    STALLS = False
    RULE = ("A case is 1-6 instruments of up to five scopes, 0-4 views with seeded criteria and streams, 1-2 readers with their own preferred "
            "temporalities and aggregations, and 1-4 threads that record and collect; non-trivial = threads were preempted.")

    def setup(self):
        from opentelemetry.sdk import metrics, resources
        from opentelemetry.sdk.metrics import export, view
        from opentelemetry import metrics as mapi
        from opentelemetry.metrics import _internal as ai
        self.metrics, self.export, self.view, self.mapi = metrics, export, view, mapi
        from opentelemetry.sdk.metrics._internal import instrument as si
        self.cls = {k: getattr(metrics, n if n != "_Gauge" else "Counter") for k, n in KINDS.items()}
        self.cls["gauge"] = si.Gauge
        self.res = resources.Resource.get_empty()

        class Reader(export.MetricReader):
            def __init__(self, **k):
                super().__init__(**k)
                self.got = []

            def _receive_metrics(self, data, timeout_millis=10_000, **kw):
                self.got.append(data)

            def shutdown(self, timeout_millis=30_000, **kw):
                pass
        self.Reader = Reader

    # ---- generation -----------------------------------------------------------------------
    def gen_agg(self, rng, asyn=False):
        a = rng.choice(["sum", "last", "drop", "sum", "last"] if asyn else ["sum", "last", "drop", "hist", "hist", "histb", "histb", "exp"])
        return [a, rng.randrange(len(BOUNDS)), rng.choice([2, 8, 160])]

    def gen(self, rng, tier):
        scopes = rng.sample(range(len(SCOPES)), rng.choice([1, 1, 2, 3, 5]))
        names = rng.sample(NAMES, rng.choice([1, 2, 4, 8]))
        insts, seen = [], set()
        kinds = rng.choice([["hist"], ["counter"], ["counter", "hist"], list(KINDS), list(KINDS)])
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            d = {"scope": rng.choice(scopes), "kind": rng.choice(kinds), "name": rng.choice(names), "unit": rng.choice(["", "", "s", "By"]),
                 "desc": rng.choice(["", "d", "other"]), "adv": rng.choice([None, None, 0, 1, 2])}
            key = (d["scope"], d["kind"], d["name"].lower(), d["unit"], d["desc"])
            if key not in seen:
                seen.add(key)
                insts.append(d)
        views = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            v = {}
            crit = {"instrument_type": lambda: rng.choice(list(KINDS)), "instrument_name": lambda: rng.choice(PATTERNS + names),
                    "instrument_unit": lambda: rng.choice(["", "s", "By", "*", "?"]), "meter_name": lambda: rng.choice(["m1", "m1", "m2", "M1"]),
                    "meter_version": lambda: rng.choice(["1", "1", "2"]), "meter_schema_url": lambda: rng.choice(["http://s", "http://s", "http://t"])}
            w = [2, 6, 2, 2, 1, 1]
            for k in set(rng.choices(list(crit), weights=w, k=rng.choice([1, 1, 2, 3]))):
                v[k] = crit[k]()
            v = {k: v[k] for k in sorted(v)}
            if not any(c in v.get("instrument_name", "") for c in "*?") and rng.random() < 0.5:
                v["name"] = "view%d" % rng.randrange(2)
            if rng.random() < 0.3:
                v["description"] = rng.choice(["from the view", ""])
            if rng.random() < 0.5:
                v["attribute_keys"] = rng.choice([[], ["k"], ["k", "j"], ["nope"]])
            if rng.random() < 0.6:
                v["aggregation"] = self.gen_agg(rng)
            views.append(v)
        readers = []
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice(["D", "C", "mix"])
            readers.append({"temp": {k: m if m != "mix" else rng.choice("DC") for k in KINDS},
                            "agg": {k: self.gen_agg(rng, k in ASYNC) for k in KINDS if rng.random() < 0.15} if rng.random() < 0.4 else {}})
        sync = [n for n, d in enumerate(insts) if d["kind"] not in ASYNC]
        ths = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([2, 5, 8]))):
                if sync and rng.random() < 0.8:
                    ops.append(["rec", rng.choice(sync), rng.randrange(3), rng.randrange(2)])
                else:
                    ops.append(["collect", rng.randrange(len(readers))])
            ths.append(ops)
        return {"insts": insts, "views": views, "readers": readers, "threads": ths}

    # ---- execution -----------------------------------------------------------------------
    def agg(self, a):
        V = self.view
        return {"sum": V.SumAggregation, "last": V.LastValueAggregation, "drop": V.DropAggregation, "hist": V.ExplicitBucketHistogramAggregation,
                "histb": lambda: V.ExplicitBucketHistogramAggregation(boundaries=BOUNDS[a[1]], record_min_max=a[2] != 2),
                "exp": lambda: V.ExponentialBucketHistogramAggregation(max_size=a[2])}[a[0]]()

    def run(self, run, sc):
        sim, T = run.sim, self.export.AggregationTemporality
        views = []
        for v in sc["views"]:
            kw = dict(v)
            if "instrument_type" in kw:
                kw["instrument_type"] = self.cls[kw["instrument_type"]]
            if "aggregation" in kw:
                kw["aggregation"] = self.agg(kw["aggregation"])
            if "attribute_keys" in kw:
                kw["attribute_keys"] = set(kw["attribute_keys"])
            views.append(self.view.View(**kw))
        readers = [self.Reader(preferred_temporality={self.cls[k]: T.DELTA if t == "D" else T.CUMULATIVE for k, t in r["temp"].items()},
                               preferred_aggregation={self.cls[k]: self.agg(a) for k, a in r["agg"].items()}) for r in sc["readers"]]
        prov = self.metrics.MeterProvider(metric_readers=readers, resource=self.res, views=views, shutdown_on_exit=False)
        O = self.mapi.Observation
        insts = []
        for n, d in enumerate(sc["insts"]):
            name, ver, url = SCOPES[d["scope"]]
            mt = prov.get_meter(name, ver, url)
            kw = {"unit": d["unit"], "description": d["desc"]}
            if d["kind"] == "hist" and d["adv"] is not None:
                kw["explicit_bucket_boundaries_advisory"] = BOUNDS[d["adv"]]
            if d["kind"] in ASYNC:
                kw["callbacks"] = [lambda opts, n=n: [O(v, at) for v, at in self.observed(n)]]
            insts.append(getattr(mt, CREATE[d["kind"]])(d["name"], **kw))
        recs = [[] for _ in insts]

        def step(run, tid, op):
            if op[0] == "collect":
                sim.ev("collect", op[1])
                readers[op[1]].collect()
                sim.ev("collected", op[1])
                return
            _, n, a, j = op
            d = sc["insts"][n]
            v = 2 ** len(recs[n])
            at = {"k": a, "j": j} if a else {}
            recs[n].append((v, at))
            sim.ev("rec", n, v)
            {"counter": "add", "updown": "add", "hist": "record", "gauge": "set"}[d["kind"]]
            getattr(insts[n], {"hist": "record", "gauge": "set"}.get(d["kind"], "add"))(v, at)
            sim.ev("recorded", n, v)
        common.clients(run, sc["threads"], step)
        for r in readers:
            r.collect()
        self.check(run, sc, readers, recs)
        run.nontrivial = run.sim.preempts > 0

    def observed(self, n):
        return [(100 + n, {"k": 1, "j": 0}), (200 + n, {"k": 1, "j": 1}), (300 + n, {})]

    # ---- the reference model ----------------------------------------------------------------
    def matches(self, v, d):
        name, ver, url = SCOPES[d["scope"]]
        for k, x in v.items():
            if k == "instrument_type" and not issubclass(self.cls[d["kind"]], self.cls[x]):
                return False
            # instrument names are case insensitive
            if k == "instrument_name" and not fnmatchcase(d["name"].lower(), x.lower()):
                return False
            if k == "instrument_unit" and not fnmatchcase(d["unit"], x):
                return False
            if k == "meter_name" and x != name or k == "meter_version" and x != ver or k == "meter_schema_url" and x != url:
                return False
        # documented: histograms make no sense of the totals asynchronous instruments report
        return not (d["kind"] in ASYNC and v.get("aggregation", ["none"])[0] in ("hist", "histb", "exp"))

    def stream(self, v, d, r):
        a = v.get("aggregation") or r["agg"].get(d["kind"])
        adv = BOUNDS[d["adv"]] if d["kind"] == "hist" and d["adv"] is not None else None
        if a is None:
            a = ["hist"] if d["kind"] == "hist" else ["last"] if d["kind"] in ("gauge", "ogauge") else ["sum"]
        temp = 1 if r["temp"][d["kind"]] == "D" else 2
        key = (SCOPES[d["scope"]], v.get("name") or d["name"].lower(), v.get("description") or d["desc"], d["unit"])
        if a[0] == "drop":
            return None
        if a[0] == "sum":
            return key + ("Sum", temp, d["kind"] in ("counter", "ocounter"))
        if a[0] == "last":
            return key + ("Gauge", None, None)
        if a[0] == "exp":
            return key + ("ExponentialHistogram", temp, None)
        return key + ("Histogram", temp, tuple(BOUNDS[a[1]] if a[0] == "histb" else adv or DEFAULT))

    def minmax(self, v, d, r):
        a = v.get("aggregation") or r["agg"].get(d["kind"]) or ["hist"]
        return a[0] != "histb" or a[2] != 2

    def check(self, run, sc, readers, recs):
        V = run.violate
        for ri, (r, reader) in enumerate(zip(sc["readers"], readers)):
            want = {}      # stream -> list of (instrument, attribute keys)
            for n, d in enumerate(sc["insts"]):
                vs = [v for v in sc["views"] if self.matches(v, d)] or [{}]
                for v in vs:
                    s = self.stream(v, d, r)
                    if s is not None:
                        want.setdefault(s, []).append((n, v.get("attribute_keys"), self.minmax(v, d, r)))
            got = {}       # stream -> attributes -> points in order
            for c, data in enumerate(reader.got):
                num = {}
                for s, p in self.points(data):
                    if s not in want:
                        V("alien-stream", "reader %d, collection %d: stream %r that no view or instrument describes; described are %r" % (ri, c, s, sorted(map(str, want))))
                    got.setdefault(s, {}).setdefault(canon(p.attributes), []).append((c, p))
                    k = (s, canon(p.attributes))
                    num[k] = num.get(k, 0) + 1
                    if num[k] > len(want[s]):
                        V("dup-point", "reader %d, collection %d: %d points of %r%r" % (ri, c, num[k], s, k[1]))
            for s, src in want.items():
                exp = {}   # attributes -> list of per-source value lists
                for n, keys, _ in src:
                    per = {}
                    for v, at in (self.observed(n) if sc["insts"][n]["kind"] in ASYNC else recs[n]):
                        k = canon(at if keys is None else {x: at[x] for x in at if x in keys})
                        per.setdefault(k, []).append(v)
                    for k, vs in per.items():
                        exp.setdefault(k, []).append((sc["insts"][n]["kind"] in ASYNC, vs))
                have = got.get(s, {})
                for k in have:
                    if k not in exp:
                        V("alien-point", "reader %d: %r has attributes %r that nobody recorded" % (ri, s, k))
                for k, per in exp.items():
                    self.compare(V, ri, s, k, per, have.get(k, []), len(reader.got) - 1, [m for _, _, m in src] if len({m for _, _, m in src}) == 1 else [])

    def points(self, data):
        for rm in data.resource_metrics if data is not None else ():
            for sm in rm.scope_metrics:
                sc = (sm.scope.name, sm.scope.version or None, sm.scope.schema_url or None)
                for m in sm.metrics:
                    kind = type(m.data).__name__
                    t = int(m.data.aggregation_temporality) if kind != "Gauge" else None
                    for p in m.data.data_points:
                        x = m.data.is_monotonic if kind == "Sum" else tuple(p.explicit_bounds) if kind == "Histogram" else None
                        yield (sc, m.name, m.description, m.unit, kind, t, x), p

    def compare(self, V, ri, s, k, per, pts, last, mm):
        """All points of one stream and attribute set against what its sources recorded."""
        kind, temp = s[4], s[5]
        say = lambda cls, msg: V(cls, "reader %d: %r%r %s" % (ri, s, k, msg))
        vals = [v for _, vs in per for v in vs]
        if not pts:
            say("missing", "is not reported although it was recorded")
        if kind == "Gauge":
            for c, p in pts:
                if p.value not in vals or len(per) == 1 and per[0][0] and p.value != vals[-1]:
                    say("value", "is %r in collection %d, recorded %r" % (p.value, c, vals))
            return
        if temp == 2:
            pts = [(c, p) for c, p in pts if c == last]
            if len(pts) != len(per):
                say("missing", "has %d points in the last collection, expected %d" % (len(pts), len(per)))
        tot = sum(p.value if kind == "Sum" else p.sum for c, p in pts)
        if tot != sum(vals):
            say("value", "adds up to %r, recorded %r" % (tot, vals))
        if kind == "Sum":
            return
        if sum(p.count for c, p in pts) != len(vals):
            say("count", "has count %d, recorded %r" % (sum(p.count for c, p in pts), vals))
        if kind == "Histogram":
            bounds = s[6]
            exp = [0] * (len(bounds) + 1)
            for v in vals:
                exp[bisect_left(bounds, v)] += 1
            for c, p in pts:
                if p.count and (abs(p.min) == float("inf")) in mm or p.min in vals and (p.max not in vals or p.min > p.max):
                    say("minmax", "has minimum %r and maximum %r, recorded %r, to be there: %r" % (p.min, p.max, vals, mm))
            have = [sum(x) for x in zip(*[p.bucket_counts for c, p in pts])]
            if have != exp:
                say("buckets", "has bucket counts %r, expected %r" % (have, exp))
        else:
            for c, p in pts:
                if sum(p.positive.bucket_counts) + sum(p.negative.bucket_counts) + p.zero_count != p.count:
                    say("buckets", "has %d in its buckets and count %d" % (sum(p.positive.bucket_counts), p.count))
                if len(p.positive.bucket_counts) > 160:
                    say("size", "has %d buckets" % len(p.positive.bucket_counts))


CHECK = C28()
