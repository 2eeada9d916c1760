"""Exponential histograms: every measurement in the bucket that covers it, at the finest scale that fits, over whole histories of recording and collecting."""
import math
import sys
import threading
import time
from decimal import Decimal, getcontext
from fractions import Fraction

from sim.check import Check, MS, SEC
from . import common

getcontext().prec = 60
LN2 = Decimal(2).ln()
MIN_NORMAL = sys.float_info.min
TOL = Decimal("1e-12")     # in units of log2(value): what floating point logarithms may err by
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/"
_log = {}


def log2(v):
    """log2 of a positive number, exact for powers of two."""
    v = max(float(v), MIN_NORMAL)
    if v not in _log:
        m, e = math.frexp(v)
        _log[v] = Decimal(e - 1) if m == 0.5 else Decimal(v).ln() / LN2
    return _log[v]


def where(v, s):
    """Indices of the buckets at scale s that may hold |v|: one, or the two at a boundary."""
    x = log2(v)
    f = Decimal(1 << s) if s >= 0 else Decimal(1) / (1 << -s)
    lo, hi = math.ceil((x - TOL) * f) - 1, math.ceil((x + TOL) * f) - 1
    if x == x.to_integral_value():
        return (math.ceil(x * f) - 1,)
    return (lo,) if lo == hi else (lo, hi)


class C30(Check):
    ID = "C30"
    RUNS = {"quick": 9000, "thorough": 400000}
    STALLS = False
    PREFIXES = [S]
    REAL = ["MeterProvider, instruments, views, metric readers, exponential histogram aggregation, mappings and buckets"]
    STUB = ["clock", "thread scheduler", "the consumer of the collected metrics"]
    RULE = ("A case is an instrument aggregated into exponential histograms of a seeded size and maximum scale (by a view or the reader), 1-3 readers of either temporality, and "
            "1-5 rounds in which 1-4 threads record values (close together, far apart, at bucket boundaries, extreme, zero, negative, not finite) and collect at the same time; after a round "
            "every reader may collect alone. Non-trivial = threads were preempted.")

    def setup(self):
        from opentelemetry.sdk import metrics
        from opentelemetry.sdk.metrics import export, view
        self.m, self.x, self.v = metrics, export, view
        import warnings
        warnings.simplefilter("ignore")

    def value(self, rng, prof, neg):
        p = rng.choice(prof)
        if p == "zero":
            return rng.choice([0, 0.0, -0.0])
        if p == "nan":
            return rng.choice(["nan", "inf", "-inf"] if neg else ["nan", "inf"])
        if p == "near":
            v = rng.choice([1.0, 1.5, 2.0, 1000.0]) * (1 + rng.randrange(-50, 50) * 2.0 ** -rng.choice([52, 40, 21, 20, 16, 10]))
        elif p == "pow":
            v = 2.0 ** rng.randint(-6, 6)
            v = rng.choice([v, math.nextafter(v, 0), math.nextafter(v, math.inf)])
        elif p == "edge":
            v = 2.0 ** (rng.randint(-40, 40) / 2 ** rng.choice([1, 2, 3, 5]))
            v = rng.choice([v, math.nextafter(v, 0), math.nextafter(v, math.inf), v * (1 + 1e-9), v * (1 - 1e-9)])
        elif p == "wide":
            v = 10.0 ** rng.uniform(-300, 300)
        elif p == "mid":
            v = 10.0 ** rng.uniform(-3, 4)
        elif p == "int":
            v = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 100, 1000, 2 ** 40, 2 ** 60, 2 ** 53 + 1])
        else:
            v = rng.choice([5e-324, 1e-310, MIN_NORMAL, math.nextafter(MIN_NORMAL, 0), math.nextafter(MIN_NORMAL, 1), sys.float_info.max, 1.0, 1e-300, 2.0 ** 1023])
        return -v if neg and rng.random() < 0.4 else v

    def gen(self, rng, tier):
        kind = rng.choice(["hist", "hist", "hist", "updown", "gauge"])
        prof = rng.choice([["near"], ["near", "pow"], ["pow", "zero"], ["edge"], ["edge", "mid"], ["mid"], ["mid", "zero"], ["wide"], ["int", "zero"], ["int"], ["extreme"], ["near", "mid", "extreme"],
                           ["zero", "zero", "zero", "mid"], ["pow", "near", "edge", "wide", "mid", "int", "zero", "extreme"]])
        if rng.random() < 0.15:
            prof = prof * 2 + ["nan"]
        nr = rng.choice([1, 1, 2, 3])
        na = rng.choice([1, 1, 2])
        rounds = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            ths = []
            mine = rng.choice([prof, prof, prof, ["zero"], prof[:1]])
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                ops = []
                for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
                    r = rng.random()
                    if r < 0.8:
                        ops.append(["rec", rng.randrange(na), self.value(rng, mine, kind != "hist")])
                    elif r < 0.93:
                        ops.append(["col", rng.randrange(nr)])
                    else:
                        ops.append(["sleep", rng.choice([1, 1000, MS])])
                ths.append(ops)
            rounds.append({"threads": ths, "quiet": [r for r in range(nr) if rng.random() < 0.8]})
        return {"kind": kind, "readers": [rng.choice(["delta", "cum"]) for _ in range(nr)], "size": rng.choice([2, 2, 3, 4, 5, 8, 20, 160, 160]), "scale": rng.choice([20, 20, 20, 20, 10, 3, 1, 0, -1, -4, -10]),
                "by": rng.choice(["view", "view", "reader"]), "rounds": rounds}

    def run(self, run, sc):
        common.guard(run, St(self, run, sc).go)()


CHECK = C30()


class Col:
    pass


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.vals = {}                      # attribute set -> [value]: begun
        self.cols = [[] for _ in sc["readers"]]
        self.base = [{} for _ in sc["readers"]]     # delta: values already accounted for
        self.now = {}

    def go(self):
        chk, sc, st = self.chk, self.sc, self
        M, X, V = chk.m, chk.x, chk.v
        agg = V.ExponentialBucketHistogramAggregation(max_size=sc["size"], max_scale=sc["scale"])
        cls = {"hist": M.Histogram, "updown": M.UpDownCounter, "gauge": M._Gauge}[sc["kind"]]

        class Reader(X.MetricReader):
            def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kw):
                st.now[st.sim.cur.id] = metrics_data

            def shutdown(self, timeout_millis=30_000, **kw):
                pass
        T = X.AggregationTemporality
        self.readers = []
        for r in sc["readers"]:
            t = T.DELTA if r == "delta" else T.CUMULATIVE
            kw = {"preferred_temporality": {c: t for c in (M.Histogram, M.UpDownCounter)}} if sc["kind"] != "gauge" else {"preferred_temporality": {M.Histogram: t}}
            if sc["by"] == "reader":
                kw["preferred_aggregation"] = {cls: agg}
            self.readers.append(Reader(**kw))
        mp = M.MeterProvider(self.readers, views=[V.View(instrument_name="h", aggregation=agg)] if sc["by"] == "view" else (), shutdown_on_exit=False)
        m = mp.get_meter("m")
        self.rec = {"hist": lambda: m.create_histogram("h").record, "updown": lambda: m.create_up_down_counter("h").add, "gauge": lambda: m.create_gauge("h").set}[sc["kind"]]()
        for n, rd in enumerate(sc["rounds"]):
            ths = [threading.Thread(target=common.guard(self.run, self.prog), args=(ops,)) for ops in rd["threads"]]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for r in rd["quiet"]:
                c = self.collect(r)
                self.settle(r, n)

    def prog(self, ops):
        for op in ops:
            if op[0] == "rec":
                v = float(op[2]) if isinstance(op[2], str) else op[2]
                self.sim.ev("record", op[1], repr(v))
                if math.isfinite(v):
                    self.vals.setdefault(op[1], []).append(v)
                self.rec(v, {"a": op[1]})
            elif op[0] == "col":
                self.collect(op[1])
            else:
                time.sleep(op[1] / 1e9)

    def V(self, cls, r, c, msg):
        self.run.violate(cls, "reader %d (%s), collection %d: %s" % (r, self.sc["readers"][r], c.n, msg))

    def collect(self, r):
        c = Col()
        c.n = len(self.cols[r])
        c.inv = self.sim.stamp()
        self.cols[r].append(c)
        c.pts = {}
        self.sim.ev("collect", r, c.n)
        self.now.pop(self.sim.cur.id, None)
        self.readers[r].collect()
        c.resp = self.sim.stamp()
        data = self.now.pop(self.sim.cur.id, None)
        c.delta = None
        for rm in data.resource_metrics if data else ():
            for sm in rm.scope_metrics:
                for mt in sm.metrics:
                    c.delta = mt.data.aggregation_temporality == self.chk.x.AggregationTemporality.DELTA
                    for p in mt.data.data_points:
                        a = p.attributes["a"]
                        if a in c.pts:
                            self.V("stream", r, c, "two points of one attribute set")
                        if not hasattr(p, "zero_count"):
                            self.V("stream", r, c, "not an exponential histogram: %r" % (p,))
                        c.pts[a] = p
                        self.point(r, c, a, p)
        self.sim.ev("collected", r, c.n, len(c.pts))
        return c

    # ---- one point on its own ---------------------------------------------------------------------
    def point(self, r, c, a, p):
        sc = self.sc
        V = lambda cls, msg: self.V(cls, r, c, "%s in %r" % (msg, p))
        vals = self.vals.get(a, [])
        n = p.zero_count + sum(p.positive.bucket_counts) + sum(p.negative.bucket_counts)
        if n != p.count:
            V("count", "count %d, but %d in buckets" % (p.count, n))
        if min([0] + list(p.positive.bucket_counts) + list(p.negative.bucket_counts)) < 0:
            V("count", "a negative bucket count")
        for b in (p.positive, p.negative):
            if len(b.bucket_counts) > sc["size"]:
                V("size", "more than %d buckets" % sc["size"])
        if not p.count:
            return
        if p.min not in vals or p.max not in vals or p.min > p.max:
            V("minmax", "min %r or max %r was never recorded" % (p.min, p.max))
        if n == p.zero_count:
            return
        if p.scale > sc["scale"]:
            V("scale", "scale above the maximum %d" % sc["scale"])
        for b, hi, lo in ((p.positive, p.max, p.min), (p.negative, -p.min, -p.max)):
            ix = [b.offset + i for i, k in enumerate(b.bucket_counts) if k]
            if hi > 0 and not set(ix) & set(where(hi, p.scale)):
                V("bucket", "the bucket of %r must be %r" % (hi, where(hi, p.scale)))
            if lo > 0 and not set(ix) & set(where(lo, p.scale)):
                V("bucket", "the bucket of %r must be %r" % (lo, where(lo, p.scale)))
        # resolution is given up only as far as the values need
        best = self.best(vals)
        if p.scale < best:
            V("scale", "scale %d, but everything recorded fits at %d" % (p.scale, best))

    def best(self, vals):
        sc = self.sc
        pos, neg = [v for v in vals if v > 0], [-v for v in vals if v < 0]
        ends = [x for x in (pos, neg) if x]
        for s in range(sc["scale"], -11, -1):
            if all(max(where(v, s)[-1] for v in x) - min(where(v, s)[0] for v in x) < sc["size"] for x in ends):
                return s
        return -10

    # ---- what the points hold together, when nothing else runs ------------------------------------
    def settle(self, r, rn):
        cols = self.cols[r]
        c = cols[-1]
        for a, vals in self.vals.items():
            delta = any(x.delta for x in cols)
            if delta:
                done = self.base[r].get(a, (0, 0))
                want, ps = vals[done[0]:], [x.pts[a] for x in cols[done[1]:] if a in x.pts]
                self.base[r][a] = (len(vals), len(cols))
            else:
                want, ps = vals, [c.pts[a]] if a in c.pts else []
                # earlier collections hold a part of this
                for x in cols[:-1]:
                    if a in x.pts:
                        self.part(r, c, x, x.pts[a], ps[0] if ps else None)
            self.whole(r, c, a, want, ps)

    def down(self, p, s):
        out = []
        for b in (p.positive, p.negative):
            d = {}
            for i, k in enumerate(b.bucket_counts):
                if k:
                    j = (b.offset + i) >> (p.scale - s)
                    d[j] = d.get(j, 0) + k
            out.append(d)
        return out

    def part(self, r, c, x, p, q):
        if q is None:
            self.V("lost", r, c, "no point, collection %d had %r" % (x.n, p))
        if p.count == p.zero_count and p.zero_count <= q.zero_count:
            return
        if p.scale < q.scale:
            self.V("scale", r, c, "scale %d, but collection %d had %d" % (q.scale, x.n, p.scale))
        for d, e in zip(self.down(p, q.scale), self.down(q, q.scale)):
            if any(k > e.get(i, 0) for i, k in d.items()) or p.zero_count > q.zero_count:
                self.V("lost", r, c, "%r does not contain what collection %d had: %r" % (q, x.n, p))

    def whole(self, r, c, a, want, ps):
        V = lambda cls, msg: self.V(cls, r, c, "attributes %r: %s; recorded %r, points %r" % (a, msg, want, ps))
        if not want:
            if any(p.count for p in ps):
                V("count", "a point of nothing")
            return
        if not ps:
            V("lost", "no point")
        if sum(p.count for p in ps) != len(want):
            V("count", "%d measurements" % sum(p.count for p in ps))
        if sum(p.zero_count for p in ps) != sum(1 for v in want if v == 0):
            V("zeros", "%d zeros" % sum(p.zero_count for p in ps))
        if min(p.min for p in ps if p.count) != min(want) or max(p.max for p in ps if p.count) != max(want):
            V("minmax", "min or max is not the one recorded")
        tot = sum(map(abs, map(Fraction, want)))
        if tot < Fraction(sys.float_info.max):
            if abs(sum(Fraction(p.sum) for p in ps) - sum(map(Fraction, want))) > tot * len(want) * Fraction(2) ** -51:
                V("sum", "sum %r" % (sum(p.sum for p in ps),))
        full = [p for p in ps if p.count != p.zero_count]
        if not full:
            return
        s = min(p.scale for p in full)
        for k, sign in ((0, 1), (1, -1)):
            got = {}
            for p in full:
                for i, n in self.down(p, s)[k].items():
                    got[i] = got.get(i, 0) + n
            edge = []
            for v in want:
                if v * sign > 0:
                    w = where(abs(v), s)
                    if len(w) == 1:
                        got[w[0]] = got.get(w[0], 0) - 1
                    else:
                        edge.append(w)
            edge.sort()
            for w in edge:
                i = w[0] if got.get(w[0], 0) > 0 else w[1]
                got[i] = got.get(i, 0) - 1
            bad = {i: n for i, n in got.items() if n}
            if bad:
                V("bucket", "at scale %d %s buckets have %s" % (s, ("positive", "negative")[k], ", ".join("%+d in %d" % (n, i) for i, n in sorted(bad.items()))))
