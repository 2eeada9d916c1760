import time

from sim.check import Check, MS, SEC
from . import common
from .metrics import BIG


def pick(plan, n):
    return plan[n % len(plan)] if plan else ["ok"]


Boom = common.Boom


class X:
    """One export call."""
    __slots__ = ("n", "task", "inv", "resp", "t0", "t1", "vals", "err", "timeout", "marks")


class K:
    """One collection, seen by the marker callback that runs first in it."""
    __slots__ = ("task", "t0", "t1", "inv", "end", "export", "slow", "boom", "timeout")


class C12(Check):
    ID = "C12"
    RUNS = {"quick": 8000, "thorough": 350000}
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py",
                "/repo/opentelemetry-api/src/opentelemetry/util/"]
    REAL = ["PeriodicExportingMetricReader, MeterProvider, instruments, MeasurementConsumer, aggregations; stdlib Thread/Event on simulated locks"]
    STUB = ["metric exporter", "observable callbacks", "a reservoir that raises", "clocks", "thread scheduler"]
    STALL_NS = [1 * MS, 300 * MS, 3 * SEC]
    RULE = ("A case is a periodic reader with seeded interval, timeout and exporter behaviour, callbacks that delay or raise, threads that "
            "record, flush, sleep, jump the wall clock and shut down, and a seeded schedule; non-trivial = an export took place.")

    def setup(self):
        from opentelemetry.sdk import metrics, resources
        from opentelemetry.sdk.metrics import export, view
        from opentelemetry.sdk.metrics._internal import exemplar
        from opentelemetry import metrics as mapi, context as capi
        self.metrics, self.export, self.mapi, self.view, self.exemplar = metrics, export, mapi, view, exemplar
        self.res = resources.Resource.get_empty()

    def gen(self, rng, tier):
        interval = rng.choice([50, 1000, 1000, 5000, 60000])
        w = {"rec": 6, "flush": 2, "sleep": 2, "jump": 1}
        if rng.random() < 0.5:
            w["flush"] = rng.choice([0, 6])
        ths = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([3, 8]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                if k == "flush":
                    ops.append(["flush", rng.choice([1, 100, 10_000, 10_000])])
                elif k == "sleep":
                    ops.append(["sleep", rng.choice([0, 1 * MS, interval * MS // 2, interval * MS, interval * MS, 3 * interval * MS])])
                elif k == "jump":
                    ops.append(["jump", rng.choice([-1, 1]) * rng.choice([1 * SEC, 3600 * SEC])])
                else:
                    ops.append(["rec"])
            ths.append(ops)
        pf = rng.choice([0, 0, 0.3, 0.8])
        faults = lambda kinds: [[rng.choice(kinds), rng.choice([1, 40, 900, 6000, 70000]) * MS] if rng.random() < pf else ["ok"]
                                for _ in range(rng.randint(1, 5))]
        when = rng.random()
        shut = {"mode": rng.choice(["main", "main", "race", "race", "none"]), "via": rng.choice(["reader", "provider"]),
                "timeout": rng.choice([30_000, 30_000, 1000, 10]), "delay": rng.choice([0, 0, 1 * MS, interval * MS])}
        if shut["mode"] == "race" and rng.random() < 0.5:
            # a jump while shutdown runs
            ths.append([["sleep", shut["delay"]], ["jump", rng.choice([-1, 1]) * 3600 * SEC]])
        return {"interval": interval, "timeout": rng.choice([30_000, 30_000, interval, 10]), "delta": int(rng.random() < 0.7),
                "threads": ths, "export": faults(["slow", "slow", "raise", "fail"]), "xflush": [[rng.choice(["ok", "none", "false"])] for _ in range(4)] if rng.random() < 0.3 else [], "cb": faults(["slow", "raise", "slow"]),
                "boom": faults(["boom"]) if rng.random() < 0.15 else [], "shut": shut, "after": rng.choice([0, 1, 3]), "twice": int(rng.random() < 0.2),
                "flush_after": rng.randrange(2)}

    def sched(self, rng, sc, tier):
        c = super().sched(rng, sc, tier)
        c["tick_ns"] = min(c["tick_ns"], 1000)
        return c

    def run(self, run, sc):
        sim = run.sim
        V = run.violate
        E = self.export
        T = E.AggregationTemporality
        self.xs = xs = []
        self.own = own = {sim.cur.id}    # tasks of the workload; whoever else collects is the ticker
        ks = []
        last = {}           # task -> its current collection
        recs = []
        active = [0]
        shut = {"inv": BIG, "resp": BIG, "t0": None, "t1": None, "x_inv": BIG, "n": 0, "ex_t": 0}
        flushed = []

        class Exp(E.MetricExporter):
            def export(s, data, timeout_millis=10_000, **kw):
                x = X()
                x.n = len(xs)
                x.task, x.t0, x.t1, x.resp, x.err = sim.cur.id, sim.now, BIG, BIG, None
                x.inv = sim.ev("export", x.n)
                xs.append(x)
                if active[0]:
                    V("overlap", "two export calls at the same time")
                active[0] += 1
                x.vals = self.parse(run, data)
                x.timeout = timeout_millis
                k = last.get(sim.cur.id)
                if k is None or k.export is not None:
                    V("export-without-collection", "export call without a collection of its own")
                k.export = x
                a = pick(sc["export"], x.n)
                if a[0] != "ok":
                    sim.fault("export-" + a[0])
                if a[0] == "slow":
                    time.sleep(a[1] / 1e9)
                active[0] -= 1
                x.t1 = sim.now
                x.resp = sim.ev("exported", x.n)
                if a[0] == "raise":
                    raise Boom("export")
                return E.MetricExportResult.FAILURE if a[0] == "fail" else E.MetricExportResult.SUCCESS

            def force_flush(s, timeout_millis=10_000):
                r = pick(sc["xflush"], len(flushed))[0]
                flushed.append((sim.cur.id, sim.ev("x-flush", r), r))
                return {"ok": True, "none": None, "false": False}[r]

            def shutdown(s, timeout_millis=30_000, **kw):
                shut["n"] += 1
                shut["left"], shut["x_t"] = timeout_millis, sim.now
                shut["task"] = sim.cur.id
                shut["x_inv"] = sim.ev("x-shutdown")
                if active[0]:
                    shut["during"] = True
                if shut["n"] > 1:
                    V("shutdown-twice", "exporter shut down twice")

        nb = [0]
        chk = self

        class Res(self.exemplar.AlignedHistogramBucketExemplarReservoir):
            def collect(s, attrs):
                a = pick(sc["boom"], nb[0])
                nb[0] += 1
                if a[0] == "boom":
                    sim.fault("collection-raises")
                    last[sim.cur.id].boom = True
                    raise Boom("reservoir")
                return []
        pt = {self.metrics.Counter: T.DELTA if sc["delta"] else T.CUMULATIVE}
        # no collection before everything is set up: the marker callback identifies collections
        sim.stalls_on = False
        reader = E.PeriodicExportingMetricReader(Exp(preferred_temporality=pt), export_interval_millis=sc["interval"], export_timeout_millis=sc["timeout"])
        views = []
        if sc["boom"]:
            views = [self.view.View(instrument_name="boom", exemplar_reservoir_factory=lambda agg: Res)]
        prov = self.metrics.MeterProvider(metric_readers=[reader], resource=self.res, shutdown_on_exit=False, views=views)
        mt = prov.get_meter("m")
        ncb = [0]

        def marker(opts):
            k = K()
            k.task, k.t0, k.t1, k.end, k.export, k.slow, k.boom, k.timeout = sim.cur.id, sim.now, sim.now, BIG, None, 0, False, opts.timeout_millis
            k.inv = sim.ev("marker")
            last[sim.cur.id] = k
            ks.append(k)
            return [self.mapi.Observation(len(ks))]

        def faulty(opts):
            k = last[sim.cur.id]
            a = pick(sc["cb"], ncb[0])
            ncb[0] += 1
            if a[0] != "ok":
                sim.fault("cb-" + a[0])
            if a[0] == "slow":
                time.sleep(a[1] / 1e9)
            k.t1 = sim.now
            if a[0] == "raise":
                raise Boom("callback")
            return [self.mapi.Observation(1)]
        mt.create_observable_gauge("marker", [marker])
        mt.create_observable_gauge("faulty", [faulty])
        cnt = mt.create_counter("c")
        if sc["boom"]:
            mt.create_histogram("boom").record(1)

        def rec():
            j = len(recs)
            r = [BIG, BIG]
            recs.append(r)
            r[0] = sim.ev("rec", j)
            cnt.add(2 ** j)
            r[1] = sim.stamp()
        fl = []

        def flush(to):
            f = {"inv": sim.ev("flush", to), "resp": BIG, "task": sim.cur.id, "t0": sim.now, "k0": len(ks)}
            fl.append(f)
            try:
                f["ok"] = reader.force_flush(to)
            except Exception as e:
                f["ok"] = None
                if type(e).__name__ == "MetricsTimeoutError":
                    if sim.now - f["t0"] < to * MS:
                        V("early-timeout", "force_flush(%s) gave up after %d ns" % (to, sim.now - f["t0"]))
                elif not isinstance(e, Boom) or str(e) == "export":
                    V("flush-raised", "force_flush raised %s: %s" % (type(e).__name__, e))
            f["resp"] = sim.ev("flush-done", f["ok"])

        calls = []

        def shutdown():
            # of several calls the one that reaches the exporter does the work
            c = {"inv": sim.ev("shutdown"), "t0": sim.now, "task": sim.cur.id, "resp": BIG, "t1": BIG, "raised": False}
            calls.append(c)
            try:
                (reader.shutdown if sc["shut"]["via"] == "reader" else prov.shutdown)(timeout_millis=sc["shut"]["timeout"])
            except Exception as e:
                if "deadline already exceeded" not in str(e) or sim.now - c["t0"] < sc["shut"]["timeout"] * MS:
                    V("shutdown-raised", "shutdown raised %s: %s after %d ns" % (type(e).__name__, e, sim.now - c["t0"]))
                c["raised"] = True
            c["resp"] = sim.ev("shutdown-done")
            c["t1"] = sim.now

        def step(run, tid, op):
            own.add(sim.cur.id)
            if op[0] == "rec":
                rec()
            elif op[0] == "flush":
                flush(op[1])
            elif op[0] == "sleep":
                time.sleep(op[1] / 1e9)
            elif op[0] == "jump":
                sim.jump_wall(op[1])
            elif op[0] == "shutdown":
                time.sleep(op[1] / 1e9)
                shutdown()
        progs = list(sc["threads"])
        if sc["shut"]["mode"] == "race":
            progs.append([["shutdown", sc["shut"]["delay"]]])
            if sc["twice"]:
                progs.append([["shutdown", sc["shut"]["delay"]]])
        sim.stalls_on = True
        common.clients(run, progs, step)
        sim.stalls_on = False
        I = sc["interval"] * MS
        if sc["after"]:
            time.sleep(sc["after"] * I / 1e9)
        rec()
        if sc["shut"]["mode"] == "none":
            # without shutdown: the ticker alone has to carry everything out
            bad = max([a[1] for a in sc["export"] + sc["cb"] if a[0] == "slow"] or [0])
            limit = sim.now + 20 * (I + 2 * bad) + sim.stall_total
            n0 = len(ks)
            while sim.now < limit and len([k for k in ks[n0:] if k.task not in own]) < 5:
                time.sleep((I + bad) / 1e9)
            if len([k for k in ks[n0:] if k.task not in own]) < 5:
                V("ticker-stopped", "only %d periodic collections in %d ns (interval %d ns)" % (len([k for k in ks[n0:] if k.task not in own]), 20 * (I + 2 * bad), I))
        else:
            shutdown()
            if sc["flush_after"]:
                flush(10_000)
            rec()
            time.sleep(2.5 * I / 1e9)
            if sc["flush_after"]:
                flush(10_000)
        for c in calls:
            if c["task"] == shut.get("task") and c["inv"] < shut["x_inv"] < c["resp"]:
                shut.update(c)
        if calls and shut["inv"] == BIG and not any(c["raised"] for c in calls):
            V("exporter-not-shutdown", "no shutdown call shut the exporter down")
        self.check(run, sc, xs, ks, recs, fl, shut, flushed)
        run.nontrivial = bool(xs)

    def parse(self, run, data):
        out = {}
        for rm in data.resource_metrics:
            for s in rm.scope_metrics:
                for m in s.metrics:
                    if m.name in out:
                        run.violate("dup-metric", "metric %s twice in one export" % m.name, "C10")
                    if m.name != "boom":
                        out[m.name] = m.data.data_points[0].value
        return out

    def check(self, run, sc, xs, ks, recs, fl, shut, flushed):
        V, sim, own = run.violate, run.sim, self.own
        I = sc["interval"] * MS
        # -- conservation ---------------------------------------------------------------
        where = {}
        for x in xs:
            v = x.vals.get("c", 0)
            if v >= 2 ** len(recs):
                V("bad-sum", "export %d reports %r" % (x.n, v))
            for j, r in enumerate(recs):
                if v >> j & 1:
                    if r[0] > x.inv:
                        V("from-future", "export %d contains measurement %d recorded after it" % (x.n, j))
                    if sc["delta"] and j in where:
                        V("double-count", "measurement %d is in exports %d and %d" % (j, where[j].n, x.n))
                    where.setdefault(j, x)
        lossy = any(k.boom for k in ks)
        # -- flush -----------------------------------------------------------------------
        for f in fl:
            mine = [k for k in ks[f["k0"]:] if k.task == f["task"] and f["inv"] < k.inv < f["resp"]]
            if f["inv"] > shut["resp"]:
                if any(k.export is not None for k in mine):
                    V("export-after-shutdown", "force_flush after shutdown exported")
                continue
            if f["ok"] is False and shut["inv"] > f["resp"] and not any(r == "false" for t, s, r in flushed if t == f["task"] and f["inv"] < s < f["resp"]):
                V("flush-dishonest-false", "force_flush returned False, nothing failed")
            if f["ok"] is not True or shut["inv"] < f["resp"]:
                continue
            if not mine or mine[0].export is None:
                V("flush-no-export", "force_flush returned True without exporting")
            x = mine[0].export
            if any(r == "false" for t, s, r in flushed if t == f["task"] and f["inv"] < s < f["resp"]):
                V("flush-exporter", "force_flush returned True though its exporter's force_flush reported False")
            fx = [s for t, s, r in flushed if t == f["task"] and f["inv"] < s < f["resp"]]
            if not fx or fx[-1] < x.resp:
                V("flush-exporter", "force_flush did not flush the exporter after exporting")
            if lossy:
                continue
            for j, r in enumerate(recs):
                if r[1] < f["inv"]:
                    w = where.get(j)
                    if w is None and self.stuck(ks, fl, mine[0]):
                        continue    # taken by a collection in progress, which found the exporter shut down
                    if w is None or (w.resp > f["resp"] and not any(k.export is w and k.inv < mine[0].inv for k in ks)):
                        V("flush-incomplete", "force_flush returned True but measurement %d recorded before it is not exported" % j)
        # -- ticks -----------------------------------------------------------------------
        tk = [k for k in ks if k.task not in own]
        busy = sorted([(k.t0, k.t1) for k in ks] + [(x.t0, min(x.t1, sim.now)) for x in xs])
        end = lambda k: max(k.t1, k.export.t1 if k.export is not None else 0)
        eps = 200 * MS if sim.stall_log else 2 * MS
        for a, b in zip(tk, tk[1:]):
            if end(a) >= BIG:
                continue
            gap = b.t0 - end(a)
            if gap > I:
                other = self.covered(busy + sim.stall_log, end(a), b.t0)
                if gap - other > I + eps:
                    V("late-tick", "periodic collection %d ns after the previous one, interval %d ns" % (gap, I))
            if b.inv < shut["inv"] and gap < I - 1000:
                V("early-tick", "periodic collection %d ns after the previous one, interval %d ns" % (gap, I))
        for k in tk:
            x = k.export
            if max(k.t1, x.t1 if x else 0) >= BIG or k.inv > shut["inv"] or x and x.inv > shut["inv"]:
                continue
            el = (x.t0 if x else k.t1) - k.t0 + eps
            if x and not sc["timeout"] - sum(e - s for s, e in busy if s < x.t0 and e > k.t0) / MS - el / MS <= x.timeout <= sc["timeout"]:
                V("timeout", "a periodic export has %r ms, configured are %r" % (x.timeout, sc["timeout"]))
            if x is None and not k.boom and k.t1 < (shut["t0"] or BIG) - I and self.covered(sim.stall_log, k.t0 - 30 * SEC, k.t1 + 30 * SEC) == 0 and el < sc["timeout"] * MS and k is not tk[-1]:
                V("no-export", "a periodic collection of %d ns, with %r ms to go, was not exported" % (el, sc["timeout"]))
        # -- shutdown ------------------------------------------------------------------------
        if shut["inv"] == BIG:
            return
        if shut["n"] != 1 or shut["x_inv"] > shut["resp"]:
            V("exporter-not-shutdown", "exporter shut down %d times before shutdown returned" % shut["n"])
        to = sc["shut"]["timeout"] * MS
        if shut["left"] * MS > max(0, to - (shut["x_t"] - shut["t0"])) + sim.stall_time(shut["t0"], shut["t1"]) + 2 * MS:
            V("shutdown-timeout", "the exporter was given %r ms to shut down %d ns into a shutdown with timeout %d ms" % (
                shut["left"], shut["x_t"] - shut["t0"], sc["shut"]["timeout"]))
        dur = shut["t1"] - shut["t0"]
        st = sim.stall_time(shut["t0"], shut["t1"])
        if dur > to + st + eps:
            V("shutdown-slow", "shutdown took %d ns with timeout %d ms" % (dur, sc["shut"]["timeout"]))
        for x in xs:
            # a flush that raced shutdown may still export what it collected
            if x.inv > shut["x_inv"] and not any(f["task"] == x.task and f["inv"] < shut["resp"] and f["resp"] > x.inv for f in fl):
                if dur + eps < to or x.task in self.own:
                    V("export-after-shutdown", "export %d started after the exporter was shut down" % x.n)
        if dur + eps < to:
            late = [x for x in xs if x.inv > shut["resp"] and not any(f["inv"] < shut["inv"] and f["resp"] > shut["inv"] and f["task"] == x.task for f in fl)]
            racing = [f for f in fl if f["resp"] > shut["inv"] and f["inv"] < shut["resp"]]
            if late:
                V("export-after-shutdown", "export %d started after shutdown returned" % late[0].n)
            if shut.get("during") and not racing:
                V("shutdown-during-export", "the exporter was shut down during an export call")
            final = [k for k in tk if k.inv > shut["inv"]]
            inprog = [k for k in tk if k.inv < shut["inv"] and not end(k) < shut["t0"]]
            if not final:
                V("no-final-collection", "shutdown did not collect a last time")
            k = final[-1]
            lim = min(sc["interval"], sc["timeout"]) * MS
            if self.covered([(q.t0, q.t1) for q in ks] + sim.stall_log, shut["t0"], shut["t1"]) + eps < lim and k.export is None and not k.boom:
                V("no-final-export", "the final collection was not exported")
            if k.export is not None and not lossy:
                for j, r in enumerate(recs):
                    if r[1] < shut["inv"]:
                        w = where.get(j)
                        if w is None and not racing:
                            V("lost", "measurement %d recorded before shutdown was not exported" % j)
                        if w is None:
                            continue
                        if w.resp > shut["resp"] and not any(f["task"] == w.task for f in racing):
                            V("lost", "measurement %d recorded before shutdown was not exported when it returned" % j)
                if not sc["delta"]:
                    v = k.export.vals.get("c", 0)
                    for j, r in enumerate(recs):
                        if r[1] < shut["inv"] and not v >> j & 1:
                            V("lost", "the final cumulative export lacks measurement %d" % j)

    def stuck(self, ks, fl, mine):
        """Whether a collection that began before mine and never got to export was still going on."""
        for k in ks:
            if k.export is None and k.inv < mine.inv and k.task != mine.task:
                op = [g for g in fl if g["task"] == k.task and g["inv"] < k.inv < g["resp"]]
                if op and op[0]["resp"] > mine.inv or not op and not any(o.task == k.task and k.inv < o.inv < mine.inv for o in ks):
                    return True
        return False

    def covered(self, ivs, a, b):
        tot, cur = 0, a
        for s, e in sorted(ivs):
            s, e = max(s, cur), min(e, b)
            if e > s:
                tot += e - s
                cur = e
        return tot


CHECK = C12()
