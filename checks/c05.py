import time

from .batch import BatchCheck, State
from sim.check import MS, SEC
from sim import driver
from . import common


class C05(BatchCheck):
    """Fork: the batch workload with a fork operation; and a periodic metric reader."""
    ID = "C05"
    RUNS = {"quick": 5000, "thorough": 200000}
    OPS = {"rec": 8, "uns": 0.5, "sleep": 3, "flush": 2.5}
    P_SHUT = 0.0
    ENDS = ["shutdown", "flush", "wait"]
    PREFIXES = BatchCheck.PREFIXES + ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/"]
    REAL = BatchCheck.REAL + ["os.fork and all at-fork handlers", "PeriodicExportingMetricReader, MeterProvider"]
    RULE = BatchCheck.RULE + " One operation forks the simulated process at that instant; the child runs its own workload."
    ASSUME = ["the child's exporter is re-usable after fork (the stub holds no lock)"]

    def setup(self):
        super().setup()
        from opentelemetry.sdk import metrics
        from opentelemetry.sdk.metrics import export as mexport
        self.metrics, self.mexport = metrics, mexport
        import warnings
        warnings.simplefilter("ignore", DeprecationWarning)

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            return {"kind": "metric", "interval": rng.choice([100, 1000, 60000]), "pre": rng.randint(0, 3),
                    "presleep": rng.choice([0, 50 * MS, 1500 * MS, 61 * SEC]), "rec": [rng.randint(1, 9) for _ in range(rng.randint(1, 4))],
                    "cycles": rng.randint(1, 4), "end": rng.choice(["shutdown", "flush", "wait"])}
        sc = super().gen(rng, tier)
        child = [self.gen_op(rng, {"rec": 6, "sleep": 2, "flush": 2}) for _ in range(rng.randint(1, 6))]
        t = [self.gen_op(rng, {"sleep": 1, "rec": 3, "flush": 1}) for _ in range(rng.randint(0, 4))]
        t.append(["fork", child])
        t += [self.gen_op(rng, self.OPS) for _ in range(rng.randint(0, 3))]
        sc["threads"].append(t)
        sc["child_behav"] = self.gen_behav(rng, 4)
        return sc

    def run(self, run, sc):
        if sc["kind"] == "metric":
            return self.run_metric(run, sc)
        super().run(run, sc)

    def violate_all(self, run):
        pass

    def run_metric(self, run, sc):
        sim = run.sim
        chk = self
        exports = []

        class E(self.mexport.MetricExporter):
            def export(self, metrics_data, timeout_millis=10000, **kw):
                tot = 0
                for rm in metrics_data.resource_metrics:
                    for sm in rm.scope_metrics:
                        for m in sm.metrics:
                            for p in m.data.data_points:
                                tot += p.value
                exports.append((sim.ev("mexport", tot), sim.now, tot))
                return chk.mexport.MetricExportResult.SUCCESS

            def force_flush(self, timeout_millis=10000):
                return True

            def shutdown(self, timeout_millis=30000, **kw):
                sim.ev("mshutdown")

        reader = self.mexport.PeriodicExportingMetricReader(E(), export_interval_millis=sc["interval"])
        prov = self.metrics.MeterProvider([reader], resource=self.res, shutdown_on_exit=False)
        c = prov.get_meter("m").create_counter("c")
        total = 0
        for v in range(sc["pre"]):
            c.add(1)
            total += 1
        time.sleep(sc["presleep"] / 1e9)
        while any(t.state == 1 and t.deadline is None or t.state == 0 and t is not sim.cur for t in sim.tasks) or \
                any(t.stalled for t in sim.tasks if t.state != 2):
            time.sleep(0.011)

        def child():
            del exports[:]
            tot = total
            iv = sc["interval"] * MS
            sim.stalls_on = False
            for v in sc["rec"]:
                c.add(v)
                tot += v
                k = len(exports)
                time.sleep((iv * sc["cycles"] + 10 * MS) / 1e9)
                n = len(exports) - k
                if n < sc["cycles"] - 1 or n < 1 or n > sc["cycles"] + 1:
                    run.violate("child-not-periodic", "after fork the periodic reader made %d exports in %d intervals" % (n, sc["cycles"]))
                if exports[-1][2] != tot:
                    run.violate("child-wrong-total", "after fork the periodic reader exported %r, recorded %r" % (exports[-1][2], tot))
            k = len(exports)
            c.add(1)
            tot += 1
            if sc["end"] == "shutdown":
                prov.shutdown()
            elif sc["end"] == "flush":
                prov.force_flush()
            else:
                time.sleep((iv + 10 * MS) / 1e9)
            if len(exports) <= k or exports[-1][2] != tot:
                run.violate("child-final", "after fork, %s exported %r, recorded %r" % (sc["end"], exports[k:], tot))
        driver.sim_fork(run, child)
        k = len(exports)
        c.add(1)
        total += 1
        sim.stalls_on = False
        time.sleep((sc["interval"] * MS + 25 * SEC) / 1e9)
        if len(exports) <= k or exports[-1][2] != total:
            run.violate("parent-stopped", "the parent's periodic reader stopped or misreports after fork: %r != %r" % (exports[k:], total))
        run.nontrivial = True


CHECK = C05()
