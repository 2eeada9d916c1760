import time

from sim.check import Check, MS
from . import common
from .metrics import BIG

X = "/repo/exporter/opentelemetry-exporter-prometheus/src/"
KINDS = {"counter": "create_counter", "updown": "create_up_down_counter", "hist": "create_histogram", "gauge": "create_gauge",
         "ocounter": "create_observable_counter", "ogauge": "create_observable_gauge"}
BOUNDS = [4, 100, 5000]
# (end of the instrument's name, unit, what Prometheus must call it)
NAMES = [("", "", ""), (".q-r", "", "_q_r"), ("/s__t", "ms", "_s_t_milliseconds"), ("", "By", "_bytes"), ("_bytes", "By", "_bytes"), ("", "1", ""),
         ("", "{req}", ""), ("_v", "m/s", "_v_meters_per_second"), ("", "odd unit", "_odd_unit")]
TYPES = {"counter": "counter", "ocounter": "counter", "updown": "gauge", "gauge": "gauge", "ogauge": "gauge", "hist": "histogram"}


def pname(d, i):
    return "i%d" % i + NAMES[d["nm"]][2]


def lbls(d, a, n=0):
    """-> the attributes of stream a, the labels Prometheus must see"""
    m = d["attrs"]
    if m == 0:
        return {}, ()
    if m == 1:
        return {"k": str(a)}, (("k", str(a)),)
    if m == 2:     # the same stream whatever the order the attributes are given in
        return ({"j": "x", "k": str(a)} if (a + n) % 2 else {"k": str(a), "j": "x"}), (("j", "x"), ("k", str(a)))
    if m == 3:     # streams of one metric with different keys
        return ({"k": str(a), "m": "y"}, (("k", str(a)), ("m", "y"))) if a % 2 else ({"k": str(a)}, (("k", str(a)),))
    if m == 4:
        return {"k": (True, 7, 2.5)[a]}, (("k", ("true", "7", "2.5")[a]),)
    return {"1z": "q\"\\", "k.x-y": str(a)}, (("_z", "q\"\\"), ("k_x_y", str(a)))


class Rec:
    __slots__ = ("val", "inv", "resp")


class C18(Check):
    ID = "C18"
    RUNS = {"quick": 7000, "thorough": 300000}
    PREFIXES = [X, "/repo/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/"]
    STALLS = False
    GRAN = {"line": 6, "instr": 4, "sync": 1}
    REAL = ["PrometheusMetricReader and its collector, prometheus_client registry, MeterProvider and the SDK metrics pipeline"]
    STUB = ["Prometheus server (threads that collect the registry)", "clock", "thread scheduler"]
    RULE = ("A case is a provider with a Prometheus reader (and sometimes another reader), 1-4 instruments, threads that record, "
            "scrape, force-flush, create instruments or shut down, and a seeded schedule; non-trivial = threads were preempted.")

    def setup(self):
        import prometheus_client as pc
        from prometheus_client import core as pcore
        for c in (pc.PROCESS_COLLECTOR, pc.PLATFORM_COLLECTOR, pc.GC_COLLECTOR):
            pcore.REGISTRY.unregister(c)
        self.pc, self.reg = pc, pcore.REGISTRY
        from opentelemetry.exporter.prometheus import PrometheusMetricReader
        from opentelemetry.sdk import metrics, resources
        from opentelemetry.sdk.metrics import export
        from opentelemetry import metrics as mapi
        self.Reader, self.metrics, self.mapi, self.export = PrometheusMetricReader, metrics, mapi, export
        self.res = resources.Resource({"service.name": "svc"})

    def gen(self, rng, tier):
        insts = [{"kind": rng.choice(list(KINDS)), "pre": int(rng.random() < 0.8), "attrs": rng.choice([0, 1, 1, 2, 3, 4, 5]), "nm": rng.choice([0, 0, rng.randrange(len(NAMES))]),
                  "desc": rng.choice(["", "what it is"]), "twin": int(rng.random() < 0.2)} for _ in range(rng.randint(1, 4))]
        n = len(insts)
        w = {"rec": rng.choice([1, 5]), "scrape": 5, "flush": rng.choice([0, 2]), "pflush": rng.choice([0, 1]), "inst": 0.7, "sleep": 0.3}
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, rng.choice([2, 4, 7]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                ops.append({"rec": lambda: ["rec", rng.randrange(n), rng.randrange(3)], "scrape": lambda: ["scrape", rng.choice([0, 0, 1])],
                            "flush": lambda: ["flush"], "pflush": lambda: ["pflush"], "inst": lambda: ["inst", rng.randrange(n)],
                            "sleep": lambda: ["sleep", rng.choice([0, 1]) * MS]}[k]())
            ths.append(ops)
        if rng.random() < 0.2:
            t = rng.choice(ths)
            t.insert(rng.randint(0, len(t)), ["shutdown"])
        return {"insts": insts, "threads": ths, "pre": rng.randint(0, 4), "info": int(rng.random() < 0.7), "other": int(rng.random() < 0.3)}

    def run(self, run, sc):
        S(self, run, sc).go()


CHECK = C18()


class Scrape:
    pass


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.h = {}
        self.ms = {}
        self.created = {}
        self.scrapes = []
        self.active = {}
        self.colls = []      # force_flush calls: they collect as well
        self.calls = [0] * len(sc["insts"])
        self.shut = [BIG, BIG]

    def go(self):
        c = self.chk
        self.rd = c.Reader(disable_target_info=not self.sc["info"])
        rds = [self.rd]
        if self.sc["other"]:
            rds.append(c.export.InMemoryMetricReader())
        self.mp = c.metrics.MeterProvider(metric_readers=rds, resource=c.res, shutdown_on_exit=False)
        self.meter = self.mp.get_meter("m")
        self.meter2 = self.mp.get_meter("m2")
        for i, d in enumerate(self.sc["insts"]):
            if d["pre"]:
                self.op_inst(-1, i)
        for k in range(self.sc["pre"]):
            self.op_rec(-1, k % len(self.sc["insts"]), k % 3)
        common.clients(self.run, self.sc["threads"], self.step)
        self.op_scrape(-1, 0)
        self.check()

    def step(self, run, tid, op):
        getattr(self, "op_" + op[0])(tid, *op[1:])

    def op_sleep(self, tid, ns):
        time.sleep(ns / 1e9)

    def op_inst(self, tid, i):
        if i in self.h:
            return
        d = self.sc["insts"][i]
        self.h[i] = None
        kw = {}
        if d["kind"] == "hist":
            kw["explicit_bucket_boundaries_advisory"] = BOUNDS
        if d["kind"] in ("ocounter", "ogauge"):
            def cb(options):
                self.calls[i] += 1
                v = self.calls[i]
                s = self.active.get(self.sim.cur.id)
                if s is not None:
                    s.obs.setdefault(i, []).append(v)
                self.sim.point("cb")
                return [self.chk.mapi.Observation(v, {})]
            kw["callbacks"] = [cb]
        kw.update(unit=NAMES[d["nm"]][1], description=d["desc"])
        h = [getattr(self.meter, KINDS[d["kind"]])("i%d" % i + NAMES[d["nm"]][0], **kw)] * 3
        if d["twin"] and d["attrs"] and "callbacks" not in kw:   # a metric of that name in another scope
            h[2] = getattr(self.meter2, KINDS[d["kind"]])("i%d" % i + NAMES[d["nm"]][0], **kw)
        self.h[i] = h
        self.created[i] = self.sim.ev("created", i)

    def op_rec(self, tid, i, a):
        d = self.sc["insts"][i]
        h = self.h.get(i)
        if h is None or d["kind"][0] == "o":
            return
        a = a if d["attrs"] else 0
        ms = self.ms.setdefault((i, a), [])
        if len(ms) > 40:
            return
        r = Rec()
        r.val, r.resp = 2 ** len(ms), BIG
        ms.append(r)
        r.inv = self.sim.ev("rec", i, a, r.val)
        getattr(h[a], {"counter": "add", "updown": "add", "hist": "record", "gauge": "set"}[d["kind"]])(r.val, lbls(d, a, len(ms))[0])
        r.resp = self.sim.ev("recd", i, a, r.val)

    def op_flush(self, tid):
        self.colls.append([self.sim.ev("flush"), BIG])
        c = self.colls[-1]
        self.rd.force_flush()
        c[1] = self.sim.ev("flushed")

    def op_pflush(self, tid):
        self.colls.append([self.sim.ev("pflush"), BIG])
        c = self.colls[-1]
        self.mp.force_flush()
        c[1] = self.sim.ev("pflushed")

    def op_shutdown(self, tid):
        self.shut[0] = self.sim.ev("shutdown")
        self.mp.shutdown()
        self.shut[1] = self.sim.ev("shutdown-done")

    def op_scrape(self, tid, text):
        s = Scrape()
        me = self.sim.cur.id
        s.obs, s.resp, s.out, s.exc, s.fams = {}, BIG, None, None, []
        self.scrapes.append(s)
        s.inv = self.sim.ev("scrape", len(self.scrapes))
        self.active[me] = s
        try:
            if text:
                from prometheus_client.parser import text_string_to_metric_families
                t = self.chk.pc.generate_latest(self.chk.reg).decode()
                s.fams = [(*x.split()[2:4], None) for x in t.splitlines() if x.startswith("# TYPE")]
                s.out = [(x.name, tuple(sorted(x.labels.items())), x.value) for f in text_string_to_metric_families(t) for x in f.samples]
            else:
                fams = list(self.chk.reg.collect())
                s.fams = [(f.name + ("_total" if f.type == "counter" else ""), f.type, f.documentation) for f in fams]
                s.out = [(x.name, tuple(sorted(x.labels.items())), x.value) for f in fams for x in f.samples]
        except Exception as e:      # noqa
            if type(e).__name__ == "Violation":
                raise
            s.exc = "%s: %s" % (type(e).__name__, e)
        self.active[me] = None
        s.resp = self.sim.ev("scraped", s.exc or len(s.out))

    # ---- oracle ---------------------------------------------------------------------------
    def check(self):
        for n, s in enumerate(self.scrapes):
            self.one(n, s)
        for n, s in enumerate(self.scrapes):
            for o in self.scrapes:
                if o.resp < s.inv and s.sets is not None and o.sets is not None:
                    for k, v in o.sets.items():
                        if k in s.sets and not v <= s.sets[k]:
                            self.run.violate("decrease", "scrape %d of i%d%r lacks measurements an earlier scrape had" % (n, k[0], k[1]))

    def one(self, n, s):
        def V(cls, msg):
            self.run.violate(cls, "scrape %d: %s" % (n, msg))
        s.sets = None
        if s.exc:
            V("raises", s.exc)
        by = {}
        for name, labels, v in s.out:
            if (name, labels) in by:
                V("duplicate", "sample %s%r appears twice" % (name, labels))
            by[name, labels] = v
        mixed = {pname(d, i) for i, d in enumerate(self.sc["insts"]) if d["attrs"] == 3}
        for f, typ, doc in s.fams:
            if f.removesuffix("_total") not in mixed and len([1 for x in s.fams if x[0] == f]) > 1:
                V("family-twice", "%s is reported as two families" % f)
            for i, d in enumerate(self.sc["insts"]):
                if pname(d, i) == f.removesuffix("_total") and (typ != TYPES[d["kind"]] or doc is not None and doc != d["desc"]):
                    V("family", "i%d, a %s described as %r, is reported as %r %r" % (i, d["kind"], d["desc"], typ, doc))
        if s.inv > self.shut[1]:
            if by:
                V("after-shutdown", "samples %r after shutdown" % sorted(by)[:3])
            return
        if s.resp > self.shut[0] and not by:
            return      # the reader was being unregistered
        s.sets = {}
        known = set()
        want_any = False
        for i, d in enumerate(self.sc["insts"]):
            if i not in self.created:
                continue
            nm = pname(d, i)
            if d["kind"][0] == "o":
                name = nm + ("_total" if d["kind"] == "ocounter" else "")
                known.add((name, ()))
                got = by.get((name, ()))
                if self.created[i] < s.inv:
                    want_any = True
                    if got is None:
                        V("missing", "observable %s is missing" % name)
                if got is not None and s.obs.get(i) != [got]:
                    V("other-scrape", "observable %s reports %r, its callback returned %r in this scrape" % (name, got, s.obs.get(i)))
                continue
            for (j, a), ms in self.ms.items():
                if j != i:
                    continue
                lb = lbls(d, a)[1]
                before = [r for r in ms if r.resp < s.inv]
                if d["kind"] == "gauge":
                    # a gauge is reported by the first collection after it was set
                    oth = self.colls + [[o.inv, o.resp] for o in self.scrapes if o is not s] + [[self.shut[0], self.shut[1]]]
                    before = [r for r in before if not any(b > r.inv and a < s.resp for a, b in oth)]
                want_any = want_any or bool(before)
                may = [r for r in ms if r.inv < s.resp]
                if d["kind"] == "hist":
                    le = [("le", x) for x in [str(b) for b in BOUNDS] + ["+Inf"]]
                    keys = [(nm + "_bucket", tuple(sorted(lb + (x,)))) for x in le]
                    known.update(keys + [(nm + "_sum", lb), (nm + "_count", lb)])
                    got = by.get((nm + "_sum", lb))
                else:
                    name = nm + ("_total" if d["kind"] == "counter" else "")
                    known.add((name, lb))
                    got = by.get((name, lb))
                if got is None:
                    if before:
                        V("missing", "stream %s%r is missing" % (nm, lb))
                    continue
                if d["kind"] == "gauge":
                    ok = [r for r in may if not any(o.inv > r.resp and o.resp < s.inv for o in ms)]
                    if got not in [r.val for r in ok]:
                        V("gauge", "%s%r reports %r, possible are %r" % (nm, lb, got, [r.val for r in ok]))
                    continue
                st = {k for k in range(len(ms)) if int(got) >> k & 1}
                if got != int(got) or int(got) >= 2 ** len(ms):
                    V("value", "%s%r reports %r, no sum of measurements" % (nm, lb, got))
                if not {k for k, r in enumerate(ms) if r.resp < s.inv} <= st:
                    V("lost", "%s%r reports %r without measurements recorded before the scrape" % (nm, lb, got))
                if not st <= {k for k, r in enumerate(ms) if r.inv < s.resp}:
                    V("future", "%s%r reports %r" % (nm, lb, got))
                s.sets[i, a] = st
                if d["kind"] == "hist":
                    vals = [2 ** k for k in st]
                    exp = [sum(1 for v in vals if v <= b) for b in BOUNDS] + [len(vals)]
                    gb = [by.get(k) for k in keys]
                    if gb != exp or by.get((nm + "_count", lb)) != len(vals):
                        V("histogram", "%s%r has sum %r and buckets %r" % (nm, lb, got, gb))
        info = ("target_info", (("service_name", "svc"),))
        if want_any and self.sc["info"]:
            if info not in by:
                V("missing", "target_info is missing")
        known.add(info)
        al = set(by) - known
        if al:
            V("alien", "unknown samples %r" % sorted(al)[:3])
