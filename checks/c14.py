import os
import time

from sim.check import Check, MS
from . import common
from .metrics import BIG

A = "/repo/opentelemetry-api/src/opentelemetry/"
SCOPES = [("n", None, None, None), ("n", "1", None, None), ("n", "1", "http://s", None), ("n", "2", None, {"a": 1}), ("o", None, "http://t", {"b": "x"})]
KINDS = {"counter": ("create_counter", "add"), "updown": ("create_up_down_counter", "add"), "hist": ("create_histogram", "record"),
         "gauge": ("create_gauge", "set"), "ocounter": ("create_observable_counter", None),
         "oupdown": ("create_observable_up_down_counter", None), "ogauge": ("create_observable_gauge", None)}
ENV = {"t": "OTEL_PYTHON_TRACER_PROVIDER", "m": "OTEL_PYTHON_METER_PROVIDER", "l": "OTEL_PYTHON_LOGGER_PROVIDER",
       "e": "OTEL_PYTHON_EVENT_LOGGER_PROVIDER"}


class O:
    """Anything with an invocation and a response stamp."""

    def __init__(self, inv, **k):
        self.inv, self.resp = inv, BIG
        self.__dict__.update(k)


class C14(Check):
    ID = "C14"
    RUNS = {"quick": 9000, "thorough": 350000}
    STALLS = False
    PREFIXES = [A + "trace/__init__.py", A + "metrics/_internal/", A + "_logs/_internal/", A + "_events/__init__.py", "/repo/opentelemetry-sdk/src/opentelemetry/sdk/_events/", A + "util/_once.py", A + "util/_providers.py"]
    GRAN = {"line": 5, "instr": 6, "sync": 1}
    REAL = ["global provider functions, proxy providers/tracers/meters/loggers/instruments, SDK TracerProvider, MeterProvider, LoggerProvider, EventLoggerProvider",
            "entry point loading of the provider named by the environment"]
    STUB = ["span and log processors and metric readers that keep what they receive", "thread scheduler"]
    RULE = ("A case is 1-4 threads that set global providers, fetch providers, tracers, meters and loggers from the globals or from "
            "providers fetched earlier, create instruments and use all of these, and a seeded schedule; non-trivial = threads were preempted.")

    def setup(self):
        from opentelemetry.sdk import metrics, resources, trace, _logs
        from opentelemetry.sdk.metrics import export
        from opentelemetry.sdk import _events as events
        from opentelemetry import _events as eapi
        self.events, self.eapi = events, eapi
        from opentelemetry import metrics as mapi, _logs as lapi, trace as tapi
        self.metrics, self.export, self.trace, self.logs, self.mapi, self.lapi, self.tapi = metrics, export, trace, _logs, mapi, lapi, tapi
        self.res = resources.Resource.get_empty()

        class Reader(export.MetricReader):
            def __init__(self, **k):
                super().__init__(**k)
                self.sink = {}

            def _receive_metrics(self, data, timeout_millis=10_000, **kw):
                from sim import core
                self.sink.setdefault(core.SIM.cur.id, []).append(data)

            def shutdown(self, timeout_millis=30_000, **kw):
                pass
        self.Reader = Reader
        import warnings
        warnings.simplefilter("ignore", DeprecationWarning)

    def gen(self, rng, tier):
        sigs = rng.choice(["t", "m", "m", "m", "l", "e", "tmle", "tm", "le"])
        env = rng.random() < 0.06 and "e" not in sigs
        nset = rng.choice([1, 1, 1, 2, 2, 3])
        foc = rng.random()
        w = {"set": 0, "prov": 1, "get": 3, "inst": 4, "use": 5, "deco": 1, "collect": 1, "sleep": 0.3}
        if foc < 0.3:
            w = {"get": 2, "inst": 3, "use": 3}
        elif foc < 0.45:
            w = {"prov": 3, "get": 2, "use": 1}
        n = rng.choice([2, 2, 3, 4])
        ths = []
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(1, rng.choice([2, 4, 7]))):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                sg = rng.choice(sigs)
                ops.append(self.gen_op(rng, k, sg))
            ths.append(ops)
        pre = [self.gen_op(rng, k, rng.choice(sigs)) for k in rng.choices(["prov", "get", "get", "inst", "inst", "deco", "use"], k=rng.choice([0, 1, 3, 6]))]
        if env:
            for t in ths + [pre]:
                t[:] = [o for o in t if o[0] in ("prov", "get")] or [["prov", rng.choice(sigs)]]
        else:
            k = 0
            for sg in sorted(set(sigs)):
                for _ in range(nset):
                    t = rng.choice(ths)
                    t.insert(rng.randint(0, len(t)), ["set", sg, k])
                    k += 1
        return {"sigs": "".join(sorted(set(sigs))), "env": int(env), "threads": ths, "pre": pre}

    def gen_op(self, rng, k, sg):
        if k == "prov":
            return ["prov", sg]
        if k == "get":
            return ["get", sg, rng.randrange(len(SCOPES)), rng.choice([-1, -1, 0, 1, 2])]
        if k == "inst":
            return ["inst", rng.randrange(6), rng.choice(list(KINDS)), rng.randrange(3)]
        if k == "use":
            return ["use", sg, rng.randrange(8), rng.randrange(3)]
        if k == "deco":
            return ["deco", rng.randrange(4)]
        if k == "collect":
            return ["collect", rng.randrange(3)]
        return ["sleep", rng.choice([0, 1000])]

    def run(self, run, sc):
        S(self, run, sc).go()


CHECK = C14()


class S:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.sets = {"t": [], "m": [], "l": [], "e": []}
        self.gets = {"t": [], "m": [], "l": [], "e": []}
        self.objs = {"t": [], "m": [], "l": [], "e": []}
        self.insts, self.decos, self.uses, self.cols = [], [], [], []
        self.names = 0
        self.active = {}
        self.real = {}

    # ---- real providers -------------------------------------------------------------------
    def provider(self, sg, k):
        c = self.chk
        if sg == "t":
            p = c.trace.TracerProvider(resource=c.res, shutdown_on_exit=False)
            got = []

            class SP(c.trace.SpanProcessor):
                def on_end(self, span):
                    got.append(span)
            p.add_span_processor(SP())
        elif sg in "le":
            p = c.logs.LoggerProvider(resource=c.res, shutdown_on_exit=False)
            got = []

            class LP(c.logs.LogRecordProcessor):
                def emit(self, log_data):
                    got.append(log_data)

                def shutdown(self):
                    pass

                def force_flush(self, timeout_millis=30000):
                    return True
            p.add_log_record_processor(LP())
            if sg == "e":
                p = c.events.EventLoggerProvider(p)
        else:
            got = c.Reader()
            p = c.metrics.MeterProvider(metric_readers=[got], resource=c.res, shutdown_on_exit=False)
        self.real[id(p)] = (sg, p, got)
        return p

    API = {"t": ("tapi", "tracer"), "m": ("mapi", "meter"), "l": ("lapi", "logger"), "e": ("eapi", "event_logger")}

    def fn(self, sg, pat):
        mod, word = self.API[sg]
        return getattr(getattr(self.chk, mod), pat % word)

    def go(self):
        sc = self.sc
        if sc["env"]:
            for sg in sc["sigs"]:
                os.environ[ENV[sg]] = "sdk_%s_provider" % self.API[sg][1]
        for t in sc["threads"] + [sc["pre"]]:
            for op in t:
                if op[0] == "set":
                    self.sets[op[1]].append(O(BIG, k=op[2], p=self.provider(op[1], op[2])))
        self.bykey = {s.k: s for v in self.sets.values() for s in v}
        for op in sc["pre"]:
            self.step(self.run, -1, op)
        common.clients(self.run, sc["threads"], self.step)
        self.final()

    # ---- operations -----------------------------------------------------------------------
    def step(self, run, tid, op):
        getattr(self, "op_" + op[0])(tid, *op[1:])

    def op_sleep(self, tid, ns):
        time.sleep(ns / 1e9)

    def op_set(self, tid, sg, k):
        s = self.bykey[k]
        s.inv = self.sim.ev("set", sg, k)
        self.fn(sg, "set_%s_provider")(s.p)
        s.resp = self.sim.ev("set-done", sg, k)

    def op_prov(self, tid, sg):
        g = O(self.sim.stamp())
        g.p = self.fn(sg, "get_%s_provider")()
        g.resp = self.sim.ev("prov", sg, self.label(g.p))
        self.gets[sg].append(g)

    def label(self, p):
        r = self.real.get(id(p))
        if r is None:
            return type(p).__name__
        return [s.k for s in self.sets[r[0]] if s.p is p][0]

    def op_get(self, tid, sg, si, via):
        name, ver, url, attrs = SCOPES[si]
        provs = [g.p for g in self.gets[sg]]
        self.sim.ev("get", sg, si, via)
        if via >= 0 and provs:
            p = provs[via % len(provs)]
            o = getattr(p, "get_" + self.API[sg][1])(name, ver, schema_url=url, attributes=attrs)
        elif ver is None:
            o = self.fn(sg, "get_%s")(name, schema_url=url, attributes=attrs)
            ver = "" if sg != "e" else None
        else:
            o = self.fn(sg, "get_%s")(name, ver, schema_url=url, attributes=attrs)
        if sg == "t":
            ver = ver or ""
        self.objs[sg].append((o, (name, ver, url or "", tuple(sorted((attrs or {}).items())))))

    def op_inst(self, tid, mi, kind, ident):
        ms = self.objs["m"]
        if not ms:
            return
        m, scope = ms[mi % len(ms)]
        i = O(self.sim.ev("inst", mi, kind, ident), kind=kind, scope=scope, calls=[], calls2=[])
        sync = KINDS[kind][1] is not None
        if sync and ident < 2:
            i.ident = ("%s%d" % (kind, ident), "s" if ident else "", "d" if ident else "")
        else:
            self.names += 1
            i.ident = ("%s_%d" % (kind, self.names), "By", "d%d" % self.names)
        kw = {"unit": i.ident[1], "description": i.ident[2]}
        i.bounds = None
        if kind == "hist" and ident == 2:
            i.bounds = kw["explicit_bucket_boundaries_advisory"] = [1, 1000]
        if not sync:
            def cb(options, i=i):
                i.calls.append(self.active.get(self.sim.cur.id))
                self.sim.point("cb")
                return [self.chk.mapi.Observation(7, {})]

            def cb2(options, i=i):
                i.calls2.append(self.active.get(self.sim.cur.id))
                return []
            kw["callbacks"] = [cb, cb2] if len(self.insts) % 2 else [cb]
            i.two = len(self.insts) % 2
        i.h = getattr(m, KINDS[kind][0])(i.ident[0], **kw)
        i.resp = self.sim.ev("inst-done", *i.ident)
        i.n = 0
        self.insts.append(i)

    def op_deco(self, tid, ti):
        if not self.objs["t"]:
            return
        tr, scope = self.objs["t"][ti % len(self.objs["t"])]
        cur = []
        self.sim.ev("deco", ti)

        @tr.start_as_current_span("deco%d" % len(self.decos))
        def f(u):
            self.chk.tapi.get_current_span().set_attribute("u", u)
        self.decos.append((f, scope))
        del cur

    def op_use(self, tid, sg, x, how):
        if sg == "t":
            pool = [("T",) + o for o in self.objs["t"]] + [("D",) + o for o in self.decos]
            if pool:
                self.use_t(how, *pool[x % len(pool)])
        elif sg in "le":
            if self.objs[sg]:
                self.use_l(*self.objs[sg][x % len(self.objs[sg])], sg=sg)
        else:
            pool = [i for i in self.insts if KINDS[i.kind][1]]
            if pool:
                self.use_m(pool[x % len(pool)])

    def new_use(self, sg, scope, **k):
        u = O(BIG, sg=sg, scope=scope, n=len(self.uses), **k)
        self.uses.append(u)
        u.inv = self.sim.ev("use", sg, u.n)
        return u

    def use_t(self, how, kind, o, scope):
        u = self.new_use("t", scope)
        if kind == "D":
            o(u.n)
        elif how == 0:
            s = o.start_span("u", attributes={"u": u.n})
            s.end()
        elif how == 1:
            with o.start_as_current_span("u", attributes={"u": u.n}):
                pass
        else:
            with o.start_as_current_span("u") as s:
                s.set_attribute("u", u.n)
        u.resp = self.sim.ev("used", u.n)

    def use_l(self, o, scope, sg="l"):
        u = self.new_use(sg, scope)
        if sg == "l":
            o.emit(self.chk.logs.LogRecord(timestamp=1, body=u.n, resource=self.chk.res))
        else:
            o.emit(self.chk.eapi.Event("ev", timestamp=1, body=u.n))
        u.resp = self.sim.ev("used", u.n)

    def use_m(self, i):
        same = [x for x in self.insts if x.ident == i.ident and x.kind == i.kind and x.scope == i.scope]
        j = sum(x.n for x in same)
        i.n += 1
        u = self.new_use("m", i.scope, i=i, val=(3 if i.kind == "updown" else 2) ** j)
        getattr(i.h, KINDS[i.kind][1])(u.val, {})
        u.resp = self.sim.ev("used", u.n)

    def op_collect(self, tid, x):
        if self.sets["m"]:
            self.collect(self.sets["m"][x % len(self.sets["m"])])

    def collect(self, s):
        rd = self.real[id(s.p)][2]
        me = self.sim.cur.id
        c = O(self.sim.ev("collect", s.k), s=s)
        self.cols.append(c)
        self.active[me] = c
        rd.sink[me] = []
        rd.collect()
        self.active[me] = None
        c.resp = self.sim.ev("collected", s.k)
        c.pts = {}
        for md in rd.sink[me]:
            for rm in md.resource_metrics:
                for sm in rm.scope_metrics:
                    a = sm.scope
                    scope = (a.name, a.version, a.schema_url or "", tuple(sorted((a.attributes or {}).items())))
                    for mt in sm.metrics:
                        c.pts.setdefault((scope, mt.name, mt.unit, mt.description), []).append(mt.data)
        return c

    # ---- oracles --------------------------------------------------------------------------
    def winner(self, sg):
        """The set call that won, checking what set calls and look-ups saw."""
        V = self.run.violate
        g = O(self.sim.stamp())
        g.p = self.fn(sg, "get_%s_provider")()
        self.gets[sg].append(g)
        sets = self.sets[sg]
        if self.sc["env"]:
            ps = {id(x.p) for x in self.gets[sg]}
            if len(ps) != 1:
                V("two-providers", "get_%s_provider returned %d different providers from the environment" % (self.API[sg][1], len(ps)))
            return None
        w = [s for s in sets if s.p is g.p]
        if not w:
            V("not-set", "get_%s_provider returns %r after set" % (self.API[sg][1], type(g.p).__name__))
        w = w[0]
        if w.inv > min(s.resp for s in sets):
            V("overridden", "provider %d was set after another set_%s_provider had returned" % (w.k, self.API[sg][1]))
        first = min(s.resp for s in sets)
        seen = min([x.resp for x in self.gets[sg] if x.p is w.p] or [BIG])
        for x in self.gets[sg]:
            if id(x.p) in self.real and x.p is not w.p:
                V("loser-seen", "get_%s_provider returned provider %s, %d was set" % (self.API[sg][1], self.label(x.p), w.k))
            if x.p is not w.p and (x.inv > first or x.inv > seen):
                V("proxy-after-set", "get_%s_provider returned %s after the provider was set" % (self.API[sg][1], self.label(x.p)))
        w.done = first
        return w

    def final(self):
        V = self.run.violate
        for sg in self.sc["sigs"]:
            w = self.winner(sg)
            if w is None:
                o = self.fn(sg, "get_%s")("x")
                if "Proxy" in type(o).__name__:
                    V("proxy-after-set", "get_%s returned a proxy although the environment names a provider" % self.API[sg][1])
                continue
            getattr(self, "final_" + sg)(w)

    def final_t(self, w):
        for how in range(3):
            for o in list(self.objs["t"]):
                self.use_t(how, "T", *o)
        for o in list(self.decos):
            self.use_t(0, "D", *o)
        self.match("t", w, lambda s: (s.attributes.get("u"), s.instrumentation_scope))

    def final_l(self, w):
        for o in list(self.objs["l"]):
            self.use_l(*o)
        self.match("l", w, lambda r: (r.log_record.body, r.instrumentation_scope))

    def final_e(self, w):
        for o in list(self.objs["e"]):
            self.use_l(*o, sg="e")
        self.match("e", w, lambda r: (r.log_record.body, r.instrumentation_scope))

    def match(self, sg, w, f):
        V = self.run.violate
        for s in self.sets[sg]:
            if s is not w and self.real[id(s.p)][2]:
                V("loser-used", "provider %d was not set but received data" % s.k)
        got = {}
        for r in self.real[id(w.p)][2]:
            n, a = f(r)
            got.setdefault(n, []).append((a.name, a.version, a.schema_url or "", tuple(sorted((a.attributes or {}).items()))))
        for u in self.uses:
            if u.sg != sg:
                continue
            g = got.pop(u.n, [])
            if len(g) > 1:
                V("twice", "use %d of a %s was recorded %d times" % (u.n, self.API[sg][1], len(g)))
            if not g and u.inv > w.done:
                V("lost", "use %d of a %s began after the provider was set and was not recorded" % (u.n, self.API[sg][1]))
            if g and g[0] != u.scope:
                V("scope", "use %d of a %s was recorded with scope %r, requested %r" % (u.n, self.API[sg][1], g[0], u.scope))
        if got:
            V("alien", "data nobody sent: %r" % sorted(got, key=repr))

    def final_m(self, w):
        V = self.run.violate
        for i in list(self.insts):
            if KINDS[i.kind][1]:
                self.use_m(i)
        last = self.collect(w)
        for s in self.sets["m"]:
            if s is not w and self.collect(s).pts:
                V("loser-used", "provider %d was not set but received measurements" % s.k)
        idents = {}
        for i in self.insts:
            idents.setdefault((i.scope,) + i.ident, []).append(i)
        for key in last.pts:
            if key not in idents:
                V("identity", "instrument %r reported, created were %r" % (key, sorted(idents, key=repr)))
        for key, same in idents.items():
            data = last.pts.get(key)
            if not data:
                V("lost", "nothing reported for instrument %r created and used after the provider was set; reported: %r" % (key, sorted(last.pts, key=repr)))
            if len(data) > 1:
                V("twice", "instrument %r reported %d times" % (key, len(data)))
            i = same[0]
            pts = list(data[0].data_points)
            if len(pts) != 1:
                V("points", "instrument %r has %d points" % (key, len(pts)))
            p = pts[0]
            if KINDS[i.kind][1] is None:
                if p.value != 7:
                    V("value", "observable %r reports %r" % (key, p.value))
                for c, calls in [(c, x) for c in self.cols for x in ([i.calls, i.calls2] if i.two else [i.calls])]:
                    n = sum(1 for x in calls if x is c)
                    if c.s is not w:
                        if n:
                            V("loser-used", "callback of %r called by a provider that was not set" % (key,))
                    elif n > 1:
                        V("twice", "callback of %r called %d times in one collection" % (key, n))
                    elif not n and c.inv > max(w.done, i.resp):
                        V("lost", "callback of %r not called in a collection after the provider was set" % (key,))
                continue
            us = [u for u in self.uses if u.sg == "m" and u.i in same]
            if i.kind == "gauge":
                if p.value != us[-1].val and (len(us) < 2 or us[-1].inv > max(u.resp for u in us[:-1])):
                    V("value", "gauge %r reports %r, the last value set was %r" % (key, p.value, us[-1].val))
                continue
            tot = p.sum if i.kind == "hist" else p.value
            base = 3 if i.kind == "updown" else 2
            rest = tot
            for u in sorted(us, key=lambda u: -u.val):
                if rest >= u.val:
                    rest -= u.val
                elif u.inv > w.done:
                    V("lost", "measurement %d of %r began after the provider was set and is missing from %r" % (u.val, key, tot))
            if rest:
                V("twice", "the total %r of %r is not a sum of distinct measurements (base %d)" % (tot, key, base))
            if i.kind == "hist" and len(same) == 1 and i.bounds and tuple(p.explicit_bounds) != tuple(i.bounds):
                V("advisory", "histogram %r has bounds %r, advised %r" % (key, p.explicit_bounds, i.bounds))
