import os
import time

from sim.check import Check, MS, SEC
from . import common


class W:
    __slots__ = ("kind", "key", "val", "inv", "resp")


class C06(Check):
    ID = "C06"
    RUNS = {"quick": 9000, "thorough": 400000}
    PREFIXES = ["/repo/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py",
                "/repo/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py",
                "/repo/opentelemetry-api/src/opentelemetry/attributes/",
                "/repo/opentelemetry-api/src/opentelemetry/trace/"]
    REAL = ["TracerProvider, Tracer, Span, ReadableSpan, BoundedAttributes, BoundedList, SynchronousMultiSpanProcessor"]
    STUB = ["span processor (records on_start/on_end)", "clocks", "thread scheduler"]
    GRAN = {"line": 5, "instr": 6, "sync": 1}
    STALLS = False
    RULE = ("A case is one span with seeded limits, 2-4 threads of seeded writes, reads and ends on it, and a seeded "
            "schedule; non-trivial = operations of different threads overlapped.")

    def setup(self):
        from opentelemetry.sdk import trace, resources
        from opentelemetry import trace as tapi
        self.trace, self.tapi = trace, tapi
        self.res = resources.Resource.get_empty()

    def gen(self, rng, tier):
        nolim = rng.random() < 0.5
        shared = rng.choice([0, 1, 1, 2, 3])
        w = {"attr": 4, "attrs": 1, "event": 3, "link": 1, "status": 1.5, "name": 1, "exc": 0.5, "read": 3, "end": 0.6, "sleep": 0.3, "bad": 0.2, "other": 0.3}
        for k in list(w):
            if rng.random() < 0.3:
                w[k] *= rng.choice([0.01, 4])
        rk = rng.choice([["attr", "keys", "events", "links", "misc"], ["attr"], ["keys"], ["events", "links"]])
        focus = rng.random()
        if focus < 0.4:
            ks, rk = rng.choice([(["attr", "read"], ["attr"]), (["attr", "attrs", "read"], ["attr", "keys"]),
                                 (["attr", "attrs"], rk), (["event", "exc", "read"], ["events"]), (["link", "read"], ["links"]),
                                 (["status", "read"], ["misc"]), (["name", "status"], rk), (["end", "read"], ["misc"]),
                                 (["end"], rk)])
            w = {k: 1 for k in ks}
            if rng.random() < 0.3:
                w["end"] = 0.3
        elif focus < 0.7:
            ks = rng.sample(sorted(set(w) - {"end", "sleep"}), rng.choice([1, 2, 2, 3]))
            if rng.random() < 0.5:
                ks.append("end")
            w = {k: w[k] + 0.5 for k in sorted(set(ks))}
        pshared = rng.choice([0.2, 0.7, 1, 1])
        nops = rng.choice([4, 9, 14])
        lo = 1
        if focus < 0.4:
            nops, lo, shared, pshared = 14, 5, rng.choice([1, 1, 2]), 1
            nolim = nolim or rng.random() < 0.4
            nthr = [2, 2, 3]
        else:
            nthr = [1, 2, 2, 2, 3, 4]
        types = rng.choice([[0], [0], [1], [0, 1, 2, 3], [2, 3]])
        ths = []
        for t in range(rng.choice(nthr)):
            ops = []
            for _ in range(rng.randint(lo, nops)):
                k = rng.choices(list(w), weights=list(w.values()))[0]
                key = lambda: ("s%d" % rng.randrange(shared)) if shared and rng.random() < pshared else "t%d_%d" % (t, rng.randrange(100000))
                if k == "attr":
                    ops.append(["attr", [key(), rng.choice(types)]])
                elif k == "attrs":
                    ops.append(["attrs"] + [[key(), rng.choice(types)] for _ in range(rng.randint(1, 3))])
                elif k == "event":
                    ops.append(["event", rng.randint(0, 3), rng.choice(types), int(rng.random() < 0.3)])
                elif k == "link":
                    ops.append(["link", rng.choice([0, 1, 1, 2, 3]), rng.choice(types)])
                elif k == "bad":
                    ops.append(["bad", rng.randrange(5), key()])
                elif k == "status":
                    ops.append(["status", rng.choice(["OK", "ERROR", "ERROR", "UNSET"]), rng.choice([0, 1])])
                elif k == "read":
                    ops.append(["read", rng.choice(rk), key()])
                elif k == "sleep":
                    ops.append(["sleep", rng.choice([0, 1000])])
                else:
                    ops.append([k])
            ths.append(ops)
        cfg = {}
        if not nolim:
            for k in ("attributes", "events", "links"):
                cfg[k] = rng.choice([None, 0, 1, 2, 3, 5])
        for k in ("event_attributes", "link_attributes", "all_attributes"):
            cfg[k] = rng.choice([None, None, None, 1, 2])
        if nolim:
            cfg["all_attributes"] = None
        for k in ("length", "span_length"):
            cfg[k] = rng.choice([None, None, 6, 8])
        return {"limits": cfg, "env": sorted(k for k in cfg if rng.random() < 0.25), "unset": sorted(k for k in cfg if rng.random() < 0.1),
                "init": [["s%d" % i, rng.choice(types)] for i in range(rng.choice([0, 0, 1, 3]))],
                "initlinks": rng.choice([0, 0, 1, 3]), "ila": rng.randrange(4),
                "threads": ths, "how": rng.choice(["end", "end", "with"])}

    # limit -> (argument of SpanLimits, environment variable, limit that is the default)
    LIMITS = {"attributes": ("max_span_attributes", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "all_attributes"),
              "events": ("max_events", "OTEL_SPAN_EVENT_COUNT_LIMIT", None),
              "links": ("max_links", "OTEL_SPAN_LINK_COUNT_LIMIT", None),
              "event_attributes": ("max_event_attributes", "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "all_attributes"),
              "link_attributes": ("max_link_attributes", "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT", "all_attributes"),
              "all_attributes": ("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", None),
              "length": ("max_attribute_length", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None),
              "span_length": ("max_span_attribute_length", "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT", "length")}

    def limits(self, sc):
        """Configures the limits of the scenario; returns (SpanLimits, {limit: value in force})."""
        cfg, args, eff = sc["limits"], {}, {}
        for k, (arg, env, dflt) in self.LIMITS.items():
            os.environ.pop(env, None)
            v = cfg.get(k)
            if v is not None:
                if k in sc["env"]:
                    os.environ[env] = str(v)
                else:
                    args[arg] = v
            elif k in sc["unset"]:
                if k in sc["env"]:
                    os.environ[env] = ""
                else:
                    args[arg] = self.trace.SpanLimits.UNSET
        for k, (arg, env, dflt) in self.LIMITS.items():
            def value(k):
                if cfg.get(k) is not None:
                    return cfg[k]
                if k in sc["unset"]:
                    # the global count limit has a default of its own only for what it bounds itself
                    return "unlimited"
                return None
            v = value(k)
            if v is None:
                d = self.LIMITS[k][2]
                v = value(d) if d else None
                if v == "unlimited" and d == "all_attributes":
                    v = None
                if v is None:
                    v = 128 if k not in ("length", "span_length") else "unlimited"
            eff[k] = None if v == "unlimited" else v
        return self.trace.SpanLimits(**args), eff

    def run(self, run, sc):
        sim = run.sim
        chk = self
        L = sc["limits"]
        ended = []
        started = []

        class P(self.trace.SpanProcessor):
            def on_start(self, span, parent_context=None):
                started.append(span)

            def on_end(self, span):
                ended.append((sim.ev("on_end"), span, chk.snap(span)))

        limits, self.eff = self.limits(sc)
        E = self.eff
        # what the oracles below take for granted about the span itself
        L = {"attributes": E["attributes"], "events": E["events"], "links": E["links"], "ea": E["event_attributes"], "la": E["link_attributes"]}
        os.environ["OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT"] = os.environ["OTEL_LINK_ATTRIBUTE_COUNT_LIMIT"] = "1"   # read when SpanLimits were made, not later
        lim2 = self.trace.SpanLimits(max_link_attributes=1, max_span_attributes=1)
        prov2 = self.trace.TracerProvider(resource=self.res, span_limits=lim2, shutdown_on_exit=False)
        tr2 = prov2.get_tracer("t2")
        prov = self.trace.TracerProvider(resource=self.res, span_limits=limits, shutdown_on_exit=False)
        prov.add_span_processor(P())
        tr = prov.get_tracer("t")
        self.writes = writes = []
        cnt = [0]

        def new(kind, key, val):
            w = W()
            w.kind, w.key, w.val = kind, key, val
            w.resp = 1 << 60
            writes.append(w)
            return w
        uid = lambda: (cnt.__setitem__(0, cnt[0] + 1), cnt[0])[1]

        def sctx():
            i = uid()
            return self.tapi.SpanContext(trace_id=7, span_id=1000 + i, is_remote=False)

        def cut(v, n):
            return v[:n] if isinstance(v, str) and n is not None else v

        def value(typ, n):
            """(value to write, value expected in a span attribute, in an event or link attribute)"""
            i = uid()
            if typ == 0:
                v = i
            elif typ == 1:
                v = "%05d-long" % i
            elif typ == 2:
                v = ["%05d-long" % i, "z" * 9]
            else:
                v = [i, 7, 8]
            if typ < 2:
                return v, cut(v, E["span_length"]), cut(v, E["length"])
            return v, tuple(cut(x, E["span_length"]) for x in v), tuple(cut(x, E["length"]) for x in v)

        def spoil(d):
            """What the caller does later with what it passed."""
            for v in d.values():
                if isinstance(v, list):
                    v[:] = ["spoiled"]
            d.clear()
            d["spoiled"] = 1

        init = {}
        for k, typ in sc["init"]:
            v, sv, _ = value(typ, 0)
            w = new("attr", k, sv)
            w.inv = sim.stamp()
            init[k] = v
        ilinks = []
        iattrs = []
        exp_ev, exp_ln = {}, {}
        for _ in range(sc["initlinks"]):
            c = sctx()
            w = new("link", None, c.span_id)
            w.inv = sim.stamp()
            iattrs.append({"k%d" % i: "%05d-long" % i for i in range(sc["ila"])})
            exp_ln[c.span_id] = {k: cut(v, E["length"]) for k, v in iattrs[-1].items()}
            ilinks.append(self.tapi.Link(c, iattrs[-1]))
        wn = new("name", None, "n0")
        wn.inv = sim.stamp()
        given = 4_000_000_000_000_000_000 if sc["ila"] == 2 else None
        t_inv = sim.now + sim.wall_off - sim.gran_ns
        span = tr.start_span("n0", attributes=init or None, links=ilinks or None, record_exception=True, start_time=given)
        for w in writes:
            w.resp = sim.stamp()
        t_start = sim.now + sim.wall_off
        spoil(init)
        ends = []
        reads = []
        St = self.tapi.Status
        SC = self.tapi.StatusCode

        def step(run_, tid, op):
            k = op[0]
            if k == "attr":
                v, sv, _ = value(op[1][1], 0)
                w = new("attr", op[1][0], sv)
                w.inv = sim.ev("attr", tid, op[1][0], w.val)
                span.set_attribute(op[1][0], v)
                w.resp = sim.stamp()
                spoil({"k": v})
            elif k == "attrs":
                ws = []
                d = {}
                for key, typ in op[1:]:
                    if key in d:
                        continue
                    v, sv, _ = value(typ, 0)
                    w = new("attr", key, sv)
                    d[key] = v
                    ws.append(w)
                inv = sim.ev("attrs", tid, tuple(d))
                for w in ws:
                    w.inv = inv
                span.set_attributes(d)
                r = sim.stamp()
                for w in ws:
                    w.resp = r
                spoil(d)
            elif k == "event":
                n = "e%d" % uid()
                at, ex = {}, {}
                for i in range(op[1]):
                    at["a%d" % i], _, ex["a%d" % i] = value(op[2], 0)
                w = new("event", None, n)
                ts = 6_000_000_000_000_000_000 + uid() if op[3] else None
                exp_ev[n] = x = [ex, ts, sim.now + sim.wall_off - sim.gran_ns, 1 << 63]
                w.inv = sim.ev("event", tid, n)
                span.add_event(n, at if at or op[3] else None, ts)
                w.resp = sim.stamp()
                x[3] = sim.now + sim.wall_off
                spoil(at)
            elif k == "exc":
                n = "x%d" % uid()
                w = new("event", None, n)
                w.inv = sim.ev("exc", tid, n)
                span.record_exception(ValueError(n), attributes={"n": n})
                w.resp = sim.stamp()
            elif k == "link":
                c = sctx()
                w = new("link", None, c.span_id)
                w.inv = sim.ev("link", tid, c.span_id)
                at, ex = {}, {}
                for i in range(op[1]):
                    at["a%d" % i], _, ex["a%d" % i] = value(op[2], 0)
                exp_ln[c.span_id] = ex
                span.add_link(c, at)
                w.resp = sim.stamp()
                spoil(at)
            elif k == "bad":
                # writes that must change nothing
                sim.ev("bad", tid, op[1])
                if L["attributes"] != 0:
                    bad = [("", 1), (op[2], object()), (op[2], [1, "x"]), (op[2], None), (5, 1)][op[1]]
                    span.set_attribute(*bad)
            elif k == "other":
                # another span of another provider, with other limits, is given the same links
                sim.ev("other", tid)
                o = tr2.start_span("o", links=ilinks or None, attributes={"x": 1, "y": 2})
                o.set_attribute("z", 1)
                o.end()
            elif k == "status":
                d = "d%d" % uid()
                w = new("status", op[1], d)
                w.inv = sim.ev("status", tid, op[1], d)
                code = getattr(SC, op[1])
                if op[2]:
                    span.set_status(code, d if op[1] == "ERROR" else None)
                else:
                    span.set_status(St(code, d if op[1] == "ERROR" else None))
                w.resp = sim.stamp()
            elif k == "name":
                w = new("name", None, "n%d" % uid())
                w.inv = sim.ev("name", tid, w.val)
                span.update_name(w.val)
                w.resp = sim.stamp()
            elif k == "sleep":
                time.sleep(op[1] / 1e9)
            elif k == "end":
                e = {"arg": 5_000_000_000_000_000_000 + uid(), "resp": 1 << 60}
                e["inv"] = sim.ev("end", tid, e["arg"])
                ends.append(e)
                span.end(e["arg"])
                e["resp"] = sim.ev("ended", tid)
            elif k == "read":
                self.read(run, sim, span, op, reads, writes, ends, L)

        if sc["how"] == "with":
            e = {"arg": None, "resp": 1 << 60, "exc": True}
            try:
                with span:
                    common.clients(run, sc["threads"], step)
                    wx = new("event", None, "exception")
                    ws = new("status", "ERROR", "KeyError: 'boom'")
                    # __exit__ looks at is_recording before it records: bound to the end call
                    e["inv"] = wx.inv = ws.inv = sim.ev("exit")
                    ends.append(e)
                    raise KeyError("boom")
            except KeyError:
                e["resp"] = wx.resp = ws.resp = sim.ev("exited")
        else:
            common.clients(run, sc["threads"], step)
            step(run, -1, ["end"])
        for d in iattrs:
            spoil(d)
        self.verify(run, sim, sc, span, ended, started, ends, writes, L)
        first = ended[0][2]
        if given is not None and first["start"] != given or given is None and not t_inv <= first["start"] <= t_start:
            run.violate("start-time", "start time is %r, given %r" % (first["start"], given))
        for n, a, ts, dr in first["events"]:
            if n not in exp_ev:
                continue
            ex, want, lo, hi = exp_ev[n]
            self.attrs(run, "event", a, dr, ex, L["ea"])
            if ts != want if want is not None else not lo <= ts <= hi:
                run.violate("event-time", "event %s has timestamp %r, given %r, added within %r..%r" % (n, ts, want, lo, hi))
        for c, a, dr in first["links"]:
            self.attrs(run, "link", a, dr, exp_ln[c], L["la"])
        run.nontrivial = sim.preempts > 0

    @staticmethod
    def attrs(run, what, got, dropped, exp, lim):
        for k, v in got.items():
            if exp.get(k) != v or type(exp[k]) is not type(v):
                run.violate("alien-attr", "%s attribute %r is %r, written %r" % (what, k, v, exp.get(k)))
        n = len(exp) if lim is None else min(lim, len(exp))
        if len(got) != n or dropped != len(exp) - n:
            run.violate("count-attr", "%s has %d attributes and %d dropped of %d written, limit %r" % (what, len(got), dropped, len(exp), lim))

    @staticmethod
    def snap(s):
        return {
            "name": s.name, "attrs": dict(s.attributes or {}), "events": [(e.name, dict(e.attributes or {}), e.timestamp, e.attributes.dropped if hasattr(e.attributes, "dropped") else 0) for e in s.events],
            "links": [(l.context.span_id, dict(l.attributes or {}), l.dropped_attributes) for l in s.links], "status": (s.status.status_code.name, s.status.description),
            "start": s.start_time, "end": s.end_time, "da": s.dropped_attributes, "de": s.dropped_events, "dl": s.dropped_links,
        }

    def read(self, run, sim, span, op, reads, writes, ends, L):
        inv = sim.stamp()
        what, key = op[1], op[2]
        rec0 = span.is_recording()
        if rec0 is False and not ends:
            run.violate("not-recording", "is_recording() is False before any end()")
        if rec0 is True and any(e["resp"] < inv for e in ends):
            run.violate("recording-after-end", "is_recording() is True after end() returned")
        if what == "attr":
            must = [w for w in writes if w.kind == "attr" and w.key == key and w.resp < inv]
            end_inv = min([e["inv"] for e in ends] or [1 << 60])
            must = [w for w in must if w.resp < end_inv]
            got = span.attributes.get(key)
            if got is None and must and (L["attributes"] is None or L["attributes"] >= 100):
                run.violate("read-missing", "attribute %r was set but a reader does not find it" % key)
            if got is not None and not any(w.key == key and w.val == got for w in writes if w.kind == "attr"):
                run.violate("read-garbage", "reader sees %r=%r which nobody wrote" % (key, got))
            if got is not None and must:
                mine = [w for w in writes if w.kind == "attr" and w.val == got][0]
                if any(w.inv > mine.resp for w in must):
                    run.violate("read-stale", "reader sees an overwritten value of %r" % key)
        elif what == "keys":
            ks = list(span.attributes)
            if len(ks) != len(set(ks)) or (L["attributes"] is not None and len(ks) > L["attributes"]):
                run.violate("read-over-limit", "reader sees attribute keys %r, limit %r" % (ks, L["attributes"]))
            if L["attributes"] is None:
                dict(span.attributes)
        elif what == "events":
            ev = [e.name for e in span.events]
            if L["events"] is not None and len(ev) > L["events"]:
                run.violate("read-over-limit", "reader sees %d events, limit %d" % (len(ev), L["events"]))
        elif what == "links":
            l = [x.context.span_id for x in span.links]
            if L["links"] is not None and len(l) > L["links"]:
                run.violate("read-over-limit", "reader sees %d links, limit %d" % (len(l), L["links"]))
        else:
            span.name, span.status.description, span.end_time, span.start_time, span.get_span_context()
            if span.status.status_code.name == "OK":
                if not any(w.kind == "status" and w.key == "OK" for w in writes):
                    run.violate("read-garbage", "status OK nobody set")

    def verify(self, run, sim, sc, span, ended, started, ends, writes, L):
        V = run.violate
        if len(started) != 1:
            V("on-start-count", "on_start called %d times" % len(started))
        if len(ended) != 1:
            V("on-end-count", "%d end() calls notified the processor %d times" % (len(ends), len(ended)))
        seq, rs, first = ended[0]
        now = self.snap(rs)
        if now != first:
            d = {k: (first[k], now[k]) for k in now if now[k] != first[k]}
            V("mutated-after-end", "the exported span changed after it ended: %r" % (d,))
        live = self.snap(span)
        if live != first:
            d = {k: (first[k], live[k]) for k in now if live[k] != first[k]}
            V("mutated-after-end", "the span changed after it ended: %r" % (d,))
        # which end won
        min_resp = min(e["resp"] for e in ends)
        cands = [e for e in ends if e["inv"] < min_resp]
        with_end = any(e["arg"] is None for e in cands)
        if not with_end and first["end"] not in [e["arg"] for e in cands]:
            V("end-time", "end time %r is not that of the first end() call" % first["end"])
        if not any(e["inv"] < seq < e["resp"] for e in cands):
            V("on-end-late", "on_end was not delivered during the end() call that ended the span")
        e_inv = min(e["inv"] for e in ends)
        e_resp = min_resp

        def classify(kind, pred=lambda w: True):
            ws = [w for w in writes if w.kind == kind and pred(w)]
            return [w for w in ws if w.resp < e_inv], [w for w in ws if w.inv < e_resp]
        # events / links
        for kind, lim, kept, dropped in (("event", L["events"], [dict(a).get("n", n) if n == "exception" else n for n, a, _, _ in first["events"]], first["de"]),
                                         ("link", L["links"], [l[0] for l in first["links"]], first["dl"])):
            must, may = classify(kind)
            if len(set(kept)) != len(kept):
                V("dup-" + kind, "duplicated %ss: %r" % (kind, kept))
            alls = {w.val: w for w in may}
            if kind == "event" and L["ea"] is not None:
                # the marker of an exception event may have been evicted by the attribute limit
                kept = [k for k in kept if k in alls or k != "exception"]
                nk = len(first["events"])
            else:
                nk = len(kept)
            for k in kept:
                if k not in alls:
                    V("alien-" + kind, "exported span has %s %r which was not written before end" % (kind, k))
            lim_ = 1 << 30 if lim is None else lim
            if nk > lim_:
                V("over-limit", "%d %ss kept, limit %d" % (nk, kind, lim_))
            if not (len(must) <= nk + dropped <= len(may)):
                V("count-" + kind, "%d %ss kept + %d reported dropped, but %d..%d were written" % (nk, kind, dropped, len(must), len(may)))
            if nk < min(lim_, nk + dropped):
                V("dropped-early", "%d %ss kept and %d dropped with limit %d" % (nk, kind, dropped, lim_))
            if not (kind == "event" and L["ea"] is not None):
                for w in must:
                    if w.val not in kept:
                        later = [x for x in may if x is not w and x.resp > w.inv]
                        if len(later) < lim_:
                            V("lost-" + kind, "%s %r written before end is missing" % (kind, w.val))
            for i in range(len(kept)):
                for j in range(i + 1, len(kept)):
                    if alls[kept[j]].resp < alls[kept[i]].inv:
                        V("order-" + kind, "%s %r precedes %r though it was written later" % (kind, kept[i], kept[j]))
        # attributes
        must, may = classify("attr")
        byval = {w.val: w for w in may}
        lim = 1 << 30 if L["attributes"] is None else L["attributes"]
        a = first["attrs"]
        if len(a) > lim:
            V("over-limit", "%d attributes kept, limit %d" % (len(a), lim))
        for k, v in a.items():
            w = byval.get(v)
            if w is None or w.key != k:
                V("alien-attr", "exported attribute %r=%r was not written before end" % (k, v))
            if any(x.key == k and x.inv > w.resp for x in must):
                V("stale-attr", "exported attribute %r has an overwritten value" % k)
        if first["da"] == 0 and L["attributes"] != 0:
            for w in must:
                if w.key not in a:
                    V("lost-attr", "attribute %r written before end is missing" % w.key)
        nk = len({w.key for w in must})
        nmay = len({w.key for w in may})
        if len(a) + first["da"] < nk:
            V("count-attr", "%d attributes kept + %d dropped < %d distinct keys written" % (len(a), first["da"], nk))
        if len({w.key for w in may}) == len(may) and not (len(must) <= len(a) + first["da"] <= len(may)):
            V("count-attr", "%d attributes kept + %d dropped, %d..%d written" % (len(a), first["da"], len(must), len(may)))
        if len(a) + first["da"] > len(may) or (nmay <= lim and first["da"]):
            V("count-attr", "%d attributes kept + %d dropped, at most %d written with limit %d" % (len(a), first["da"], len(may), lim))
        if len(a) < min(lim, nk):
            V("dropped-early", "%d attributes kept of %d with limit %d" % (len(a), nk, lim))
        # name
        must, may = classify("name")
        w = [x for x in may if x.val == first["name"]]
        if not w or any(x.inv > w[0].resp for x in must):
            V("name", "exported name %r is not the last one set" % first["name"])
        # status
        must, may = classify("status", lambda w: w.key != "UNSET")
        code, desc = first["status"]
        if any(w.key == "OK" for w in must) and code != "OK":
            V("status-ok-lost", "status OK was replaced by %r" % (first["status"],))
        if code == "UNSET" and must:
            V("status-lost", "status is UNSET though %r was set" % [(w.key, w.val) for w in must])
        if code == "OK" and not any(w.key == "OK" for w in may):
            V("status-alien", "status OK was never set")
        if code == "ERROR":
            w = [x for x in may if x.key == "ERROR" and x.val == desc]
            if not w:
                V("status-alien", "status %r was never set" % (first["status"],))
            elif any(x.inv > w[0].resp for x in must):
                V("status-stale", "status %r was replaced before end" % (first["status"],))


CHECK = C06()
