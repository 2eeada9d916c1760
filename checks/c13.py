from sim.check import MS, SEC
from .metrics import MetricsCheck, State, SYNC, BIG, canon


class C13(MetricsCheck):
    ID = "C13"
    RUNS = {"quick": 8000, "thorough": 350000}
    STALLS = False
    RULE = ("A case is a provider with 1-3 readers and 1-4 instruments with seeded exemplar filter and reservoirs, threads that record "
            "inside and outside of spans (current or in an explicit context) and collect, and a seeded schedule; non-trivial = threads were preempted.")

    def gen(self, rng, tier):
        sc = super().gen(rng, tier)
        sc["exemplar"] = rng.choice(["on", "on", "on", "trace", "trace", "off"])
        for d in sc["insts"]:
            d["res"] = rng.choice([None, None, 1, 2, 3, 5])
            if rng.random() < 0.5:
                d["view"] = rng.choice(["k", "both"])
        ps = rng.choice([0.2, 0.5, 0.8])
        for t in sc["threads"]:
            for o in t:
                if o[0] == "rec":
                    o.append(rng.choice([1, 1, 2, 3, 4, 5]) if rng.random() < ps else 0)
        return sc

    def make(self, run, sc):
        return S(self, run, sc)


class S(State):
    def view_kw(self, d):
        X = self.chk.exemplar
        if d["res"] and d["kind"] in ("counter", "updown", "gauge"):
            return {"exemplar_reservoir_factory": lambda agg: lambda **kw: X.SimpleFixedSizeExemplarReservoir(size=d["res"], **kw)}
        return {}

    def step(self, run, tid, op):
        if op[0] != "rec" or len(op) < 5 or not op[4]:
            return super().step(run, tid, op)
        T, K = self.chk.tapi, self.chk.capi
        k = op[4]
        self.nspan = getattr(self, "nspan", 0) + 1
        sampled = k != 3
        ids = (1000 + self.nspan, 5000 + self.nspan, sampled)
        sp = T.NonRecordingSpan(T.SpanContext(ids[0], ids[1], False, T.TraceFlags(int(sampled))))
        if k in (1, 3):
            with T.use_span(sp):
                self.rec(op[1], op[2], op[3], tid, span=ids)
        elif k == 2:
            self.rec(op[1], op[2], op[3], tid, ctx=T.set_span_in_context(sp, K.Context()), span=ids)
        elif k == 4:
            with T.use_span(sp):
                self.rec(op[1], op[2], op[3], tid, ctx=K.Context())
        else:
            with T.use_span(sp):
                with T.use_span(T.INVALID_SPAN):
                    self.rec(op[1], op[2], op[3], tid)

    def sampled(self, m):
        f = self.sc["exemplar"]
        return f == "on" or (f == "trace" and m.span is not None and m.span[2])

    def bucket(self, d, v):
        b = d["bounds"]
        if b is None:
            b = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)
        return sum(1 for x in b if v > x)

    def check(self):
        for n, d in enumerate(self.sc["insts"]):
            for name, keyf in self.streams(n):
                keys = {}
                for m in self.ms[n]:
                    keys.setdefault(keyf(m), []).append(m)
                for k, ms in keys.items():
                    for r in range(len(self.readers)):
                        self.check_ex(r, n, d, (name, k), ms)

    def check_ex(self, r, n, d, key, ms):
        V = lambda cls, msg: self.run.violate(cls, "reader %d %s%r: %s" % (r, key[0], key[1], msg))
        hist = d["kind"] in ("hist", "exp")
        delta = self.is_delta(r, d)
        gran = self.sim.gran_ns
        used = {}
        cs = [c for c in self.cs[r] if key in c.pts]
        # order of the collections: by what they contain (cumulative) or any (delta)
        contents = {}
        for c in cs:
            p = c.pts[key][0]
            if d["kind"] != "gauge":
                S = self.decode(n, p.sum if hist else p.value, ms)
                if S is None:
                    return      # C08's business
                contents[c] = S
        prev, group = {}, {}
        if d["kind"] != "gauge" and not delta:
            # collections with the same content (zeros aside, which leave no trace in it) may have come in any order
            done, last = set(), None
            for c in sorted(cs, key=lambda c: (len(contents[c]) + self.zeros(c.pts[key][0], contents[c]), c.inv)):
                mine = (frozenset(m.j for m in contents[c]), self.zeros(c.pts[key][0], contents[c]))
                if mine != last:
                    before, last, members = set(done), mine, []
                members.append(c)
                group[c] = members
                prev[c] = before
                done |= mine[0]
        for c in cs:
            p = c.pts[key][0]
            fresh = None
            if d["kind"] != "gauge":
                fresh = [m for m in contents[c] if m.j not in prev.get(c, ())]
            attrs = dict(p.attributes or {})
            seen = set()
            for e in sorted(p.exemplars, key=lambda e: e.time_unix_nano):
                if self.sc["exemplar"] == "off":
                    V("filter", "exemplar although the filter is always off")
                cand = [m for m in ms if m.val == e.value]
                if not cand:
                    V("alien-exemplar", "exemplar value %r was never recorded in this stream" % (e.value,))
                if len(cand) > 1:
                    # equal (zero) values: one of them must agree in everything
                    good = [m for m in cand if self.agrees(m, e, attrs, d, gran, c) is None and id(m) not in seen]
                    if not good:
                        V("mixed-exemplar", "no recorded zero has the attributes, time and span of exemplar %r" % (e,))
                    seen.add(id(min(good, key=lambda m: m.w_resp)))
                    continue
                m = cand[0]
                why = self.agrees(m, e, attrs, d, gran, c)
                if why:
                    V("mixed-exemplar", "exemplar of measurement %d %s: %r" % (m.j, why, e))
                if id(m) in seen or m.j in used:
                    V("exemplar-twice", "measurement %d is an exemplar of two collections" % m.j)
                seen.add(id(m))
                used[m.j] = c
                if fresh is not None and m not in fresh and not m.zero:
                    V("wrong-cycle", "exemplar of measurement %d is not in the collection cycle of its point" % m.j)
            have = [e for x in group.get(c, [c]) for e in x.pts[key][0].exemplars]
            if d["kind"] == "hist":
                bs = [self.bucket(d, e.value) for e in p.exemplars]
                if len(set(bs)) != len(bs):
                    V("bucket-twice", "two exemplars in one bucket")
                want = {self.bucket(d, m.val) for m in fresh if self.sampled(m)}
                bs = {self.bucket(d, e.value) for e in have}
                if not want <= bs:
                    V("no-exemplar", "buckets %r have no exemplar" % sorted(want - bs))
            else:
                size = min(20, d["max_size"]) if d["kind"] == "exp" else (d["res"] or 1)
                if len(p.exemplars) > size:
                    V("too-many", "%d exemplars in a reservoir of size %d" % (len(p.exemplars), size))
                if fresh and len(have) < min(size, len([m for m in fresh if self.sampled(m) and not m.zero])):
                    V("no-exemplar", "%d exemplars in a reservoir of size %d for a cycle with %d sampled measurements" % (
                        len(have), size, len([m for m in fresh if self.sampled(m)])))

    def zeros(self, p, S):
        return p.count - len(S) if hasattr(p, "count") else 0

    def agrees(self, m, e, attrs, d, gran, c):
        if m.inv > c.resp:
            return "was recorded after the collection"
        if not self.sampled(m):
            return "was not sampled"
        if not m.w_inv - gran < e.time_unix_nano <= m.w_resp:
            return "has another time"
        want = {"k": self.aval(m.a)} if m.a != 3 else {}
        if d["view"]:
            want["x"] = m.x
        want = {k: v for k, v in want.items() if k not in attrs}
        if canon(e.filtered_attributes) != canon(want):
            return "has other attributes (expected %r)" % (want,)
        if m.span is None:
            if e.span_id is not None or e.trace_id is not None:
                return "carries a span it was not recorded in"
        elif (e.trace_id, e.span_id) != m.span[:2]:
            return "carries another span (expected %r)" % (m.span,)
        return None


CHECK = C13()
