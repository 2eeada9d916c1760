import asyncio
import re
import threading
import time
from urllib.parse import quote, quote_plus, unquote, unquote_plus

from sim import aio
from sim.check import Check, MS, SEC
from . import common

A = "/repo/opentelemetry-api/src/opentelemetry/"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
P = "/repo/propagator/"

T, T2, SP = "0af7651916cd43dd8448eb211c80319c", "4bf92f3577b34da6a3ce929d0e0e4736", "b7ad6b7169203331"
TPS = ["ff-%s-%s-01" % (T, SP), "01-%s-%s-01-extra" % (T, SP), "01-%s-%s-01" % (T, SP), "00-%s-%s-01-x" % (T, SP), "00-%s-%s-01" % ("0" * 32, SP),
       "00-%s-%s-01" % (T, "0" * 16), "00-%s-%s-ff" % (T, SP), "00-%s-%s-00" % (T, SP), "00-%s-%s-02" % (T, SP), "00-%s-%s-03" % (T, SP),
       "00-%s-%s-01" % (T.upper(), SP), "", "garbage", "00-%s-%s" % (T, SP), "00-%s-%s-1" % (T, SP), "cc-%s-%s-09-what" % (T, SP),
       "00-%s-%s-01-" % (T, SP), "x00-%s-%s-01" % (T, SP), "00-%s0-%s-01" % (T, SP), "00-%s-%s0-01" % (T, SP), " 00-%s-%s-01 " % (T, SP)]
B3S = ["0", "1", "d", "%s-%s" % (T, SP), "%s-%s-1-%s" % (T, SP, SP), "%s-%s-1" % (T[:16], SP), "%s-%s-d" % (T, SP), "%s-%s-0" % (T, SP),
       "%s-%s-1" % ("0" * 32, SP), "%s-%s-1" % (T, "0" * 16), "%s-%s-1-%s-x" % (T, SP, SP), "g", "", "%s-%s-1" % (T.upper(), SP), "-", "--", "%s-%s-1" % (T[:31], SP)]
IDS = [T, T[:16], T2, "0" * 32, "", "zz", T + "0", T.upper()]
SIDS = [SP, "0" * 16, "", SP[:15], SP.upper(), SP + "0", "xyz"]
JGS = ["%s:%s:0:1" % (T, SP), "%s:%s:0:0" % (T, SP), "%s:%s:0:3" % (T, SP), "%s:%s:0:2" % (T, SP), "1:2:0:1", "%s:%s:0" % (T, SP), "%s:%s:0:zz" % (T, SP), "0:0:0:1",
       "%sff:%s:0:1" % (T, SP), "%s:%sff:0:1" % (T, SP), ":::", "", "%s:%s:0:1:1" % (T, SP), "%s:0:0:1" % T, "0:%s:0:1" % SP, "-1:-2:0:1"]
TSS = ["a=1", "a=1,b=2", "a=1,,b=2", "UP=1,b=2", "noeq", "a=1,b", "a=1,a=2", "=1", "", ",".join("k%d=%d" % (i, i) for i in range(33)),
       ",".join("k%d=%d" % (i, i) for i in range(32)), "a=1 , b=2", "t@v=1,x=2"]
BGS = ["k1=v1", "k1=v1,k2=v2", "=v", "novalue", "k1=v1,novalue,k2=v2", "k1=a%20b", "k1=%E2%82%AC", "k1=v1,=x,k3=v3", "", "k1=" + "x" * 5000 + ",k2=v2", "k1=" + "x" * 9000,
       ",".join("m%d=%d" % (i, i) for i in range(185)), ",".join("l%d=%s" % (i, "x" * 100) for i in range(90)), "k1=v1,k1=v2", "k1=%zz,k2=v2", "k1=v1;p=1,k2=v2", "k=a=b"]
HDR = {"traceparent": TPS, "b3": B3S, "x-b3-traceid": IDS, "x-b3-spanid": SIDS, "x-b3-sampled": ["0", "1", "d", "true", ""], "x-b3-flags": ["1", "0"],
       "uber-trace-id": JGS, "tracestate": TSS, "baggage": BGS, "uberctx-k1": ["j1", "a%20b", "", "a+b", "100%25+1"], "x-uberctx-k2": ["q"]}
BAGKEYS = ["k1", "k2", "user id", "k,ey=;", "kü", "uberctx-q", " sp"]
BAGVALS = ["v", "two words", "a=b;c,d", "ünï", "", "100%", "x+y", "0", " lead", "trail\t"]


class Sp:
    """A span context as the wire formats see it."""
    __slots__ = ("t", "s", "f", "ts", "remote", "parent")

    def __init__(self, t, s, f, ts=(), remote=True, parent=0):
        self.t, self.s, self.f, self.ts, self.remote, self.parent = t, s, f, tuple(ts), remote, parent

    def key(self):
        return self.t, self.s, self.f, self.ts

    def __repr__(self):
        return "%032x-%016x-%02x %r" % (self.t, self.s, self.f, self.ts)


# ---- reference model of the wire formats --------------------------------------------------------
def first(h, k):
    v = h.get(k)
    return v[0] if isinstance(v, list) and v else v


def odd(s):
    """White space or characters outside of ASCII, on which the formats are silent."""
    return any(ord(c) <= 32 or ord(c) > 126 for c in s)


def dec_ts(h):
    """Returns the possible trace states, None for anything made of members of the header."""
    v = h.get("tracestate")
    if v is None:
        return [()]
    out, unsure = [], False
    for x in v if isinstance(v, list) else [v]:
        for mem in x.split(","):
            st = mem.strip(" \t")
            if not st:
                unsure = unsure or bool(mem)
                continue
            if "=" not in st or st[0] == "=" or st[0].isupper():
                return [()]
            k, val = st.split("=", 1)
            if st != mem or not re.fullmatch("[a-z][a-z0-9_*/-]{0,30}", k) or not re.fullmatch("[A-Za-z0-9_.:-]{1,30}", val):
                unsure = True
            if k in [a for a, _ in out]:
                return [()]
            out.append((k, val))
    if len(out) > 32:
        return [()]
    return [tuple(out), ()] if unsure else [tuple(out)]


def dec_tc(h):
    v = first(h, "traceparent")
    if not v:
        return [None]
    m = re.fullmatch("([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})(-.*)?", v.strip(), re.S)
    if not m or m[1] == "ff" or m[1] == "00" and m[5] is not None or not int(m[2], 16) or not int(m[3], 16):
        return [None]
    out = [Sp(int(m[2], 16), int(m[3], 16), int(m[4], 16), ts) for ts in dec_ts(h)]
    return out + [None] if odd(v) else out


def b3_ids(t, s):
    if not re.fullmatch("[0-9a-fA-F]{16}|[0-9a-fA-F]{32}", t) or not re.fullmatch("[0-9a-fA-F]{16}", s) or not int(t, 16) or not int(s, 16):
        return None
    return int(t, 16), int(s, 16)


def dec_b3(h):
    one = first(h, "b3")
    if one:
        fs = one.split("-")
        ids = b3_ids(*fs[:2]) if 2 <= len(fs) <= 4 else None
        if ids:
            st = fs[2] if len(fs) > 2 else None
            fl = {"1": [1], "d": [1], "0": [0]}.get(st, [0, 1])
            return [Sp(*ids, f) for f in fl]
    t, s, sa, fl = (first(h, "x-b3-" + k) or "" for k in ("traceid", "spanid", "sampled", "flags"))
    ids = b3_ids(t, s)
    if not ids:
        return [None]
    fs = [1] if fl == "1" else {"1": [1], "0": [0]}.get(sa, [0, 1])
    out = [Sp(*ids, f) for f in fs]
    return out + [None] if one else out


def dec_jg(h):
    v = first(h, "uber-trace-id")
    if not v:
        return [None]
    fs = v.split(":")
    if len(fs) != 4:
        return [None]
    m = [re.fullmatch("[0-9a-f]{1,%d}" % n, x) for n, x in zip((32, 16, 16, 2), fs)]
    try:
        t, s, f = int(fs[0], 16), int(fs[1], 16), int(fs[3], 16)
    except ValueError:
        return [None]
    if not 0 < t < 2 ** 128 or not 0 < s < 2 ** 64:
        return [None]
    out = [Sp(t, s, f & 1)]
    return out if all(m) else out + [None]


def dec_bg(h, jg):
    """What must be in the baggage, and what may."""
    must, may = {}, {}
    if jg and "uber-trace-id" in h:
        for k in h:
            if k.startswith("uberctx-"):
                v = first(h, k)
                if first(h, "uber-trace-id") and v.strip() == v:
                    must[k[8:]] = unquote(v)
                else:
                    may[k[8:]] = {unquote(v), unquote(v.strip()), unquote(v).strip(), None}
    return must, may


def dec_w3c(h, must, may):
    v = first(h, "baggage")
    if not v or len(v) > 8192:
        if v and len(v.encode()) <= 8200:
            may.update(dict.fromkeys(must))
        return
    n = 0
    for e in v.split(","):
        if not e or "=" not in e or e[0] == "=" or len(e) > 4096:
            continue
        k, x = e.split("=", 1)
        n += 1
        key, val = unquote_plus(k.strip()), unquote_plus(x.strip())
        sure = re.fullmatch("[A-Za-z0-9_.+%-]+", k) and re.fullmatch("([A-Za-z0-9_.+-]|%[0-9A-Fa-f]{2})*", x) and e.strip() == e
        if n > 180:
            may.setdefault(key, set()).add(val)
            may[key].add(must.get(key))
        elif sure and (key not in may):
            must[key] = val
        else:
            may.setdefault(key, set()).update([val, must.pop(key, None)])


DEC = {"tc": dec_tc, "b3": dec_b3, "b3s": dec_b3, "jg": dec_jg}


def enc(p, sp, bag):
    """Headers the propagator p must write for a span context."""
    if p == "bg":
        return {}
    if sp is None:
        return {}
    t, s, sa = "%032x" % sp.t, "%016x" % sp.s, sp.f & 1
    if p == "tc":
        h = {"traceparent": "00-%s-%s-%02x" % (t, s, sp.f)}
        if sp.ts:
            h["tracestate"] = ",".join("%s=%s" % x for x in sp.ts)
        return h
    if p == "b3":
        return {"x-b3-traceid": t, "x-b3-spanid": s, "x-b3-sampled": str(sa)}
    if p == "b3s":
        return {"b3": "%s-%s-%d" % (t, s, sa)}
    h = {"uber-trace-id": "%s:%s:%016x:%02x" % (t, s, sp.parent, sp.f | 2 if sa else sp.f)}
    for k, v in bag.items():
        h["uberctx-" + k] = quote(str(v))
    return h


class C25(Check):
    ID = "C25"
    RUNS = {"quick": 8000, "thorough": 300000}
    PREFIXES = [A + "context/", A + "trace/", A + "propagat", A + "baggage/", S + "trace/", P]
    REAL = ["W3C trace context, baggage, B3 (single and multi header) and Jaeger propagators, composite propagator, context and baggage API, TraceState, SDK tracers, "
            "samplers and id generators of every service, API-only tracer"]
    STUB = ["network between the services (delay, loss, duplication, reordering, corrupted headers)", "service bodies", "recording span processor",
            "asyncio selector and clock", "thread scheduler", "source of random ids (seeded)"]
    RULE = ("A case is 2-5 services with their own propagators, samplers and worker threads or asyncio loop, 1-4 client programs of nested spans, baggage changes and calls, "
            "and a fault plan for the messages; non-trivial = a message was lost, duplicated, delayed past its timeout or corrupted, or a thread preempted.")

    def setup(self):
        from opentelemetry import baggage, context, trace as tapi
        from opentelemetry.baggage.propagation import W3CBaggagePropagator
        from opentelemetry.propagators import b3, composite, jaeger
        from opentelemetry.sdk import resources, trace
        from opentelemetry.sdk.trace import sampling
        from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
        self.baggage, self.capi, self.tapi, self.trace, self.sampling = baggage, context, tapi, trace, sampling
        self.composite = composite.CompositePropagator
        self.props = {"tc": TraceContextTextMapPropagator, "bg": W3CBaggagePropagator, "b3": b3.B3MultiFormat, "b3s": b3.B3SingleFormat, "jg": jaeger.JaegerPropagator}
        self.res = resources.Resource.get_empty()

    # ---- generation -----------------------------------------------------------------------------
    def gen_sampler(self, rng, deep=True):
        r = rng.random()
        if deep and r < 0.6:
            d = [self.gen_sampler(rng, False)]
            for _ in range(4):
                d.append(self.gen_sampler(rng, False) if rng.random() < 0.25 else None)
            return ["pb"] + d
        return rng.choice([["on"], ["on"], ["off"], ["ratio", rng.choice([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1])], ["ratio", rng.choice([0.3, 0.5, 0.7])], ["rec"], ["ts", rng.choice("pq")]])

    def gen_props(self, rng, core):
        ps = list(core)
        for p in ("tc", "b3", "b3s", "jg", "bg"):
            if p not in ps and rng.random() < 0.12:
                ps.insert(rng.randrange(len(ps) + 1), p)
        if len(ps) > 1 and rng.random() < 0.1:
            ps.pop(rng.randrange(len(ps)))
        if rng.random() < 0.1:
            rng.shuffle(ps)
        return ps

    def prog(self, rng, depth):
        out = []
        for _ in range(rng.randint(1, 4 if depth < 2 else 2)):
            if self.left <= 0:
                break
            self.left -= 1
            r = rng.random()
            if depth < 4 and r < 0.25:
                out.append(["span", rng.choice(["cur", "cur", "use", "link"]), self.prog(rng, depth + 1)])
            elif depth < 5 and r < 0.6:
                out.append(["call", rng.randrange(self.nsvc), self.prog(rng, depth + 1), rng.choice([50, 1000, 1000, 5000]) * MS, rng.choice([0, 0, 1, 2]), int(rng.random() < 0.5)])
            elif r < 0.72:
                out.append(["bag", rng.choice(BAGKEYS), rng.choice(BAGVALS)])
            elif r < 0.76:
                out.append(["unbag", rng.choice(BAGKEYS)])
            elif r < 0.82:
                out.append(["state", rng.choice(["add", "update", "delete"]), rng.choice(["ka", "kb", "kc/d*-_"]), rng.choice(["1", "x:y", "~"])])
            elif r < 0.9:
                out.append(["sleep", rng.choice([0, 1, 10, 100]) * MS])
            else:
                out.append(["leaf"])
        return out

    def gen_mut(self, rng):
        r = rng.random()
        if r < 0.5:
            k = rng.choice(list(HDR))
            return ["set", k, rng.choice(HDR[k])]
        h = rng.randrange(6)
        if r < 0.62:
            return ["drop", h]
        if r < 0.72:
            return ["trunc", h, rng.randrange(60)]
        if r < 0.85:
            return ["chr", h, rng.randrange(60), rng.choice("0f-:gGZ=,; %~\u00e9")]
        if r < 0.9:
            return ["upper", h]
        if r < 0.95:
            k = rng.choice(list(HDR))
            return ["list", h, rng.choice(HDR[k])]
        return ["also", rng.choice(["tracestate", "baggage"]), rng.choice(TSS + BGS)]

    def gen(self, rng, tier):
        self.left = rng.choice([8, 16, 26])
        self.nsvc = rng.choice([2, 2, 3, 3, 4, 5])
        core = rng.choice([["tc", "bg"], ["tc", "bg"], ["tc", "bg"], ["b3", "bg"], ["b3s", "bg"], ["jg"], ["tc"], ["tc", "b3", "bg"], ["jg", "bg", "tc"], ["bg", "tc", "jg", "b3s"]])
        svcs = []
        for _ in range(self.nsvc):
            svcs.append({"props": self.gen_props(rng, core), "sampler": self.gen_sampler(rng), "workers": rng.choice([1, 1, 2, 3]), "async": int(rng.random() < 0.3),
                         "api": int(rng.random() < 0.12), "how": rng.choice(["attach", "attach", "attach", "context", "pass"]), "poll": int(rng.random() < 0.2)})
        cl = [{"svc": rng.randrange(self.nsvc), "prog": [["span", "cur", self.prog(rng, 0)]] if rng.random() < 0.7 else self.prog(rng, 0)} for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        net = []
        pf = rng.choice([0, 0, 0.3, 0.6])
        for _ in range(rng.randint(1, 12)):
            f = {"delay": rng.choice([0, 1, 1, 5, 20]) * MS}
            if rng.random() < pf:
                f[rng.choice(["loss", "rloss", "dup", "late", "mut", "mut", "mut", "mut"])] = 1
                if "dup" in f:
                    f["dup"] = [rng.choice([0, 1, 30, 2000]) * MS for _ in range(rng.choice([1, 1, 2]))]
                if "late" in f:
                    f["delay"] = rng.choice([60, 1500, 7000]) * MS
                if "mut" in f:
                    f["mut"] = [self.gen_mut(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            net.append(f)
        return {"svcs": svcs, "clients": cl, "net": net}

    def run(self, run, sc):
        common.guard(run, St(self, run, sc).go)()


CHECK = C25()


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("suspended")


class Ctx:
    """What the code running in a service must see: its current span and baggage."""
    __slots__ = ("sp", "bag")

    def __init__(self, sp=None, bag=None):
        self.sp, self.bag = sp, bag or {}


class Msg:
    def __init__(self, n, headers, prog, clean):
        self.n, self.headers, self.prog, self.clean, self.done, self.wake = n, headers, prog, clean, False, None


class Svc:
    def __init__(self, st, n, d):
        chk = st.chk
        self.st, self.n, self.d = st, n, d
        self.prop = chk.composite([chk.props[p]() for p in d["props"]])
        self.started, self.ended = {}, []
        if d["api"]:
            self.tracer = chk.tapi.NoOpTracerProvider().get_tracer("svc%d" % n)
        else:
            svc = self

            class Proc(chk.trace.SpanProcessor):
                def on_end(self, span):
                    svc.ended.append(span.context.span_id)
                    st.sim.point("on_end")
            self.tp = chk.trace.TracerProvider(sampler=self.sampler(d["sampler"]), resource=chk.res, shutdown_on_exit=False)
            self.tp.add_span_processor(Proc())
            self.tracer = self.tp.get_tracer("svc%d" % n)
        self.cv = threading.Condition(threading.Lock())
        self.inbox, self.stop, self.loop, self.loop_up = [], False, None, threading.Event()

    def sampler(self, d):
        c, sm = self.st.chk, self.st.chk.sampling
        if d is None:
            return None
        if d[0] == "on":
            return sm.ALWAYS_ON
        if d[0] == "off":
            return sm.ALWAYS_OFF
        if d[0] == "ratio":
            return sm.TraceIdRatioBased(d[1])
        if d[0] == "pb":
            kw = {k: self.sampler(x) for k, x in zip(("remote_parent_sampled", "remote_parent_not_sampled", "local_parent_sampled", "local_parent_not_sampled"), d[2:]) if x}
            return sm.ParentBased(self.sampler(d[1]), **kw)

        class Own(sm.Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                ts = c.tapi.get_current_span(parent_context).get_span_context().trace_state
                if d[0] == "ts":
                    return sm.SamplingResult(sm.Decision.RECORD_AND_SAMPLE, attributes, ts.update(d[1], "s") if ts else c.tapi.TraceState([(d[1], "s")]))
                return sm.SamplingResult(sm.Decision.RECORD_ONLY, attributes, ts)

            def get_description(self):
                return "own"
        return Own()

    def decide(self, parent, d=None):
        """The sampler that decides about a span with this parent."""
        d = d or self.d["sampler"]
        if d[0] != "pb":
            return d
        if parent is None:
            return d[1]
        i = (2 if parent.remote else 4) + (0 if parent.f & 1 else 1)
        return d[i] or (["on"] if parent.f & 1 else ["off"])

    def put(self, due, m):
        with self.cv:
            self.inbox.append((due, m.n, m))
            self.cv.notify_all()

    def worker(self):
        st = self.st
        while True:
            with self.cv:
                while True:
                    now = st.sim.now
                    rdy = [x for x in self.inbox if x[0] <= now]
                    if rdy:
                        x = min(rdy, key=lambda x: x[:2])
                        self.inbox.remove(x)
                        break
                    if self.stop and not self.inbox:
                        return
                    self.cv.wait((min(x[0] for x in self.inbox) - now) / 1e9 if self.inbox else None)
            drive(self.st.serve(self, x[2], False))

    def aworker(self):
        st = self.st

        async def main():
            loop = asyncio.get_running_loop()
            tasks = []
            ev = asyncio.Event()
            self.loop = (loop, ev)
            self.loop_up.set()
            while True:
                ev.clear()
                with self.cv:
                    now = st.sim.now
                    rdy = sorted([x for x in self.inbox if x[0] <= now], key=lambda x: x[:2])
                    self.inbox = [x for x in self.inbox if x[0] > now]
                    nxt = min([x[0] for x in self.inbox], default=None)
                    if self.stop and not self.inbox and not rdy:
                        break
                for x in rdy:
                    tasks.append(loop.create_task(st.serve(self, x[2], True)))
                if rdy:
                    continue
                try:
                    await asyncio.wait_for(ev.wait(), None if nxt is None else (nxt - now) / 1e9)
                except asyncio.TimeoutError:
                    pass
            for t in tasks:
                await t
        aio.run(main())

    def kick(self):
        with self.cv:
            self.cv.notify_all()
        if self.d["async"]:
            self.loop_up.wait()
            try:
                self.loop[0].call_soon_threadsafe(self.loop[1].set)
            except RuntimeError:
                pass


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.ids, self.traces, self.nmsg, self.ratio = set(), set(), 0, {}

    def V(self, cls, msg):
        self.run.violate(cls, msg)

    def go(self):
        self.svcs = [Svc(self, n, d) for n, d in enumerate(self.sc["svcs"])]
        ws = []
        for s in self.svcs:
            for _ in range(1 if s.d["async"] else s.d["workers"]):
                ws.append(threading.Thread(target=common.guard(self.run, s.aworker if s.d["async"] else s.worker)))
        for w in ws:
            w.start()
        cs = [threading.Thread(target=common.guard(self.run, self.client), args=(c,)) for c in self.sc["clients"]]
        for c in cs:
            c.start()
        for c in cs:
            c.join()
        # messages may still be under way, and handling them may send more
        time.sleep(60)
        while any(s.inbox for s in self.svcs):
            time.sleep(60)
        time.sleep(60)
        for s in self.svcs:
            s.stop = True
            s.kick()
        for w in ws:
            w.join()
        for s in self.svcs:
            for i, rec in s.started.items():
                n = s.ended.count(i)
                if n != int(rec):
                    self.V("recorded", "service %d: span %016x was given to the processor %d times, must be %d" % (s.n, i, n, rec))

    def client(self, c):
        svc = self.svcs[c["svc"] % len(self.svcs)]
        ctx = Ctx()
        self.check(ctx, "client start")
        drive(self.exec(svc, c["prog"], ctx, False))

    # ---- what the running code sees -------------------------------------------------------------
    def check(self, ctx, where):
        c = self.chk
        self.sim.point("check")
        got = c.tapi.get_current_span().get_span_context()
        if ctx.sp is None:
            if got.is_valid:
                self.V("current", "%s: span %016x is current, must be none" % (where, got.span_id))
        elif (got.trace_id, got.span_id, int(got.trace_flags), tuple(got.trace_state.items())) != ctx.sp.key():
            self.V("current", "%s: current span is %032x-%016x-%02x %r, must be %r" % (where, got.trace_id, got.span_id, got.trace_flags, dict(got.trace_state), ctx.sp))
        b = dict(c.baggage.get_all())
        if b != ctx.bag:
            self.V("baggage", "%s: baggage is %r, must be %r" % (where, b, ctx.bag))

    async def exec(self, svc, prog, ctx, a):
        toks = []
        try:
            for op in prog:
                self.sim.ev("op", svc.n, op[0])
                ctx = await getattr(self, "op_" + op[0])(svc, ctx, a, toks, *op[1:]) or ctx
                self.check(ctx, "service %d after %s" % (svc.n, op[0]))
        finally:
            for t in reversed(toks):
                self.chk.capi.detach(t)

    def model(self, svc, par, sp, root=False):
        """Check a span that was just started against its parent; returns its model."""
        got = sp.get_span_context()
        if svc.d["api"]:
            if par is None:
                if got.is_valid:
                    self.V("api-only", "service %d without SDK started span %016x" % (svc.n, got.span_id))
                return None
            if (got.trace_id, got.span_id, int(got.trace_flags), tuple(got.trace_state.items())) != par.key():
                self.V("api-only", "service %d without SDK must pass %r on, has %032x-%016x-%02x" % (svc.n, par, got.trace_id, got.span_id, got.trace_flags))
            return par
        d = svc.decide(par)
        if d[0] == "ratio":
            sampled = got.trace_flags.sampled
            rec = sampled
            for r, y in self.ratio.setdefault(got.trace_id, []):
                if (y and r <= d[1] and not sampled) or (not y and r >= d[1] and sampled):
                    self.V("ratio", "trace %032x: ratio %s sampled=%s but ratio %s sampled=%s" % (got.trace_id, r, y, d[1], sampled))
            self.ratio[got.trace_id].append((d[1], sampled))
            if d[1] in (0, 1) and sampled != (d[1] == 1):
                self.V("ratio", "ratio %s sampled=%s" % (d[1], sampled))
        else:
            sampled, rec = d[0] in ("on", "ts"), d[0] != "off"
        ts = list(par.ts) if par else []
        if d[0] == "ts":
            ts = [(d[1], "s")] + [x for x in ts if x[0] != d[1]]
            if len(ts) > 32:
                ts = []
        w = "service %d: span %016x" % (svc.n, got.span_id)
        if not got.is_valid or got.is_remote:
            self.V("context", "%s has context %r" % (w, got))
        if got.span_id in self.ids:
            self.V("unique", "%s: its id is not new" % w)
        self.ids.add(got.span_id)
        if par is None:
            if got.trace_id in self.traces or "%032x" % got.trace_id in (T, T2):
                self.V("new-trace", "%s has no parent but is in the trace %032x of another span" % (w, got.trace_id))
            self.traces.add(got.trace_id)
        elif got.trace_id != par.t:
            self.V("trace", "%s is in trace %032x, its parent in %032x" % (w, got.trace_id, par.t))
        if got.trace_flags.sampled != sampled or sp.is_recording() != rec:
            self.V("sampled", "%s sampled=%s recording=%s, sampler %r with parent %r says %s %s" % (w, got.trace_flags.sampled, sp.is_recording(), d, par, sampled, rec))
        if list(got.trace_state.items()) != ts:
            self.V("tracestate", "%s has trace state %r, must be %r" % (w, dict(got.trace_state), ts))
        if rec:
            p = sp.parent
            if par is None:
                if p is not None and p.is_valid:
                    self.V("parent", "%s has parent %016x, must have none" % (w, p.span_id))
            elif p is None or (p.trace_id, p.span_id, int(p.trace_flags), tuple(p.trace_state.items())) != par.key() or bool(p.is_remote) != par.remote:
                self.V("parent", "%s has parent %r, must be %r remote=%s" % (w, p, par, par.remote))
        svc.started[got.span_id] = rec
        return Sp(got.trace_id, got.span_id, int(got.trace_flags), ts, False, par.s if par and rec else 0)

    # ---- operations -----------------------------------------------------------------------------
    async def op_span(self, svc, ctx, a, toks, how, prog):
        nm = "span"
        if how == "cur":
            with svc.tracer.start_as_current_span(nm) as sp:
                await self.inner(svc, ctx, sp, prog, a)
        else:
            links = []
            if how == "link" and ctx.sp is not None:
                links = [self.chk.tapi.Link(self.chk.tapi.get_current_span().get_span_context())]
            sp = svc.tracer.start_span(nm, links=links)
            with self.chk.tapi.use_span(sp, end_on_exit=True):
                await self.inner(svc, ctx, sp, prog, a)

    async def inner(self, svc, ctx, sp, prog, a):
        c2 = Ctx(self.model(svc, ctx.sp, sp), ctx.bag)
        self.check(c2, "service %d in span" % svc.n)
        await self.exec(svc, prog, c2, a)
        self.check(c2, "service %d at the end of a span" % svc.n)

    async def op_leaf(self, svc, ctx, a, toks):
        sp = svc.tracer.start_span("leaf")
        self.model(svc, ctx.sp, sp)
        sp.end()

    async def op_sleep(self, svc, ctx, a, toks, ns):
        await self.pause(ns, a)

    async def pause(self, ns, a):
        if a:
            await asyncio.sleep(ns / 1e9)
        else:
            time.sleep(ns / 1e9)

    async def op_bag(self, svc, ctx, a, toks, k, v):
        c = self.chk
        toks.append(c.capi.attach(c.baggage.set_baggage(k, v)))
        return Ctx(ctx.sp, {**ctx.bag, k: v})

    async def op_unbag(self, svc, ctx, a, toks, k):
        c = self.chk
        toks.append(c.capi.attach(c.baggage.remove_baggage(k)))
        return Ctx(ctx.sp, {x: y for x, y in ctx.bag.items() if x != k})

    async def op_state(self, svc, ctx, a, toks, how, k, v):
        """Continue with a changed trace state, as instrumentation of another vendor may."""
        if ctx.sp is None:
            return None
        c = self.chk
        sc = c.tapi.get_current_span().get_span_context()
        old = list(ctx.sp.ts)
        have = k in [x for x, _ in old]
        rest = [x for x in old if x[0] != k]
        if how == "delete":
            ts, new = sc.trace_state.delete(k), rest
        elif how == "update":
            ts, new = sc.trace_state.update(k, v), [(k, v)] + rest
        else:
            ts, new = sc.trace_state.add(k, v), old if have or len(old) >= 32 else [(k, v)] + rest
        if len(new) > 32:
            new = []
        if list(ts.items()) != new:
            self.V("tracestate", "%s %s=%s of %r gave %r" % (how, k, v, old, dict(ts)))
        if list(sc.trace_state.items()) != old:
            self.V("tracestate", "%s changed the trace state it was called on" % how)
        sp = c.tapi.NonRecordingSpan(c.tapi.SpanContext(sc.trace_id, sc.span_id, sc.is_remote, sc.trace_flags, ts))
        toks.append(c.capi.attach(c.tapi.set_span_in_context(sp)))
        return Ctx(Sp(ctx.sp.t, ctx.sp.s, ctx.sp.f, new, ctx.sp.remote, 0), ctx.bag)

    async def op_call(self, svc, ctx, a, toks, to, prog, timeout, retries, span):
        to = self.svcs[to % len(self.svcs)]
        for n in range(retries + 1):
            if span:
                with svc.tracer.start_as_current_span("call", kind=self.chk.tapi.SpanKind.CLIENT) as sp:
                    c2 = Ctx(self.model(svc, ctx.sp, sp), ctx.bag)
                    ok = await self.send(svc, c2, a, to, prog, timeout)
            else:
                ok = await self.send(svc, ctx, a, to, prog, timeout)
            self.check(ctx, "service %d after a request" % svc.n)
            if ok:
                break

    async def send(self, svc, ctx, a, to, prog, timeout):
        h = {}
        try:
            svc.prop.inject(h)
        except Exception as e:
            self.V("inject-raises", "inject of %r raised %r" % (svc.d["props"], e))
        self.check(ctx, "service %d after inject" % svc.n)
        self.check_headers(svc, ctx, h)
        net = self.sc["net"]
        self.nmsg += 1
        f = net[self.nmsg % len(net)] if net and self.nmsg < 60 else {"delay": 0}
        clean = "mut" not in f
        for mu in f.get("mut") or []:
            self.sim.fault("header-" + mu[0])
            h = mutate(h, mu)
        m = Msg(self.nmsg, h, prog, clean)
        self.sim.ev("send", m.n, svc.n, to.n)
        cv = threading.Condition(threading.Lock())
        box = []
        if a:
            loop = asyncio.get_running_loop()
            fut = loop.create_future()

            def wake():
                try:
                    loop.call_soon_threadsafe(lambda: fut.done() or fut.set_result(1))
                except RuntimeError:
                    pass
        else:
            def wake():
                with cv:
                    box.append(1)
                    cv.notify_all()
        m.wake = wake
        if f.get("rloss"):
            self.sim.fault("response-lost")
            m.wake = None
        if f.get("late"):
            self.sim.fault("message-late")
        now = self.sim.now
        if f.get("loss"):
            self.sim.fault("message-lost")
        else:
            to.put(now + f["delay"], m)
        if self.nmsg < 40:
            for x in f.get("dup") or []:
                self.sim.fault("message-duplicated")
                to.put(now + f["delay"] + x, m)
        to.kick()
        if a:
            try:
                await asyncio.wait_for(fut, timeout / 1e9)
                return True
            except asyncio.TimeoutError:
                return False
        with cv:
            end = self.sim.now + timeout
            while not box and self.sim.now < end:
                cv.wait((end - self.sim.now) / 1e9)
            return bool(box)

    def check_headers(self, svc, ctx, h):
        want = {}
        for p in svc.d["props"]:
            want.update(enc(p, ctx.sp, ctx.bag))
        got = dict(h)
        bg = got.pop("baggage", None)
        if got != want:
            self.V("headers", "service %d injected %r, must be %r" % (svc.n, got, want))
        if "bg" in svc.d["props"] and ctx.bag:
            d = {}
            for e in (bg or "").split(","):
                if "=" in e:
                    k, v = e.split("=", 1)
                    d[unquote_plus(k)] = unquote_plus(v)
            if d != ctx.bag or len((bg or "").split(",")) != len(d):
                self.V("headers", "service %d injected baggage %r for %r" % (svc.n, bg, ctx.bag))
            if bg and not re.fullmatch(r"[\x21-\x7e]*", bg):
                self.V("headers", "service %d injected baggage %r, which is no header value" % (svc.n, bg))
        elif bg is not None:
            self.V("headers", "service %d injected baggage %r for %r" % (svc.n, bg, ctx.bag))

    # ---- the receiving side ---------------------------------------------------------------------
    async def serve(self, svc, m, a):
        c = self.chk
        self.check(Ctx(), "service %d between requests" % svc.n)
        self.sim.ev("serve", m.n, svc.n)
        if svc.d["poll"] and not svc.d["api"]:
            with svc.tracer.start_as_current_span("poll") as sp:
                c2 = Ctx(self.model(svc, None, sp))
                tok = c.capi.attach(c.baggage.set_baggage("polling", "1"))
                ctx, mod = self.extract(svc, m)
                c.capi.detach(tok)
                self.check(c2, "service %d after extract" % svc.n)
        else:
            ctx, mod = self.extract(svc, m)
        self.check(Ctx(), "service %d after extract" % svc.n)
        how = svc.d["how"]
        kind = c.tapi.SpanKind.SERVER
        if how == "context":
            with svc.tracer.start_as_current_span("serve", context=ctx, kind=kind) as sp:
                c2 = Ctx(self.model(svc, mod.sp, sp))
                self.check(c2, "service %d in its server span" % svc.n)
                await self.exec(svc, m.prog, c2, a)
        else:
            tok = c.capi.attach(ctx)
            try:
                self.check(mod, "service %d with the extracted context" % svc.n)
                if how == "pass":
                    await self.exec(svc, m.prog, mod, a)
                else:
                    with svc.tracer.start_as_current_span("serve", kind=kind) as sp:
                        c2 = Ctx(self.model(svc, mod.sp, sp), mod.bag)
                        self.check(c2, "service %d in its server span" % svc.n)
                        await self.exec(svc, m.prog, c2, a)
                    self.check(mod, "service %d after its server span" % svc.n)
            finally:
                c.capi.detach(tok)
        self.check(Ctx(), "service %d after a request" % svc.n)
        if m.wake:
            m.wake()

    def extract(self, svc, m):
        c = self.chk
        h = {k: list(v) if isinstance(v, list) else v for k, v in m.headers.items()}
        try:
            ctx = svc.prop.extract(h)
        except Exception as e:
            self.V("extract-raises", "extract of %r by %r raised %r" % (m.headers, svc.d["props"], e))
        if h != m.headers:
            self.V("extract-changes", "extract changed the headers %r" % (m.headers,))
        cands, must, may = [None], {}, {}
        for p in svc.d["props"]:
            if p == "bg":
                dec_w3c(h, must, may)
                continue
            new = DEC[p](h)
            cands = [x for x in new if x is not None] + (cands if None in new else [])
            if p == "jg":
                mu, ma = dec_bg(h, True)
                for k, v in mu.items():
                    must[k] = v
                    may.pop(k, None)
                for k, v in ma.items():
                    may.setdefault(k, set()).update(v | {must.pop(k, None)})
        w = "service %d %r: %r" % (svc.n, svc.d["props"], m.headers)
        got = c.tapi.get_current_span(ctx).get_span_context()
        sp = None
        if got.is_valid:
            key = (got.trace_id, got.span_id, int(got.trace_flags), tuple(got.trace_state.items()))
            sp = next((x for x in cands if x is not None and x.key() == key), None)
            if sp is None or not got.is_remote:
                self.V("extracted", "%s was read as %032x-%016x-%02x %r, must be %r" % (w, *key[:3], key[3], cands))
        elif None not in cands:
            self.V("extracted", "%s was read as no span, must be %r" % (w, cands))
        bag = dict(c.baggage.get_all(ctx))
        for k, v in must.items():
            if bag.get(k, self) != v and not (k in may and bag.get(k) in may[k]):
                self.V("extracted-baggage", "%s: baggage %r is %r, must be %r" % (w, k, bag.get(k), v))
        for k, v in bag.items():
            if k not in must and v not in may.get(k, ()):
                self.V("extracted-baggage", "%s: baggage %r=%r is not in the headers" % (w, k, v))
        return ctx, Ctx(sp, bag)


def mutate(h, mu):
    h = dict(h)
    op = mu[0]
    if op in ("set", "also"):
        k, v = mu[1:]
        if op == "also" and isinstance(h.get(k), str):
            v = [h[k], v]
        h[k] = v
        return h
    ks = sorted(h)
    if not ks:
        return h
    k = ks[mu[1] % len(ks)]
    v = first(h, k)
    if op == "drop":
        del h[k]
    elif op == "trunc":
        h[k] = v[:mu[2] % (len(v) + 1)]
    elif op == "chr" and v:
        i = mu[2] % len(v)
        h[k] = v[:i] + mu[3] + v[i + 1:]
    elif op == "upper":
        h[k] = v.upper()
    elif op == "list":
        h[k] = [v, mu[2]]
    return h
