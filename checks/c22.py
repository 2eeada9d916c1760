import asyncio
import threading
import time

from sim import aio
from sim.check import Check, MS
from . import common
from .metrics import BIG

A = "/repo/opentelemetry-api/src/opentelemetry/"
S = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/"
SHIM = "/repo/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/"


Boom = common.Boom


class Quit(BaseException):
    pass


class Rec:
    def __init__(self, n):
        self.n, self.ids, self.parent, self.shim, self.otel, self.links = n, None, None, None, None, []
        self.fin = BIG              # when the call that ends the span began
        self.writes = []            # (kind, key, value, returned at)
        self.exc = [0, 0]           # exception events: at least, at most
        self.start = self.end = self.tags = None
        self.bags = {}


class C22(Check):
    ID = "C22"
    RUNS = {"quick": 8000, "thorough": 300000}
    PREFIXES = [SHIM, A + "context/", A + "trace/__init__.py", A + "util/_decorator.py", S + "trace/__init__.py"]
    STALLS = False
    REAL = ["OpenTracing shim (tracer, scope manager, scopes, spans, contexts), opentracing base classes, context API over contextvars, SDK tracer and spans, "
            "asyncio tasks and timers"]
    STUB = ["asyncio selector and clock (virtual time)", "recording span processor", "thread scheduler"]
    RULE = ("A case is 1-4 threads, some of which run an asyncio loop with several tasks, each a tree of nested shim scopes and OpenTelemetry spans "
            "(activated through either API), starts with explicit parents, awaits, raises and extra closes, with seeded cancellations; "
            "non-trivial = a thread was preempted, a task cancelled or a block left by an exception.")

    def setup(self):
        import opentracing
        from opentelemetry import trace as tapi, context as capi
        from opentelemetry.sdk import trace, resources
        from opentelemetry.shim import opentracing_shim
        self.ot, self.tapi, self.capi, self.trace, self.shim = opentracing, tapi, capi, trace, opentracing_shim
        self.res = resources.Resource.get_empty()
        self.key = capi.create_key("c22")

    # ---- generation -----------------------------------------------------------------------
    def gen(self, rng, tier):
        self.left = rng.choice([10, 20, 35])
        ths = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            a = rng.random() < 0.5
            ths.append({"async": int(a), "prog": self.prog(rng, a, 0)})
        return {"threads": ths, "tracers": rng.choice([1, 1, 2])}

    def parent(self, rng):
        return rng.choice(["-", "-", "-", "-", "ignore", "span", "ctx", "ref", "ref+", "ignore+span", "span+ref", "wire", "wire+ref", "nowire"]), rng.randrange(8)

    def prog(self, rng, a, depth):
        out = []
        for _ in range(rng.randint(1, 4 if depth < 3 else 2)):
            if self.left <= 0:
                break
            self.left -= 1
            r = rng.random()
            if depth < 4 and r < 0.40:
                how = rng.choice(["activate", "active_span", "active_span"])
                out.append(["scope", how, rng.choice(["with", "with", "close", "early", "twice"]), int(rng.random() < 0.6), rng.choice([0, 0, 0, 1, 2]),
                            rng.randrange(2), *self.parent(rng), self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.52:
                out.append(["otel", rng.choice(["cur", "use", "reuse", "ctx"]), rng.choice([0, 0, 0, 1, 2]), rng.randrange(8), self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.56:
                out.append(["val", self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.575:
                out.append(["handle", self.prog(rng, a, depth + 1)])
            elif depth < 4 and r < 0.59:
                out.append(["thread", self.prog(rng, False, depth + 1)])
            elif a and depth < 4 and r < 0.70:
                out.append(["task", self.prog(rng, a, depth + 1), rng.choice([None, None, 0, 0, 1, 5, 30])])
            elif r < 0.80:
                out.append(["write", rng.choice(["tag", "tag", "kv", "kv", "name", "bag", "bag"]), rng.randrange(8), rng.choice([-1, -1, 0, 1, 2, 3])])
            elif r < 0.86:
                out.append(["pause", rng.choice([0, 0, 1, 5, 20]) * MS])
            else:
                out.append(["start", rng.randrange(2), *self.parent(rng)])
        return out

    def run(self, run, sc):
        common.guard(run, St(self, run, sc).go)()


CHECK = C22()


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("suspended")


class M:
    """Active span of the running thread or task, and its context value."""
    __slots__ = ("rec", "val")

    def __init__(self, rec=None, val=None):
        self.rec, self.val = rec, val


class St:
    def __init__(self, chk, run, sc):
        self.chk, self.run, self.sc, self.sim = chk, run, sc, run.sim
        self.recs, self.ended, self.extra, self.nval = [], [], [], 0
        self.out = {}

    def go(self):
        chk, st = self.chk, self

        class P(chk.trace.SpanProcessor):
            def on_end(self, span):
                st.ended.append((span.context.trace_id, span.context.span_id))
                st.out[st.ended[-1]] = span
                st.sim.point("on_end")
        self.tp = chk.trace.TracerProvider(resource=chk.res, shutdown_on_exit=False)
        self.tp.add_span_processor(P())
        self.tr = self.tp.get_tracer("t")
        self.sh = [chk.shim.create_tracer(self.tp) for _ in range(self.sc["tracers"])]
        ths = [threading.Thread(target=common.guard(self.run, self.thread), args=(t,)) for t in self.sc["threads"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for t in self.extra:
            t.join()
        self.check(M(), "main at the end")
        for r in self.recs:
            if r.ids and self.ended.count(r.ids) != 1:
                self.run.violate("finished-once", "span %d was ended %d times" % (r.n, self.ended.count(r.ids)))
            if r.ids and r.shim:
                self.data(r, self.out[r.ids])

    def thread(self, t):
        self.check(M(), "thread start")
        if t["async"]:
            async def main():
                await self.top(t["prog"], M(), True)
            aio.run(main())
        else:
            drive(self.top(t["prog"], M(), False))
        self.check(M(), "thread end")

    async def top(self, prog, m, a):
        tasks = []
        try:
            await self.exec(prog, m, a, tasks)
        except (Boom, Quit):
            pass
        finally:
            self.check(m, "end of program")
        while tasks:
            t = tasks.pop()
            try:
                await t
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
            self.check(m, "after await of a task")

    # ---- what is visible ------------------------------------------------------------------
    def name(self, ids):
        if ids is None:
            return "none"
        for r in self.recs:
            if r.ids == ids:
                return "span %d" % r.n
        return "unknown %x/%x" % ids

    def check(self, m, where):
        c = self.chk
        V = self.run.violate
        self.sim.point("check")
        want = m.rec.ids if m.rec else None
        before = c.capi.get_current()

        def ids(sc):
            return (sc.trace_id, sc.span_id) if sc is not None and sc.is_valid else None
        got = ids(c.tapi.get_current_span().get_span_context())
        if got != want:
            V("otel-current", "%s: OpenTelemetry says that %s is current, must be %s" % (where, self.name(got), self.name(want)))
        for sh in self.sh:
            sp = sh.active_span
            got = ids(sp.unwrap().get_span_context()) if sp is not None else None
            if got != want:
                V("shim-active", "%s: the shim says that %s is active, must be %s" % (where, self.name(got), self.name(want)))
            if sp is not None and ids(sp.context.unwrap()) != want:
                V("shim-active", "%s: the context of the active span is %s, must be %s" % (where, self.name(ids(sp.context.unwrap())), self.name(want)))
            s = sh.scope_manager.active
            if (s is None) != (sp is None) or s is not None and ids(s.span.unwrap().get_span_context()) != want:
                V("shim-scope", "%s: the active scope is not that of the active span" % where)
        if c.capi.get_value(c.key) != m.val:
            V("context-value", "%s: context value is %r, must be %r" % (where, c.capi.get_value(c.key), m.val))
        if c.capi.get_current() is not before:
            V("read-changes", "%s: asking for the active span changed the context" % where)

    # ---- the interpreter ------------------------------------------------------------------
    async def exec(self, prog, m, a, tasks):
        for op in prog:
            self.sim.ev("op", op[0])
            await getattr(self, "op_" + op[0])(m, a, tasks, *op[1:])
            self.check(m, "after " + op[0])

    def parent(self, m, how, k):
        """-> keyword arguments, expected parent record, expected links"""
        kw, par, links = {}, m.rec, []
        known = [r for r in self.recs if r.shim is not None]
        if "ignore" in how:
            kw["ignore_active_span"] = True
            par = None
        if known and how != "-":
            r = known[k % len(known)]
            if "wire" in how:
                ctx = self.wire(None if how == "nowire" else r, k)
                if how == "wire":
                    kw["child_of"], par = ctx, r
                else:
                    kw["references"] = [self.chk.ot.child_of(ctx)]
                    if how == "wire+ref":
                        links, par = [r], r
            elif "span" in how:
                kw["child_of"], par = r.shim, r
                if "ref" in how:
                    x = known[(k + 1) % len(known)]
                    kw["references"], links = [self.chk.ot.follows_from(x.shim.context)], [x]
            elif "ctx" in how:
                kw["child_of"], par = r.shim.context, r
            elif "ref" in how:
                mk = self.chk.ot.follows_from if k % 2 else self.chk.ot.child_of
                rs = [r] + ([known[(k + 1) % len(known)]] if how == "ref+" else [])
                kw["references"] = [mk(x.shim.context) for x in rs]
                links, par = rs, r
        return kw, par, links

    def wire(self, r, k):
        """The context of a span, sent in a carrier to another service."""
        V = self.run.violate
        ot, sh = self.chk.ot, self.sh[k % len(self.sh)]
        F = ot.Format
        fmt = F.HTTP_HEADERS if k % 2 else F.TEXT_MAP
        carrier, before = {}, self.chk.capi.get_current()
        try:
            sh.inject(r.shim.context if r else None, F.BINARY, bytearray())
            V("wire", "a context was injected into an unsupported format")
        except ot.UnsupportedFormatException:
            pass
        if r is not None:
            sh.inject(r.shim.context, fmt, carrier)
        ctx = sh.extract(fmt, dict(carrier))
        if self.chk.capi.get_current() is not before:
            V("read-changes", "injecting or extracting a context changed the current context")
        c = ctx.unwrap() if ctx is not None else None
        if r is None:
            if c is not None and c.is_valid:
                V("wire", "an empty carrier stands for %s" % self.name((c.trace_id, c.span_id)))
            return ctx
        o = r.otel.get_span_context()
        if c is None or (c.trace_id, c.span_id, c.trace_flags, c.trace_state) != (o.trace_id, o.span_id, o.trace_flags, o.trace_state) or not c.is_remote:
            V("wire", "context %r of span %d came out of the carrier %r as %r" % (o, r.n, carrier, c))
        return ctx

    def options(self, r, kw):
        """Tags and start time of some spans."""
        if r.n % 3 == 0:
            r.tags = kw["tags"] = {"t0": r.n, "t1": "x%d" % r.n}
        if r.n % 4 == 1:
            r.start = 1600000000.25 + r.n
            kw["start_time"] = r.start
        return kw

    def data(self, r, span):
        V = self.run.violate
        near = lambda ns, s: abs(ns - s * 1e9) < 2000
        if r.start is not None and not near(span.start_time, r.start):
            V("start-time", "span %d started with start_time %r has %r" % (r.n, r.start, span.start_time))
        if r.end is not None and not near(span.end_time, r.end):
            V("end-time", "span %d finished with finish_time %r has %r" % (r.n, r.end, span.end_time))
        tags = dict(r.tags or {})
        must = dict(tags)
        names, evs, musts = ["s%d" % r.n], {}, []
        for kind, key, val, resp in r.writes:
            if kind == "tag":
                tags[key] = val
                if resp < r.fin:
                    must[key] = val
            elif kind == "name":
                names.append(key)
            elif kind == "kv":
                evs[key] = val
                if resp < r.fin:
                    musts.append(key)
        got = dict(span.attributes)
        for k in set(got) | set(must):
            if got.get(k) != must.get(k) and got.get(k) != tags.get(k):
                V("tags", "span %d has tag %s=%r, set to %r" % (r.n, k, got.get(k), tags.get(k)))
        if span.name not in names or span.name == names[0] and [1 for w in r.writes if w[0] == "name" and w[3] < r.fin]:
            V("name", "span %d is called %r, names set %r" % (r.n, span.name, names))
        ev = [e for e in span.events if e.name != "exception"]
        seen = []
        for e in ev:
            u = e.attributes.get("u")
            seen.append(u)
            if u not in evs:
                V("log", "span %d has an event nobody logged: %r" % (r.n, e.name))
            name, kv, ts = evs[u]
            if e.name != name or dict(e.attributes) != kv or ts is not None and not near(e.timestamp, ts):
                V("log", "event %r logged to span %d at %r became %r %r %r" % (kv, r.n, ts, e.name, dict(e.attributes), e.timestamp))
        if len(set(seen)) != len(seen) or not set(musts) <= set(seen):
            V("log", "events %r were logged to span %d, it has %r" % (musts, r.n, seen))
        n = len(span.events) - len(ev)
        if not r.exc[0] <= n <= r.exc[1]:
            V("exception-event", "span %d has %d exception events, %d..%d exceptions left its scopes" % (r.n, n, *r.exc))
        if r.exc[0] and span.status.status_code.name != "ERROR":
            V("status", "span %d, whose scope was left by an exception, has status %s" % (r.n, span.status.status_code.name))
        for k, v in r.bags.items():
            if r.shim.get_baggage_item(k) != v or r.shim.context.baggage is None:
                V("baggage", "baggage item %s of span %d is %r, set to %r" % (k, r.n, r.shim.get_baggage_item(k), v))

    async def op_write(self, m, a, tasks, what, k, ts):
        known = [r for r in self.recs if r.shim is not None]
        if not known:
            return
        r = known[k % len(known)] if k < 5 or m.rec is None or m.rec.shim is None else m.rec
        self.nval += 1
        u = self.nval
        if what == "tag":
            w = ["tag", "w%d" % u if u % 2 else "t0", u, BIG]
            if w[1] == "t0" and r.n % 3 == 0 and self.sc["threads"][1:]:
                w[1] = "w%d" % u
            if w[1] == "t0" and any(x[1] == "t0" for x in r.writes):
                w[1] = "w%d" % u
            if w[1] == "t0" and (len(self.sc["threads"]) > 1 or self.extra):
                w[1] = "w%d" % u
            r.writes.append(w)
            r.shim.set_tag(w[1], w[2])
        elif what == "name":
            w = ["name", "n%d" % u, None, BIG]
            r.writes.append(w)
            r.shim.set_operation_name(w[1])
        elif what == "kv":
            kv = {"u": u, "p": "q"}
            if u % 3:
                kv["event"] = "e%d" % u
            t = 1650000000.5 + u if ts > 0 else None
            w = ["kv", u, (kv.get("event", "log"), dict(kv), t), BIG]
            r.writes.append(w)
            r.shim.log_kv(kv, t)
            kv["u"] = "later"
        else:
            w = ["bag", None, None, BIG]
            r.shim.set_baggage_item("b%d" % u, "v%d" % u)
            r.bags["b%d" % u] = "v%d" % u
            if r.shim.get_baggage_item("b%d" % u) != "v%d" % u:
                self.run.violate("baggage", "baggage item b%d of span %d is %r" % (u, r.n, r.shim.get_baggage_item("b%d" % u)))
        w[3] = self.sim.stamp()
        self.check(m, "after " + what)

    def new(self):
        r = Rec(len(self.recs))
        self.recs.append(r)
        return r

    def started(self, r, otel, par, links=(), shim=None):
        V = self.run.violate
        c = otel.get_span_context()
        r.otel = otel
        r.ids = (c.trace_id, c.span_id)
        p = otel.parent
        got = (p.trace_id, p.span_id) if p is not None else None
        want = par.ids if par else None
        if got != want:
            V("parent", "parent of span %d is %s, must be %s" % (r.n, self.name(got), self.name(want)))
        if want and want[0] != c.trace_id:
            V("trace-id", "span %d is not in the trace of its parent" % r.n)
        ls = [(x.context.trace_id, x.context.span_id) for x in otel.links]
        if ls != [x.ids for x in links]:
            V("links", "span %d has links %r" % (r.n, [self.name(x) for x in ls]))
        r.shim = shim

    def boom(self, boom, nm):
        if boom:
            self.sim.fault("block-raises")
            raise (Boom if boom == 1 else Quit)(nm)

    async def op_scope(self, m, a, tasks, how, leave, finish, boom, tr, ph, pk, body):
        V = self.run.violate
        sh = self.sh[tr % len(self.sh)]
        r = self.new()
        nm = "s%d" % r.n
        kw, par, links = self.parent(m, ph, pk)
        self.options(r, kw)
        if how == "activate":
            sp = sh.start_span(nm, **kw)
            self.started(r, sp.unwrap(), par, links, sp)
            self.check(m, "after start_span")
            scope = sh.scope_manager.activate(sp, bool(finish))
        else:
            scope = sh.start_active_span(nm, finish_on_close=bool(finish), **kw)
            self.started(r, scope.span.unwrap(), par, links, scope.span)
        m2 = M(r, m.val)

        def alive(where):
            if not r.otel.is_recording() or r.ids in self.ended:
                V("finished-early", "span %d is ended %s" % (r.n, where))

        async def inner():
            try:
                self.check(m2, "in scope")
                if sh.scope_manager.active is not scope:
                    V("shim-scope", "the active scope is not the one just opened")
                await self.exec(body, m2, a, tasks)
                alive("inside its scope")
                self.boom(boom, nm)
            except Exception:
                if leave == "with":
                    r.exc[0] += 1
                r.exc[1] += 1
                raise
            finally:
                if finish:
                    r.fin = min(r.fin, self.sim.stamp())
        try:
            if leave == "with":
                with scope:
                    await inner()
            elif leave == "early":
                with scope:
                    try:
                        await inner()
                    finally:
                        scope.close()
                        self.check(m, "after close inside with")
            else:
                try:
                    await inner()
                finally:
                    scope.close()
                    if leave == "twice":
                        self.check(m, "after close")
                        scope.close()
        except BaseException as e:
            self.left(r, m, finish, e)
            if not (boom and isinstance(e, (Boom, Quit)) and str(e) == nm):
                raise
        else:
            self.left(r, m, finish, None)
            if boom:
                V("swallowed", "the exception raised in scope %d did not come out of it" % r.n)

    def left(self, r, m, finish, e):
        V = self.run.violate
        self.sim.ev("left", r.n, type(e).__name__)
        if type(e).__name__ == "Violation":
            return
        self.check(m, "after scope of span %d left by %s" % (r.n, type(e).__name__))
        n = self.ended.count(r.ids)
        if n != int(bool(finish)) or r.otel.is_recording() == bool(finish):
            V("finish-on-close", "span %d was ended %d times when its scope closed with finish_on_close=%r" % (r.n, n, bool(finish)))
        if not finish:
            self.finish(r)

    async def op_otel(self, m, a, tasks, how, boom, k, body):
        tr, c = self.tr, self.chk
        known = [r for r in self.recs if r.otel is not None]
        try:
            if how == "cur":
                r = self.new()
                nm = "s%d" % r.n
                with tr.start_as_current_span(nm) as sp:
                    self.started(r, sp, m.rec)
                    await self.inner_otel(r, m, a, tasks, boom, body)
            elif how == "use" or not known:
                r = self.new()
                nm = "s%d" % r.n
                sp = tr.start_span(nm)
                self.started(r, sp, m.rec)
                with c.tapi.use_span(sp, end_on_exit=True):
                    await self.inner_otel(r, m, a, tasks, boom, body)
            else:
                r = known[k % len(known)]
                nm = "s%d" % r.n
                sp = r.otel if how == "reuse" else c.tapi.NonRecordingSpan(r.otel.get_span_context())
                with c.tapi.use_span(sp):
                    await self.inner_otel(r, m, a, tasks, boom, body)
        except (Boom, Quit) as e:
            if not (boom and str(e) == nm):
                raise

    async def inner_otel(self, r, m, a, tasks, boom, body):
        m2 = M(r, m.val)
        try:
            self.check(m2, "in OpenTelemetry span")
            await self.exec(body, m2, a, tasks)
            self.boom(boom, "s%d" % r.n)
        except Exception:
            r.exc[1] += 1
            raise

    async def op_val(self, m, a, tasks, body):
        c = self.chk
        self.nval += 1
        v = "v%d" % self.nval
        tok = c.capi.attach(c.capi.set_value(c.key, v))
        try:
            m2 = M(m.rec, v)
            self.check(m2, "in val")
            await self.exec(body, m2, a, tasks)
        finally:
            c.capi.detach(tok)
            self.check(m, "after detach")

    async def op_handle(self, m, a, tasks, body):
        # while an exception that has nothing to do with the scopes is handled
        try:
            raise Boom("other")
        except Boom:
            await self.exec(body, m, a, tasks)

    async def op_thread(self, m, a, tasks, body):
        th = threading.Thread(target=common.guard(self.run, self.thread), args=({"async": 0, "prog": body},))
        th.start()
        self.extra.append(th)
        if not a:
            self.check(m, "after starting a thread")
            th.join()

    async def op_task(self, m, a, tasks, body, cancel):
        async def t():
            self.check(m, "task start")
            try:
                await self.top(body, m, True)
            except asyncio.CancelledError:
                self.check(m, "cancelled task")
                raise
        loop = asyncio.get_running_loop()
        task = loop.create_task(t())
        tasks.append(task)
        if cancel is not None:
            def do():
                if not task.done():
                    self.sim.fault("task-cancelled")
                    task.cancel()
            loop.call_later(cancel / 1000, do)

    async def op_pause(self, m, a, tasks, ns):
        if a:
            await asyncio.sleep(ns / 1e9)
        else:
            time.sleep(ns / 1e9)

    async def op_start(self, m, a, tasks, tr, ph, pk):
        sh = self.sh[tr % len(self.sh)]
        r = self.new()
        kw, par, links = self.parent(m, ph, pk)
        self.options(r, kw)
        sp = sh.start_span("s%d" % r.n, **kw)
        self.started(r, sp.unwrap(), par, links, sp)
        self.check(m, "after start_span")
        self.finish(r)

    def finish(self, r):
        r.fin = min(r.fin, self.sim.stamp())
        if r.n % 2:
            r.shim.finish()
        else:
            r.end = 1990000000.75 + r.n
            r.shim.finish(r.end)
