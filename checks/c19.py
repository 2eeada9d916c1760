import threading
import time

from sim.check import Check, MS, SEC
from . import common

SDK = "/repo/opentelemetry-sdk/src/opentelemetry/sdk/resources/"
SLACK = 50 * MS
KEYS = ["a", "b", "c"]
URL = [None, "http://u1", "http://u2"]


Boom = common.Boom


class C19(Check):
    ID = "C19"
    RUNS = {"quick": 9000, "thorough": 400000}
    PREFIXES = [SDK]
    STALLS = False
    REAL = ["get_aggregated_resources, Resource, Resource.create", "stdlib ThreadPoolExecutor on simulated locks"]
    STUB = ["resource detectors (seeded answers, delays, failures, hangs)", "detector entry points", "clocks", "thread scheduler"]
    RULE = ("A case is 1-3 threads that aggregate resources of 0-8 detectors, each answering, raising, answering late or never "
            "after a seeded delay, directly or through Resource.create and entry points; non-trivial = a detector was late, "
            "failed or threads were preempted.")

    def setup(self):
        import logging
        from opentelemetry.sdk import resources
        from opentelemetry.sdk.environment_variables import OTEL_EXPERIMENTAL_RESOURCE_DETECTORS
        self.r = resources
        self.ENV = OTEL_EXPERIMENTAL_RESOURCE_DETECTORS
        logging.disable(logging.CRITICAL)

    def gen(self, rng, tier):
        def det():
            k = rng.choices(["ok", "raise", "timeout", "hang", "type"], [10, 2, 0.7, 1, 0.3])[0]
            return {"k": k, "d": rng.choice([0, 0, 0, 1 * MS, 300 * MS, 900 * MS, 2 * SEC, 4 * SEC, 6 * SEC, 30 * SEC]),
                    "roe": int(rng.random() < 0.15), "at": rng.sample(KEYS, rng.randint(0, 3)), "url": rng.choice([0, 0, 0, 0, 0, 1, 1, 2])}
        calls = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            m = rng.choice([1, 2, 3, 4, 5, 8])
            calls.append([["call", [det() for _ in range(rng.randint(0, m))], rng.choice([0, 1, 1, 2, 5]), int(rng.random() < 0.7),
                           int(rng.random() < 0.3)]])
        esc = lambda: rng.choice(["x", "a b", "v=w=", "100%25", "%41%2C+b", "", "%zz", "\u00fc"])
        env = [rng.choice(["env", "a", "c", "service.name", " b ", "host.id"]) + "=" + rng.choice(["", " "]) + esc() if rng.random() < 0.8 else
               rng.choice(["bad", "", " ", "=x"]) for _ in range(rng.choice([0, 1, 2, 4]))]
        return {"calls": calls, "create": int(rng.random() < 0.4), "gap": 0, "env": env, "svc": rng.choice([None, None, None, "", "svc1"]),
                "arg": rng.choice([{}, {"z": "ini"}, {"z": "ini", "a": "ini"}, {"service.name": "argsvc", "z": 7}, {"service.name": "", "c": ["p", "q"]}]),
                "argurl": rng.choice([0, 0, 0, 1, 2]), "broken": [rng.choice(["unknown", "load", "init", "empty"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                "otel": rng.choice([None, None, 0, 1])}

    def run(self, run, sc):
        self.sim = run.sim
        self.sc = sc
        common.clients(run, sc["calls"][:1] if sc["create"] else sc["calls"], self.step)

    def detector(self, n, d, log, seq):
        sim, r = self.sim, self.r
        attrs = {k: "%s%d" % (k, n) for k in d["at"]}
        attrs["d%d" % n] = n

        class Det(r.ResourceDetector):
            def detect(_):
                sim.ev("detect", n)
                if d["d"]:
                    time.sleep(d["d"] / 1e9)
                if d["k"] == "hang":
                    sim.fault("detector hangs")
                    threading.Event().wait()
                log[n] = sim.now
                seq[n] = sim.ev("detected", n)
                if d["k"] == "ok":
                    return r.Resource(attrs, URL[d["url"]])
                sim.fault("detector fails")
                if d["k"] == "timeout":
                    raise TimeoutError("own")
                if d["k"] == "type":
                    raise ValueError("v")
                raise Boom(n)
        return Det(raise_on_error=bool(d["roe"])), attrs

    def step(self, run, tid, op):
        sim, r = self.sim, self.r
        _, ds, tmo, ini, pos = op
        log, seq = {}, {}
        dets, attrs = [], []
        for n, d in enumerate(ds):
            x, a = self.detector(n, d, log, seq)
            dets.append(x)
            attrs.append(a)
        base = r.Resource({"a": "ini", "z": "ini"})
        out, exc = None, None
        if self.sc["create"]:
            import os
            tmo = 5
            names = ["det_%s%d" % ("xyqwzkpv"[n], n * 7) for n in range(len(ds))]

            class EP:
                def __init__(self, cls):
                    self.cls = cls

                def load(self):
                    return self.cls
            class Bad:
                def load(self):
                    sim.fault("detector cannot be loaded")
                    raise Boom("load")
            byname = {nm: EP(lambda x=x: x) for nm, x in zip(names, dets)}
            real = r.entry_points
            r.entry_points = lambda group, name: [byname[name]] if name in byname else real(group=group, name=name)
            for k, b in enumerate(self.sc["broken"]):
                nm = "" if b == "empty" else "broken%d" % k
                if b == "load":
                    byname[nm] = Bad()
                elif b == "init":
                    byname[nm] = EP(lambda: 1 / 0)
                names.insert((5 * k + len(ds)) % (len(names) + 1), nm)
            if self.sc["otel"] is not None:
                names.insert(min(self.sc["otel"], len(names)), "otel")
            os.environ[self.ENV] = (" , " if pos else ",").join(names)
            os.environ["OTEL_RESOURCE_ATTRIBUTES"] = ",".join(self.sc["env"])
            if self.sc["svc"] is not None:
                os.environ["OTEL_SERVICE_NAME"] = self.sc["svc"]
            arg = {k: list(v) if isinstance(v, list) else v for k, v in self.sc["arg"].items()}
        sim.ev("aggregate", tid, len(ds))
        t0 = sim.now
        try:
            if self.sc["create"]:
                out = r.Resource.create(arg or None, URL[self.sc["argurl"]])
                for v in arg.values():
                    if isinstance(v, list):
                        v.append("later")
                arg["later"] = 1
            else:
                out = r.get_aggregated_resources(dets, base if ini else None, timeout=tmo)
        except Exception as e:  # noqa
            if type(e).__name__ == "Violation":
                raise
            exc = e
        t1 = sim.now
        s1 = sim.ev("aggregated", tid, type(exc).__name__ if exc else sorted(out.attributes.items()))
        # ---- oracle
        T = tmo * SEC
        late = [n for n in range(len(ds)) if not (n in log and log[n] <= t0 + T - SLACK)]
        bound = t0 + SLACK
        for n in range(len(ds)):
            bound = max(bound, min(log.get(n, t1 + T), bound + T)) + SLACK
        if self.sc["create"] and len(late) >= 4:
            bound += T      # the built-in detector found no free worker
        if t1 > bound:
            run.violate("late", "aggregating %d detectors of which %d did not answer in time took %.3f s (timeout %d s)" % (
                len(ds), len(late), (t1 - t0) / SEC, tmo))
        # the first detector that has to raise
        must, may = None, []
        for n, d in enumerate(ds):
            if not d["roe"]:
                continue
            intime = n not in late
            if d["k"] == "ok":
                if n not in log or seq[n] > s1:
                    must = n
                    may.append((n, "TimeoutError"))
                    break
                if not intime:
                    may.append((n, "TimeoutError"))
                continue
            nm = {"raise": "Boom", "timeout": "TimeoutError", "type": "ValueError", "hang": "TimeoutError"}[d["k"]]
            if d["k"] != "hang" and n in log:
                may.append((n, nm))
            if not intime:
                may.append((n, "TimeoutError"))
            must = n
            break
        if exc is not None:
            if not any(type(exc).__name__ == nm and (nm != "Boom" or exc.args == (n,)) for n, nm in may):
                run.violate("raises", "aggregation raised %s: %s, expected %r" % (type(exc).__name__, exc, may))
            return
        if must is not None:
            run.violate("swallowed", "detector %d asked to raise on error and failed, but the aggregation returned" % must)
        got = dict(out.attributes)
        # what is merged, in order: (attributes, schema url, 1 = must / 0 = may be there)
        src = []
        for n, d in enumerate(ds):
            if d["k"] == "ok" and n in log and seq[n] < s1:
                src.append((attrs[n], URL[d["url"]] or "", int(n not in late)))
        if self.sc["create"]:
            starved = len(late) >= 4            # the built-in detector may find no free worker
            at = len(src)
            if self.sc["otel"] is not None:
                listed = [n for n in names if n[:3] == "det" or n == "otel"]
                before = listed[:listed.index("otel")]
                at = len([n for n in range(len(ds)) if "det_%s%d" % ("xyqwzkpv"[n], n * 7) in before and
                          ds[n]["k"] == "ok" and n in log and seq[n] < s1])
            src.insert(at, (self.fromenv(), "", int(not starved)))
            src.insert(0, ({"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry",
                            "telemetry.sdk.version": got.get("telemetry.sdk.version")}, "", 1))
            src.append(({k: tuple(v) if isinstance(v, list) else v for k, v in self.sc["arg"].items()}, URL[self.sc["argurl"]] or "", 1))
        elif ini:
            src.insert(0, ({"a": "ini", "z": "ini"}, "", 1))
        else:
            # starts from what Resource.create gives
            src.insert(0, ({k: v for k, v in got.items() if k not in KEYS and not (k[0] == "d" and k[1:].isdigit())}, "", 1))
        opt = [i for i, x in enumerate(src) if not x[2]]
        want = []
        for mask in range(1 << len(opt)):
            skip = {i for j, i in enumerate(opt) if not mask >> j & 1}
            want.append(self.merge([x for i, x in enumerate(src) if i not in skip]))
        if (got, out.schema_url) not in want:
            w = want[-1]
            diff = {k: (got.get(k), w[0].get(k)) for k in set(got) | set(w[0]) if got.get(k) != w[0].get(k)}
            run.violate("conflict", "the aggregated resource differs from what the detectors that answered gave: (found, expected) %r, schema urls %r, %r" % (
                diff, out.schema_url, w[1]))
        if late or any(d["k"] != "ok" for d in ds):
            run.nontrivial = True
        sim.probe("late_detectors", len(late))

    def fromenv(self):
        from urllib.parse import unquote
        m = {}
        for item in ",".join(self.sc["env"]).split(","):
            if "=" in item:
                k, v = item.split("=", 1)
                if k.strip():       # attributes without a key are dropped
                    m[k.strip()] = unquote(v.strip())
        if self.sc["svc"]:
            m["service.name"] = self.sc["svc"]
        return m

    def merge(self, src):
        a, url = {}, ""
        for x, u, _ in src:
            if url and u and u != url:
                continue        # schemas that conflict: the later resource is left out
            a = {**a, **x}
            url = url or u
        if self.sc["create"] and not a.get("service.name"):
            # named last, with the schema the caller gave
            u = URL[self.sc["argurl"]] or ""
            if not (url and u and u != url):
                a = {**a, "service.name": "unknown_service"}
        return a, url


CHECK = C19()
