from sim.check import MS, SEC
from .metrics import MetricsCheck, ObsState


class C11(MetricsCheck):
    ID = "C11"
    RUNS = {"quick": 8000, "thorough": 350000}
    OPS = {"rec": 2, "collect": 5, "sleep": 0.5, "jump": 0.6}
    JUMPS = True
    STALL_NS = [1 * MS, 300 * MS, 3 * SEC, 20 * SEC]
    STUB = MetricsCheck.STUB + ["observable callbacks (seeded plan of results, exceptions, delays, malformed observations)"]
    RULE = ("A case is a provider with 1-3 readers and 1-4 observable instruments with 1-3 callbacks each (plus sometimes a synchronous "
            "one), 1-4 threads that collect with seeded timeouts while callbacks raise, delay or return garbage, and wall-clock jumps; "
            "non-trivial = a fault was injected or threads were preempted.")

    def gen_obs(self, rng):
        kind = rng.choice(["ocounter", "oupdown", "ogauge"])
        cbs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            gen = rng.random() < 0.2
            plan = []
            pf = rng.choice([0, 0, 0.2, 0.6])
            for _ in range(rng.randint(1, 4)):
                if rng.random() < pf:
                    f = rng.choice(["raise", "raise", "mid", "none", "empty", "slow", "slow", "badattr", "junk"])
                    plan.append([f, rng.choice([1, 2]), rng.choice([1, 100, 4000, 10_000, 12_000]) * MS])
                else:
                    plan.append([rng.choice(["ok"] * 8 + ["reuse"] * 3 + ["create"]), rng.choice([1, 1, 2, 3]), rng.randrange(2)])
            cbs.append({"gen": gen, "plan": plan})
        return {"kind": kind, "meter": rng.choice([0, 0, 1]), "float": False, "view": rng.choice([None, None, None, "drop"]), "cbs": cbs}

    def gen(self, rng, tier):
        sc = super().gen(rng, tier)
        obs = [self.gen_obs(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        ns = len(sc["insts"]) if rng.random() < 0.5 else 0
        sc["insts"] = sc["insts"][:ns] + obs
        if not ns:
            sc["pre"] = 0
        for t in sc["threads"]:
            t[:] = [o for o in t if ns or o[0] != "rec"] or [["collect", 0]]
            for o in t:
                if o[0] == "collect" and rng.random() < 0.4:
                    o.append(rng.choice([0.001, 1, 50, 1000, 5000, 10_000, 60_000]))
        return sc

    def make(self, run, sc):
        return S(self, run, sc)


class S(ObsState):
    def check_times(self, *a):
        pass

    def make_views(self):
        V = self.chk.view
        return super().make_views() + [V.View(instrument_name="i%d" % n, attribute_keys=set())
                                       for n, d in enumerate(self.sc["insts"]) if d["view"] == "drop"]


CHECK = C11()
