from .metrics import MetricsCheck, ObsState


class C09(MetricsCheck):
    ID = "C09"
    RUNS = {"quick": 8000, "thorough": 350000}
    OPS = {"rec": 8, "collect": 5, "sleep": 2}
    ASSUME = ["The wall clock does not step backwards during a run of this check."]

    def gen(self, rng, tier):
        sc = super().gen(rng, tier)
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan = [["ok", rng.choice([1, 2])] if rng.random() < 0.7 else [rng.choice(["empty", "raise"])] for _ in range(rng.randint(1, 4))]
            sc["insts"].append({"kind": rng.choice(["ocounter", "oupdown", "ogauge"]), "meter": 0, "float": False, "view": None,
                                "cbs": [{"gen": False, "plan": plan}]})
        return sc

    def make(self, run, sc):
        return ObsState(self, run, sc)


CHECK = C09()
