"""Base class of the checks."""
import math
import random

from . import core

MS = 1_000_000
SEC = 1_000_000_000


class Check:
    ID = "?"
    RUNS = {"quick": 3000, "thorough": 150000}
    WALL = {"quick": 150, "thorough": 780}
    PREFIXES = ["/repo/"]
    REAL = []
    STUB = []
    RULE = ""
    ASSUME = []
    GRAN = {"line": 5, "instr": 4, "sync": 2}
    STALLS = True
    STALL_NS = [1 * MS, 20 * MS, 300 * MS, 3 * SEC, 20 * SEC]
    MAX_EVENTS = 1_500_000
    codes = ()

    def setup(self):
        """Import the code under test (runs once, outside any simulation)."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, run, sc):
        raise NotImplementedError

    def collect(self):
        codes = []
        for p in self.PREFIXES:
            codes += core.collect_codes(p)
        self.codes = codes

    def sched(self, rng, sc, tier):
        kinds = [k for k, w in self.GRAN.items() for _ in range(w)]
        k = rng.choice(kinds)
        cfg = {"gran": "line" if k == "sync" else k, "max_events": self.MAX_EVENTS}
        if k == "sync":
            cfg["gap"] = 0
        elif k == "line":
            cfg["gap"] = int(math.exp(rng.uniform(math.log(4), math.log(600))))
        else:
            cfg["gap"] = int(math.exp(rng.uniform(math.log(12), math.log(4000))))
        cfg["policy"] = rng.choice(["random", "random", "random", "pct"])
        if cfg["policy"] == "pct" and cfg["gap"]:
            cfg["gap"] *= 4
            cfg["max_preempt"] = rng.choice([1, 2, 3, 5, 8, 1000])
        elif rng.random() < 0.3:
            cfg["max_preempt"] = rng.choice([1, 2, 4, 8])
        cfg["p_sync"] = rng.choice([0.02, 0.1, 0.3, 0.6, 0.9])
        if self.STALLS and rng.random() < 0.35:
            cfg["stall_p"] = rng.choice([0.02, 0.1, 0.3])
            cfg["stall_ns"] = rng.sample(self.STALL_NS, rng.randint(1, len(self.STALL_NS)))
        cfg["tick_ns"] = rng.choice([0, 1, 100, 1000, 1000, 50_000])
        cfg["gran_ns"] = rng.choice([1, 1, 1, 100, 1000, 1 * MS, 16 * MS])
        return cfg


def pick_weighted(rng, table):
    tot = sum(w for _, w in table)
    x = rng.random() * tot
    for v, w in table:
        x -= w
        if x < 0:
            return v
    return table[-1][0]
