from .batch import BatchCheck


class C02(BatchCheck):
    ID = "C02"
    RUNS = {"quick": 9000, "thorough": 400000}
    OPS = {"rec": 6, "uns": 0.5, "sleep": 3, "flush": 5, "jump": 0.3}
    P_SHUT = 0.25
    ENDS = ["shutdown", "flush", "flush"]


CHECK = C02()
