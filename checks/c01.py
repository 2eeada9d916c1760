from .batch import BatchCheck


class C01(BatchCheck):
    ID = "C01"
    RUNS = {"quick": 9000, "thorough": 400000}
    OPS = {"rec": 12, "uns": 1, "sleep": 4, "flush": 1.5, "jump": 0.2}
    P_SHUT = 0.25


CHECK = C01()
