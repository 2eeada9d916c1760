from .batch import BatchCheck


class C03(BatchCheck):
    ID = "C03"
    RUNS = {"quick": 9000, "thorough": 400000}
    OPS = {"rec": 8, "uns": 0.5, "sleep": 3, "flush": 2, "jump": 0.2}
    P_SHUT = 0.85
    ENDS = ["shutdown"]


CHECK = C03()
