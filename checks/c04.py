from .batch import BatchCheck


class C04(BatchCheck):
    ID = "C04"
    RUNS = {"quick": 9000, "thorough": 400000}
    OPS = {"rec": 8, "uns": 0.5, "sleep": 6, "flush": 0.5, "jump": 1}
    P_SHUT = 0.05
    ENDS = ["wait", "wait", "shutdown"]


CHECK = C04()
