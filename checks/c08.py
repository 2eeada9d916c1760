from .metrics import MetricsCheck


class C08(MetricsCheck):
    ID = "C08"
    RUNS = {"quick": 8000, "thorough": 350000}


CHECK = C08()
