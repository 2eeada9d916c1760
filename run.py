#!/opt/venv-pb5/bin/python
"""run.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--wall S] | --replay FILE

Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
"""
import os
import sys

WANT = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}
# the protobuf generation each check's packages are installed with
PY = os.environ.get("SIM_PYTHON", "/opt/venv-%s/bin/python" % ("pb3" if sys.argv[1:2] in (["C27"], ["C31"]) else "pb5"))
if any(os.environ.get(k) != v for k, v in WANT.items()) or os.environ.get("PYTHONPATH") or \
        os.path.abspath(sys.executable) != PY or not sys.flags.no_site or any(k.startswith("OTEL_") for k in os.environ):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OTEL_", "PYTHON"))}
    env.update(WANT)
    os.execve(PY, [PY, "-S", os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import driver, core  # noqa: E402  (patches threading/time before anything else)
import site  # noqa: E402  (path files of the venv may import threading, hence -S above)
site.main()
import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import subprocess  # noqa: E402
import traceback  # noqa: E402


def load(cid):
    mod = importlib.import_module("checks." + cid.lower())
    chk = mod.CHECK
    import logging
    logging.lastResort = None
    logging.disable(logging.NOTSET)
    chk.setup()
    chk.collect()
    core.setup_monitoring()
    return chk


def known_findings(cid):
    try:
        data = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [f for f in data.get("known", []) if f["property"] == cid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one seed and print its history")
    ap.add_argument("--dump", help="write per-run digests here (determinism test)")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; summarise classes")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = core.real_monotonic()
    chk = load(a.id)
    if a.replay:
        return replay(chk, a.replay)
    tier = a.tier
    runs = a.runs or chk.RUNS[tier]
    wall = a.wall or chk.WALL[tier]
    if a.one is not None:
        sc, sched = driver.gen_case(chk, a.seed, a.one, tier)
        print(json.dumps(sc))
        print(json.dumps(sched))
        res = driver.execute(chk, sc, sched, driver.strategy_for(sched), keep=True)
        for e in res.pop("history", []):
            print(e)
        res.pop("trace")
        print(res)
        if res["error"]:
            print(res["error"])
        return 0
    if a.dump:
        with open(a.dump, "w") as f:
            for i in range(a.first, a.first + runs):
                sc, sched = driver.gen_case(chk, a.seed, i, tier)
                res = driver.execute(chk, sc, sched, driver.strategy_for(sched))
                f.write("%d %s %x %d %d %s %s\n" % (i, res["digest"], res["sched"], res["events"], res["sim_ns"], res["viol"] and res["viol"]["cls"], bool(res["error"])))
        return 0
    agg = driver.batch(chk, a.seed, runs, tier, wall, a.workers, not a.all, a.first)
    t_explore = core.real_monotonic() - t0
    if a.all:
        byc = {}
        for v in agg["violations"]:
            byc.setdefault(v["viol"]["cls"], []).append(v)
        for c, l in byc.items():
            l.sort(key=lambda v: v["i"])
            print(c, len(l), "first", [v["i"] for v in l[:5]], l[0]["viol"]["msg"][:300])
        print("runs", agg["runs"], "in %.1fs" % t_explore, "errors", len(agg["errors"]), "other", agg["other"], "deaths", agg["deaths"])
        for i, e in agg["errors"][:2]:
            print("ERR", i, e)
        print("faults", agg["faults"], "probes", agg["probes"], "nontrivial", len(agg["nontrivial"]),
              "scheds", len(agg["scheds"]), "events/run", agg["events"] // max(1, agg["runs"]), "sim s/run", agg["sim_ns"] / 1e9 / max(1, agg["runs"]))
        return 0
    code = 0
    known = known_findings(a.id)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    violations = agg["violations"]
    out = None
    if violations:
        violations.sort(key=lambda v: v["i"])
        v = violations[0]
        out = report(chk, a, v, 60 if tier == "quick" else 240)
        code = 1
        if out is None:
            agg["errors"].append((v["i"], "violation did not replay: %r" % v["viol"]))
            code = 2
    if code == 0 and agg["errors"]:
        code = 2
    if agg["runs"] == 0:
        code = 2
    if not a.no_evidence:
        evidence(chk, a, tier, agg, t0, t_explore, known, out)
    for i, e in agg["errors"][:3]:
        print("HARNESS-ERROR run=%s: %s" % (i, e), file=sys.stderr)
    print("%s: %d simulated runs, %d distinct schedules, %.0f simulated s, %.1f s wall, %s" % (
        a.id, agg["runs"], len(agg["scheds"]), agg["sim_ns"] / 1e9, core.real_monotonic() - t0,
        {0: "held", 1: "VIOLATED", 2: "harness error"}[code]))
    if out:
        print("%s" % out["viol"]["msg"])
        print("VIOLATION property=%s replay=%s" % (out["viol"]["prop"], out["path"]))
    return code


def report(chk, a, v, budget):
    m = driver.Minimiser(chk, v, budget)
    got = None
    try:
        got = m.run(v["scenario"], v["trace"])
    except Exception:
        traceback.print_exc()
    cands = []
    if got:
        cands.append(("minimised", got[0], got[1]))
    cands.append(("original", v["scenario"], v["trace"]))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for label, sc, trace in cands:
        res = driver.execute(chk, sc, v["schedcfg"], driver.strategy_for(v["schedcfg"], trace), keep=True)
        if not res["viol"] or res["viol"]["cls"] != v["viol"]["cls"]:
            continue
        path = os.path.join(HERE, "replays", "%s-seed%d-run%d.json" % (chk.ID, a.seed, v["i"]))
        rec = {"property": chk.ID, "verif_seed": a.seed, "run": v["i"], "scenario": sc, "schedule": v["schedcfg"],
               "trace": trace, "viol": res["viol"], "digest": res["digest"], "label": label,
               "original_trace_len": len(v["trace"]), "minimiser_tries": m.tries,
               "history": [list(map(_plain, e)) for e in res["history"]]}
        json.dump(rec, open(path, "w"), indent=1, default=repr)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), a.id, "--replay", path], capture_output=True, text=True)
        if p.returncode == 1 and "REPRODUCED exactly" in p.stdout:
            return {"viol": res["viol"], "path": path, "label": label, "trace": len(trace)}
        print("replay in a fresh process did not reproduce (%s): %s %s" % (label, p.stdout[-300:], p.stderr[-500:]), file=sys.stderr)
    return None


def _plain(x):
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def replay(chk, path):
    rec = json.load(open(path))
    trace = [tuple(e) for e in rec["trace"]]
    res = driver.execute(chk, rec["scenario"], rec["schedule"], driver.strategy_for(rec["schedule"], trace), keep=True)
    if res["error"]:
        print("HARNESS-ERROR", res["error"])
        return 2
    if not res["viol"]:
        print("NOT REPRODUCED: the property holds on this execution")
        return 0
    exact = res["digest"] == rec["digest"] and res["viol"]["cls"] == rec["viol"]["cls"]
    for e in res["history"][-60:]:
        print("  ", e)
    print(res["viol"]["msg"])
    print("REPRODUCED exactly" if exact else "REPRODUCED with a different history")
    print("VIOLATION property=%s replay=%s" % (chk.ID, path))
    return 1


def evidence(chk, a, tier, agg, t0, t_explore, known, out):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    wall = core.real_monotonic() - t0
    e = {
        "property": chk.ID, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": chk.RULE + " Distinct = different (context-switch sequence, event history) pair.",
            "samples": agg["sample"][:3],
            "runs_per_hour": int(agg["runs"] / max(t_explore, 0.1) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(t_explore, 0.1) * 3600),
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 3),
            "distinct_interleavings": len(agg["scheds"]),
            "distinct_histories": len(agg["digests"]),
            "context_switches": agg["switches"],
            "preemptions": agg["preempts"],
            "scheduling_points": agg["events"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "runs_with_fault": dict(sorted(agg["runs_with_fault"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "components_real": chk.REAL,
            "components_stub": chk.STUB,
            "instrumented_functions": len(chk.codes),
            "wall_cap_reached": agg["capped"],
            "background_thread_deaths": agg["deaths"],
            "observations_for_other_properties": agg["other"],
            "exhaustive": False,
        },
        "assumptions": list(chk.ASSUME) + [
            "threads switch only at lock operations, waits, sleeps and byte-code/line boundaries of /repo code",
            "C-implemented containers (deque, dict, list) are atomic per operation, as under the GIL",
        ],
        "wall_s": round(wall, 2),
        "violations": len(agg["violations"]),
    }
    if known:
        e["coverage"]["known_findings"] = [k["what"] for k in known]
    if out:
        e["coverage"]["violation"] = out
    if agg["errors"]:
        e["coverage"]["harness_errors"] = [str(x)[:2000] for x in agg["errors"][:3]]
    json.dump(e, open(os.path.join(HERE, "evidence", chk.ID + ".json"), "w"), indent=1, default=repr)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc or 0)
