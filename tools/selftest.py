"""Setup: checks that the interpreter and the code under test are usable, and that the simulator is
deterministic (same seeds twice, in different processes and with another PYTHONHASHSEED)."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = sys.executable
ids = sys.argv[1:2] or ["C01"]
n = sys.argv[2] if len(sys.argv) > 2 else "60"
d = tempfile.mkdtemp(prefix="simselftest")
bad = 0
try:
    for cid in (ids[0].split(",")):
        outs = []
        for hs in ("0", "0", "77"):
            f = os.path.join(d, "%s-%d" % (cid, len(outs)))
            env = dict(os.environ, SIM_HASHSEED=hs)
            subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), cid, "--dump", f, "--runs", n], env=env, check=True, timeout=900)
            outs.append(open(f).read().splitlines())
        diff = [i for i in range(len(outs[0])) if not (outs[0][i] == outs[1][i] == outs[2][i])]
        print(cid, "runs", len(outs[0]), "diverging", len(diff), [outs[k][diff[0]] for k in range(3)] if diff else "")
        bad += len(diff)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
