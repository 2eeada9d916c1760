#!/usr/bin/env python3
"""tryseeds.py [--tests] [--no-check] [--checks C01,C02] ID...   try planted bugs against /repo (applied, then undone).

For development only; nothing in MANIFEST.json uses it.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests, check = "--tests" in sys.argv, "--no-check" not in sys.argv
    extra = [a.split("=", 1)[1].split(",") for a in sys.argv if a.startswith("--checks=")]
    ids = args or sorted(os.listdir(f"{HERE}/seeded"))
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "/repo is not clean"
    base = {t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]} if tests else set()
    for bid in ids:
        d = f"{HERE}/seeded/{bid}"
        meta = json.load(open(f"{d}/meta.json"))
        row = [bid, meta["property"]]
        row.append("clean-demo=%d" % sh(f"bash {d}/demo.sh", cwd=REPO).returncode)
        try:
            r = sh(f"git -C {REPO} apply {d}/patch.diff")
            if r.returncode:
                print(bid, "DOES NOT APPLY", r.stderr)
                continue
            r = sh(f"bash {d}/demo.sh", cwd=REPO)
            row.append("bug-demo=%d" % r.returncode)
            if tests:
                sh("bash /opt/vp/test.sh /tmp/tryseeds.json")
                res = json.load(open("/tmp/tryseeds.json"))
                bad = sorted(base - set(res["passed"]))
                row.append("tests-broken=%d %s" % (len(bad), bad[:3]))
            if check:
                for cid in (extra[0] if extra else [meta["property"]]):
                    r = sh(f"VERIF_SEED=1 /opt/venv-pb5/bin/python {HERE}/run.py {cid} --tier quick --no-evidence")
                    row.append(f"{cid}=%d {[l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'class' in l][:1]}" % r.returncode)
        finally:
            sh(f"git -C {REPO} checkout -- .")
        print(" | ".join(row), flush=True)


main()
