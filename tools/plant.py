#!/usr/bin/env python3
"""Confirms planted bugs.  plant.py SPEC.py [ids...]

SPEC.py defines BUGS: list of dict(id, property, edits=[(file, old, new)],
needs, breaks, demo). Each is applied to a scratch copy of /repo under /tmp,
the demo is run on the unchanged and on the changed tree, the stable tests and
the property's check on the changed tree. Confirmed ones are written to
/verif/seeded/<id>. Nothing here is used by the checks."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds on the example.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1
export MPLCONFIGDIR=$(mktemp -d); trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PYTHONPATH="$PWD" /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def one(b, tests=True):
    log = [f"== {b['id']} ({b['property']})"]
    W = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    R = W + "/repo"
    try:
        shutil.copytree("/repo", R, symlinks=True)
        D = W + "/seed"
        os.mkdir(D)
        open(D + "/demo.sh", "w").write(DEMO)
        os.chmod(D + "/demo.sh", 0o755)
        open(D + "/demo.py", "w").write(b["demo"].lstrip())
        rc, out = sh(["bash", D + "/demo.sh"], R)
        if rc != 0:
            return log + [f"REJECTED: demo fails on the unchanged tree {rc}\n{out[-800:]}"]
        for f, old, new in b["edits"]:
            p = f"{R}/dsptoolbox/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return log + [f"REJECTED: {f}: {s.count(old)} matches of {old!r}"]
            open(p, "w").write(s.replace(old, new))
        rc, out = sh(["bash", D + "/demo.sh"], R)
        if rc == 0:
            return log + ["REJECTED: demo passes on the changed tree"]
        log.append("  demo: " + out.strip().splitlines()[-1][:150] if out.strip() else "  demo: -")
        _, diff = sh(["git", "diff"], R)
        open(D + "/patch.diff", "w").write(diff)
        # original lines only
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                base = sh(["git", "grep", "-qF", "-e", l[1:], "3a2420f"], R)[0]
                if base != 0:
                    log.append(f"  NOTE: not an original line: {l}")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
        c0, cout = sh([V + "/run", b["property"], "--no-evidence"], V, dict(ENV, VT_REPO=R))
        v = [l for l in cout.splitlines() if "VIOLATION" in l or l.strip().startswith("[")][:2]
        log.append(f"  check: {'CAUGHT' if c0 == 1 else 'MISSED rc=%d' % c0} {' '.join(v)[:260]}")
        if tests:
            xml = W + "/j.xml"
            e = dict(ENV, PYTHONPATH=R + ":/opt/vp/pytest_plugins", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=W + "/nb", MPLCONFIGDIR="/opt/cache/mpl")
            sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "4", "--dist", "loadfile",
                "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"], R, e)
            rc, out = sh(["python3", "/opt/vp/results.py", W + "/o.json", "junit:" + xml], R, e)
            a = json.load(open(W + "/o.json"))
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [x for x in st if x not in set(a["passed"])]
            if bad:
                return log + [f"REJECTED: tests fail: {bad[:4]}"]
            log.append("  tests pass")
            T = f"{V}/seeded/{b['id']}"
            shutil.rmtree(T, ignore_errors=True)
            shutil.copytree(D, T)
            log.append("  kept")
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return log


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, "--notests" not in sys.argv), bugs):
            print("\n".join(r), flush=True)


main()
