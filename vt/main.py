"""Command line of the checks: python -m vt.main C01 [--tier T] [--seed N]
[--only SUB] [--replay FILE] [--list]"""

import argparse
import glob
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")


def setup_path():
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        for p in sorted(
            glob.glob("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        ):
            sys.path.append(p)
    import hypothesis  # noqa: F401


def load_known():
    """known_findings.jsonl: {"property","key","status","what",...}."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def _quiet():
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def _worker(pid, name, tier, seed, known, cap, conn, progress_file):
    err = sys.stderr
    try:
        _quiet()
        from vt import core

        s = next(x for x in core.REGISTRY[pid] if x.name == name)
        f = open(progress_file, "w")

        def progress(case):
            f.seek(0)
            f.truncate()
            json.dump(dict(t=time.time(), case=case), f)
            f.flush()

        res = core.drive(s, tier, seed, known, cap, progress)
        conn.send(res)
    except BaseException as e:
        conn.send(dict(name=name, error="".join(traceback.format_exception(e))))
    finally:
        conn.close()
        err.flush()
        os._exit(0)


def run_subs(subs, tier, seed, known, jobs, scratch, cap_scale):
    todo = sorted(subs, key=lambda s: -(s.cap * (s.quick + 50)))
    running, results = [], []
    hang = 200.0
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            s = todo.pop(0)
            a, b = ctx.Pipe(False)
            pf = os.path.join(scratch, f"progress-{s.name}")
            p = ctx.Process(
                target=_worker,
                args=(s.pid, s.name, tier, seed, known, s.cap * cap_scale, b, pf),
            )
            p.start()
            b.close()
            running.append((s, p, a, pf, time.time()))
        for item in list(running):
            s, p, conn, pf, t0 = item
            if conn.poll(0.02):
                try:
                    r = conn.recv()
                except EOFError:
                    r = dict(name=s.name, error="worker ended without a result")
                    try:
                        pr = json.load(open(pf))
                        r["error"] += f"; last case {json.dumps(pr['case'])}"
                    except Exception:
                        pass
                p.join()
                results.append(r)
                running.remove(item)
                continue
            # a single case which does not come back
            try:
                pr = json.load(open(pf))
            except Exception:
                continue
            if time.time() - pr["t"] > hang:
                p.kill()
                p.join()
                results.append(
                    dict(
                        name=s.name,
                        evaluations=0,
                        nontrivial=0,
                        labels={},
                        samples=[],
                        known=0,
                        capped=True,
                        error=None,
                        wall_s=round(time.time() - t0, 2),
                        violation=dict(
                            case=pr["case"],
                            msg=f"no result after {hang:.0f} s (does not return)",
                        ),
                    )
                )
                running.remove(item)
        time.sleep(0.01)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    out = sys.stdout

    setup_path()
    buf = io.StringIO()
    sys.stdout = buf
    try:
        import dsptoolbox  # noqa: F401

        importlib.import_module(f"checks.{a.pid.lower()}")
    finally:
        sys.stdout = out
    from vt import core

    assert os.path.abspath(dsptoolbox.__file__).startswith(
        os.path.abspath(REPO) + os.sep
    ), dsptoolbox.__file__

    subs = core.REGISTRY[a.pid]
    listed = [k for k in load_known() if k["property"] == a.pid]
    known = frozenset(k["key"] for k in listed if k["status"] == "known")

    if a.list:
        for s in subs:
            print(s.name, s.quick, s.thorough, s.cap, "-", s.doc.split("\n")[0])
        return 0

    if a.replay:
        rep = json.load(open(a.replay))
        s = next(x for x in subs if x.name == rep["subcheck"])
        try:
            lab = core.run_case(s, rep["case"], known)
        except core.Violation as v:
            print(f"VIOLATION property={a.pid} replay={a.replay}")
            print(f"  [{s.name}] {v}")
            return 1
        except core.HarnessError as e:
            print(f"HARNESS ERROR {e}")
            return 2
        print(f"replay passes ({lab})")
        return 0

    if a.only:
        subs = [s for s in subs if a.only in s.name]
    scratch = os.environ.get("VT_SCRATCH") or "/tmp"
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    cap_scale = 1.0
    if tier == "thorough":
        # fit the 900 s: the sum of caps over the workers
        total = sum(s.cap for s in subs) / jobs
        cap_scale = max(2.0, min(20.0, 500.0 / max(total, max(s.cap for s in subs))))
    results = run_subs(subs, tier, a.seed, known, jobs, scratch, cap_scale)

    errors = [r for r in results if r.get("error")]
    viols = [r for r in results if r.get("violation")]

    # known findings: each one is demonstrated by its probe
    known_lines, stale = [], []
    if not a.only:
        for k in listed:
            if k["status"] != "known":
                continue
            probe = core.FINDINGS.get(a.pid, {}).get(k["key"])
            if probe is None:
                errors.append(dict(name="known", error=f"no probe for {k['key']}"))
                continue
            sys.stdout = io.StringIO()
            try:
                probe.fn()
                stale.append(k["key"])
            except core.Violation:
                known_lines.append(
                    f"KNOWN-FINDING: property={a.pid} {k['key']}: {k['what']}"
                )
            except Exception as e:
                if core._from_library(e.__traceback__):
                    known_lines.append(
                        f"KNOWN-FINDING: property={a.pid} {k['key']}: {k['what']}"
                    )
                else:
                    errors.append(
                        dict(
                            name="known",
                            error="".join(traceback.format_exception(e)),
                        )
                    )
            finally:
                sys.stdout = out

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for r in viols:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(
            d, f"{a.pid}-{r['name']}-{core.case_id(r['violation']['case'])}.json"
        )
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=a.pid,
                    subcheck=r["name"],
                    case=r["violation"]["case"],
                    message=r["violation"]["msg"],
                    seed=a.seed,
                    tier=tier,
                    rerun=f"cd /verif && ./run {a.pid} --replay {path}",
                ),
                f,
                indent=1,
            )
        print(f"VIOLATION property={a.pid} replay={path}")
        print(f"  [{r['name']}] {r['violation']['msg']}"[:1500])
        print(f"  case: {json.dumps(r['violation']['case'])[:1500]}")
    for line in known_lines:
        print(line)
    for k in stale:
        print(f"note: listed finding {k} no longer reproduces")

    ev = sum(r.get("evaluations", 0) for r in results)
    nt = sum(r.get("nontrivial", 0) for r in results)
    samples = []
    for r in results:
        for c in r.get("samples", [])[:1]:
            samples.append(dict(subcheck=r["name"], case=c))
    evidence = dict(
        property=a.pid,
        tier=tier,
        seed=a.seed,
        level="exploration",
        coverage=dict(
            evaluations=ev,
            distinct_nontrivial=nt,
            rule=(
                "Hypothesis generates JSON cases per sub-check (structured "
                "strategies, seeded by VERIF_SEED); a case counts as non-trivial "
                "when the sub-check ran its comparison on it and the case is in "
                "the class named by its label (degenerate and rejected cases "
                "return no label); distinct by the hash of the case."
            ),
            samples=samples[:12],
            subchecks={
                r["name"]: dict(
                    evaluations=r.get("evaluations", 0),
                    nontrivial=r.get("nontrivial", 0),
                    labels=r.get("labels", {}),
                    known_finding_hits=r.get("known", 0),
                    time_capped=r.get("capped", False),
                    wall_s=r.get("wall_s"),
                )
                for r in sorted(results, key=lambda r: r["name"])
            },
        ),
        assumptions=[
            "numpy/scipy are the trusted reference for FFT, filtering and "
            "special functions",
            "tolerances are stated in the sub-check next to each comparison",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    if not a.no_evidence and not a.only:
        with open(os.path.join(VERIF, "evidence", f"{a.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(
        f"{a.pid} {tier} seed={a.seed}: {len(results)} sub-checks, {ev} cases, "
        f"{nt} non-trivial, {len(viols)} violations, {len(errors)} errors, "
        f"{time.time() - t0:.1f} s"
    )
    if os.environ.get("VT_VERBOSE"):
        for r in sorted(results, key=lambda r: -(r.get("wall_s") or 0)):
            print(
                f"   {r['name']}: {r.get('evaluations')} / {r.get('nontrivial')} "
                f"{r.get('wall_s')} s {'CAPPED' if r.get('capped') else ''} "
                f"{r.get('labels')}"
            )
    if viols:
        return 1
    if errors:
        for e in errors:
            print(f"HARNESS ERROR in {e['name']}: {e['error']}", file=sys.stderr)
        return 2
    empty = [r["name"] for r in results if r.get("nontrivial", 0) == 0]
    if empty:
        print(f"HARNESS ERROR: no non-trivial case in {empty}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        sys.stdout = sys.__stdout__
        # the package itself cannot be imported: no answer, not a verdict
        traceback.print_exception(e)
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
