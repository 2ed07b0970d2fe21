"""Harness core: registration of sub-checks, the Hypothesis driver, shrinking
to a replayable JSON case, classification of failures, statistics.

A *sub-check* is a strategy that generates JSON-serialisable cases plus a
function which runs the real library on a case and judges the outcome with an
oracle. It returns True/str when the case was non-trivial (a str is used as a
class label in the evidence), None/False otherwise; it raises `Violation`
through `fail`/`check`/`close` when the property does not hold. An exception
that comes out of dsptoolbox on a case the generator regards as valid is a
violation, too (the library must deliver a result there). Every other
exception is an error of the harness and never reported as a violation.
"""

from __future__ import annotations

import json
import hashlib
import os
import random
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, msg: str, key: str | None = None):
        super().__init__(msg)
        self.key = key


class _Abort(BaseException):
    """Leaves the Hypothesis engine at once (time budget used)."""


class HarnessError(BaseException):
    pass


REGISTRY: dict[str, list["Sub"]] = {}
FINDINGS: dict[str, dict[str, "Finding"]] = {}

LIB_DIR = os.sep + "dsptoolbox" + os.sep


class Sub:
    def __init__(self, pid, name, strategy, fn, quick, thorough, cap, doc):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough, self.cap, self.doc = quick, thorough, cap, doc


class Finding:
    def __init__(self, pid, key, fn, doc):
        self.pid, self.key, self.fn, self.doc = pid, key, fn, doc


def sub(pid, strategy, quick=60, thorough=None, cap=25.0, name=None):
    """Register a sub-check. `strategy`: Hypothesis strategy of JSON cases."""

    def deco(fn):
        nm = name or fn.__name__
        REGISTRY.setdefault(pid, [])
        assert all(s.name != nm for s in REGISTRY[pid]), f"duplicate {nm}"
        REGISTRY[pid].append(
            Sub(
                pid,
                nm,
                strategy,
                fn,
                quick,
                thorough if thorough is not None else quick * 20,
                cap,
                (fn.__doc__ or "").strip(),
            )
        )
        return fn

    return deco


def finding(pid, key):
    """Register the deterministic probe of a known finding. The probe raises
    Violation while the defect is there."""

    def deco(fn):
        FINDINGS.setdefault(pid, {})[key] = Finding(pid, key, fn, fn.__doc__ or "")
        return fn

    return deco


# --------------------------------------------------------------- judging
def fail(msg, key=None):
    raise Violation(msg, key)


def check(cond, msg, *more, key=None):
    if not bool(cond):
        raise Violation(" ".join([msg, *(str(m) for m in more)]), key)


def _desc(x, n=6):
    x = np.asarray(x)
    s = np.array2string(x.ravel()[:n], precision=6)
    return f"shape {x.shape} {s}"


def close(got, want, msg, rtol=1e-9, atol=0.0, key=None, scale=None, nan_ok=False):
    """Max-norm comparison: |got-want| <= atol + rtol*max|want| elementwise.
    Shapes must be the same. NaN/inf must sit at the same positions (and are
    only allowed with nan_ok)."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{msg}: shape {g.shape} != expected {w.shape}", key)
    if g.size == 0:
        return
    gn, wn = ~np.isfinite(g), ~np.isfinite(w)
    if np.any(gn) or np.any(wn):
        if not nan_ok or not np.array_equal(gn, wn):
            raise Violation(
                f"{msg}: non-finite values (got {np.sum(gn)}, expected {np.sum(wn)})",
                key,
            )
        if not np.array_equal(g[gn], w[wn], equal_nan=True):
            raise Violation(f"{msg}: non-finite values differ", key)
        g, w = g[~gn], w[~wn]
        if g.size == 0:
            return
    sc = np.max(np.abs(w)) if scale is None else scale
    err = np.max(np.abs(g - w))
    tol = atol + rtol * sc
    if not err <= tol:
        i = int(np.argmax(np.abs(g - w).ravel()))
        raise Violation(
            f"{msg}: max error {err:.3e} > {tol:.3e} at flat index {i} "
            f"(got {g.ravel()[i]!r}, expected {w.ravel()[i]!r}); "
            f"got {_desc(g)} expected {_desc(w)}",
            key,
        )


def same(got, want, msg, key=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind in "fc"):
        raise Violation(f"{msg}: got {_desc(g)}, expected {_desc(w)}", key)


def raises(fn, msg, key=None):
    """fn has to refuse (any ordinary exception)."""
    assert callable(fn) and isinstance(msg, str), "raises(fn, msg)"
    try:
        fn()
    except Violation:
        raise
    except Exception:
        return
    raise Violation(f"{msg}: was accepted", key)


# --------------------------------------------------------------- running
def case_id(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:12]


def _from_library(tb):
    for f in traceback.extract_tb(tb):
        if LIB_DIR in f.filename and os.sep + "verif" + os.sep not in f.filename:
            return f
    return None


QUICK_SCALE = 2
UNJUDGED = (LookupError, ValueError, TypeError, ArithmeticError, AttributeError)


def run_case(s: Sub, case, known=frozenset()):
    """Returns (label or None). Raises Violation or HarnessError."""
    from hypothesis.errors import HypothesisException
    import hypothesis.errors as he

    np.random.seed(int(case_id(case)[:8], 16) % (2**32))
    random.seed(case_id(case))
    try:
        return s.fn(case)
    except Violation as v:
        if v.key is not None and v.key in known:
            return f"known:{v.key}"
        raise
    except (HypothesisException, he.UnsatisfiedAssumption):
        raise
    except Exception as e:
        fr = _from_library(e.__traceback__)
        if fr is None:
            if isinstance(e, UNJUDGED) and not isinstance(e, UnicodeError):
                # a result without the shape or kind the property names; on the
                # unchanged tree no case ends here
                at = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(
                    f"result cannot be judged: {type(e).__name__}: {e} "
                    f"[{os.path.basename(at.filename)}:{at.lineno}]"
                )
            raise HarnessError("".join(traceback.format_exception(e)))
        last = traceback.extract_tb(e.__traceback__)[-1]
        mine = [
            f
            for f in traceback.extract_tb(e.__traceback__)
            if LIB_DIR not in f.filename
        ]
        at = f"{os.path.basename(mine[-1].filename)}:{mine[-1].lineno}" if mine else "?"
        raise Violation(
            f"library raised {type(e).__name__}: {e} "
            f"[{os.path.basename(last.filename)}:{last.lineno} {last.name}]"
            f" (called at {at})"
        )


def drive(s: Sub, tier, seed, known, cap, progress=None, shrink_s=25.0):
    """Generated search for one sub-check. Returns a dict of statistics."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    # Hypothesis varies each generated case by copying parts of it, which makes
    # neighbouring cases alike; independent cases cover the grid of settings
    # much better here.
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    ConjectureRunner.generate_mutations_from = lambda self, data: None
    n_ex = s.quick * QUICK_SCALE if tier == "quick" else s.thorough
    st = dict(
        name=s.name,
        evaluations=0,
        nontrivial=0,
        labels={},
        samples=[],
        ids=set(),
        known=0,
        violation=None,
        capped=False,
        error=None,
    )
    t0 = time.time()
    fails = []
    box = dict(t_fail=None)

    def body(case):
        now = time.time()
        if box["t_fail"] is not None:
            if now - box["t_fail"] > shrink_s:
                raise _Abort()
        elif now - t0 > cap:
            st["capped"] = True
            raise _Abort()
        if progress is not None:
            progress(case)
        if box["t_fail"] is None:
            st["evaluations"] += 1
        try:
            lab = run_case(s, case, known)
        except Violation as v:
            if box["t_fail"] is None:
                box["t_fail"] = time.time()
            fails.append((len(json.dumps(case)), json.dumps(case), str(v)))
            raise
        if box["t_fail"] is None:
            if lab:
                lab = lab if isinstance(lab, str) else "nontrivial"
                if lab.startswith("known:"):
                    st["known"] += 1
                cid = case_id(case)
                if cid not in st["ids"]:
                    st["ids"].add(cid)
                    st["nontrivial"] += 1
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)

    test = settings(
        max_examples=n_ex,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(hseed((seed * 1000003 + sum(map(ord, s.pid + s.name))) % 2**31)(given(s.strategy)(body)))
    try:
        test()
    except _Abort:
        pass
    except HarnessError as e:
        st["error"] = str(e)
    except Violation:
        pass
    except BaseException as e:  # Hypothesis: Flaky, Unsatisfiable ...
        if not fails:
            st["error"] = "".join(traceback.format_exception(e))
    if fails:
        fails.sort(key=lambda x: x[:2])
        st["violation"] = dict(case=json.loads(fails[0][1]), msg=fails[0][2])
    st["wall_s"] = round(time.time() - t0, 2)
    st["ids"] = len(st["ids"])
    return st
