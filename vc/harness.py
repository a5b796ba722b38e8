"""Bounded exhaustive exploration harness shared by every check.

A check module (checks/cNN.py) defines ``run(ck)``.  It walks a finite space of
executions - operation sequences, schedules, cut points, fault points, input
configurations - runs the real code from /repo on each one and compares every
observation with a small reference model.  Nothing is sampled: a stage either
enumerates its space completely or says so in the evidence.

Work is split over worker processes by case index (``ck.cases``); the parent
merges counters, turns crashes and hangs of the code under test into
violations, writes the evidence file and prints the verdict.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Hang(BaseException):
    """raised by the per-case alarm"""


def _short(o, n=1500):
    try:
        with np.printoptions(threshold=200, precision=17, linewidth=200):
            s = repr(o)
    except Exception as e:  # pragma: no cover
        s = "<unrepresentable %r>" % (e,)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def digest(obj):
    return int.from_bytes(hashlib.blake2b(_canon(obj), digest_size=8).digest(), "little")


def _canon(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return b"O" + repr(o.tolist()).encode()
        return b"A" + str(o.dtype).encode() + str(o.shape).encode() + np.ascontiguousarray(o).tobytes()
    if isinstance(o, (tuple, list)):
        return b"(" + b",".join(_canon(x) for x in o) + b")"
    if isinstance(o, dict):
        return b"{" + b",".join(_canon(k) + b":" + _canon(o[k]) for k in sorted(o, key=repr)) + b"}"
    return repr(o).encode()


class Checker:
    CASE_LIMIT_S = 60.0

    def __init__(self, pid, tier, seed, known, worker=0, nworkers=1, journal=None, only=None):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.known = {k["key"]: k for k in known if k["property"] == pid and k.get("status") != "fixed"}
        self.worker = worker
        self.nworkers = nworkers
        self.journal = journal
        self.only = only  # (stage, index) when replaying
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.stage_counts = {}
        self.notes = []
        self.known_hit = {}
        self.exhaustive = True
        self._stage = "init"
        self._index = 0
        self._case = None
        self._sampled = {}

    # -- enumeration ---------------------------------------------------
    def cases(self, stage, iterable, limit=None):
        """Yield the cases of a stage that belong to this worker."""
        self._stage = stage
        n = 0
        for i, case in enumerate(iterable):
            n = i + 1
            if self.only is not None:
                if self.only[0] != stage or self.only[1] != i:
                    continue
            elif (i + self._stage_offset(stage)) % self.nworkers != self.worker:
                continue
            self._index = i
            self._case = case
            if self.journal is not None:
                self.journal.seek(0)
                self.journal.write(("%s\x00%d\x00" % (stage, i)).encode())
                self.journal.flush()
            self.evaluations += 1
            if self._sampled.get(stage, 0) < 1 and self.worker == 0:
                self._sampled[stage] = 1
                self.samples.append({"stage": stage, "index": i, "case": _short(case, 400)})
            signal.setitimer(signal.ITIMER_REAL, limit or self.CASE_LIMIT_S)
            yield case
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.stage_counts[stage] = n
        self._case = None
        self._stage = "between"

    def _stage_offset(self, stage):
        return int(hashlib.md5(stage.encode()).hexdigest()[:6], 16)

    # -- counters ------------------------------------------------------
    def state(self, *canon):
        self.states.add(digest(canon))

    def outcome(self, *canon):
        self.outcomes.add(digest(canon))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- verdicts ------------------------------------------------------
    def fail(self, key, msg):
        """Report a broken property.  Listed findings are recorded, anything
        else ends the run."""
        if key in self.known:
            self.known_hit[key] = self.known[key]["what"]
            return
        raise Violation(key, msg)

    def true(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def equal(self, got, want, key, msg=""):
        if got != want:
            self.fail(key, "%s: got %s, expected %s" % (msg, _short(got), _short(want)))

    def close(self, got, want, key, msg="", rtol=1e-9, atol=1e-12, dtype_any=True):
        """numerically equal arrays, NaN equal to NaN"""
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.fail(key, "%s: shape %s, expected %s; got %s expected %s"
                          % (msg, g.shape, w.shape, _short(got), _short(want)))
                return False
            if g.dtype == object or w.dtype == object:
                ok = bool(np.all(g == w))
            else:
                ok = bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        except Violation:
            raise
        except Exception as e:
            self.fail(key, "%s: uncomparable result %s (%r), expected %s" % (msg, _short(got), e, _short(want)))
            return False
        if not ok:
            self.fail(key, "%s: got %s, expected %s" % (msg, _short(got), _short(want)))
            return False
        return True

    def raises(self, fn, exc, key, msg=""):
        try:
            r = fn()
        except exc:
            return True
        except (Violation, Hang):
            raise
        except Exception as e:
            self.fail(key, "%s: raised %r instead of %s" % (msg, e, exc))
            return False
        self.fail(key, "%s: returned %s instead of raising %s" % (msg, _short(r), exc))
        return False


def freeze(*arrays):
    """copies to compare with later (input mutation)"""
    return [None if a is None else (np.array(a, copy=True) if isinstance(a, np.ndarray) else repr(a)) for a in arrays]


def unchanged(before, *arrays):
    for b, a in zip(before, arrays):
        if isinstance(a, np.ndarray):
            if b.shape != a.shape or b.dtype != a.dtype:
                return False
            if a.dtype.kind in "fc":
                if not np.array_equal(b, a, equal_nan=True):
                    return False
            elif not np.array_equal(b, a):
                return False
        elif a is None:
            continue
        elif b != repr(a):
            return False
    return True


def fmean(xs):
    xs = list(xs)
    return math.fsum(xs) / len(xs)
