"""C26 - no call modifies its arguments, and the memory layout of the arguments does not matter."""
import contextlib
import copy
import io
import itertools
import os
import random
import sys
import warnings

import numpy as np

from vc import catalog as C

LAYOUTS = ("plain", "fortran", "strided", "reversed", "read-only", "swapped axes")


class Relay:
    """gives every array of a nested structure another memory layout, remembering the buffers behind"""

    def __init__(self, layout):
        self.layout = layout
        self.buffers = []

    def __call__(self, o):
        if isinstance(o, np.ndarray):
            return self.array(o)
        if isinstance(o, dict):
            return {k: self(x) for k, x in o.items()}
        if isinstance(o, list):
            return [self(x) for x in o]
        if isinstance(o, tuple) and type(o) is tuple:
            return tuple(self(x) for x in o)
        return o

    def array(self, a):
        if self.layout == "plain":
            b = buf = np.array(a, order="C")
        elif self.layout == "fortran":
            b = buf = np.array(a, order="F")
        elif self.layout == "read-only":
            b = buf = np.array(a, order="C")
            b.setflags(write=False)
        elif self.layout == "strided":
            buf = np.zeros([2 * n + 3 for n in a.shape], a.dtype)
            b = buf[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
            b[...] = a
        elif self.layout == "reversed":
            buf = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)], order="C")
            b = buf[tuple(slice(None, None, -1) for _ in a.shape)]
        else:
            buf = np.array(a.T, order="F" if a.ndim < 2 else "C")
            b = buf.T
        self.buffers.append((buf, buf.copy()))
        return b

    def touched(self):
        return any(b.tobytes() != c.tobytes() for b, c in self.buffers)


def run(ck):
    for name, v, lay in ck.cases("calls", itertools.product(sorted(C.ENTRIES), C.VARIANTS, LAYOUTS)):
        fn, args, kw = C.ENTRIES[name](v)
        want = C.snapshot(C.outcome(fn, *fresh(name, v)))
        rel = Relay(lay)
        args, kw = rel(args), rel(kw)
        before = C.snapshot([args, kw])
        objs = copy.deepcopy([a for a in plain(args)])
        err = np.geterr()
        out = C.outcome(fn, args, kw)
        ck.step()
        d = C.differs(before, C.snapshot([args, kw]), exact=True)
        ck.true(d is None and not rel.touched(), "modified/" + name, lambda: "%s variant %d (%s arrays): an argument was modified (%s)" % (name, v, lay, d))
        ck.true(objs == [a for a in plain(args)], "modified/" + name, lambda: "%s variant %d: a list or dictionary argument was modified" % (name, v))
        got = C.snapshot(out)
        d = C.differs(want, got)
        ck.true(d is None, "layout/" + name, lambda: "%s variant %d with %s arrays gives another result: %s" % (name, v, lay, d))
        # the same arguments again: nothing was kept in them either
        d = C.differs(got, C.snapshot(C.outcome(fn, args, kw)))
        ck.true(d is None, "again/" + name, lambda: "%s variant %d with %s arrays: second call on the same arguments differs: %s" % (name, v, lay, d))
        d = C.differs(before, C.snapshot([args, kw]), exact=True)
        ck.true(d is None and not rel.touched(), "modified/" + name, lambda: "%s variant %d: an argument was modified by the second call (%s)" % (name, v, d))
        ck.true(np.geterr() == err, "settings/" + name, lambda: "%s variant %d changed the floating-point error settings" % (name, v))
        if lay == "plain":
            settings(ck, name, v)
        ck.state(name, v, lay)
        ck.outcome(name, v)
        ck.trace()


def settings(ck, name, v):
    """a call leaves the settings of the process alone, whatever they are"""
    for k, (mode, act) in enumerate((("warn", "default"), ("ignore", "ignore"), ("warn", "always"))):
        fn, args, kw = C.ENTRIES[name](v)
        with np.errstate(all=mode), warnings.catch_warnings(), np.printoptions(precision=5 + k, threshold=601 + k, edgeitems=4 + k, linewidth=91 + k, suppress=k == 1):
            warnings.simplefilter(act)
            keep = np.random.get_state(), random.getstate()
            np.random.seed(20011)
            random.seed(20011)
            rnd = random_state()
            a = (np.geterr(), list(warnings.filters), np.get_printoptions(), dict(os.environ), os.getcwd(), tuple(sys.path))
            with contextlib.redirect_stderr(io.StringIO()):
                C.outcome(fn, args, kw)
            b = (np.geterr(), list(warnings.filters), np.get_printoptions(), dict(os.environ), os.getcwd(), tuple(sys.path))
            used = random_state() != rnd
            np.random.set_state(keep[0])
            random.setstate(keep[1])
        for what, x, y in zip(("floating-point error handling", "warning filters", "print options", "environment", "working directory", "module path"), a, b):
            ck.true(x == y, "settings/" + name, lambda: "%s variant %d changed the %s of the process" % (name, v, what))
        ck.true(not used, "settings/" + name, lambda: "%s variant %d drew from, or reseeded, the random generators of the process" % (name, v))
        ck.step()


def random_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:]) + (random.getstate(),)


def fresh(name, v):
    _, a, k = C.ENTRIES[name](v)
    return a, k


def plain(o):
    """arguments without arrays, compared as objects"""
    for _, x in C.leaves(o):
        if not isinstance(x, np.ndarray) and not callable(x):
            yield x
