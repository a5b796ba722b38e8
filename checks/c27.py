"""C27 - the result of a call depends on its arguments alone: not on earlier calls, not on what the caller does with
earlier results, not on another call running in between."""
import itertools
import os
import pickle
import sys

import numpy as np

from checks.c26 import random_state, settings
from vc import catalog as C


class Pristine:
    """a process forked before any call; each request is answered by a fresh child of it"""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            self.serve(os.fdopen(a, "rb"), os.fdopen(b, "wb"))
            os._exit(0)
        os.close(a)
        os.close(b)
        self.r, self.w = os.fdopen(self.r, "rb"), os.fdopen(self.w, "wb")

    def serve(self, r, w):
        while True:
            try:
                name, v = pickle.load(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                snap = C.snapshot(C.call(name, v)[3]())
                pickle.dump([(p, None if callable(x) else x) for p, x in snap], w)
                w.flush()
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, name, v):
        pickle.dump((name, v), self.w)
        self.w.flush()
        return pickle.load(self.r)


def scribble(out, args):
    """what a caller may do with a result that is his: overwrite it"""
    for a in C.arrays(out):
        if a.flags.writeable and not any(np.may_share_memory(a, b) for b in C.arrays(args)):
            a[...] = a.dtype.type(1) if a.dtype.kind in "fciub" else a
    theirs = set(containers(args))
    for c in list(containers(out).values()):
        if id(c) not in theirs:
            c.clear()


def containers(o):
    """the lists and dictionaries of a nested structure, by identity"""
    found = {}
    if isinstance(o, (list, dict)):
        found[id(o)] = o
    if isinstance(o, (list, tuple)):
        for x in o:
            found.update(containers(x))
    elif isinstance(o, dict):
        for x in o.values():
            found.update(containers(x))
    return found


def family(n):
    return n.split(".")[0]


def run(ck):
    import skbeam.core.fitting.xrf_model  # noqa: imported before the fork, like everything the entries need
    import skbeam.core.constants  # noqa
    base = Pristine()
    calls = [(n, v) for n in sorted(C.ENTRIES) for v in C.VARIANTS]
    left_alone(ck, calls)
    drawing(ck)
    pairs(ck, base, calls)
    reentry(ck, base)


def left_alone(ck, calls):
    """floating-point error handling, warning filters, print options, environment, working directory, module path, random generators"""
    for name, v in ck.cases("settings", calls):
        fn, args, kw = C.ENTRIES[name](v)
        a = process()
        C.outcome(fn, args, kw)
        for what, x, y in zip(("floating-point error handling", "print options", "environment", "working directory", "module path", "random generators"), a, process()):
            ck.true(x == y, "settings/" + name, lambda: "the first call of %s variant %d changed the %s of the process" % (name, v, what))
        settings(ck, name, v)
        ck.state("set", name, v)


def drawing(ck):
    """the one function that draws from the random generator advances it, and never sets it"""
    from skbeam.core.cdi import generate_random_phase_field as g
    for shape, n in ck.cases("drawing", itertools.product(((2, 3), (5, 5), (1, 1), (4, 4, 3)), (1, 2, 3))):
        keep = np.random.get_state()
        after, fields = [], []
        for seed in (3, 4, 5, 6):
            np.random.seed(seed)
            got = [np.array(g(np.ones(shape))) for _ in range(n)]
            ck.step(n)
            again = random_state()
            np.random.seed(seed)
            ck.true(all(np.array_equal(a, np.array(g(np.ones(shape)))) for a in got), "drawing", "shape %s: the same generator state gives other phases" % (shape,))
            ck.true(random_state() == again, "drawing", "shape %s: the same generator state leads to another one" % (shape,))
            after.append(np.random.random(4).tobytes())
            fields.extend(a.tobytes() for a in got)
        np.random.set_state(keep)
        ck.true(len(set(after)) == 4, "drawing", lambda: "%d random phase fields of shape %s leave the generator in the same state whatever it was before" % (n, shape))
        ck.true(len(set(fields)) == 4 * n, "drawing", lambda: "%d random phase fields of shape %s repeat themselves" % (n, shape))
        ck.state("drawing", shape, n)
        ck.trace()


def process():
    return np.geterr(), np.get_printoptions(), dict(os.environ), os.getcwd(), tuple(sys.path), random_state()


def same(ck, want, out, key, text):
    d = C.differs(want, C.snapshot(out))
    ck.true(d is None, key, lambda: "%s: %s" % (text(), d))


def pairs(ck, base, calls):
    """every ordered pair of calls, with the first one's result kept, then overwritten, before the second"""
    for name, v in ck.cases("pairs", calls, limit=300):
        want = base(name, v)
        err = np.geterr()
        cwd = os.getcwd()
        same(ck, want, C.call(name, v)[3](), "first/" + name, lambda: "%s variant %d" % (name, v))
        for other, u in calls:
            if other in C.SLOW and family(other) != family(name) and not ck.thorough:
                continue
            fn, args, kw, go = C.call(other, u)
            kept = go()
            snap = C.snapshot(kept)
            out = C.call(name, v)[3]()
            same(ck, want, out, "after/" + name, lambda: "%s variant %d after %s variant %d" % (name, v, other, u))
            d = C.differs(snap, C.snapshot(kept), exact=True)
            ck.true(d is None, "kept/" + other, lambda: "the result of %s variant %d changed while %s variant %d ran: %s" % (other, u, name, v, d))
            ck.step(2)
            if family(other) == family(name):
                scribble(kept, [args, kw])
                scribble(out, [C.ENTRIES[name](v)[1:]])
                out = C.call(name, v)[3]()
                same(ck, want, out, "overwritten/" + name, lambda: "%s variant %d after the results of %s variant %d were overwritten" % (name, v, other, u))
                ck.step()
            ck.true(np.geterr() == err and os.getcwd() == cwd, "settings/" + other, lambda: "%s variant %d changed process-wide settings" % (other, u))
            ck.state(name, v, other, u)
        ck.outcome(name, v)
        ck.trace()


def reentry(ck, base):
    """one call preempted by another at every line it executes (each line at its first, second and last visits)"""
    repo = os.path.dirname(os.path.dirname(sys.modules["skbeam"].__file__))
    jobs = []
    for n in sorted(C.ENTRIES):
        for v, m, u in [(0, n, 1), (0, n, 2), (2, n, 0)][:1 if n in C.SLOW and not ck.thorough else 3]:
            jobs.append((n, v, m, u))
    if ck.thorough:
        jobs += [(n, 0, m, 1) for n in sorted(C.ENTRIES) for m in sorted(C.ENTRIES) if n != m and family(n) == family(m)]
    for n, v, m, u in ck.cases("preempted", jobs, limit=600):
        want, wother = base(n, v), base(m, u)
        visits = 3 if ck.thorough else 2
        if n in C.SLOW:
            visits = 1
        counts = {}

        def in_repo(code):
            return code.co_filename.startswith(repo)

        points = []

        def scan(frame, event, arg):
            if not in_repo(frame.f_code):
                return None
            if event == "line":
                k = (frame.f_code.co_filename, frame.f_lineno)
                counts[k] = counts.get(k, 0) + 1
                if counts[k] <= visits:
                    points.append((k, counts[k]))
            return scan

        go = C.call(n, v)[3]
        sys.settrace(scan)
        try:
            go()
        finally:
            sys.settrace(None)
        for point in points:
            seen = {}
            state = {}

            def fire(frame, event, arg):
                if not in_repo(frame.f_code):
                    return None
                if event == "line" and "other" not in state:
                    k = (frame.f_code.co_filename, frame.f_lineno)
                    seen[k] = seen.get(k, 0) + 1
                    if (k, seen[k]) == point:
                        sys.settrace(None)
                        state["other"] = C.snapshot(C.call(m, u)[3]())
                        return None
                return fire

            go = C.call(n, v)[3]
            sys.settrace(fire)
            try:
                out = go()
            finally:
                sys.settrace(None)
            where = lambda: "%s variant %d interrupted at %s line %d (visit %d) by %s variant %d" % (n, v, os.path.basename(point[0][0]), point[0][1], point[1], m, u)
            same(ck, want, out, "preempted/" + n, where)
            if "other" not in state:  # a line that only the first call of a process executes
                continue
            d = C.differs(wother, state["other"])
            ck.true(d is None, "preempting/" + m, lambda: where() + ": the interrupting call got a wrong result: %s" % d)
            ck.step(2)
            ck.state("pre", n, v, m, u, point)
        ck.trace()
