"""Driver of the controlled OpenMP runtime (vc/native/sched.c)."""
import ctypes

from . import repo


class Unsupported(Exception):
    pass


class Sched:
    """Controls the instrumented build of the kernels.  run(fn, nthreads,
    devs) executes fn() - which reaches the kernels through skbeam - under the
    schedule given by the deviations."""

    def __init__(self):
        repo.use("sched")
        try:
            import skbeam.ext.ctrans as mod
        except ImportError as e:
            raise Unsupported(str(e))
        path = mod.__file__
        self.lib = ctypes.CDLL(path)
        self.lib.vc_why.restype = ctypes.c_char_p
        self.lib.vc_log.restype = ctypes.POINTER(ctypes.c_ubyte)
        self.lib.vc_log_enabled.restype = ctypes.POINTER(ctypes.c_uint32)
        self.lib.vc_log_addr.restype = ctypes.POINTER(ctypes.c_uint64)
        for n in ("vc_mallocs", "vc_live", "vc_accesses"):
            getattr(self.lib, n).restype = ctypes.c_long
        self.config(1)

    def config(self, nthreads, devs=(), fail_at=0):
        n = len(devs)
        a = (ctypes.c_int * max(n, 1))(*[d[0] for d in devs])
        b = (ctypes.c_int * max(n, 1))(*[d[1] for d in devs])
        self.lib.vc_config(ctypes.c_int(nthreads), ctypes.c_int(n), a, b, ctypes.c_long(fail_at))

    def run(self, fn, nthreads, devs=(), fail_at=0, conflicts=False):
        self.config(nthreads, devs, fail_at)
        try:
            res = ("ok", fn())
        except MemoryError as e:
            res = ("memory", str(e))
        st = self.lib.vc_status()
        n = self.lib.vc_steps()
        log = [self.lib.vc_log_enabled()[:n], self.lib.vc_log(1)[:n], self.lib.vc_log(2)[:n]] if n else [[], [], []]
        return dict(result=res, status=st, why=self.lib.vc_why().decode(), steps=n, enabled=log[0], choice=log[1],
                    runen=log[2], conflicts=self._conflicts(n) if conflicts else None, live=self.lib.vc_live(), mallocs=self.lib.vc_mallocs(),
                    accesses=self.lib.vc_accesses())

    def _conflicts(self, n):
        addr = self.lib.vc_log_addr()[:n]
        cur = self.lib.vc_log(3)[:n]
        who, written = {}, set()
        for a, c in zip(addr, cur):
            who.setdefault(a >> 1, set()).add(c)
            if a & 1:
                written.add(a >> 1)
        return [a == 0 or (len(who[a >> 1]) > 1 and a >> 1 in written) for a in addr]


def explore(S, fn, nthreads, bound, visit, fail_at=0, part=None, conflicts=False):
    """All schedules with at most `bound` preemptions (depth-first, stateless).
    visit(x, devs) is called once per complete execution.  part=(k, n)
    explores the subtrees of the root's children number k mod n.  With
    conflicts=True a preemption is tried only before accesses to memory which
    two members of the team access, one of them writing (and at synchronisation
    points), and every deviation from the default order counts against the bound;
    preempting elsewhere gives an equivalent execution."""
    count = 0
    stack = [((), 0)]
    while stack:
        devs, cost = stack.pop()
        x = S.run(fn, nthreads, devs, fail_at, conflicts)
        if x["status"] == 2:
            raise AssertionError("schedule did not replay: %r" % (devs,))
        if devs or part is None or part[0] == 0:
            count += 1
            visit(x, devs)
        first = devs[-1][0] + 1 if devs else 0
        en, ch, ru = x["enabled"], x["choice"], x["runen"]
        child = 0
        for i in range(first, x["steps"]):
            c = cost + (1 if ru[i] or conflicts else 0)
            if c > bound or (conflicts and ru[i] and not x["conflicts"][i]):
                continue
            m = en[i]
            for t in range(nthreads):
                if m >> t & 1 and t != ch[i]:
                    child += 1
                    if not devs and part is not None and child % part[1] != part[0]:
                        continue
                    stack.append((devs + ((i, t),), c))
    return count
