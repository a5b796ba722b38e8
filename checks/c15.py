"""C15 - dotted-path dictionaries behave as nested mappings after every history of operations."""
import contextlib
import io
import itertools

import numpy as np

ABSENT = "ABSENT"
LEAF = "LEAF"


def run(ck):
    from skbeam.core import utils
    nested(ck, utils, "MD_dict")
    nested(ck, utils, "RCParamDict")
    wide(ck, utils, "MD_dict")
    wide(ck, utils, "RCParamDict")
    values(ck, utils)
    verbose(ck, utils)


# ---- reference model: nested python dicts, leaves are ("leaf", payload)
class NotThere(Exception):
    pass


class Blocked(Exception):
    """a value is in the way"""


def walk(m, parts):
    for p in parts:
        if isinstance(m, tuple):
            raise Blocked()
        if p not in m:
            raise NotThere()
        m = m[p]
    return m


def m_get(m, key):
    return walk(m, key.split("."))


def m_set(m, key, leaf):
    parts = key.split(".")
    t = m
    for p in parts[:-1]:  # check first: a failing set leaves no trace
        if isinstance(t, tuple):
            raise Blocked()
        if p not in t:
            t = None
            break
        t = t[p]
    if isinstance(t, tuple):
        raise Blocked()
    t = m
    for p in parts[:-1]:
        t = t.setdefault(p, {})
    t[parts[-1]] = leaf


def m_del(m, key):
    parts = key.split(".")
    t = walk(m, parts[:-1])
    if isinstance(t, tuple):
        raise Blocked()
    if parts[-1] not in t:
        raise NotThere()
    del t[parts[-1]]


def leaves(m, pre=()):
    out = []
    for k, v in m.items():
        if isinstance(v, tuple):
            out.append((".".join(pre + (k,)), v[1]))
        else:
            out += leaves(v, pre + (k,))
    return out


def canon(m):
    return tuple(sorted((k, v if isinstance(v, tuple) else canon(v)) for k, v in m.items()))


def clone(m):
    return {k: v if isinstance(v, tuple) else clone(v) for k, v in m.items()}


KEYS = ["a", "a.b", "a.b.c", "a.d", "e", "e.f"]


def payload(cls, obj):
    if cls == "MD_dict":
        return (obj.value, obj.units)
    return obj


def build(utils, cls, hist):
    d = getattr(utils, cls)()
    for op in hist:
        apply_real(d, op)
    return d


def apply_real(d, op):
    """returns ('ok', value) or ('err', type)"""
    try:
        if op[0] == "set":
            d[op[1]] = op[2]
            return "ok", None
        if op[0] == "del":
            del d[op[1]]
            return "ok", None
        if op[0] == "update":
            d.update(op[1])
            return "ok", None
        if op[0] == "clear":
            d.clear()
            return "ok", None
        if op[0] == "pop":
            return "ok", d.pop(op[1])
        if op[0] == "popitem":
            return "ok", d.popitem()
        if op[0] == "subset":  # write through the sub-mapping
            d[op[1]][op[2]] = op[3]
            return "ok", None
        if op[0] == "subdel":
            del d[op[1]][op[2]]
            return "ok", None
    except Exception as e:
        return "err", type(e)
    raise AssertionError(op)


def m_val(cls, v):
    return ("leaf", (v, None) if cls == "MD_dict" else v)


def apply_model(cls, m, op):
    """returns (kind, value) and edits m; kind in ok, missing, blocked"""
    try:
        if op[0] == "set":
            m_set(m, op[1], m_val(cls, op[2]))
        elif op[0] == "del":
            m_del(m, op[1])
        elif op[0] == "update":
            for k, v in op[1].items():
                m_set(m, k, m_val(cls, v))
        elif op[0] == "clear":
            for k, _ in leaves(m):
                m_del(m, k)
        elif op[0] == "pop":
            v = m_get(m, op[1])
            m_del(m, op[1])
            return "ok", v
        elif op[0] in ("subset", "subdel") and not sub_ok(m, op[1]):
            return "missing", None
        elif op[0] == "subset":
            m_set(m, op[1] + "." + op[2], m_val(cls, op[3]))
        elif op[0] == "subdel":
            m_del(m, op[1] + "." + op[2])
        return "ok", None
    except NotThere:
        return "missing", None
    except Blocked:
        return "blocked", None


def observe(ck, utils, cls, d, m, hist):
    """every read agrees with the model, and reads change nothing"""
    C = getattr(utils, cls)
    where = lambda: "%s after %r" % (cls, hist)  # noqa
    for _ in range(2):
        want = sorted(leaves(m), key=repr)
        names = list(d)
        ck.equal(sorted(names), sorted(k for k, _ in want), cls + "/iteration", where() + ": iteration")
        ck.equal(len(d), len(want), cls + "/len", where() + ": len")
        got = sorted(((k, payload(cls, v)) for k, v in d.items()), key=repr)
        ck.equal(got, want, cls + "/items", where() + ": items")
        for key in KEYS + ["x", "x.y", "a.x", "a.b.c.d"]:
            try:
                ref = m_get(m, key)
                kind = "ok"
            except NotThere:
                kind = "missing"
            except Blocked:
                kind = "blocked"
            try:
                r = d[key]
                res = "ok"
            except KeyError:
                res = "KeyError"
            except Exception as e:
                res = repr(e)
            ck.step()
            if kind == "ok":
                ck.equal(res, "ok", cls + "/get", where() + ": reading %r" % key)
                if isinstance(ref, tuple):
                    ck.equal(payload(cls, r), ref[1], cls + "/get", where() + ": value of %r" % key)
                else:
                    ck.true(isinstance(r, C), cls + "/get branch", lambda: where() + ": branch %r is %r" % (key, r))
                    ck.equal(sorted(((k, payload(cls, v)) for k, v in r.items()), key=repr), sorted(leaves(ref), key=repr),
                             cls + "/get branch", where() + ": items of branch %r" % key)
            elif kind == "missing" and cls == "MD_dict":
                ck.equal((res, r if res == "ok" else 0), ("ok", None), cls + "/get missing", where() + ": reading missing %r" % key)
            else:
                ck.equal(res, "KeyError", cls + "/get missing", where() + ": reading %r" % key)
            try:
                c = key in d
            except Exception as e:
                c = repr(e)
            ck.equal(c, kind == "ok", cls + "/contains", where() + ": %r in it" % key)
            if kind != "ok" and cls == "RCParamDict":
                ck.equal(d.get(key, 99), 99, cls + "/get default", where() + ": get(%r, 99)" % key)
        if cls == "RCParamDict":
            ck.equal(repr(d), "\n".join(rep(m, 0)), cls + "/repr", where() + ": repr")


def rep(m, lvl):
    out = []
    for k in sorted(k for k in m if isinstance(m[k], tuple)):
        out.append("    " * lvl + "%s: %s" % (k, m[k][1]))
    for k in sorted(k for k in m if not isinstance(m[k], tuple)):
        out.append("    " * lvl + k + ":")
        out += rep(m[k], lvl + 1)
    return out


def nested(ck, utils, cls):
    vals = [7, 8]
    ops = [("set", k, v) for k in KEYS for v in vals[:2 if k in ("a", "a.b") else 1]]
    ops += [("del", k) for k in KEYS] + [("del", "x.y"), ("clear",), ("update", {"a.d": 8, "g.h": 7}), ("update", {"e": 8, "e.f": 7})]
    ops += [("pop", k) for k in ("a", "a.b", "a.b.c", "x")] + [("subset", "a", "b", 8), ("subset", "a", "b.c", 8), ("subset", "a.b", "c", 7),
                                                               ("subdel", "a", "b"), ("subdel", "a", "b.c")]
    depth = 7 if ck.thorough else 5
    seen = {canon({}): ((), {})}
    frontier = [((), {})]
    edges = []
    # model states reachable within the bound, each with a shortest history
    for _ in range(depth):
        nxt = []
        for hist, m in frontier:
            for op in ops:
                m2 = clone(m)
                apply_model(cls, m2, op)
                c = canon(m2)
                if c not in seen:
                    seen[c] = (hist + (op,), m2)
                    nxt.append((hist + (op,), m2))
        frontier = nxt
    ck.note("%s: %d reachable model states within %d operations, every operation replayed from each" % (cls, len(seen), depth))
    for hist, m in ck.cases(cls, list(seen.values())):
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            d = build(utils, cls, hist)
            observe(ck, utils, cls, d, m, hist)
            ck.state(cls, canon(m))
            ck.trace()
            for op in ops:
                d = build(utils, cls, hist)
                m2 = clone(m)
                kind, want = apply_model(cls, m2, op)
                res, got = apply_real(d, op)
                ck.step()
                where = "%s after %r: %r" % (cls, hist, op)
                if kind == "ok":
                    ck.equal(res, "ok", cls + "/op", where + " raised %s" % (got,))
                    if op[0] == "pop":
                        if isinstance(want, tuple):
                            ck.equal(payload(cls, got), want[1], cls + "/pop", where)
                        else:
                            ck.equal(sorted(((k, payload(cls, v)) for k, v in got.items()), key=repr), sorted(leaves(want), key=repr),
                                     cls + "/pop", where)
                elif op[0] == "pop" and cls == "MD_dict" and kind == "missing":
                    # reading a missing key of a MD_dict gives None; removing it then fails
                    ck.equal((res, got), ("err", KeyError), cls + "/pop missing", where)
                elif op[0] in ("subset", "subdel"):
                    ck.equal(res, "err", cls + "/op on a missing branch", where)
                else:
                    ck.equal((res, got), ("err", KeyError), cls + "/error", where)
                observe(ck, utils, cls, d, m2, hist + (op,))
                ck.outcome(cls, op[0], kind)
            # popitem removes one leaf
            d = build(utils, cls, hist)
            res, got = apply_real(d, ("popitem",))
            if leaves(m):
                ck.equal(res, "ok", cls + "/popitem", "%s after %r: popitem" % (cls, hist))
                k, v = got
                m2 = clone(m)
                ck.equal((k, payload(cls, v)) in leaves(m), True, cls + "/popitem", "%s after %r: popitem gave %r" % (cls, hist, got))
                m_del(m2, k)
                observe(ck, utils, cls, d, m2, hist + (("popitem",),))
            else:
                ck.equal((res, got), ("err", KeyError), cls + "/popitem", "%s after %r: popitem" % (cls, hist))
            if cls == "MD_dict":
                d = build(utils, cls, hist)
                if "x" not in d:
                    if d.get("x", 5) != 5:
                        ck.fail("MD_dict-default", "get('x', 5) on a MD_dict without x gives %r" % (d.get("x", 5),))
            # two dictionaries never share anything
            d1, d2 = build(utils, cls, hist), getattr(utils, cls)()
            ck.equal(list(d2), [], cls + "/independent instances", "new instance after %r" % (hist,))
        ck.equal(sink.getvalue(), "", cls + "/output", "%s printed during %r" % (cls, hist))


def wide(ck, utils, cls):
    """deep paths, odd names, values that count as false, many keys"""
    names = ["a", "a.b.c.d.e.f", "a.b.c.d.e.g", "a.b.x", "0", "0.1", "A", "a b.c-d", "", ".", "..", "a.", ".a", "e_f.g", "\u00e9.\u03bb", "name." + "k" * 300, " a", "a ", "a .b", "a. b", "\ta.c", ".".join("abcdefghijkl"), ".".join("p" * 60), ".".join("p" * 61)]
    odd = [0, 0.0, False, None, (), [], 3, -1, float("nan"), float("-inf"), 10 ** 30, 1j]
    for ks, vi in ck.cases("odd/" + cls, itertools.product(itertools.permutations(names, 2), range(len(odd)))):
        d, m, hist = getattr(utils, cls)(), {}, []
        for op in (("set", ks[0], odd[vi]), ("set", ks[1], odd[(vi + 3) % len(odd)]), ("del", ks[0]), ("set", ks[0], 5), ("pop", ks[1])):
            kind, want = apply_model(cls, m, op)
            res, got = apply_real(d, op)
            hist.append(op)
            where = "%s after %r" % (cls, hist)
            ck.equal(res, "ok" if kind == "ok" else "err", cls + "/odd operation", where)
            ck.equal(sorted(d), sorted(k for k, _ in leaves(m)), cls + "/odd iteration", where)
            ck.equal(len(d), len(leaves(m)), cls + "/odd len", where)
            for k, v in leaves(m):
                ck.true(k in d, cls + "/odd contains", where + ": %r" % k)
                r = payload(cls, d[k])
                ck.true((r == v or r != r and v != v) and repr(r) == repr(v), cls + "/odd value", lambda: where + ": %r is %r instead of %r" % (k, r, v))
            for k in names:
                if k not in [x for x, _ in leaves(m)]:
                    try:
                        m_get(m, k)
                    except (NotThere, Blocked):
                        ck.equal(k in d, False, cls + "/odd contains", where + ": %r" % k)
            ck.step()
        ck.state("odd", cls, ks, vi)
        ck.trace()
    for n, step in ck.cases("many/" + cls, itertools.product((24, 25, 26, 100, 1000), (1, 7, 13))):
        d, ref = getattr(utils, cls)(), {}
        key = lambda k: ".".join("%s%d" % (c, x) for c, x in zip("abc", (k % 3, k // 3 % 7, k)))  # noqa
        for k in range(n):
            d[key(k)] = k * 1.5
            ref[key(k)] = k * 1.5
        for k in range(0, n, step + 1):
            del d[key(k)], ref[key(k)]
        got = {k: payload(cls, v) for k, v in d.items()}
        ck.equal(got, {k: (v, None) if cls == "MD_dict" else v for k, v in ref.items()}, cls + "/many", "%d keys" % n)
        ck.equal(len(d), len(ref), cls + "/many", "number of keys")
        ck.step(n)
        ck.state("many", cls, n, step)


def sub_ok(m, key):
    try:
        return isinstance(m_get(m, key), dict)
    except (NotThere, Blocked):
        return False


def values(ck, utils):
    V = utils.md_value
    arr = np.arange(3.0)
    cases = [
        (5, (5, None)), (2.5, (2.5, None)), (None, (None, None)), (True, (True, None)), ("m", ("m", "text")), ("", ("", "text")),
        ((5, "m"), (5, "m")), ([5, "m"], (5, "m")), ((5, None), (5, None)), ((5, 6), ((5, 6), None)), ((5,), ((5,), None)), ((), ((), None)),
        (("x", "m"), ("x", "m")), ((5, "m", 3), ((5, "m", 3), None)), ([1, 2, 3], ([1, 2, 3], None)), ({"q": 1}, ({"q": 1}, None)),
        ({}, ({}, None)), (V(3, "kg"), (3, "kg")), (V("t", None), ("t", None)), (arr, (arr, None)), ((arr, "m"), (arr, "m")),
        ({1, 2}, ({1, 2}, None)), ((None, "s"), (None, "s")), ((None, None), (None, None)), ([None, None], (None, None)), (((1, 2), "s"), ((1, 2), "s")),
    ]
    # a given dictionary is what the new one starts from
    for n in ck.cases("starting content", range(4)):
        src = {"k%d" % i: V(i, "m") for i in range(n)}
        d = utils.MD_dict(dict(src))
        ck.equal(sorted(d), sorted(src), "starting content", "keys")
        for k in src:
            ck.equal((d[k].value, d[k].units), (src[k].value, src[k].units), "starting content", k)
        ck.step()
    for (i, (v, want)), key in ck.cases("values", itertools.product(enumerate(cases), ["k", "n.k", "n.m.k"])):
        d = utils.MD_dict()
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            d[key] = v
        got = d[key]
        ck.true(isinstance(got, V), "value type", "%r stored as %r" % (v, got))
        ck.true(same(got.value, want[0]) and got.units == want[1], "value and units", "%r stored as %r, expected %r" % (v, got, want))
        ck.equal(sink.getvalue(), "", "output", "storing %r printed" % (v,))
        ck.equal(list(d), [key], "value listed", "storing %r" % (v,))
        ck.state("v", i, key)
        ck.step()


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def verbose(ck, utils):
    for n, hit in ck.cases("verbosedict", [(n, h) for n in list(range(0, 30)) + [100] for h in (0, 1)]):
        d = utils.verbosedict()
        ref = {}
        for i in range(n):
            d["key%d" % i] = i
            ref["key%d" % i] = i
        if hit and n:
            del d["key0"], ref["key0"]
        ck.equal(dict(d), ref, "verbosedict", "content")
        for k in ref:
            ck.equal(d[k], ref[k], "verbosedict", "value of %s" % k)
        for k in ("nope", "key0" if "key0" not in ref else "key", 7):
            try:
                d[k]
                ck.fail("verbosedict/missing", "no error for %r" % (k,))
            except KeyError as e:
                msg = str(e)
                ck.true(str(k) in msg, "verbosedict/message", "%r not named in %r" % (k, msg))
                if len(ref) < 25:
                    ck.true(all(repr(x) in msg for x in ref), "verbosedict/message", "keys missing in %r" % msg)
                else:
                    ck.true(str(len(ref)) in msg, "verbosedict/message", "number of keys missing in %r" % msg)
            ck.equal(d.get(k, 3), 3, "verbosedict", "get default")
            ck.equal(k in d, False, "verbosedict", "contains")
        ck.equal(dict(d), ref, "verbosedict", "content after failed reads")
        ck.state("vd", n, hit)
        ck.step(len(ref))
