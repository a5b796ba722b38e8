#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies of /repo and keep them under seeded/.

plant.py FILE...   each FILE defines SEEDS = [dict(id, prop, edits=[(path, old, new)...], demo=python text, needs, breaks)]
plant.py --recheck [id...]   apply the stored patches to scratch copies and run the property's check on each
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf8", "replace")


def scratch(i):
    d = "/tmp/plant_" + i
    shutil.rmtree(d, ignore_errors=True)
    sh(["cp", "-a", "/repo", d])
    sh(["git", "-C", d, "tag", "-d", "vcheck-pass"])
    os.makedirs(d + "/.vp", exist_ok=True)
    for f in ("env.sh", "build_ext.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/env.sh", d + "/.vp/env.sh").replace(
            "/opt/vp/build_ext.sh", d + "/.vp/build_ext.sh").replace("/repo", d)
        open(d + "/.vp/" + f, "w").write(t)
    return d


def check(prop, d):
    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_EVIDENCE_DIR="/tmp/plant_ev_" + os.path.basename(d))
    rc, out = sh(["bash", VERIF + "/run.sh", prop, "quick"], env=env)
    return rc, out


def demo(folder, d):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    return sh(["timeout", "300", "bash", os.path.join(folder, "demo.sh")], cwd=d, env=env)


def plant(s):
    d = scratch(s["id"])
    try:
        for path, old, new in s["edits"]:
            t = open(os.path.join(d, path)).read()
            if t.count(old) != 1:
                return s["id"], "BAD EDIT: %d matches in %s of %r" % (t.count(old), path, old)
            open(os.path.join(d, path), "w").write(t.replace(old, new))
        rc, diff = sh(["git", "-C", d, "diff"])
        rc, out = sh(["bash", d + "/.vp/build_ext.sh"])
        if rc:
            return s["id"], "BUILD FAILED\n" + out[-2000:]
        rc, out = sh(["bash", d + "/.vp/test.sh", d + "/.vp/out.json"])
        res = json.load(open(d + "/.vp/out.json"))
        failed = [t for t in stable() if t not in set(passed(res))]
        if failed:
            return s["id"], "TESTS FAIL: %s" % failed[:5]
        f = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(f, ignore_errors=True)
        os.makedirs(f)
        open(f + "/patch.diff", "w").write(diff)
        open(f + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f + "/demo.sh", "w").write(
            '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4\n'
            'exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f + "/meta.json", "w"), indent=1)
        r0, o0 = demo(f, "/repo")
        r1, o1 = demo(f, d)
        if r0 != 0 or r1 == 0:
            shutil.rmtree(f)
            return s["id"], "DEMO clean=%d planted=%d\n%s\n%s" % (r0, r1, o0[-1500:], o1[-1500:])
        rc, out = check(s["prop"], d)
        line = [x for x in out.splitlines() if x.startswith("VIOLATION")]
        return s["id"], ("caught " if rc == 1 and line else "MISSED rc=%d " % rc) + (out[-600:] if not line else " ".join(out.split("\n")[:3])[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/plant_ev_plant_" + s["id"], ignore_errors=True)


def recheck(i):
    f = os.path.join(VERIF, "seeded", i)
    m = json.load(open(f + "/meta.json"))
    d = scratch(i)
    try:
        rc, out = sh(["git", "-C", d, "apply", f + "/patch.diff"])
        if rc:
            return i, "DOES NOT APPLY " + out
        rc, out = check(m["property"], d)
        line = [x for x in out.splitlines() if x.startswith("VIOLATION")]
        return i, ("caught " if rc == 1 and line else "MISSED rc=%d " % rc) + out[-300:].replace("\n", " ")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/plant_ev_plant_" + i, ignore_errors=True)


def _names(o, good):
    if isinstance(o, dict):
        for k in ("passed", "pass", "tests", "stable"):
            if k in o and isinstance(o[k], list):
                return list(o[k])
        return [k for k, v in o.items() if v in good]
    return list(o)


def stable():
    return _names(BASE, ("passed", "pass", True))


def passed(r):
    return _names(r, ("passed", "pass", True))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--recheck":
        ids = a[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        fn, jobs = recheck, ids
    else:
        jobs = []
        for p in a:
            ns = {}
            exec(open(p).read(), ns)
            jobs += ns["SEEDS"]
        fn = plant
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(fn, jobs):
            print(i, "->", r, flush=True)


if __name__ == "__main__":
    main()
