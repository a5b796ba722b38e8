"""Entry point: python -m vc.main <property> [--tier T] [--replay FILE]"""
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import harness
from .harness import VERIF, Checker, Hang, Violation, _short

BUDGET = {"quick": 780, "thorough": 6 * 3600}


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def setup_imports(pid):
    from . import repo
    repo.install()


def worker_main(pid, tier, seed, w, n, out, only):
    journal = open(out + ".journal", "wb")

    def on_alarm(sig, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    ck = Checker(pid, tier, seed, load_known(), w, n, journal, only)
    res = {"violation": None, "error": None}
    try:
        setup_imports(pid)
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ck)
    except Violation as v:
        res["violation"] = dict(key=v.key, msg=v.msg, stage=ck._stage, index=ck._index, case=_short(ck._case, 4000))
    except Hang:
        res["violation"] = dict(key="hang", msg="no answer within %gs\n%s" % (ck.CASE_LIMIT_S, traceback.format_exc()[-1500:]),
                                stage=ck._stage, index=ck._index, case=_short(ck._case, 4000))
    except BaseException as e:
        tb = traceback.format_exc()
        if getattr(e, "vc_environment", False):
            res["error"] = tb
        else:
            res["violation"] = dict(key="exception", msg="unexpected %r\n%s" % (e, tb[-3000:]), stage=ck._stage,
                                    index=ck._index, case=_short(ck._case, 4000))
    signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(states=ck.states, outcomes=ck.outcomes, transitions=ck.transitions, traces=ck.traces,
               evaluations=ck.evaluations, samples=ck.samples, stages=ck.stage_counts, notes=ck.notes,
               known=ck.known_hit, exhaustive=ck.exhaustive, extra=getattr(ck, "extra", {}))
    with open(out, "wb") as f:
        pickle.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def main():
    args = sys.argv[1:]
    pid = args.pop(0).upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    if args and args[0] == "--worker":
        tier, seed, w, n, out = args[1], int(args[2]), int(args[3]), int(args[4]), args[5]
        only = tuple(json.loads(args[6])) if len(args) > 6 and args[6] != "null" else None
        worker_main(pid, tier, seed, w, n, out, only)
        return
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    nworkers = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
    if replay:
        r = json.load(open(replay))
        tier = r["tier"]
        only = [r["stage"], r["index"]]
        nworkers = 1

    # build anything the workers need once, before they start
    from . import repo
    repo.prepare(pid)

    tmp = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    try:
        procs = []
        for w in range(nworkers):
            out = os.path.join(tmp, "w%d" % w)
            err = open(out + ".err", "wb")
            p = subprocess.Popen([sys.executable, "-m", "vc.main", pid, "--worker", tier, str(seed), str(w),
                                  str(nworkers), out, json.dumps(only)], cwd=VERIF, stdout=err, stderr=err,
                                 start_new_session=True)
            procs.append((p, out, err))
        deadline = t0 + BUDGET[tier]
        results = []
        violation = None
        error = None
        pending = list(range(nworkers))
        while pending and violation is None:
            time.sleep(0.02)
            for i in list(pending):
                p, out, err = procs[i]
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        stage, idx = read_journal(out)
                        violation = dict(key="hang", msg="time budget of the check exhausted; a call did not return",
                                         stage=stage, index=idx, case=None)
                        break
                    continue
                pending.remove(i)
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        r = pickle.load(f)
                    results.append(r)
                    if r["violation"]:
                        violation = r["violation"]
                        break
                    if r["error"]:
                        error = r["error"]
                else:
                    stage, idx = read_journal(out)
                    tail = open(out + ".err", "rb").read()[-2000:].decode("utf8", "replace")
                    violation = dict(key="crash", msg="the process running the code died (exit %s)\n%s" % (rc, tail),
                                     stage=stage, index=idx, case=None)
                    break
        for p, out, err in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            err.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    if error and not violation:
        sys.stderr.write(error)
        sys.exit(3)

    known = {}
    for r in results:
        known.update(r["known"])
    if replay is None:
        write_evidence(pid, tier, seed, results, time.time() - t0, violation, known)
    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violation:
        path = replay or write_replay(pid, tier, seed, violation)
        print("stage %s case #%s" % (violation["stage"], violation["index"]))
        if violation["case"]:
            print("case: " + violation["case"][:3000])
        print(violation["msg"][:6000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    tot = sum(r["evaluations"] for r in results)
    print("%s %s: held on %d executions (%d states, %d transitions, %d traces) in %.1fs" % (
        pid, tier, tot, len(set().union(*[r["states"] for r in results])), sum(r["transitions"] for r in results),
        sum(r["traces"] for r in results), time.time() - t0))
    sys.exit(0)


def read_journal(out):
    try:
        a = open(out + ".journal", "rb").read().split(b"\x00")
        return a[0].decode(), int(a[1])
    except Exception:
        return "startup", 0


def write_replay(pid, tier, seed, v):
    d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, how="bash run.sh %s --replay %s" % (pid, path), **v), f, indent=1)
    return path


def write_evidence(pid, tier, seed, results, wall, violation, known):
    spec = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = "model_checking"
    level_of = {c["property"]: c["level"] for c in spec["checks"]}
    level = level_of.get(pid, level)
    states = set().union(*[r["states"] for r in results]) if results else set()
    outcomes = set().union(*[r["outcomes"] for r in results]) if results else set()
    stages = {}
    samples, notes, extra = [], [], {}
    for r in results:
        for k, v in r["stages"].items():
            stages[k] = max(stages.get(k, 0), v)
        samples += r["samples"]
        notes += [n for n in r["notes"] if n not in notes]
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                extra[k] = extra.get(k, 0) + v
            else:
                extra[k] = v
    cov = dict(
        states=len(states), transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(max(r["traces"], r["evaluations"]) for r in results),
        evaluations=sum(r["evaluations"] for r in results),
        distinct_outcomes=len(outcomes),
        rule="every case of every stage listed under `stages` was executed on the code in /repo and compared with the "
             "reference model; a state is a distinct canonical (configuration, history) pair reached, a transition one "
             "operation executed on the implementation, a trace one complete history compared with the model",
        stages=stages, samples=samples[:12], exhaustive=bool(results) and all(r["exhaustive"] for r in results)
        and violation is None, **extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=notes, wall_s=round(wall, 3),
              violations=1 if violation else 0, known_findings=sorted(known))
    d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
