"""
Runs one check: makes cases, executes them on the code under test, collects what the
monitors saw, and gives the verdict.

A check module offers
  PROPERTY, RULE, ASSUMPTIONS
  make(rng, tier)    one case: JSON data, holding the input and what is expected
  judge(case)        executes it: (problems, observed); problems: list of texts,
                     observed: {"events": {name: count}, "key": any, "nontrivial": bool}
  CASES              {"quick": n, "thorough": n}
  REQUIRED           {event: minimum}: fewer than that makes the run inconclusive
and may offer
  fixed(tier)        an iterable of cases run besides the random ones
  finding(f)         whether an entry of known_findings.json still shows
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVV_REPO", "/repo")
OUT = os.environ.get("SVV_OUT", os.path.join(HERE, "evidence"))
# CPU seconds one case may take; cases normally take milliseconds
CASE_CPU = 60
KEEP = 12


def load_package():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import sqlvalidator

    assert os.path.dirname(os.path.dirname(os.path.abspath(sqlvalidator.__file__))) == REPO
    return sqlvalidator


class OutOfTime(BaseException):
    pass


def _out_of_time(signum, frame):
    raise OutOfTime


def guarded(judge, case, cpu=CASE_CPU):
    """judge(case), stopped when it takes far more CPU time than it can need."""
    signal.signal(signal.SIGVTALRM, _out_of_time)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        return judge(case)
    except OutOfTime:
        return ["no result after %d s of CPU time" % cpu], {"key": repr(case)}
    except MemoryError:
        return ["memory exhausted"], {"key": repr(case)}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def digest(key):
    return hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def _shard(args):
    name, tier, seed, shard, start, count, fixed = args
    load_package()
    limit = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    check = importlib.import_module("svv.checks." + name)
    out = {
        "evaluations": 0,
        "distinct": set(),
        "events": collections.Counter(),
        "samples": [],
        "failures": [],
        "errors": [],
    }

    def run(case):
        problems, seen = guarded(check.judge, case, getattr(check, "CPU", CASE_CPU))
        out["evaluations"] += seen.get("evaluations", 1)
        out["events"].update(seen.get("events", {}))
        if seen.get("nontrivial", True):
            for key in seen.get("keys") or [seen.get("key", repr(case))]:
                out["distinct"].add(digest(key))
        if len(out["samples"]) < 2 and seen.get("nontrivial", True) and not problems:
            out["samples"].append(seen.get("sample", case))
        if problems:
            out["failures"].append((len(json.dumps(case)), case, problems))

    try:
        for case in fixed:
            run(case)
        for i in range(start, start + count):
            rng = random.Random("%s/%d/%d" % (name, seed, i))
            run(check.make(rng, tier))
            if len(out["failures"]) >= 40:
                break
    except Exception:
        # the machinery itself failed
        out["errors"].append(traceback.format_exc())
    out["failures"].sort(key=lambda f: f[0])
    out["failures"] = out["failures"][:KEEP]
    return out


def run_check(name, tier, seed):
    t0 = time.time()
    check = importlib.import_module("svv.checks." + name)
    prop = check.PROPERTY
    load_package()
    workers = min(8, os.cpu_count() or 1)
    total = check.CASES[tier]
    shards = workers * (4 if total >= 400 else 1)
    fixed = list(check.fixed(tier)) if hasattr(check, "fixed") else []
    bounds = [total * k // shards for k in range(shards + 1)]
    jobs = [
        (name, tier, seed, k, bounds[k], bounds[k + 1] - bounds[k], fixed[k::shards])
        for k in range(shards)
    ]
    events = collections.Counter()
    distinct, samples, failures, errors = set(), [], [], []
    evaluations = 0
    method = multiprocessing.get_context("fork")
    with method.Pool(workers, maxtasksperchild=None) as pool:
        for out in pool.imap_unordered(_shard, jobs):
            evaluations += out["evaluations"]
            distinct |= out["distinct"]
            events.update(out["events"])
            samples += out["samples"]
            failures += out["failures"]
            errors += out["errors"]
    if hasattr(check, "after"):
        # checks over the whole run
        for case, problems in check.after(tier, seed, events):
            failures.append((0, case, problems))

    known = 0
    if hasattr(check, "finding"):
        for finding in load_findings(prop):
            if check.finding(finding):
                known += 1
                print("KNOWN-FINDING: property=%s %s" % (prop, finding["what"]))

    failures.sort(key=lambda f: f[0])
    missing = {
        e: n for e, n in getattr(check, "REQUIRED", {}).items() if events.get(e, 0) < n
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": check.RULE,
            "samples": samples[:6],
            "monitor_events": dict(sorted(events.items())),
            "known_findings_seen": known,
        },
        "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    print(
        "%s %s seed=%d: %d executions, %d distinct non-trivial, %.1f s"
        % (prop, tier, seed, evaluations, len(distinct), time.time() - t0)
    )
    for name_, n in sorted(events.items()):
        print("  %-36s %d" % (name_, n))
    if failures:
        where = os.path.join(OUT, "replay")
        os.makedirs(where, exist_ok=True)
        for k, (_, case, problems) in enumerate(failures[:5]):
            path = os.path.join(where, "%s-%s-%d-%d.json" % (prop, tier, seed, k))
            with open(path, "w") as f:
                json.dump({"check": name, "problems": problems, "case": case}, f, indent=1)
            for p in problems[:3]:
                print("--- " + p)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + errors[0])
        return 2
    if missing:
        print("INCONCLUSIVE: too few monitor events, wanted %r" % missing)
        return 2
    return 0


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def replay(path):
    with open(path) as f:
        data = json.load(f)
    load_package()
    check = importlib.import_module("svv.checks." + data["check"])
    problems, _ = guarded(check.judge, data["case"])
    for p in problems:
        print("--- " + p)
    return 1 if problems else 0
