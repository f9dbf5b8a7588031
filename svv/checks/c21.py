"""C21: a file that cannot be analysed stays as it is and stops nothing else."""
import contextlib
import os
import sys

from .. import cli, core, pyfile, world

PROPERTY = "C21"
LEVEL = "fault_enumeration"
RULE = (
    "random folders with one or more files that cannot be analysed (undecodable bytes, broken Python, an "
    "unsupported query at a random place, too deep a query), and, on sound files, an exception raised "
    "inside any function call made while one file is analysed (each call in turn for small files); the "
    "bad file's bytes, the report, and the outcome of all other files are compared with a run without "
    "it; distinct = distinct folders and fault places"
)
ASSUMPTIONS = ["an injected exception stands for an error of the code it is raised in"]
CASES = {"quick": 2500, "thorough": 40000}
REQUIRED = {
    "bad files": 700, "faults injected": 3000, "good files beside a bad one": 1500, "faults while formatting": 800,
    "faults while validating": 800, "bad file before good ones": 200, "output ascii": 5, "output utf-8": 5,
}


class InjectedFault(Exception):
    pass


FAULTS = {"error": InjectedFault, "recursion": RecursionError, "memory": MemoryError, "os": OSError, "key": KeyError}


class Injector:
    """
    Raises an exception in the n-th function called between the moment a file is opened for
    reading and the moment something comes out of it: it is opened for writing or reported.
    """

    def __init__(self, path, n, fault):
        self.path, self.n, self.fault = path, n, fault
        self.calls = 0
        self.raised = None

    @contextlib.contextmanager
    def __call__(self, out):
        # number of functions of the package that run, and that ran when the file was opened
        running, opener, done, told = 0, None, False, 0

        def opened(path, writing):
            nonlocal opener, done, told
            if path == self.path and not writing:
                if opener is None:
                    opener, told = running, out.tell()
            elif opener is not None and path.startswith(cli.BASE):
                # it is written, or the next file is opened
                done = True

        def profile(frame, event, arg):
            nonlocal running, done
            if not frame.f_code.co_filename.startswith(core.REPO):
                return
            if event == "return":
                running -= 1
                return
            if event != "call":
                return
            running += 1
            if done or opener is None:
                return
            if out.tell() != told:
                # it was reported
                done = True
                return
            if running <= opener:
                # not called by the function that opened the file
                return
            self.calls += 1
            if self.calls == self.n:
                done = True
                self.raised = "%s in %s" % (self.fault, frame.f_code.co_name)
                # the frame is left without a return event
                running -= 1
                raise FAULTS[self.fault]("injected")

        cli.on_open = opened
        sys.setprofile(profile)
        try:
            yield
        finally:
            sys.setprofile(None)
            cli.on_open = None


def make(rng, tier):
    kind = rng.choice(("broken", "inject", "inject"))
    files = []
    n_good = rng.choice((1, 2, 3, 4)) if kind == "broken" else rng.choice((1, 2, 2, 3))
    options = {"statements": rng.choice((1, 1, 2, 4)), "strings": 0.8, "comments": 0.1, "unparsable": rng.choice((0, 0, 0.1))}
    for _ in range(n_good):
        files.append(world.good(rng, [f["path"] for f in files], **options))
    if kind == "broken":
        for _ in range(rng.choice((1, 1, 2))):
            files.insert(rng.randint(0, len(files)), world.broken(rng, [f["path"] for f in files], **options))
    inputs = ["."] if rng.random() < 0.4 else [f["path"] for f in files]
    mode = rng.choice(world.MODES + [["--format"], ["--format", "--verbose-validate"]])
    case = {"kind": kind, "files": files, "inputs": inputs, "mode": mode}
    if kind == "broken" and rng.random() < 0.12:
        case["output"] = rng.choice(("utf-8", "ascii", "latin-1", "utf-8:surrogateescape"))
    if kind == "inject":
        case["bad"] = rng.randrange(len(files))
        case["fault"] = rng.choice(["error"] * 6 + ["recursion", "memory", "os", "key"])
        case["where"] = [rng.random() ** rng.choice((1, 1, 3)) for _ in range(4 if tier == "quick" else 25)]
        # the last calls matter most: some of the file has been handled by then
        case["where"] += [1 - w / 20 for w in case["where"][:1]]
    return case


def judge(case):
    import sqlvalidator

    return (judge_broken if case["kind"] == "broken" else judge_injected)(case, sqlvalidator)


def told(run, base, without=()):
    """What was reported on each file, in the order of the files"""
    r = cli.report(run.out)
    out = {}
    for kind in ("reformatted", "would", "invalid"):
        for entry in r[kind]:
            p = world.relative(entry[0], base)
            out.setdefault(p, []).append([kind] + [list(e) if isinstance(e, list) else e for e in entry[1:]])
    return {p: v for p, v in out.items() if p not in without}, r


def judge_broken(case, sqlvalidator):
    files, mode = case["files"], case["mode"]
    bad = [f["path"] for f in files if "raw" in f]
    events = {"bad files": len(bad), "good files beside a bad one": len(files) - len(bad)}
    for f in files:
        if "raw" in f:
            events["bad: " + f["broken"]] = 1
    if "raw" in files[0] and len(files) > len(bad):
        events["bad file before good ones"] = 1
    seen = {"key": repr(case), "events": events, "sample": {"mode": mode, "files": [[f["path"], f.get("broken")] for f in files]}}
    expected = world.predict(files, sqlvalidator, mode)
    if expected is None:
        seen["nontrivial"] = False
        return [], seen
    base = cli.scratch()
    world.write(files, base)
    if "output" in case:
        run = cli.run_process(mode + case["inputs"], base, case["output"])
        events["output " + case["output"]] = 1
    else:
        run = cli.run(mode + case["inputs"], base)
    after = world.read(files, base)
    problems = world.check(run, mode, [f["path"] for f in files], expected, base)
    for f in files:
        if "raw" in f and after[f["path"]] != world.content(f):
            problems.append("%r cannot be analysed, yet was modified" % f["path"])
        elif f["path"] not in expected and after[f["path"]] != world.content(f):
            problems.append("%r cannot be formatted, yet was modified" % f["path"])
        elif f["path"] in expected and "--format" in mode:
            problems += [t for _, t in pyfile.compare(f["file"], expected[f["path"]]["outcomes"], after[f["path"]])]
    return ["%s %s: %s\n%s" % (" ".join(mode), " ".join(case["inputs"]), t, run.out) for t in problems[:3]], seen


def judge_injected(case, sqlvalidator):
    files, mode, inputs = case["files"], case["mode"], case["inputs"]
    bad = files[case["bad"]]["path"]
    events = {}
    seen = {"key": repr(case), "events": events, "keys": [], "sample": {"mode": mode, "bad": bad, "fault": case["fault"]}, "nontrivial": False}
    base = cli.scratch()
    world.write(files, base)
    before = world.read(files, base)
    # the run that nothing disturbs counts the calls
    path = os.path.join(base, bad)
    counter = Injector(path, -1, case["fault"])
    plain = cli.run(mode + inputs, base, counter)
    plain_files = world.read(files, base)
    plain_told, plain_report = told(plain, base)
    if plain.crash or plain_report["failed"] or not counter.calls:
        return [], seen
    problems = []
    for where in case["where"]:
        n = min(counter.calls, 1 + int(where * counter.calls))
        base = cli.scratch()
        world.write(files, base)
        injector = Injector(path, n, case["fault"])
        run = cli.run(mode + inputs, base, injector)
        after = world.read(files, base)
        if not injector.raised:
            continue
        seen["nontrivial"] = True
        seen["keys"].append((repr(case["files"]), n, case["fault"], tuple(mode)))
        events["faults injected"] = events.get("faults injected", 0) + 1
        name = "faults while formatting" if "--format" in mode or "--check-format" in mode else "faults while validating"
        events[name] = events.get(name, 0) + 1
        got, report = told(run, base)
        failed = [world.relative(p, base) for p in report["failed"]]
        wrong = []
        if run.crash:
            wrong.append("the run failed: " + run.crash)
        if failed == [bad]:
            events["files given up"] = events.get("files given up", 0) + 1
            if after[bad] != before[bad]:
                wrong.append("%r failed, yet was modified" % bad)
            if got.get(bad):
                wrong.append("%r failed, yet is reported %r" % (bad, got[bad]))
            gone = {bad}
        elif not failed:
            # the error was dealt with: nothing may have come of it
            events["faults without effect"] = events.get("faults without effect", 0) + 1
            if after[bad] != plain_files[bad] or got.get(bad) != plain_told.get(bad):
                wrong.append("the failure is not reported, but the outcome of %r is another one" % bad)
            gone = set()
        else:
            wrong.append("reported as failed: %r" % failed)
            gone = {bad}
        rest = {p: v for p, v in plain_told.items() if p not in gone}
        if {p: v for p, v in got.items() if p not in gone} != rest:
            wrong.append("other files are reported %r, not %r" % (got, rest))
        for p in after:
            if p != bad and after[p] != plain_files[p]:
                wrong.append("the outcome of %r is another one" % p)
        totals = {}
        for kind, total in (("format", ("reformatted", "would")), ("validation", ("invalid",))):
            if plain_report[kind] is not None:
                counts = [e[1] for v in rest.values() for e in v if e[0] in total]
                totals[kind] = (len(counts), sum(counts))
                if report[kind] != totals[kind]:
                    wrong.append("%s totals %r, not %r" % (kind, report[kind], totals[kind]))
        code = int("--check-format" in mode and totals["format"][1] > 0 or totals.get("validation", (0, 0))[1] > 0)
        if run.code != code:
            wrong.append("exit status %r, not %r" % (run.code, code))
        problems += ["%s %s, %s at call %d of %d while %r is analysed: %s\n%s" % (
            " ".join(mode), " ".join(inputs), injector.raised, n, counter.calls, bad, t, run.out) for t in wrong]
        if problems:
            break
    return problems[:3], seen
