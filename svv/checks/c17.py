"""C17: --check-format says what --format does, and writes nothing."""
from .. import cli, world

PROPERTY = "C17"
RULE = (
    "random folders of Python files (formatted, unformatted, opted out, that cannot be analysed) and "
    "random sequences of runs, --check-format and --format alone or with validation, over the whole "
    "folder or some files; each report is compared with the prediction, with the file bytes and with "
    "the log of opened files; distinct = distinct folders and sequences"
)
ASSUMPTIONS = ["which strings change is known from format_sql on the generated queries"]
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = {
    "check runs": 6000, "check runs with changes": 2000, "check runs without changes": 1000,
    "format runs with changes": 1500, "check then format": 1000, "files compared": 20000,
}


def make(rng, tier):
    files = []
    for _ in range(rng.choice((1, 1, 2, 2, 3, 5))):
        taken = [f["path"] for f in files]
        if rng.random() < 0.12:
            files.append(world.broken(rng, taken, statements=rng.choice((1, 2, 4))))
        else:
            files.append(world.good(rng, taken, statements=rng.choice((1, 1, 2, 4, 8)), strings=rng.choice((0.2, 0.7)), optout=0.2, unparsable=rng.choice((0, 0, 0, 0.05))))
    runs = []
    for _ in range(rng.choice((2, 3, 4, 6))):
        if rng.random() < 0.55:
            mode = rng.choice((["--check-format"], ["--check-format"], ["--check-format", "--validate"], ["--check-format", "--verbose-validate"]))
        elif rng.random() < 0.8:
            mode = rng.choice((["--format"], ["--format"], ["--format", "--verbose-validate"], ["--format", "--validate"]))
        else:
            mode = rng.choice((["--validate"], ["--verbose-validate"]))
        if rng.random() < 0.6:
            inputs = ["."]
        else:
            inputs = rng.sample([f["path"] for f in files], rng.randint(1, len(files)))
        runs.append([mode, inputs])
    if rng.random() < 0.5:
        inputs = runs[0][1]
        runs = [[["--check-format"], inputs], [["--format"], inputs], [["--check-format"], inputs], [["--format"], inputs]]
    return {"files": files, "runs": runs, "process": rng.random() < 0.006}


def judge(case):
    import sqlvalidator

    files, runs = case["files"], case["runs"]
    events = {}
    seen = {"key": repr(case), "events": events, "sample": {"runs": runs, "files": [f["path"] for f in files]}}

    def count(name, n=1):
        events[name] = events.get(name, 0) + n

    expected = world.predict(files, sqlvalidator, ["--format"])
    judged = world.predict(files, sqlvalidator, ["--validate"])
    if expected is None or judged is None:
        seen["nontrivial"] = False
        count("not formattable")
        return [], seen
    seen["nontrivial"] = any(e["changes"] for e in expected.values())
    base = cli.scratch()
    world.write(files, base)
    formatted = set()
    problems = []
    now = world.read(files, base)
    predicted = None
    for mode, inputs in runs:
        covered = [f["path"] for f in files if inputs == ["."] or f["path"] in inputs]
        run = (cli.run_process if case["process"] else cli.run)(mode + inputs, base)
        after = world.read(files, base)
        count("files compared", len(after))
        found = world.check(run, mode, covered, expected if world.formats(mode) else judged, base, formatted, details=False)
        changing = {p for p in covered if expected.get(p, {}).get("changes") and p not in formatted}
        modified = {p for p in after if after[p] != now[p]}
        told = cli.report(run.out)
        if "--format" in mode:
            if modified != changing:
                found.append("modified files: %r, not %r" % (sorted(modified), sorted(changing)))
            count("format runs with changes" if changing else "format runs without changes")
            if predicted and predicted[0] == inputs:
                count("check then format")
                if predicted[1:] != [sorted(told["reformatted"]), told["format"]]:
                    found.append("--check-format said %r, --format %r" % (predicted[1:], told))
            formatted |= set(covered)
        else:
            if modified:
                found.append("%s modified %r" % (" ".join(mode), sorted(modified)))
            if "--check-format" in mode:
                count("check runs")
                count("check runs with changes" if changing else "check runs without changes")
                predicted = [inputs, sorted(told["would"]), told["format"]]
        problems += ["%s %s: %s\n%s" % (" ".join(mode), " ".join(inputs), t, run.out) for t in found]
        if "--format" in mode:
            predicted = None
        now = after
        if problems:
            break
    return problems[:4], seen
