"""C19: the command line reports exactly the invalid queries, at their lines."""
from .. import cli, pyfile, render, vgen, work, world

PROPERTY = "C19"
RULE = (
    "random folders of Python files holding valid and invalid SELECT strings at random places, run with "
    "--validate or --verbose-validate, alone or with a format mode; files, counts, lines, errors, totals "
    "and exit status are compared with the API's answers; distinct = distinct folders"
)
ASSUMPTIONS = ["the API's verdict on the value of a string (see C08 to C14 for that verdict)"]
CASES = {"quick": 5000, "thorough": 80000}
REQUIRED = {
    "invalid strings": 8000, "valid strings": 8000, "runs without invalid": 800, "several invalid in a file": 1500,
    "several invalid files": 400, "after a multi-line string": 2000, "unparsable strings judged": 150,
}
MODES = [m for m in world.MODES if "--validate" in m or "--verbose-validate" in m]
INVALID = [
    "select a", "select b from t limit -1", "select a from t order by 3", "select x from t join u", "select a from t where 1",
    "select b from (select a from t)", "select a from t\nlimit 1.5",
    "select a, b, c", "select a from t where b or 'x'", "SELECT a\nFROM t\nLIMIT -1", "select q.c from (select a from t) q",
]
VALID = [q_ for q_ in pyfile.SIMPLE if "-1" not in q_ and "by 3" not in q_ and "join" not in q_ and "where 1" not in q_]


def make(rng, tier):
    share = rng.choice((0, 0.1, 0.3, 0.6, 1))

    def query():
        r = rng.random()
        if r < 0.25:
            return render.render(vgen.scenario(rng, vgen.ALL if rng.random() < share else {}, size=8).node.tokens(), rng)
        return rng.choice(INVALID if rng.random() < share else VALID)

    files = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        taken = [f["path"] for f in files]
        files.append(world.good(
            rng, taken, queries=query, statements=rng.choice((1, 2, 4, 8)), strings=rng.choice((0.5, 0.9)),
            optout=rng.choice((0, 0.2)), comments=rng.choice((0.1, 0.3)), unparsable=rng.choice((0, 0, 0.1)),
        ))
    mode = rng.choice(MODES)
    return {"files": files, "mode": mode, "process": rng.random() < 0.006}


def judge(case):
    import sqlvalidator

    files, mode = case["files"], case["mode"]
    events = {}
    seen = {"key": repr(files), "events": events, "sample": {"mode": mode, "file": world.content(files[0]).decode(files[0]["file"]["encoding"])[:500]}}
    expected = world.predict(files, sqlvalidator, mode)
    if expected is None:
        seen["nontrivial"] = False
        return [], seen
    n_invalid = [len(e["invalid"]) for e in expected.values()]
    events["invalid strings"] = sum(n_invalid)
    events["valid strings"] = sum(o["errors"] == [] for e in expected.values() for o in e["outcomes"])
    events["runs without invalid"] = int(not any(n_invalid))
    events["several invalid in a file"] = sum(n > 1 for n in n_invalid)
    events["several invalid files"] = int(sum(n > 0 for n in n_invalid) > 1)
    for f in files:
        if f["path"] not in expected:
            events["files that cannot be formatted"] = events.get("files that cannot be formatted", 0) + 1
            continue
        lines = 0
        for o in expected[f["path"]]["outcomes"]:
            events["after a multi-line string"] = events.get("after a multi-line string", 0) + int(bool(o["errors"]) and lines > 0)
            unparsable = pyfile.evaluate(f["file"]["pieces"][o["i"]][1]) in pyfile.BYLESS
            events["unparsable strings judged"] = events.get("unparsable strings judged", 0) + int(unparsable and o["errors"] is not None)
            lines += "\n" in f["file"]["pieces"][o["i"]][1]
    seen["nontrivial"] = any(n_invalid)
    base = cli.scratch()
    world.write(files, base)
    before = world.read(files, base)
    run = (cli.run_process if case["process"] else cli.run)(mode + [f["path"] for f in files], base)
    after = world.read(files, base)
    problems = world.check(run, mode, [f["path"] for f in files], expected, base)
    if "--format" not in mode and after != before:
        problems.append("a file was modified")
    return ["%s: %s\n%s" % (" ".join(mode), t, run.out) for t in problems[:3]], seen
