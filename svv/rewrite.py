"""One generated Python file is formatted by the command line: execution shared by C15 and C16."""
import ast
import os
import warnings

from . import cli, pyfile


def tree(text):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        module = ast.parse(text)
    for node in ast.walk(module):
        if isinstance(node, ast.Constant) and isinstance(node.value, (str, bytes)):
            node.value = type(node.value)()
    return ast.dump(module)


FORMATTING = [["--format"]] * 8 + [["--format", "--validate"], ["--format", "--verbose-validate"]]
READING = [
    ["--check-format"], ["--validate"], ["--verbose-validate"],
    ["--check-format", "--validate"], ["--check-format", "--verbose-validate"],
]


def make(rng, reading=0, **options):
    mode = rng.choice(READING) if rng.random() < reading else rng.choice(FORMATTING)
    return {"file": pyfile.dress(pyfile.source(rng, **options), rng), "mode": mode}


def judge(case):
    """{"code": problems, "literal": problems}, observed"""
    import sqlvalidator

    file = case["file"]
    before = pyfile.encode(file)
    literals = sum(p[0] == "sel" for p in file["pieces"])
    events = {
        "SELECT literals": literals,
        "other strings": sum(p[0] == "str" for p in file["pieces"]),
        "comments": sum(p[0] == "comment" for p in file["pieces"]),
        "newlines " + {"\n": "LF", "\r\n": "CRLF"}.get(file["newline"], "mixed"): 1,
        file["encoding"]: 1,
    }
    seen = {"key": before, "events": events, "nontrivial": literals > 0, "sample": before.decode(file["encoding"])[:600]}
    problems = {"code": [], "literal": []}
    try:
        outcomes = pyfile.outcome(file, sqlvalidator)
    except Exception:
        # a query the library cannot format: not a matter of this property
        seen["events"] = {"not formattable": 1}
        seen["nontrivial"] = False
        return problems, seen
    path = os.path.join(cli.scratch(), "a.py")
    with open(path, "wb") as f:
        f.write(before)
    mode = case["mode"]
    formats = "--format" in mode
    events["mode " + " ".join(mode)] = 1
    run = cli.run(mode + ["a.py"], cli.BASE)
    with open(path, "rb") as f:
        after = f.read()
    changes = [o for o in outcomes if o["changes"]]
    if not formats:
        events["strings to rewrite in a file only read"] = len(changes)
        if set(run.writes) or run.others or after != before:
            problems["code"].append("%s writes: %r" % (" ".join(mode), run.writes + run.others))
        return report(problems, before, after, file, run), seen
    events["rewritten"] = len(changes)
    events["rewritten with escapes"] = sum(
        pyfile.reformatted(file["pieces"][o["i"]][1], o["fmt"])[0] is None for o in changes
    )
    events["files left alone"] = int(not changes)
    events["bytes compared"] = len(after)
    if set(run.writes) - {path} or run.others:
        problems["code"].append("also written: %r" % (run.writes + run.others))
    if not changes and (run.writes or after != before):
        problems["code"].append("nothing changes, yet the file is written")
    if run.crash or run.err:
        problems["literal"].append("the run failed: %s %s" % (run.crash, run.err))
    for kind, text in pyfile.compare(file, outcomes, after):
        for k in ("code", "literal") if kind == "newlines" else (kind,):
            problems[k].append(text)
    if not any(problems.values()):
        text = after.decode(file["encoding"])
        try:
            if tree(text) != tree(before.decode(file["encoding"])):
                problems["literal"].append("the syntax tree is another one")
        except SyntaxError as e:
            problems["literal"].append("the file is no valid Python any more: %s" % e)
        again = cli.run(["--format", "a.py"], cli.BASE)
        if again.writes:
            problems["literal"].append("a second run writes the file again")
    return report(problems, before, after, file, run), seen


def report(problems, before, after, file, run):
    return {
        kind: [
            "%s\n%s\n=>\n%s\n%s" % (t, before.decode(file["encoding"]), after.decode(file["encoding"], "replace"), run.out)
            for t in texts[:2]
        ]
        for kind, texts in problems.items()
    }
