"""C18: opt-out comments are honoured, for their own string only."""
import os

from .. import cli, pyfile, world

PROPERTY = "C18"
RULE = (
    "random Python files rich in SELECT strings, other strings and comments, many of them opt-out "
    "comments, run in every mode; what is reported, counted and rewritten is compared string by string "
    "with what the generated comments ask for; distinct = distinct file contents with an opt-out comment"
)
ASSUMPTIONS = [
    "a comment belongs to the last string before it in the same statement",
]
CASES = {"quick": 6000, "thorough": 100000}
REQUIRED = {
    "opted out of format": 3000, "opted out of validation": 3000, "would change but opted out": 2000,
    "invalid but opted out": 800, "next to an opted out one": 3000,
}


def make(rng, tier):
    options = {"strings": rng.choice((0.5, 0.8, 0.95)), "optout": rng.choice((0.4, 0.8)), "comments": rng.choice((0.3, 0.7)), "unparsable": rng.choice((0, 0, 0.05, 0.2))}
    pieces = pyfile.source(rng, statements=rng.choice((1, 2, 3, 6)), **options)
    return {"file": pyfile.dress(pieces, rng), "mode": rng.choice(world.MODES)}


def judge(case):
    import sqlvalidator

    file, mode = case["file"], case["mode"]
    files = [{"path": "a.py", "file": file}]
    before = pyfile.encode(file)
    events = {}
    seen = {"key": before, "events": events, "sample": {"mode": mode, "file": before.decode(file["encoding"])[:500]}}
    expected = world.predict(files, sqlvalidator, mode)
    if expected is None:
        seen["nontrivial"] = False
        return [], seen
    sound = "a.py" in expected
    events["files that cannot be formatted"] = int(not sound)
    outcomes = expected["a.py"]["outcomes"] if sound else []
    out = [o for o in outcomes if o["without"]]
    seen["nontrivial"] = bool(out)
    events["SELECT strings"] = len(outcomes)
    for w in ("format", "validation"):
        events["opted out of " + w] = sum(w in o["without"] for o in outcomes)
    for a, b in zip(outcomes, outcomes[1:]):
        if bool(a["without"]) != bool(b["without"]):
            events["next to an opted out one"] = events.get("next to an opted out one", 0) + 1
    for o in out:
        text = file["pieces"][o["i"]][1]
        value = pyfile.evaluate(text)
        if value in pyfile.BYLESS:
            events["unparsable and opted out"] = events.get("unparsable and opted out", 0) + 1
        elif "format" in o["without"] and pyfile.reformatted(text, sqlvalidator.format_sql(value))[0] != text:
            events["would change but opted out"] = events.get("would change but opted out", 0) + 1
        if "validation" in o["without"] and not sqlvalidator.parse(value).is_valid():
            events["invalid but opted out"] = events.get("invalid but opted out", 0) + 1
    base = cli.scratch()
    world.write(files, base)
    run = cli.run(mode + ["a.py"], base)
    with open(os.path.join(base, "a.py"), "rb") as f:
        after = f.read()
    problems = world.check(run, mode, ["a.py"], expected, base)
    if "--format" in mode and sound:
        problems += [t for _, t in pyfile.compare(file, outcomes, after)]
    elif after != before:
        problems.append("the file was modified")
    return ["%s: %s\n%s\n=>\n%s\n%s" % (
        " ".join(mode), t, before.decode(file["encoding"]), after.decode(file["encoding"], "replace"), run.out,
    ) for t in problems[:3]], seen
