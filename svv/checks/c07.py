"""C07: the work done for a text is bounded by its length."""
import json
import os

from .. import cli, effort, families, render, vgen, work

PROPERTY = "C07"
RULE = (
    "the work of formatting and of validating a text, counted as source lines executed inside the "
    "package: (1) every construct repeated n times, n doubling, (2) every bracketing construct "
    "nested n deep, n = 1..24, (3) pairs of constructs nested in turn, (4) random queries, and "
    "queries damaged, cut off, shuffled, or made of random tokens, (5) Python files of n strings, comments, "
    "f-strings, lines in each of the modes, n doubling; distinct = distinct texts"
)
ASSUMPTIONS = [
    "executed lines stand for work; time spent inside one line (string operations, regular "
    "expressions) is only bounded by the CPU guard of 60 s per case",
    "the bounds, 60000 + 4000*n + 150*n*n lines for n characters / 4, are some ten times what "
    "the slowest text of this size needs",
]
CASES = {"quick": 6000, "thorough": 80000}
REQUIRED = {"texts measured": 5000, "families doubled": 70, "families nested": 30, "files doubled": 80, "damaged": 2000}
CPU = 180
SIZES = {"quick": (16, 32, 64, 128, 256), "thorough": (16, 32, 64, 128, 256, 512)}
# growing the text twofold may grow the work fourfold, and some
RATIO = 5.5
# a file twice as long is twice the work
FILE_RATIO = 2.6
FILE_SIZES = (60, 120, 240, 480)
FILE_MODES = (["--format"], ["--check-format"], ["--verbose-validate"], ["--format", "--validate"])
LEAST = {"list": 64, "deep": 12, "pair": 16, "piece": 12}
WORDS = (
    "select from where group by having order limit offset join left right full cross on using "
    "union all intersect except with as and or not in is null true like between case when then "
    "else end distinct over partition rows range unnest cast filter count array_agg extract "
    "exists replace rollup nulls first asc desc a b t f x.y * ( ) ( ) ( ) [ ] , , . ; = < > <= "
    "<> != + - / % || & | ' \" ` 'a' \"b\" `c` 1 2.5 $1 ? :n %s @p -- /* \\ { } # ~ ^ !"
).split()


def bound(text):
    n = len(text) / 4
    return int(60000 + 4000 * n + 150 * n * n)


def fixed(tier):
    for name in families.LISTS:
        yield {"kind": "list", "name": name, "sizes": list(SIZES[tier])}
    for name in families.DEEP:
        yield {"kind": "deep", "name": name, "depth": 24}
    for name in families.PIECES:
        for host in families.HOSTS:
            yield {"kind": "piece", "name": [name, host], "depth": 20}
    for name in families.FILES:
        for mode in FILE_MODES:
            yield {"kind": "file", "name": name, "mode": mode}
    names = sorted(families.PIECES)
    for a in names:
        for b in names:
            yield {"kind": "pair", "name": [a, b]}


def make(rng, tier):
    r = rng.random()
    if r < 0.2:
        text = render.render(work.query(rng, tier)[0].tokens(), rng)
    elif r < 0.3:
        text = render.render(vgen.scenario(rng).node.tokens(), rng)
    elif r < 0.45:
        # pieces nested in random order
        names = [rng.choice(sorted(families.PIECES)) for _ in range(rng.randint(2, 12))]
        return {"kind": "text", "text": families.nest(names)}
    elif r < 0.7:
        words = rng.choice(work.CORPUS) if rng.random() < 0.5 else render.render(
            work.query(rng, tier)[0].tokens(), rng, "loose"
        )
        words = words.split(" ")
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(words))
            what = rng.random()
            if what < 0.3 and len(words) > 1:
                del words[i]
            elif what < 0.6:
                words.insert(i, rng.choice(WORDS))
            elif what < 0.8:
                words[i:i] = words[i : i + rng.randint(1, 8)] * rng.randint(1, 4)
            else:
                words = words[: i + 1]
        return {"kind": "damaged", "text": " ".join(words)}
    else:
        n = rng.choice((5, 10, 20, 40, 80))
        text = "select " * rng.choice((0, 1, 1)) + rng.choice((" ", " ", "")).join(
            rng.choice(WORDS) for _ in range(n)
        )
        return {"kind": "damaged", "text": text}
    return {"kind": "text", "text": text}


def both(text, cap):
    """[(what, lines, outcome)] for formatting and validating"""
    import sqlvalidator

    out = []
    for what, call in (
        ("formatting", lambda: sqlvalidator.format_sql(text)),
        ("validating", lambda: sqlvalidator.parse(text).is_valid()),
    ):
        lines, end = effort.measure(call, cap)
        out.append((what, lines, end))
    return out


def short(text):
    return text if len(text) < 1500 else text[:700] + " ... " + text[-700:]


def judge_file(case, events, seen):
    before = 0
    for n in FILE_SIZES:
        text = families.FILES[case["name"]](n)
        base = cli.scratch()
        with open(os.path.join(base, "a.py"), "w", newline="") as f:
            f.write(text)
        events["texts measured"] += 1
        cap = bound(text)
        with effort.Meter(float("inf")) as meter:
            run = cli.run(case["mode"] + ["a.py"], base)
        events["lines executed"] = events.get("lines executed", 0) + meter.lines
        if run.crash:
            return ["%s fails for a file of %d %s: %s" % (case["mode"], n, case["name"], run.crash)], seen
        if meter.lines > cap or before and meter.lines > 5000 and meter.lines > FILE_RATIO * before:
            return ["%s %r: %d lines for %d, %d for %d" % (case["mode"], case["name"], before, n // 2, meter.lines, n)], seen
        before = meter.lines
    events["files doubled"] = 1
    return [], seen


def judge(case):
    kind = case["kind"]
    events = {"texts measured": 0}
    seen = {"key": json.dumps(case, sort_keys=True), "events": events, "sample": case}
    if kind == "file":
        return judge_file(case, events, seen)
    if kind in ("text", "damaged"):
        text = case["text"]
        events["texts measured"] = 2
        events[{"text": "whole queries"}.get(kind, kind)] = 1
        for what, lines, end in both(text, bound(text)):
            events["lines executed"] = events.get("lines executed", 0) + lines
            if end == "too much":
                return ["%s takes more than %d lines for\n%s" % (what, bound(text), text)], seen
        return [], seen
    if kind == "list":
        make_text, sizes = families.LISTS[case["name"]], case["sizes"]
    elif kind == "deep":
        make_text, sizes = families.DEEP[case["name"]], list(range(1, case["depth"] + 1))
    elif kind == "piece":
        name, host = case["name"]

        def make_text(n):
            return families.nest([name] * n, *families.HOSTS[host])

        sizes = [2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20]
    else:
        a, b = case["name"]

        def make_text(n):
            return families.nest([a, b] * (n // 2))

        sizes = [4, 8, 16]
    before = {}
    for n in sizes:
        text = make_text(n)
        cap = bound(text)
        for what, lines, end in both(text, cap):
            events["texts measured"] += 1
            events["lines executed"] = events.get("lines executed", 0) + lines
            if end == "too much":
                return [
                    "%s takes more than %d lines for %r of %d (before: %s)\n%s"
                    % (what, cap, case["name"], n, before, short(text))
                ], seen
            if n >= LEAST[kind] and n // 2 in sizes and n % 2 == 0 and end != "RecursionError":
                old, old_end = before[what, n // 2]
                # short runs are ruled by fixed costs
                if old_end == end and lines > 20000 and lines > RATIO * old:
                    return [
                        "%s %r: %d lines for %d, %d for %d" % (what, case["name"], old, n // 2, lines, n)
                    ], seen
            before[what, n] = (lines, end)
    events[{"list": "families doubled", "deep": "families nested", "piece": "pieces nested", "pair": "pairs nested"}[kind]] = 1
    return [], seen
