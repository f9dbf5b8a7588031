"""C26: files and modes do not influence each other."""
import os

from .. import cli, pyfile, world

PROPERTY = "C26"
RULE = (
    "random folders of files, good and bad ones, through one run with one or two modes; each file is also "
    "run alone, in each of the modes, and all together in another order; reports, bytes, totals and exit "
    "statuses must be those of the single runs put together; distinct = distinct folders, inputs and modes"
)
ASSUMPTIONS = ["every result is compared with another run of the code under test; no model is involved"]
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = {
    "files alone": 12000, "two modes": 1500, "files reported twice": 1000, "files changed": 1500, "files with failures": 500,
    "invalid files": 2000, "orders": 3000, "plain files": 1000,
}


def make(rng, tier):
    files = []
    for _ in range(rng.choice((1, 2, 2, 3, 4, 6))):
        taken = [f["path"] for f in files]
        if rng.random() < 0.12:
            files.append(world.broken(rng, taken, statements=rng.choice((1, 2))))
        else:
            files.append(world.good(
                rng, taken, statements=rng.choice((1, 1, 2, 4, 8)), strings=rng.choice((0.2, 0.7)),
                optout=rng.choice((0, 0.3)), unparsable=rng.choice((0, 0, 0, 0.1)),
            ))
    if len(files) > 1 and rng.random() < 0.2:
        # the same content twice
        files[-1] = dict(files[0], path=files[-1]["path"])
    inputs = ["."] if rng.random() < 0.4 else [f["path"] for f in files]
    if inputs != ["."] and rng.random() < 0.3:
        rng.shuffle(inputs)
    return {"files": files, "inputs": inputs, "mode": rng.choice(world.MODES), "order": rng.random()}


def blocks(run, base):
    """What the report says of each file"""
    told = cli.report(run.out)
    out = {}
    for kind in ("reformatted", "would", "invalid"):
        for entry in told[kind]:
            out.setdefault(world.relative(entry[0], base), []).append((kind,) + tuple(map(repr, entry[1:])))
    for p in told["failed"]:
        out.setdefault(world.relative(p, base), []).append(("failed",))
    return out, told


def go(files, mode, inputs):
    base = cli.scratch()
    world.write(files, base)
    run = cli.run(mode + inputs, base)
    lines, told = blocks(run, base)
    return run, lines, told, world.read(files, base)


def judge(case):
    files, mode, inputs = case["files"], case["mode"], case["inputs"]
    events = {}
    seen = {"key": repr(case), "events": events, "sample": {"mode": mode, "files": [f["path"] for f in files]}, "nontrivial": len(files) > 1 or len(mode) > 1}

    def count(name, n=1):
        events[name] = events.get(name, 0) + n

    problems = []
    run, lines, told, after = go(files, mode, inputs)
    if run.crash:
        return ["the run failed: %s" % run.crash], seen
    count("two modes", int(len(mode) > 1))
    sums = {"format": [0, 0], "validation": [0, 0]}
    code = 0
    for f in files:
        p = f["path"]
        # in a folder only the Python files count
        alone = inputs if inputs == ["."] else [p]
        want, content = [], None
        if len(mode) > 1:
            count("files reported twice", int(len(lines.get(p, ())) > 1))
        for flag in mode:
            one, its, its_told, its_after = go([f], [flag], alone)
            count("files alone")
            if one.crash:
                return ["the run failed: %s" % one.crash], seen
            said = its.get(p, [])
            if ("failed",) in said and flag in ("--format", "--check-format"):
                # nothing more is known of it
                want, content = [("failed",)], its_after[p]
                break
            want += said
            code = max(code, one.code)
            if flag == "--format" or content is None:
                content = its_after[p]
            for total, sum_ in sums.items():
                if its_told[total]:
                    sums[total] = [a + b for a, b in zip(sum_, its_told[total])]
        want = sorted(set(want)) if ("failed",) in want else sorted(want)
        if sorted(lines.get(p, [])) != want:
            problems.append("%s: the report says %r, alone and in single modes it is %r" % (p, sorted(lines.get(p, [])), want))
        if after[p] != content:
            problems.append("%s: its content is\n%r\nand alone\n%r" % (p, after[p], content))
        count("files changed", int(content != world.content(f)))
        count("files with failures", int(("failed",) in want))
        count("invalid files", int(any(w[0] == "invalid" for w in want)))
        count("plain files", int(not want))
    if run.code != code:
        problems.append("the exit status is %r, alone %r" % (run.code, code))
    for total, sum_ in sums.items():
        if told[total] is not None and list(told[total]) != sum_:
            problems.append("%s totals are %r, alone %r" % (total, told[total], sum_))
    if not problems and len(files) > 1:
        import random

        rng = random.Random(case["order"])
        again = [f["path"] for f in files] if inputs != ["."] else inputs
        rng.shuffle(again)
        other = list(files)
        rng.shuffle(other)
        modes = mode[::-1] if rng.random() < 0.5 else mode
        run2, lines2, told2, after2 = go(other, modes, again)
        count("orders")
        if lines2 != lines or after2 != after or run2.code != run.code or any(told2[t] != told[t] for t in sums):
            problems.append("with inputs in another order (%s %s)\n%s\ninstead of (%s %s)\n%s" % (modes, again, run2.out, mode, inputs, run.out))
    return ["%s %s: %s\n%s" % (" ".join(mode), " ".join(inputs), t, run.out) for t in problems[:4]], seen
