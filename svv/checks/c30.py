"""C30: a command line is understood or refused before a file is touched, and its last lines sum it up."""
import os

from .. import cli, pyfile, world
from .c19 import INVALID

PROPERTY = "C30"
RULE = (
    "random folders of Python files and random command lines: every mix of modes, sources in any order "
    "and number (files, folders, repeated, missing, none), options before, between and behind them, "
    "repeated, contradicting, unknown or with a value, --version and --help; the event log of "
    "file accesses, the streams, the exit status, the files afterwards and the exact last lines of the "
    "report are compared with what the command line asks for; distinct = distinct command line and folder"
)
ASSUMPTIONS = ["--version and --help are given before the options that contradict or are unknown, or without these"]
CASES = {"quick": 7000, "thorough": 100000}
REQUIRED = {
    "refused": 1200, "no mode": 250, "contradicting": 300, "unknown option": 250, "no source": 150, "version or help": 250,
    "understood": 3000, "options behind the sources": 700, "repeated option": 250, "several modes": 1000,
    "one file formatted": 500, "several files formatted": 500, "nothing to format": 300,
    "one invalid": 200, "several invalid": 500, "nothing invalid": 300, "file cannot be analysed": 150, "missing source": 150,
    "deep query": 40,
}
FORMATS = ["--format", "--check-format"]
VALIDATES = ["--validate", "--verbose-validate"]
UNKNOWN = [
    "--fix", "-f", "--validat-e", "--formatt", "--validate=yes", "--format=sql", "--ve", "--v", "-q", "--no-format", "--check-format=1",
    "--dry-run", "-x.py", "--diff", "--verbose-validates", "-v", "--recursive", "--FORMAT",
]
DEEP = {"path": "deep.py", "raw": "x = 'select a, b from t'\ny = 'select " + "(" * 600 + "a" + ")" * 600 + "'\n", "broken": "deep"}


def make(rng, tier):
    invalid = rng.choice((0, 0, 0.2, 0.6))
    plain = rng.random() < 0.15

    def query():
        if rng.random() < invalid:
            return rng.choice(INVALID)
        if plain:
            return rng.choice(("SELECT a\nFROM t", "SELECT 1"))
        return rng.choice(pyfile.SIMPLE)

    files = []
    for _ in range(rng.choice((1, 1, 2, 2, 3))):
        files.append(world.good(
            rng, [f["path"] for f in files], queries=query, statements=rng.choice((1, 2, 4)), strings=rng.choice((0.3, 0.9)),
            optout=0.1, comments=0.2, unparsable=0,
        ))
    if rng.random() < 0.1:
        files.append(world.broken(rng, [f["path"] for f in files]))
    if rng.random() < 0.06:
        files.append(dict(DEEP))
    sources = [f["path"] for f in files if rng.random() < 0.9]
    if rng.random() < 0.15:
        sources = ["."]
    if rng.random() < 0.15:
        sources.append(rng.choice(sources + ["."]))
    if rng.random() < 0.15:
        sources.append(rng.choice(("missing.py", "no/such", "missing")))
    rng.shuffle(sources)
    kind = rng.choice(("right",) * 5 + ("no mode", "contradicting", "unknown", "no source", "special"))
    options = []
    modes = rng.choice(world.MODES)
    if kind == "contradicting":
        options = list(rng.choice((FORMATS, VALIDATES, FORMATS + VALIDATES, FORMATS + VALIDATES[:1], VALIDATES + FORMATS[1:])))
    elif kind != "no mode" and (kind != "special" or rng.random() < 0.5):
        options = list(modes)
        if rng.random() < 0.15:
            options.append(rng.choice(options))
    rng.shuffle(options)
    if kind == "unknown":
        options.insert(rng.randrange(len(options) + 1), rng.choice(UNKNOWN))
    if kind == "special":
        options.insert(0, rng.choice(("--version", "--help", "-h")))
    if kind == "no source":
        sources = []
    place = rng.choice(("before", "before", "behind", "around"))
    if place == "before":
        args = options + sources
    elif place == "behind":
        args = sources + options
    else:
        k = rng.randrange(len(options) + 1)
        args = options[:k] + sources + options[k:]
    if sources and place == "before" and rng.random() < 0.1:
        args = options + ["--"] + sources
    return {"files": files, "args": args, "process": rng.random() < 0.01}


def understand(args):
    """"version", "help", an error, or the modes and the sources of a command line"""
    modes, sources = [], []
    only_sources = False
    for arg in args:
        if only_sources or not arg.startswith("-"):
            sources.append(arg)
        elif arg == "--":
            only_sources = True
        elif arg in ("--version", "--help", "-h"):
            return "special"
        else:
            if arg not in FORMATS + VALIDATES:
                return "unknown option"
            if arg not in modes:
                modes.append(arg)
    if not sources:
        return "no source"
    if not modes:
        return "no mode"
    if set(FORMATS) <= set(modes) or set(VALIDATES) <= set(modes):
        return "contradicting"
    return modes, sources


def summary(modes, told):
    """The last lines of a report, in the patterns of which the numbers agree with what was told before."""
    lines = []
    if world.formats(modes):
        done = "would be reformatted" if "--check-format" in modes else "reformatted"
        changes = told["would"] + told["reformatted"]
        n = sum(e[1] for e in changes)
        if n:
            lines.append(["%d file%s %s (%d changed SQL %s)." % (len(changes), "s" * (len(changes) > 1), done, n, q)
                          for q in (("queries", "query") if n == 1 else ("queries",))])
        else:
            lines.append(["No file %s." % done])
    if "--validate" in modes or "--verbose-validate" in modes:
        n = sum(e[1] for e in told["invalid"])
        if n:
            lines.append(["%d file%s detected with invalid SQL (%d invalid SQL %s)." % (len(told["invalid"]), "s" * (len(told["invalid"]) > 1), n, q)
                          for q in (("query", "queries") if n == 1 else ("queries",))])
        else:
            lines.append(["No invalid queries found."])
    return lines


def judge(case):
    import sqlvalidator

    files, args = case["files"], case["args"]
    events = {}
    seen = {"key": repr((files, args)), "events": events, "nontrivial": True, "sample": {"args": args}}
    base = cli.scratch()
    world.write(files, base)
    before = world.read(files, base)
    what = understand(args)
    run = (cli.run_process if case["process"] else cli.run)(args, base)
    after = world.read(files, base)
    problems = []
    if isinstance(what, str):
        events["version or help" if what == "special" else "refused"] = 1
        if what != "special":
            events[what] = 1
        touched = [p for _, p in run.events if isinstance(p, str) and p.startswith(base + os.sep)]
        if run.crash:
            problems.append("the run failed: " + run.crash)
        if after != before or run.writes or run.others:
            problems.append("files were written: %r" % (run.writes + run.others,))
        if touched:
            problems.append("files were opened: %r" % touched)
        if what == "special":
            text = run.out
            if run.code != 0 or run.err:
                problems.append("%s: exit status %r\n%s" % (what, run.code, run.err))
            if "--version" in args:
                from sqlvalidator import main

                if main.__version__ not in text or len(text.split("\n")) != 2:
                    problems.append("the version is told as %r" % text)
            elif not all(o in text for o in FORMATS + VALIDATES):
                problems.append("the help does not name every option: " + text)
        else:
            if run.code != 2 or run.out or "usage" not in run.err.lower():
                problems.append("not refused (%s): exit status %r\n%s%s" % (what, run.code, run.out, run.err))
    else:
        modes, sources = what
        events["understood"] = 1
        plain = [a for a in args if a != "--"]
        events["options behind the sources"] = int(plain[-1] not in sources)
        events["repeated option"] = int(len(modes) + len(sources) < len(plain))
        events["several modes"] = int(len(modes) > 1)
        missing = sum(s.startswith(("missing", "no/")) for s in sources)
        events["missing source"] = int(missing > 0)
        known = [f["path"] for f in files]
        covered = [p for p in known if p in sources or "." in sources and p.endswith(".py")]
        events["file cannot be analysed"] = sum("raw" in f for f in files if f["path"] in covered)
        events["deep query"] = sum(f["path"] == "deep.py" for f in files if f["path"] in covered)
        expected = world.predict(files, sqlvalidator, modes)
        if expected is None:
            seen["nontrivial"] = False
            return [], seen
        problems += world.check(run, modes, covered, expected, base, missing=missing)
        told = cli.report(run.out)
        lines = run.out.split("\n")
        want = summary(modes, told)
        if lines[-1] != "" or len(lines) <= len(want) or any(l not in w for l, w in zip(lines[-1 - len(want):-1], want)):
            problems.append("the report does not end in %r" % (want,))
        n = len(told["would"]) + len(told["reformatted"])
        if world.formats(modes):
            events["one file formatted" if n == 1 else "several files formatted" if n else "nothing to format"] = 1
        if set(modes) & set(VALIDATES):
            n = sum(e[1] for e in told["invalid"])
            events["one invalid" if n == 1 else "several invalid" if n else "nothing invalid"] = 1
        if "--format" not in modes and after != before:
            problems.append("a file was modified")
    return ["sqlvalidator %s: %s\n%s%s" % (" ".join(args), t, run.out, run.err) for t in problems[:3]], seen
