"""
Folders of generated files, what a run of the command line on them is to report, and the
comparison with what it did.
"""
import os

from . import cli, pyfile

MODES = [
    ["--format"], ["--check-format"], ["--validate"], ["--verbose-validate"],
    ["--format", "--validate"], ["--format", "--verbose-validate"],
    ["--check-format", "--validate"], ["--check-format", "--verbose-validate"],
]
DIRS = ["", "", "pkg", "pkg/sub", "pkg/sub/deep", "other", ".hidden", "pkg two", "x.py", "t\xe9st", "__pycache__", "tests"]
STEMS = ["a", "b", "c", "main", "models", "q 1", "__init__", "\xe9t\xe9", "select", "x.y", ".dot", "setup", "caf\udce9"]
GOOD_ENDS = [".py"]
OTHER_ENDS = [".txt", "", ".pyi", ".py.bak", ".PY", ".sql", ".pyc", "py", ".pyw", ".py3", ".Py", ".py~", ".ipynb", ".pyx", "_py", ".py.txt", ".python"]

# contents that cannot be analysed, as latin-1 text
BROKEN = {
    "undecodable": ["x = 'select a, b from t'\n# \xff\xfe\n", "x = '\xe9'\ny = 'select a,b from t'\n"],
    "tokens": [
        "x = (\n'select a, b from t'\n", "x = 'select a, b from t'\ny = 'select a\n", "if x:\n    y = 'select a, b from t'\n  z\n",
        "y = 'select a, b from t'\nx = '''select a, b from t\n",
    ],
    "cookie": ["# coding: no-such-codec\nx = 'select a, b from t'\n"],
    "null": ["x = 'select a, b from t'\n\x00\n"],
    "deep": ["x = 'select a, b from t'\ny = 'select " + "(" * 500 + "a" + ")" * 500 + "'\nz = 'select a, b from t'\n"],
}


def path(rng, taken, ends=GOOD_ENDS):
    for _ in range(50):
        folder = rng.choice(DIRS)
        name = rng.choice(STEMS) + rng.choice(ends)
        p = folder + "/" + name if folder else name
        if p not in taken and not any(t.startswith(p + "/") or p.startswith(t + "/") for t in taken):
            return p
    return "n%d%s" % (len(taken), rng.choice(ends))


def good(rng, taken, ends=GOOD_ENDS, **options):
    file = pyfile.dress(pyfile.source(rng, **options), rng)
    return {"path": path(rng, taken, ends), "file": file}


def unparsable(rng, **options):
    """A valid Python file among whose SELECT strings is one that cannot be parsed."""
    file = pyfile.dress(pyfile.source(rng, **options), rng)
    spots = [i for i, p in enumerate(file["pieces"]) if p[0] == "sel"]
    bad = ["sel", '"%s"' % rng.choice(pyfile.BAD_SQL)]
    spots = [i for i in spots if not pyfile.opted_out(file["pieces"], i)]
    if spots:
        file["pieces"][rng.choice(spots)] = bad
    else:
        file["pieces"] += [["end", "\n"], ["code", "x = "], bad, ["end", "\n"]]
    return pyfile.encode(file)


def broken(rng, taken, **options):
    kind = rng.choice(sorted(BROKEN) + ["query"] * 4)
    raw = unparsable(rng, **options) if kind == "query" else rng.choice(BROKEN[kind]).encode("latin-1")
    return {"path": path(rng, taken), "raw": raw.decode("latin-1"), "broken": kind}


def content(f):
    return f["raw"].encode("latin-1") if "raw" in f else pyfile.encode(f["file"])


def write(files, base):
    for f in files:
        p = os.path.join(base, f["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as out:
            out.write(content(f))


def read(files, base):
    out = {}
    for f in files:
        with open(os.path.join(base, f["path"]), "rb") as file:
            out[f["path"]] = file.read()
    return out


def formats(mode):
    return "--format" in mode or "--check-format" in mode


def predict(files, sqlvalidator, mode):
    """path: {"changes": n, "invalid": [(line, [error])]} of the files that can be analysed, or None"""
    out = {}
    for f in files:
        if "raw" in f:
            continue
        try:
            outcomes = pyfile.outcome(f["file"], sqlvalidator, formats(mode))
        except pyfile.Unformattable:
            continue
        except Exception:
            return None
        out[f["path"]] = {
            "changes": sum(o["changes"] for o in outcomes),
            "invalid": [(o["line"], o["errors"]) for o in outcomes if o["errors"]],
            "outcomes": outcomes,
        }
    return out


def relative(printed, base):
    """The path of a file of the world, given as printed"""
    return os.path.relpath(os.path.realpath(os.path.join(base, printed)), base)


def check(run, mode, covered, expected, base, formatted=(), missing=0, details=True):
    """
    Problems of a run in a mode that covers some files (paths), given what is expected of each;
    files without expectation are to be reported as failed.
    """
    told = cli.report(run.out)
    problems = []
    covered = [run.shown(p) for p in covered]
    formatted = [run.shown(p) for p in formatted]
    expected = {
        run.shown(p): dict(e, invalid=[(line, [run.shown(t) for t in errors]) for line, errors in e["invalid"]])
        for p, e in expected.items()
    }
    if run.crash:
        problems.append("the run failed: " + run.crash)
    formats, checks = "--format" in mode, "--check-format" in mode
    validates, verbose = "--validate" in mode or "--verbose-validate" in mode, "--verbose-validate" in mode
    changed = {
        p: expected[p]["changes"] for p in covered if p in expected and expected[p]["changes"] and p not in formatted
    }
    invalid = {p: expected[p]["invalid"] for p in covered if p in expected and expected[p]["invalid"]}

    def same(what, got, want):
        if got != want:
            problems.append("%s: %r, not %r" % (what, got, want))

    def listed(kind):
        return sorted((relative(e[0], base), e[1]) for e in told[kind])

    same("reformatted", listed("reformatted"), sorted(changed.items()) if formats else [])
    same("would reformat", listed("would"), sorted(changed.items()) if checks else [])
    same("invalid", listed("invalid"), sorted((p, len(v)) for p, v in invalid.items()) if validates else [])
    same("failed", sorted(relative(p, base) for p in told["failed"]), sorted(p for p in covered if p not in expected))
    same("missing inputs", told["no input"], missing)
    same("format totals", told["format"], (len(changed), sum(changed.values())) if formats or checks else None)
    n_invalid = sum(map(len, invalid.values()))
    same("validation totals", told["validation"], (len(invalid), n_invalid) if validates else None)
    same("exit status", run.code, int(bool(checks and changed or validates and n_invalid)))
    if run.err:
        problems.append("on stderr: " + run.err)
    if details and not formatted:
        for printed, n, _ in told["invalid"]:
            p = relative(printed, base)
            block = "invalid queries in %s (%d invalid SQL)\n" % (printed, n)
            if verbose:
                block += "".join("L%d - %s\n" % (line, ", ".join(errors)) for line, errors in invalid.get(p, ()))
            if block not in run.out:
                problems.append("details: %r is not in the report" % block)
        if not verbose and "\nL" in "\n" + run.out and any(e[2] for e in told["invalid"]):
            problems.append("details without --verbose-validate")
    if run.events:
        writes = sorted(os.path.relpath(p, base) for p in set(run.writes))
        same("written", writes, sorted(changed) if formats else [])
    if run.others:
        problems.append("file operations: %r" % (run.others,))
    return problems
