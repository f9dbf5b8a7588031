"""C20: every given file is handled once, and nothing else."""
import os

from .. import cli, pyfile, world

PROPERTY = "C20"
RULE = (
    "random folder trees with Python and other files, links and odd names, and random lists of inputs "
    "(files, folders, other spellings, absolute paths, links, repetitions, missing ones) in every mode; "
    "the log of opened files, the report and the file bytes are compared with what the inputs cover; "
    "distinct = distinct trees and input lists"
)
ASSUMPTIONS = ["two names of a file are one file when they resolve to the same path"]
CASES = {"quick": 6000, "thorough": 90000}
REQUIRED = {
    "inputs": 15000, "folders given": 5000, "files given twice": 3000, "missing inputs": 1500, "other files not given": 4000,
    "other files given": 1500, "links": 500, "files handled": 10000,
}
SMALL = [
    'x = "select a, b from t"\n', "x = 'select a from t'\ny = 'select a'\n", "x = '''\nSELECT\n a,\n b\nFROM t\n'''\n", "x = 1\n", "",
    "select = 'select b from t limit -1'\nz = 'select a,b from t'\n", "q = 'select a from t'  # nosqlformat\n",
]


def small(rng):
    """Simple contents: these cases are about which files are handled."""
    source = rng.choice(SMALL)
    pieces, at = [], 0
    while True:
        spots = [source.find(q, at) for q in ("'", '"')]
        spots = [s for s in spots if s >= 0]
        if not spots:
            break
        start = min(spots)
        end = pyfile.read_literal(source, start)[3]
        pieces += [["code", source[at:start]], ["sel", source[start:end]]]
        at = end
    rest = source[at:]
    code, comment, tail = rest.partition("  # nosqlformat")
    # statement ends matter to comments only
    pieces += [["code", code]] + ([["comment", comment], ["end", tail]] if comment else [])
    return {"pieces": pieces, "newline": "\n", "encoding": "utf-8", "seed": 0}


def spelling(rng, p, base_known=True):
    r = rng.random()
    parts = p.split("/")
    if r < 0.45:
        return p
    if r < 0.6:
        return "./" + p
    if r < 0.7:
        return "{BASE}/" + p
    if r < 0.8:
        return "/./".join(parts) if len(parts) > 1 else ".//" + p
    if r < 0.9 and len(parts) > 1:
        return parts[0] + "/../" + p
    return "../{NAME}/" + p


def make(rng, tier):
    files = []
    for _ in range(rng.choice((1, 2, 3, 5, 8, 12))):
        taken = [f["path"] for f in files]
        r = rng.random()
        ends = world.GOOD_ENDS if r < 0.7 else world.OTHER_ENDS
        if rng.random() < 0.05:
            files.append(world.broken(rng, taken, statements=1))
        else:
            files.append({"path": world.path(rng, taken, ends), "file": small(rng)})
    folders = sorted({"/".join(f["path"].split("/")[:k]) for f in files for k in range(1, f["path"].count("/") + 1)})
    links = []
    if rng.random() < 0.25:
        for k in range(rng.choice((1, 1, 2))):
            target = rng.choice([f["path"] for f in files] + folders)
            where = rng.choice([""] + [f + "/" for f in folders]) + "link%d%s" % (k, rng.choice((".py", ".py", "", ".txt")))
            links.append([where, target])
    inputs = []
    for _ in range(rng.choice((1, 1, 2, 3, 4, 6))):
        r = rng.random()
        if r < 0.4:
            inputs.append(spelling(rng, rng.choice(files)["path"]))
        elif r < 0.6 and folders:
            inputs.append(spelling(rng, rng.choice(folders)) + rng.choice(("", "", "/")))
        elif r < 0.75:
            inputs.append(rng.choice((".", "./", "{BASE}", "../{NAME}", "./.")))
        elif r < 0.85:
            inputs.append(rng.choice(("missing.py", "no/such", "missing", "pkg/missing.py", "a.pyx", " ")))
        elif links:
            inputs.append(rng.choice(links)[0])
        else:
            inputs.append(rng.choice(files)["path"])
    return {"files": files, "links": links, "inputs": inputs, "mode": rng.choice(world.MODES)}


def covered(base, given):
    """Real paths of the files an input covers; None when there is no such input."""
    p = os.path.join(base, given)
    if os.path.isdir(p):
        out = []
        for root, _, names in os.walk(p):
            out += [os.path.realpath(os.path.join(root, n)) for n in names if n.endswith(".py")]
        return out
    if os.path.isfile(p):
        return [os.path.realpath(p)]
    return None


def judge(case):
    import sqlvalidator

    files, mode = case["files"], case["mode"]
    events = {"inputs": len(case["inputs"])}
    seen = {"key": repr([case["links"], case["inputs"], mode, [(f["path"], world.content(f)) for f in files]]), "events": events,
            "sample": {"files": [f["path"] for f in files], "links": case["links"], "inputs": case["inputs"], "mode": mode}}
    expected = world.predict(files, sqlvalidator, mode)
    if expected is None:
        seen["nontrivial"] = False
        return [], seen
    base = cli.scratch()
    outside = os.path.join(base, "w")
    os.mkdir(outside)
    base = outside
    world.write(files, base)
    for where, target in case["links"]:
        if not os.path.lexists(os.path.join(base, where)):
            os.symlink(os.path.join(base, target), os.path.join(base, where))
            events["links"] = events.get("links", 0) + 1
    inputs = [i.replace("{BASE}", base).replace("{NAME}", os.path.basename(base)) for i in case["inputs"]]
    handled, missing, twice = [], 0, 0
    for given in inputs:
        paths = covered(base, given)
        if paths is None:
            missing += 1
            continue
        events["folders given"] = events.get("folders given", 0) + os.path.isdir(os.path.join(base, given))
        for p in paths:
            p = os.path.relpath(p, base)
            if p in handled:
                twice += 1
            else:
                handled.append(p)
    others = [f["path"] for f in files if f["path"] not in handled]
    events.update({
        "files given twice": twice, "missing inputs": missing, "files handled": len(handled),
        "other files not given": sum(not p.endswith(".py") for p in others),
        "other files given": sum(not p.endswith(".py") for p in handled),
    })
    before = world.read(files, base)
    run = cli.run(mode + inputs, base)
    after = world.read(files, base)
    problems = world.check(run, mode, handled, expected, base, missing=missing)
    for p in others:
        if after[p] != before[p] or run.reads(os.path.join(base, p)):
            problems.append("%r was not given, but touched" % p)
    for p in handled:
        n = sum(1 for k, q in run.events if k == "write" and q == os.path.join(base, p))
        if n > 1:
            problems.append("%r was written %d times" % (p, n))
        if not run.reads(os.path.join(base, p)):
            problems.append("%r was never read" % p)
        if after[p] != before[p] and ("--format" not in mode or p not in expected):
            problems.append("%r was modified" % p)
    # a file is read as often as one given once
    for changes in (False, True):
        reads = {
            run.reads(os.path.join(base, p)): p
            for p in handled if p in expected and bool(expected[p]["changes"]) is changes
        }
        if len(reads) > 1:
            problems.append("some files are read more often than others: %r" % (reads,))
    return ["%s %s: %s\n%s" % (" ".join(mode), " ".join(inputs), t, run.out) for t in problems[:3]], seen
