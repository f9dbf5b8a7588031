"""
Confirms planted bugs and writes them to seeded/: python3 tools/plant.py SPEC.py [id ...]

SPEC.py holds BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, demo
(Python code that asserts; format_sql, parse and cli(files, *args) are at hand).
"""
import functools, json, os, runpy, shutil, subprocess, sys, tempfile

REPO = "/repo"
SEEDED = "/verif/seeded"
PREAMBLE = '''import os, sys, subprocess, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from sqlvalidator import format_sql, parse


def cli(files, *args, prepare=None):
    """(exit status, output, files afterwards) of a run in a scratch directory"""
    with tempfile.TemporaryDirectory() as d:
        for name, content in files.items():
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(content if isinstance(content, bytes) else content.encode())
        if prepare:
            prepare(d)
        env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE="1")
        run = subprocess.run(
            [sys.executable, "-c", "from sqlvalidator.main import _main; _main()", *args],
            cwd=d, env=env, capture_output=True, text=True, timeout=120,
        )
        after = {}
        for name in files:
            path = os.path.join(d, name)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    after[name] = f.read()
        return run.returncode, run.stdout + run.stderr, after


'''
DEMO = '#!/bin/sh\n# run in the root of the repository\nexec python3 -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


@functools.lru_cache(None)
def blame(path):
    """Line numbers that stem from the original repository"""
    lines = sh("git blame -s -w %s" % path, cwd="/repo").stdout.splitlines()
    return {i for i, line in enumerate(lines, 1) if line.startswith("^") or line.startswith("31e09d4")}


def original_lines(tree):
    """Removed lines that stem from the original repository"""
    path, found = None, []
    for line in sh("git diff -U0", cwd=tree).stdout.splitlines():
        if line.startswith("--- a/"):
            path = line[6:].strip()
        elif line.startswith("@@"):
            start, _, n = line.split()[1][1:].partition(",")
            found += [i for i in range(int(start), int(start) + int(n or 1)) if i in blame(path)]
    return found


def plant(bug, checks=True):
    work = tempfile.mkdtemp(prefix="plant")
    tree = work + "/repo"
    try:
        sh("cp -a %s %s" % (REPO, tree))
        for file, old, new in bug["edits"]:
            path = tree + "/sqlvalidator/" + file
            text = open(path).read()
            if text.count(old) != 1:
                return "%s: %d matches in %s of %r" % (bug["id"], text.count(old), file, old[:80])
            open(path, "w").write(text.replace(old, new))
        original = bool(original_lines(tree))
        patch = sh("git diff", cwd=tree).stdout
        d = work + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(PREAMBLE + bug["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        good = sh("timeout 280 sh %s/demo.sh" % d, cwd=REPO)
        if good.returncode:
            return "%s: demo fails on the unchanged tree\n%s" % (bug["id"], good.stdout[-300:] + good.stderr[-600:])
        bad = sh("timeout 280 sh %s/demo.sh" % d, cwd=tree)
        if not bad.returncode:
            return bug["id"] + ": demo passes with the patch"
        t = sh("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider 2>&1 | tail -8", cwd=tree, env=dict(os.environ, PYTHONPATH=tree))
        if "failed" in t.stdout or "error" in t.stdout.lower() or "passed" not in t.stdout:
            return "%s: tests\n%s" % (bug["id"], t.stdout)
        out = SEEDED + "/" + bug["id"] if original else work + "/kept"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(d + "/" + n, out + "/" + n)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if not checks:
            return bug["id"] + ": kept"
        r = sh("timeout 880 python3 -B run.py %s" % bug["property"], cwd="/verif", env=dict(os.environ, SVV_REPO=tree, VERIF_SEED="1", SVV_OUT=work))
        return "%s%s: %s rc %d %s" % (bug["id"], "" if original else " (no original line)", bug["property"], r.returncode, "" if r.returncode == 1 else "MISSED " + (r.stdout + r.stderr)[-500:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", 4))) as pool:
        for text in pool.map(plant, bugs):
            print(text, flush=True)
