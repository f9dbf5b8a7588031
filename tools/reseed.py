"""Confirms that the planted bugs in seeded/ still count: python3 tools/reseed.py"""
import functools, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = "/verif/seeded/"


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


@functools.lru_cache(None)
def blame(path):
    """Line numbers that stem from the original repository"""
    lines = sh("git blame -s -w %s" % path, cwd="/repo").stdout.splitlines()
    return {i for i, line in enumerate(lines, 1) if line.startswith("^") or line.startswith("31e09d4")}


def original(tree):
    """Removed lines that stem from the original repository"""
    path, found = None, []
    for line in sh("git diff -U0", cwd=tree).stdout.splitlines():
        if line.startswith("--- a/"):
            path = line[6:].strip()
        elif line.startswith("@@"):
            start, _, n = line.split()[1][1:].partition(",")
            found += [i for i in range(int(start), int(start) + int(n or 1)) if i in blame(path)]
    return found


def check(name):
    work = tempfile.mkdtemp(prefix="reseed")
    try:
        tree = work + "/repo"
        sh("cp -a /repo %s" % tree)
        demo = "%s%s/demo.sh" % (ROOT, name)
        if sh("sh " + demo, cwd=tree).returncode != 0:
            return name, "demo fails on the unchanged tree"
        patch = "%s%s/patch.diff" % (ROOT, name)
        if sh("git apply " + patch, cwd=tree).returncode != 0:
            return name, "does not apply"
        if sh("sh " + demo, cwd=tree).returncode == 0:
            return name, "demo passes with the patch"
        return name, "" if original(tree) else "no line of the original repository"
    finally:
        shutil.rmtree(work)


with ThreadPoolExecutor(6) as pool:
    for name, problem in pool.map(check, sorted(os.listdir(ROOT))):
        if problem:
            print(name, problem)
