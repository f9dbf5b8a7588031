"""Runs the check of each planted bug's property against it: python3 tools/catch.py [names or prefixes]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/verif/seeded/"
for name in sorted(os.listdir(ROOT)):
    if sys.argv[1:] and not name.startswith(tuple(sys.argv[1:])):
        continue
    with open(ROOT + name + "/meta.json") as f:
        prop = json.load(f)["property"]
    work = tempfile.mkdtemp(prefix="catch")
    try:
        tree = work + "/repo"
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "apply", ROOT + name + "/patch.diff"], cwd=tree, check=True)
        run = subprocess.run(
            ["timeout", "900", sys.executable, "-B", "run.py", prop], cwd=HERE, capture_output=True, text=True,
            env=dict(os.environ, SVV_REPO=tree, SVV_OUT=work, VERIF_SEED="1"),
        )
        print(name, "caught" if run.returncode == 1 and "VIOLATION property=" + prop in run.stdout else "MISSED %d" % run.returncode, flush=True)
    finally:
        shutil.rmtree(work)
