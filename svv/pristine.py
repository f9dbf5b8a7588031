"""
Reads a JSON list of texts, writes the outcome of each in a process where nothing else was
formatted or validated before.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from svv import core, outcome  # noqa: E402


def one(sqlvalidator, text):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(outcome.fresh(sqlvalidator, text)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def main():
    sqlvalidator = core.load_package()
    texts = json.load(sys.stdin)
    json.dump([one(sqlvalidator, t) for t in texts], sys.stdout)


if __name__ == "__main__":
    main()
