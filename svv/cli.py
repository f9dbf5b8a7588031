"""
Runs the command line in scratch folders, under an event log of the file operations.

Effects outside the scratch folder are refused by the audit hook, so that a broken tree cannot
harm anything.
"""
import atexit
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

from . import core

BASE = None
_log = None
_hooked = False
on_open = None
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
MUTATING = {
    "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink",
    "os.utime", "os.setxattr", "os.removexattr", "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.mkfifo",
    "os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "os.kill", "socket.connect",
}


class Refused(Exception):
    pass


def _audit(event, args):
    if _log is None:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        path = os.path.realpath(os.fsdecode(path))
        writing = bool((flags or 0) & WRITES) or any(c in (mode or "") for c in "wax+")
        _log.append(("write" if writing else "read", path))
        if on_open:
            on_open(path, writing)
        if writing and not path.startswith(BASE + os.sep):
            raise Refused("write to " + path)
    elif event in MUTATING:
        names = [os.path.realpath(os.fsdecode(a)) for a in args[:2] if isinstance(a, (str, bytes))]
        _log.append((event, tuple(names)))
        if not names or not all(n.startswith(BASE + os.sep) for n in names):
            raise Refused(event)


def scratch():
    """An empty folder of this process."""
    global BASE, _hooked
    if BASE is None or os.getpid() != scratch.pid:
        BASE = os.path.realpath(tempfile.mkdtemp(prefix="svv-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None))
        scratch.pid = os.getpid()
        import multiprocessing.util

        multiprocessing.util.Finalize(None, shutil.rmtree, args=(BASE,), kwargs={"ignore_errors": True}, exitpriority=10)
        atexit.register(shutil.rmtree, BASE, ignore_errors=True)
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked = True
    else:
        for name in os.listdir(BASE):
            path = os.path.join(BASE, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)
    return BASE


scratch.pid = None


class Run:
    def __init__(self, out, err, code, events, crash=None):
        self.out, self.err, self.code, self.events, self.crash = out, err, code, events, crash
        self.writes = [p for k, p in events if k == "write"]
        self.others = [(k, p) for k, p in events if k not in ("read", "write")]

    def shown(self, text):
        return text

    def reads(self, path):
        return sum(1 for k, p in self.events if k == "read" and p == path)


def run(args, cwd, around=contextlib.nullcontext):
    """Runs sqlvalidator with the arguments in this process."""
    global _log
    import sqlvalidator.main

    out, err = io.StringIO(), io.StringIO()
    old_argv, old_cwd = sys.argv, os.getcwd()
    code, crash = 0, None
    os.chdir(cwd)
    sys.argv = ["sqlvalidator"] + list(args)
    log = []
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            with around(out):
                _log = log
                try:
                    sqlvalidator.main._main()
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except core.OutOfTime:
                    raise
                except BaseException as e:
                    code, crash = 1, "%s: %s" % (type(e).__name__, e)
                finally:
                    _log = None
    finally:
        _log = None
        sys.argv = old_argv
        os.chdir(old_cwd)
    return Run(out.getvalue(), err.getvalue(), code, log, crash)


def run_process(args, cwd, encoding="utf-8:surrogateescape"):
    """Runs it as a process of its own, as a user does, with an output of the encoding."""
    done = subprocess.run(
        [sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from sqlvalidator.main import _main; sys.argv[0] = 'sqlvalidator'; _main()" % core.REPO]
        + list(args),
        cwd=cwd, capture_output=True, timeout=300, env=dict(os.environ, PYTHONIOENCODING=encoding, PYTHONDONTWRITEBYTECODE="1"),
    )
    out = done.stdout.decode(encoding.split(":")[0], "surrogateescape")
    err = done.stderr.decode("utf-8", "surrogateescape")
    run = Run(out, err, done.returncode, [], err if "Traceback" in err else None)
    # what the output cannot hold comes as an escape sequence
    if encoding != "utf-8:surrogateescape":
        run.shown = lambda text: text.encode(encoding, "backslashreplace").decode(encoding)
    return run


LINES = [
    ("reformatted", re.compile(r"reformatted (.+) \((\d+) changed SQL\)$")),
    ("would", re.compile(r"would reformat (.+) \((\d+) changed SQL\)$")),
    ("invalid", re.compile(r"invalid queries in (.+) \((\d+) invalid SQL\)$")),
    ("failed", re.compile(r"(?:error analysing (.+?) \(\w+(?::.*|\))|could not analyse (.+))$")),
    ("no input", re.compile(r"Error: Invalid input$")),
    ("format total", re.compile(r"(\d+) files? (?:would be )?reformatted \((\d+) changed SQL quer(?:y|ies)\)\.$")),
    ("format none", re.compile(r"No file (?:would be )?reformatted\.$")),
    ("invalid total", re.compile(r"(\d+) files? detected with invalid SQL \((\d+) invalid SQL quer(?:y|ies)\)\.$")),
    ("invalid none", re.compile(r"No invalid queries found\.$")),
]
DETAIL = re.compile(r"L(\d+) - (.*)$")


def report(out):
    """
    What a run told: {"reformatted"|"would": [(path, n)], "invalid": [(path, n, [(line, text)])],
    "failed": [path], "no input": n, "format": (files, n) or None, "validation": same, "rest": [line]}
    """
    told = {"reformatted": [], "would": [], "invalid": [], "failed": [], "no input": 0, "format": None, "validation": None, "rest": []}
    for line in out.split("\n"):
        if not line:
            continue
        for kind, pattern in LINES:
            m = pattern.match(line)
            if m:
                break
        else:
            m = DETAIL.match(line)
            if m and told["invalid"]:
                told["invalid"][-1][2].append((int(m.group(1)), m.group(2)))
            else:
                told["rest"].append(line)
            continue
        if kind in ("reformatted", "would"):
            told[kind].append((m.group(1), int(m.group(2))))
        elif kind == "invalid":
            told[kind].append((m.group(1), int(m.group(2)), []))
        elif kind == "failed":
            told[kind].append(m.group(1) or m.group(2))
        elif kind == "no input":
            told[kind] += 1
        elif kind.startswith("format"):
            told["format"] = (int(m.group(1)), int(m.group(2))) if kind.endswith("total") else (0, 0)
        else:
            told["validation"] = (int(m.group(1)), int(m.group(2))) if kind.endswith("total") else (0, 0)
    return told
