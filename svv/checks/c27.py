"""C27: an interrupted run leaves every file whole, and running again finishes its work."""
import ast
import contextlib
import os
import sys

from .. import cli, core, world

PROPERTY = "C27"
LEVEL = "fault_enumeration"
RULE = (
    "random folders of sound files; a run over them is interrupted (KeyboardInterrupt) or killed (a forked "
    "process that ends at once) at the n-th call or return, of functions of the package and of builtin ones "
    "alike, or its output fails at the n-th line; the bytes of each file are compared with those before "
    "and those after an undisturbed run, and the run is then repeated undisturbed; distinct = distinct "
    "folders and places of interruption"
)
ASSUMPTIONS = [
    "a process that ends at a call stands for one that is killed between the same two calls",
    "an interruption between the opening and the closing of the file that is written is the known finding",
]
CASES = {"quick": 2000, "thorough": 40000}
REQUIRED = {
    "interrupted": 4000, "killed": 1000, "output failed": 500, "before the first write": 2000, "after the last write": 300,
    "between writes": 1000, "runs repeated": 4000, "beside a write": 1000,
}
# calls and returns from the opening of a file for writing to its being closed
WINDOW = 12


class Watch:
    """
    Numbers the calls and returns of a run, notes at which of them each file is opened for
    writing, and interrupts the run at the n-th.
    """

    def __init__(self, kind=None, n=-1):
        self.kind, self.n = kind, n
        self.count = 0
        self.opened = {}
        self.reached = False

    @contextlib.contextmanager
    def __call__(self, out):
        def opened(path, writing):
            if writing:
                self.opened.setdefault(path, self.count)

        def profile(frame, event, arg):
            if not frame.f_code.co_filename.startswith(core.REPO):
                return
            self.count += 1
            if self.count == self.n:
                self.reached = True
                if self.kind == "killed":
                    os.write(self.pipe, repr(self.opened).encode())
                    os._exit(9)
                raise KeyboardInterrupt

        def swallowed(unraisable):
            # raised while the interpreter closes a generator: nobody is told
            self.reached = False

        cli.on_open = opened
        hook, sys.unraisablehook = sys.unraisablehook, swallowed
        if self.kind == "output failed":
            write = out.write
            lines = 0

            def failing(text):
                nonlocal lines
                lines += 1
                if lines >= self.n:
                    self.reached = True
                    raise BrokenPipeError(32, "Broken pipe")
                return write(text)

            out.write = failing
        else:
            sys.setprofile(profile)
        try:
            yield
        finally:
            sys.setprofile(None)
            sys.unraisablehook = hook
            cli.on_open = None


def make(rng, tier):
    files = []
    options = {"statements": rng.choice((1, 1, 2, 4)), "strings": 0.85, "comments": 0.05}
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        files.append(world.good(rng, [f["path"] for f in files], **options))
    mode = rng.choice([["--format"]] * 4 + [["--format", "--validate"], ["--format", "--verbose-validate"], ["--check-format"], ["--verbose-validate"]])
    return {
        "files": files,
        "inputs": ["."] if rng.random() < 0.4 else [f["path"] for f in files],
        "mode": mode,
        "where": [rng.random() ** rng.choice((1, 1, 3)) for _ in range(3 if tier == "quick" else 20)],
        # places beside the writes
        "near": [[rng.random(), rng.choice((-3, -2, -1, 0, 1, 13, 14, 15, 16, 18, 21, 30))] for _ in range(2 if tier == "quick" else 10)],
        "kills": rng.random() < 0.25,
        "pipe": [rng.randint(1, 6)] if rng.random() < 0.5 else [],
    }


def run(case, base, watch):
    args = case["mode"] + case["inputs"]
    if watch.kind != "killed":
        return cli.run(args, base, watch)
    told, watch.pipe = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            cli.run(args, base, watch)
            status = 0
        finally:
            os._exit(status)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    os.close(watch.pipe)
    with open(told, "rb") as pipe:
        opened = pipe.read()
    watch.reached = status == 9
    if watch.reached:
        watch.opened = ast.literal_eval(opened.decode())
    return None


def judge(case):
    files = case["files"]
    events = {}
    seen = {"key": repr(case), "keys": [], "events": events, "nontrivial": False, "sample": {"mode": case["mode"], "files": [f["path"] for f in files]}}
    base = cli.scratch()
    world.write(files, base)
    before = world.read(files, base)
    plain_watch = Watch("interrupted")
    plain = run(case, base, plain_watch)
    done = world.read(files, base)
    told = cli.report(plain.out)
    if plain.crash or told["failed"] or plain_watch.count < 10:
        return [], seen
    order = sorted(plain_watch.opened.values())
    places = [("interrupted", 1 + int(w * (plain_watch.count - 1))) for w in case["where"]]
    for w, d in case["near"]:
        if order:
            places.append(("interrupted", max(1, order[int(w * len(order))] + d)))
    if case["kills"]:
        places += [("killed", n) for _, n in places]
    places += [("output failed", n) for n in case["pipe"]]
    problems = []

    def count(name):
        events[name] = events.get(name, 0) + 1

    for kind, n in places:
        base = cli.scratch()
        world.write(files, base)
        watch = Watch(kind, n)
        result = run(case, base, watch)
        if not watch.reached:
            continue
        after = world.read(files, base)
        seen["nontrivial"] = True
        seen["keys"].append((repr(files), kind, n, tuple(case["mode"])))
        count(kind)
        wrong, writing = [], False
        opened = {os.path.relpath(p, base): at for p, at in watch.opened.items()}
        for p in after:
            at = opened.get(p)
            if kind != "output failed" and at is not None and n <= at + WINDOW:
                # it is just being written
                writing = True
                continue
            if after[p] not in (before[p], done[p]):
                wrong.append("%r is neither as it was nor completely rewritten: %r" % (p, after[p][:300]))
            elif kind != "output failed" and at is not None and after[p] != done[p]:
                wrong.append("%r is not rewritten, though its turn was over" % p)
        if result is not None:
            reported = {world.relative(e[0], base) for e in cli.report(result.out)["reformatted"]}
            reads = [os.path.relpath(p, base) for k, p in result.events if k == "read" and p.startswith(base + os.sep)]
            last = reads[-1] if reads else None
            if kind == "interrupted":
                # no file is rewritten later than when the next one is read
                for p in reads:
                    if p in after and p != last and after[p] != done[p]:
                        wrong.append("%r is not rewritten, though %r is being read already" % (p, last))
            for p in reported:
                if "--format" in case["mode"] and after.get(p) != done.get(p):
                    wrong.append("%r is reported, but not rewritten" % p)
        extra = [
            os.path.join(d, f) for d, _, names in os.walk(base) for f in names
            if os.path.relpath(os.path.join(d, f), base) not in after
        ]
        if extra and kind != "killed":
            wrong.append("left behind: %r" % extra)
        if kind == "interrupted" and not result.crash:
            wrong.append("the run went on after the interruption")
        if kind != "output failed" and order:
            count("before the first write" if n <= order[0] else "after the last write" if n > order[-1] + WINDOW else "between writes")
            if any(abs(n - o) < 20 for o in order):
                count("beside a write")
        if not wrong and not writing:
            # running again brings the work to its end
            again = cli.run(case["mode"] + case["inputs"], base)
            count("runs repeated")
            if world.read(files, base) != done:
                wrong.append("running again gives other files than a run that is not interrupted")
            if again.crash:
                wrong.append("running again fails: " + again.crash)
            if "--format" in case["mode"]:
                told_again = cli.report(again.out)
                want = {(world.relative(e[0], base), e[1]) for e in told["reformatted"] if after[world.relative(e[0], base)] != done[world.relative(e[0], base)]}
                got = {(world.relative(e[0], base), e[1]) for e in told_again["reformatted"]}
                if got != want:
                    wrong.append("running again reports %r, not %r" % (sorted(got), sorted(want)))
        problems += ["%s %s, %s at %d of %d (files are written at %r): %s" % (
            " ".join(case["mode"]), " ".join(case["inputs"]), kind, n, plain_watch.count, opened, t) for t in wrong]
        if problems:
            break
    return problems[:3], seen


def finding(f):
    """Whether a file is lost when the run is killed while it is written"""
    base = cli.scratch()
    path = os.path.join(base, "a.py")
    text = "x = 'select a from t'\n"

    def put():
        with open(path, "w") as out:
            out.write(text)

    case = {"mode": ["--format"], "inputs": ["a.py"]}
    put()
    watch = Watch("interrupted")
    run(case, base, watch)
    with open(path) as done:
        done = done.read()
    for n in range(watch.opened.get(path, 0), watch.opened.get(path, 0) + WINDOW + 1):
        put()
        run(case, base, Watch("killed", n))
        with open(path) as after:
            if after.read() not in (text, done):
                return True
    return False
