"""C06: results depend on the query alone."""
import json
import os
import random
import subprocess
import sys
import threading
import time

from .. import core, families, outcome, render, vgen, work

PROPERTY = "C06"
RULE = (
    "batches of queries (valid, invalid and unparsable); the answer of each in a pristine forked "
    "process, under two hash seeds, against its answers in one long-lived process: random histories "
    "of format/is_valid/errors calls on shared objects, and the same from several threads with "
    "forced switches; distinct = distinct query texts plus distinct thread schedules"
)
ASSUMPTIONS = [
    "a forked child of a process that only imported the package stands for a fresh process",
    "schedules are those the interpreter takes with a switch interval of 1 us and random yields "
    "at calls inside the package",
]
CASES = {"quick": 160, "thorough": 2400}
REQUIRED = {
    "history calls checked": 20000, "threaded calls checked": 5000, "thread switches": 2000,
    "pristine outcomes": 2000,
}
BROKEN = [
    "", " ", "select", "select 1 group 1", "select a order b", "select (", "select 'a", "with",
    "insert into t values (1)", "select case when 1 then", "select cast(a) from t", "select a from",
    "select sum(x) over partition by y", "select * except a from t", "select a between 1 from t",
    "select a from t where", "with a as select 1", "select array_agg(a ignore) from t", "select f(a",
    "select a[0 from t", ")", "select a)) from t", "select * replace (1) from t", "select from t",
    "select a from (select b from t", "select a union", "select a,, b from t", ";", "select ;",
]


def make(rng, tier):
    texts = []
    for _ in range(22):
        r = rng.random()
        if r < 0.35:
            node, _ = work.query(rng)
            texts.append(render.render(node.tokens(), rng))
        elif r < 0.7:
            texts.append(render.render(vgen.scenario(rng).node.tokens(), rng, "plain"))
        elif r < 0.76:
            # many items, or deep nesting
            if rng.random() < 0.6:
                texts.append(families.LISTS[rng.choice(sorted(families.LISTS))](rng.choice((3, 8, 15, 25, 40))))
            else:
                texts.append(families.DEEP[rng.choice(sorted(families.DEEP))](rng.choice((2, 4, 8, 12))))
        elif r < 0.87:
            texts.append(rng.choice(work.CORPUS))
        elif r < 0.93:
            texts.append(rng.choice(BROKEN))
        else:
            # a query cut off or with a token lost
            words = rng.choice(work.CORPUS).split(" ")
            del words[rng.randrange(len(words))]
            texts.append(" ".join(words[: rng.randint(1, len(words) + 1)]))
    return {"texts": texts, "seed": rng.randrange(1 << 30)}


def pristine(texts, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), SVV_REPO=core.REPO)
    p = subprocess.run(
        [sys.executable, "-B", os.path.join(core.HERE, "svv", "pristine.py")],
        input=json.dumps(texts), capture_output=True, text=True, env=env, timeout=300,
    )
    if p.returncode:
        raise RuntimeError(p.stderr)
    return json.loads(p.stdout)


class Session:
    """Objects of one user, and what each may answer."""

    def __init__(self, sqlvalidator, texts, want, rng):
        self.sv, self.texts, self.want, self.rng = sqlvalidator, texts, want, rng
        self.objects = {}
        self.shared = False
        self.checked = 0
        self.problems = []

    def get(self, i):
        if i not in self.objects or self.rng.random() < 0.15:
            self.objects[i] = [self.sv.parse(self.texts[i]), False, []]
        return self.objects[i]

    def step(self):
        i = self.rng.randrange(len(self.texts))
        what = self.rng.choice(("format", "format", "valid", "valid", "errors", "format_sql"))
        want = self.want[i]
        entry = self.get(i)
        obj, validated, history = entry
        history.append(what)
        if what == "format":
            got, expect = outcome.of_format(obj), want["format"]
        elif what == "format_sql":
            got, expect = outcome.of_format_sql(self.sv, self.texts[i]), want["format_sql"]
        elif what == "valid":
            got, expect = outcome.of_valid(obj), want["valid"]
            entry[1] = True
        else:
            got = list(obj.errors)
            expect = want["errors"] if validated else []
            if not validated and self.shared and got == want["errors"]:
                # another user asked for the verdict
                expect = got
        self.checked += 1
        if got != expect:
            self.problems.append(
                "%s gives %r after %s, but %r in a fresh process\n%s"
                % (what, got, history[-8:], expect, self.texts[i])
            )


def judge(case):
    sqlvalidator = core.load_package()
    rng = random.Random(case["seed"])
    texts = case["texts"]
    seen = {"keys": list(texts), "events": {}, "sample": texts[:3], "evaluations": 0}
    seeds = [0, 1 + case["seed"] % 100000]
    first, second = [pristine(texts, s) for s in seeds]
    seen["events"]["pristine outcomes"] = 2 * len(texts)
    for text, a, b in zip(texts, first, second):
        if a != b:
            return ["hash seeds %s give %r and %r\n%s" % (seeds, a, b, text)], seen

    session = Session(sqlvalidator, texts, first, rng)
    for _ in range(400):
        session.step()
    seen["events"]["history calls checked"] = session.checked
    problems = session.problems

    problems += threads(sqlvalidator, texts, first, rng, seen)
    seen["evaluations"] = session.checked + seen["events"]["threaded calls checked"]
    return problems[:3], seen


def threads(sqlvalidator, texts, want, rng, seen):
    here = os.path.join(core.REPO, "sqlvalidator")
    switches = []
    state = {"last": None, "n": 0}
    choice = random.Random(rng.random())

    def profile(frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(here):
            return
        me = threading.get_ident()
        state["n"] += 1
        if state["last"] != me:
            state["last"] = me
            switches.append((me, state["n"]))
        if choice.random() < 0.02:
            time.sleep(0)

    # few texts, so that threads meet on the same ones
    few = rng.sample(range(len(texts)), 4)
    sessions = [
        Session(
            sqlvalidator, [texts[i] for i in few], [want[i] for i in few], random.Random(rng.random())
        )
        for _ in range(5)
    ]
    if rng.random() < 0.6:
        # one parsed object, used by all, validated beforehand or by the first to ask
        settled = rng.random() < 0.3
        for i, text in enumerate([texts[k] for k in few]):
            obj = sqlvalidator.parse(text)
            if settled:
                outcome.of_valid(obj)
            for s in sessions:
                s.shared = True
                s.objects[i] = [obj, settled, ["shared"]]
                s.get = s.objects.__getitem__
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    threading.setprofile(profile)
    failures = []

    def user(s):
        try:
            for _ in range(25):
                s.step()
        except BaseException as e:
            failures.append("a thread stopped: %r" % e)

    try:
        users = [threading.Thread(target=user, args=(s,)) for s in sessions]
        for t in users:
            t.start()
        for t in users:
            t.join()
    finally:
        threading.setprofile(None)
        sys.setswitchinterval(interval)
    order = {}
    seen["keys"].append(tuple((order.setdefault(t, len(order)), n) for t, n in switches))
    seen["events"]["thread switches"] = len(switches)
    seen["events"]["threaded calls checked"] = sum(s.checked for s in sessions)
    return failures + [p for s in sessions for p in s.problems]
