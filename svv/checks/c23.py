"""C23: what names and literals are called makes no difference."""
import random
import re

from .. import rename, render, valid, vgen, work

PROPERTY = "C23"
RULE = (
    "random supported queries and scenarios with sound and planted problems, each also with other "
    "names (one or all of them), other literals and numbers, in the same layout; the formatted texts, "
    "verdicts and errors must differ by nothing else; distinct = distinct pairs of texts"
)
ASSUMPTIONS = ["names with a documented meaning (keywords, types, NFC, weekdays, _TABLE_SUFFIX) are left out"]
CASES = {"quick": 60000, "thorough": 600000}
REQUIRED = {
    "names exchanged": 50000, "literals exchanged": 20000, "formatted pairs": 20000, "validated pairs": 20000,
    "invalid pairs": 5000, "valid pairs": 5000, "one name alone": 2000,
}


def make(rng, tier):
    kind = "format" if rng.random() < 0.5 else "validate"
    if kind == "format":
        tokens = work.query(rng, tier)[0].tokens()
    else:
        faults = {} if rng.random() < 0.3 else vgen.ALL if rng.random() < 0.5 else {"column": 0.2, "boolean": 0.1}
        tokens = vgen.scenario(rng, faults, size=rng.choice((6, 10, 16, 25))).node.tokens()
    mapping = rename.names(rng, tokens, kind == "format")
    # in validation a quoted name may be a column, and numbers are positions
    new = rename.apply(rng, tokens, mapping, kind == "format", "'\"`" if kind == "format" else "'")
    style = rng.choice(("plain", "plain", "tight", "loose", "mixed"))
    seed = rng.random()
    return {
        "kind": kind, "tokens": tokens, "new": new, "names": mapping,
        "sql": render.render(tokens, random.Random(seed), style),
        "other": render.render(new, random.Random(seed), style),
    }


def expected(out, tokens, new):
    """The formatted text with the new tokens in the places of the old ones, or None"""
    text, at = [], 0
    for (kind, old), (_, other) in zip(tokens, new):
        found = re.compile(re.escape(old), 0 if kind in ("id", "str", "num", "par") else re.I).search(out, at)
        if found is None:
            return None
        text.append(out[at : found.start()])
        text.append(found.group() if other == old else other)
        at = found.end()
    return "".join(text) + out[at:]


def judge(case):
    import sqlvalidator

    sql, other = case["sql"], case["other"]
    pairs = list(zip(case["tokens"], case["new"]))
    events = {
        "names exchanged": sum(a != b for a, b in case["names"].items()),
        "literals exchanged": sum(a[0] == "str" and a != b for a, b in pairs),
        "numbers exchanged": sum(a[0] == "num" and a != b for a, b in pairs),
        "one name alone": int(len(case["names"]) == 1),
    }
    seen = {"key": (sql, other), "sample": [sql, other], "events": events, "nontrivial": sql != other}
    if case["kind"] == "format":
        results = [work.as_text(sqlvalidator, text) for text in (sql, other)]
        for (_, problem), text in zip(results, (sql, other)):
            if problem:
                return ["%s\n%s" % (problem, text)], seen
        out, got = results[0][0], results[1][0]
        events["formatted pairs"] = 1
        want = expected(out, case["tokens"], case["new"])
        if want is None:
            return ["tokens are missing\n%s\n=>\n%s" % (sql, out)], seen
        if got != want:
            return ["with other names or literals\n%s\nis formatted to\n%s\nrather than\n%s" % (other, got, want)], seen
        return [], seen
    answers = []
    for text in (sql, other):
        ok, errors, problem = valid.ask(sqlvalidator, text)
        if problem:
            return [problem], seen
        answers.append((ok, errors))
    (ok, errors), (other_ok, other_errors) = answers
    events["validated pairs"] = 1
    events["valid pairs" if ok else "invalid pairs"] = 1
    names = case["names"]
    want = sorted(re.sub(r"[\w$]+", lambda m: names.get(m.group(), m.group()), e) for e in errors)
    if ok is not other_ok or want != sorted(other_errors):
        return [
            "the errors %r become %r with other names\n%s\n%s" % (errors, other_errors, sql, other)
        ], seen
    return [], seen
