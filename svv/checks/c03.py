"""C03: formatting the formatted text changes nothing."""
from .. import render, work

PROPERTY = "C03"
RULE = (
    "random supported SELECT queries in random layouts and the corpus of real queries in other "
    "layouts, formatted three times; distinct = distinct input texts whose output has several lines"
)
ASSUMPTIONS = ["supported queries are those the model of svv/q.py derives, and the corpus"]
CASES = {"quick": 100000, "thorough": 1000000}
REQUIRED = {"second formattings": 20000, "corpus": 100, "multi-line outputs": 10000}


def make(rng, tier):
    if rng.random() < 0.08:
        return {"sql": work.corpus_layout(rng, rng.choice(work.CORPUS)), "used": ["corpus"]}
    node, used = work.query(rng, tier)
    return {"sql": render.render(node.tokens(), rng), "used": sorted(used)}


def fixed(tier):
    return [{"sql": s, "used": ["corpus"]} for s in work.CORPUS]


def judge(case):
    import sqlvalidator

    seen = {"key": case["sql"], "sample": case["sql"]}
    once, problem = work.as_text(sqlvalidator, case["sql"])
    if problem:
        return ["%s\n%s" % (problem, case["sql"])], seen
    seen["nontrivial"] = "\n" in once
    twice, problem = work.as_text(sqlvalidator, once)
    if problem:
        return ["second %s\n%s" % (problem, once)], seen
    if twice != once:
        return ["formatting again changes\n%s\nto\n%s" % (once, twice)], seen
    thrice = sqlvalidator.parse(once).format()
    if thrice != once:
        return ["parse().format() of\n%s\ngives\n%s" % (once, thrice)], seen
    seen["events"] = {"second formattings": 1, "multi-line outputs": int("\n" in once)}
    for u in case["used"]:
        seen["events"]["with " + u if u != "corpus" else u] = 1
    return [], seen
