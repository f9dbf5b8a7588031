"""C14: the verdict does not depend on how the query is laid out."""
from .. import outcome, render, vgen, work

PROPERTY = "C14"
RULE = (
    "random supported queries, sound or with planted problems, the corpus and queries without BY; "
    "each in several layouts, as its own formatted text, and with its final semicolon added or "
    "removed; distinct = distinct token sequences with at least two distinct texts"
)
ASSUMPTIONS = [
    "error texts are compared with blanks and letter case folded: they quote parts of the query",
    "svv/render.py writes blanks where the lexical rules need one, and around % and # always",
]
CASES = {"quick": 30000, "thorough": 300000}
REQUIRED = {"verdicts compared": 30000, "invalid": 3000, "semicolon": 10000}


def make(rng, tier):
    r = rng.random()
    if r < 0.1:
        sql = rng.choice(work.CORPUS)
        return {"texts": [sql] + [work.corpus_layout(rng, sql) for _ in range(3)]}
    if r < 0.4:
        tokens = work.query(rng, tier)[0].tokens()
    else:
        tokens = vgen.scenario(rng, vgen.ALL if r < 0.8 else {}).node.tokens()
    texts = work.layouts(rng, tokens, 4)
    if tokens[-1][1] == ";":
        tokens = tokens[:-1]
    else:
        tokens = tokens + [("op", ";")]
    texts += [render.render(tokens, rng) for _ in range(2)]
    return {"texts": texts}


def fold(error):
    return "".join(error.split()).lower()


def answer(sqlvalidator, text):
    query = sqlvalidator.parse(text)
    verdict = outcome.of_valid(query)
    return verdict, [fold(e) for e in query.errors]


def judge(case):
    import sqlvalidator

    texts = list(case["texts"])
    seen = {"key": texts[0], "nontrivial": len(set(texts)) > 1, "sample": texts[:3]}
    text = outcome.of_format_sql(sqlvalidator, texts[0])
    if not text.startswith("raises "):
        texts.append(text)
    answers = [answer(sqlvalidator, t) for t in texts]
    ends = {t.rstrip().endswith(";") for t in texts}
    seen["events"] = {
        "verdicts compared": len(texts) - 1,
        "invalid": int(answers[0][0] is False),
        "semicolon": int(len(ends) == 2),
    }
    for t, a in zip(texts[1:], answers[1:]):
        if a != answers[0]:
            return [
                "two texts of one query\n%s\n---\n%s\ngive\n%r\n---\n%r"
                % (texts[0], t, answers[0], a)
            ], seen
    return [], seen
