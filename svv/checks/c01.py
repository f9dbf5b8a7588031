"""C01: the formatted text holds the tokens of the query, in order."""
from .. import findings, lex, render, work

PROPERTY = "C01"
RULE = (
    "random supported SELECT queries (own grammar model, random nesting and size, lengths "
    "around the line limit) written in a random layout, and the corpus of real queries in "
    "other layouts; distinct = distinct input texts of at least 8 tokens"
)
ASSUMPTIONS = [
    "the token model of svv/q.py and the lexer of svv/lex.py say what the tokens of a query are",
    "supported queries are those the model derives (DESIGN.md, Supported queries)",
]
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {"tokens compared": 100000, "with and_or": 1000, "with join": 1000, "corpus": 100}
FREE = ("kw", "fn", "ty", "const")


def make(rng, tier):
    if rng.random() < 0.05:
        sql = rng.choice(work.CORPUS)
        return {"sql": work.corpus_layout(rng, sql), "tokens": None, "used": ["corpus"]}
    node, used = work.query(rng, tier)
    tokens = node.tokens()
    return {"sql": render.render(tokens, rng), "tokens": tokens, "used": sorted(used)}


def fixed(tier):
    return [{"sql": s, "tokens": None, "used": ["corpus"]} for s in work.CORPUS]


def judge(case):
    import sqlvalidator

    if case["tokens"] is None:
        scanned = lex.scan(case["sql"])
        want = lex.folded(scanned)
    else:
        want = [t.lower() if k in FREE else t for k, t in case["tokens"]]
    seen = {"key": case["sql"], "nontrivial": len(want) >= 8, "sample": case["sql"]}
    out, problem = work.as_text(sqlvalidator, case["sql"])
    if problem:
        return ["%s\n%s" % (problem, case["sql"])], seen
    try:
        got = lex.scan(out)
    except lex.LexError as e:
        return ["the formatted text cannot be read (%s)\n%s\n=>\n%s" % (e, case["sql"], out)], seen
    if case["tokens"] is None:
        got = lex.folded(got)
    else:
        got = [
            text.lower() if i < len(want) and case["tokens"][i][0] in FREE else text
            for i, (_, text) in enumerate(got)
        ]
    seen["events"] = {"tokens compared": len(want)}
    for u in case["used"]:
        seen["events"]["with " + u if u != "corpus" else u] = 1
    if got != want:
        i = work.first_difference(want, got)
        return [
            "token %d: wanted %r, got %r\n%s\n=>\n%s"
            % (i, want[i : i + 6], got[i : i + 6], case["sql"], out)
        ], seen
    return [], seen


finding = findings.tokens_change
