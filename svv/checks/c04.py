"""C04: the layout and keyword case of the input make no difference."""
from .. import render, work

PROPERTY = "C04"
RULE = (
    "token sequences of random supported queries and of the corpus, each written in several "
    "layouts (blanks, tabs, newlines, none where none is needed; keywords and functions in any "
    "letter case); the outputs must be equal; distinct = distinct token sequences with at least "
    "two distinct texts"
)
ASSUMPTIONS = [
    "svv/render.py writes blanks where the lexical rules need one, and around % and # always",
]
CASES = {"quick": 45000, "thorough": 350000}
REQUIRED = {"layouts compared": 30000, "corpus": 100}


def make(rng, tier):
    if rng.random() < 0.1:
        sql = rng.choice(work.CORPUS)
        return {
            "texts": [sql] + [work.corpus_layout(rng, sql) for _ in range(3)],
            "used": ["corpus"],
        }
    node, used = work.query(rng, tier)
    return {"texts": work.layouts(rng, node.tokens(), 5), "used": sorted(used)}


def judge(case):
    import sqlvalidator

    texts = case["texts"]
    seen = {"key": texts[0], "nontrivial": len(set(texts)) > 1, "sample": texts[:3]}
    outs = []
    for text in texts:
        out, problem = work.as_text(sqlvalidator, text)
        outs.append(problem or out)
    seen["events"] = {"layouts compared": len(texts) - 1}
    for u in case["used"]:
        seen["events"]["with " + u if u != "corpus" else u] = 1
    problems = []
    for text, out in zip(texts[1:], outs[1:]):
        if out != outs[0]:
            problems.append(
                "two layouts of one query\n%s\n---\n%s\ngive\n%s\n---\n%s"
                % (texts[0], text, outs[0], out)
            )
    return problems[:1], seen
