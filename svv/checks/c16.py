"""C16: a rewritten string holds the formatted query, in an equivalent literal."""
from .. import rewrite

PROPERTY = "C16"
RULE = (
    "random Python files with SELECT strings of all prefixes and quote styles, with and without escape "
    "sequences, continuation lines and quotes in them, at all positions of an expression; distinct = "
    "distinct file contents holding a SELECT string"
)
ASSUMPTIONS = ["the value of a literal is what ast.literal_eval reads", "format_sql of that value is the expected query"]
CASES = {"quick": 10000, "thorough": 250000}
REQUIRED = {"SELECT literals": 30000, "rewritten": 20000, "rewritten with escapes": 3000}


def make(rng, tier):
    return rewrite.make(rng, strings=0.9, optout=0.03, comments=0.1)


def judge(case):
    problems, seen = rewrite.judge(case)
    return problems["literal"], seen
