"""C15: formatting a file touches nothing but its SELECT strings."""
from .. import rewrite

PROPERTY = "C15"
RULE = (
    "random Python files (assignments, calls, containers, blocks, docstrings, continuation lines, "
    "f-strings, concatenated strings, comments, form feeds, tabs, odd blanks, LF/CRLF/mixed newlines, "
    "byte order mark, declared encoding, missing final newline) with SELECT and other strings "
    "anywhere; formatted, or only checked and validated (then nothing is written); distinct = distinct file contents holding a SELECT string"
)
ASSUMPTIONS = ["expected text is the generated pieces with the formatted query in place of SELECT literals"]
CASES = {"quick": 12000, "thorough": 250000}
REQUIRED = {
    "SELECT literals": 10000, "other strings": 10000, "rewritten": 10000, "files left alone": 500,
    "newlines CRLF": 500, "newlines mixed": 200, "utf-8-sig": 200, "latin-1": 100, "strings to rewrite in a file only read": 1000,
}


def make(rng, tier):
    return rewrite.make(rng, strings=rng.choice((0.15, 0.4, 0.6)), optout=0.08, reading=0.15)


def judge(case):
    problems, seen = rewrite.judge(case)
    return problems["code"], seen
