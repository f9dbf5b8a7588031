"""C13: a join without its condition is reported."""
from .. import small, valid

PROPERTY = "C13"
RULE = (
    "random queries whose sources, columns, types, positions and joins are known by construction, "
    "with joins planted that lack ON and USING; "
    "distinct = distinct query texts with at least one planted problem of the kind; two in five are "
    "small queries with the clause in every shape, put into every place a query can stand at"
)
ASSUMPTIONS = [
    "the scoping and typing rules of svv/vgen.py and svv/small.py are those of the property",
    "the sort of an error is told by its words (svv/verdict.py)",
]
KINDS = ("join",)
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {"planted": 5000, "sound": 3000, "errors read": 10000, "with small missing at later": 3000, "with small join in a subquery": 2000}


def make(rng, tier):
    if rng.random() < 0.4:
        return small.make(rng, "join")
    return valid.mixed(rng, KINDS, tier)


def judge(case):
    return valid.judge(case, KINDS)
