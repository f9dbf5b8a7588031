"""C11: positions, LIMIT and OFFSET are checked exactly."""
from .. import small, valid

PROPERTY = "C11"
RULE = (
    "random queries whose sources, columns, types, positions and joins are known by construction, "
    "with positions and LIMIT/OFFSET operands planted out of bounds; "
    "distinct = distinct query texts with at least one planted problem of the kind; two in five are "
    "small queries with the clause in every shape, put into every place a query can stand at"
)
ASSUMPTIONS = [
    "the scoping and typing rules of svv/vgen.py and svv/small.py are those of the property",
    "the sort of an error is told by its words (svv/verdict.py)",
]
KINDS = ("position", "limit")
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {"planted": 10000, "sound": 3000, "errors read": 10000, "with small star at the end": 200, "planted LIMIT": 3000, "planted OFFSET": 3000, "planted GROUP BY": 3000, "planted ORDER BY": 3000}


def make(rng, tier):
    if rng.random() < 0.4:
        return small.make(rng, rng.choice(("position", "limit")))
    return valid.mixed(rng, KINDS, tier)


def judge(case):
    return valid.judge(case, KINDS)
