"""C12: conditions must be boolean."""
from .. import small, valid

PROPERTY = "C12"
RULE = (
    "random queries whose sources, columns, types, positions and joins are known by construction, "
    "with operands planted that are not boolean; "
    "distinct = distinct query texts with at least one planted problem of the kind; two in five are "
    "small queries with the clause in every shape, put into every place a query can stand at"
)
ASSUMPTIONS = [
    "the scoping and typing rules of svv/vgen.py and svv/small.py are those of the property",
    "the sort of an error is told by its words (svv/verdict.py)",
]
KINDS = ("boolean",)
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {"planted": 10000, "sound": 3000, "errors read": 10000, "with small typed operand": 800, "with small column of type bool": 800}


def make(rng, tier):
    if rng.random() < 0.4:
        return small.make(rng, "boolean")
    return valid.mixed(rng, KINDS, tier)


def judge(case):
    return valid.judge(case, KINDS)
