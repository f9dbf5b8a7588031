"""C10: columns missing from, or ambiguous in, a subquery are reported."""
from .. import scopes, valid

PROPERTY = "C10"
RULE = (
    "random queries whose sources, columns, types, positions and joins are known by construction, "
    "with columns planted that nothing provides or two subqueries provide; "
    "distinct = distinct query texts with at least one planted problem of the kind; a third are small queries over joined and nested "
    "subqueries with few, much shared column names"
)
ASSUMPTIONS = [
    "the scoping and typing rules of svv/vgen.py and svv/scopes.py are those of the property",
    "the sort of an error is told by its words (svv/verdict.py)",
]
KINDS = ("column",)
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {"planted": 10000, "sound": 3000, "errors read": 10000, "with small ambiguous": 250, "with small hidden alias": 200, "with small field": 1500}


def make(rng, tier):
    if rng.random() < 0.35:
        return scopes.make(rng, rng.random() < 0.85)
    return valid.mixed(rng, KINDS, tier)


def judge(case):
    return valid.judge(case, KINDS)
