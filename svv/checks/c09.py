"""C09: sound queries are reported valid."""
from .. import findings, scopes, small, valid

PROPERTY = "C09"
RULE = (
    "random queries that are sound by construction: columns drawn from the sources in scope, "
    "boolean conditions, positions in range, joins with a condition, with subqueries, aliases, "
    "stars, set operators, CTEs and correlated subqueries nested at random; distinct = distinct "
    "query texts that hold at least one subquery; a quarter are small queries over joined and nested "
    "subqueries with few, much shared column names, an eighth "
    "small queries with one clause in every shape and place"
)
ASSUMPTIONS = ["the scoping and typing rules of svv/vgen.py, svv/scopes.py and svv/small.py are those of SQL over schemaless tables"]
CASES = {"quick": 100000, "thorough": 1000000}
REQUIRED = {"valid": 50000, "with a subquery": 20000, "with exists": 500, "with over": 500, "with small merged name": 1000, "with small using 2": 300}


def make(rng, tier):
    if rng.random() < 0.25:
        return scopes.make(rng, False)
    if rng.random() < 0.15:
        return small.sound(rng)
    return valid.case(rng, {}, tier)


def judge(case):
    import sqlvalidator

    sql = case["sql"]
    seen = {"key": sql, "sample": sql, "nontrivial": sql.lower().count("select") > 1}
    ok, errors, problem = valid.ask(sqlvalidator, sql)
    if problem:
        return [problem], seen
    if not ok:
        return ["reported invalid: %r\n%s" % (errors, sql)], seen
    seen["events"] = {"valid": 1, "with a subquery": int(seen["nontrivial"])}
    for u in case["used"]:
        seen["events"]["with " + u] = 1
    return [], seen


finding = findings.refused
