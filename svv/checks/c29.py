"""C29: the verdict on column names is that of a database."""
from .. import database, dbgen, render, valid

PROPERTY = "C29"
RULE = (
    "random queries over nested, joined and correlated derived tables with explicit columns, names drawn without looking whether they can be resolved; "
    "SQLite says whether they can; distinct = distinct query texts that SQLite refuses for a column"
)
ASSUMPTIONS = [
    "SQLite 3's rules for names, away from where it differs from other databases: aliases of the select list in WHERE and HAVING, "
    "names that are both an alias and a column, and names of outer queries in GROUP BY and ORDER BY are not used"
]
CASES = {"quick": 40000, "thorough": 400000}
REQUIRED = {
    "found by SQLite": 10000, "missing for SQLite": 6000, "ambiguous for SQLite": 1500, "with correlated": 5000, "with exists": 2000, "with scalar subquery": 4000,
    "with in subquery": 2000, "with using": 5000, "with star": 3000, "with window": 4000, "with order": 8000, "with group": 6000, "with case": 4000,
}


def make(rng, tier):
    tokens, used = dbgen.make(rng, True)
    return {"sql": render.render(tokens, rng), "used": used}


def judge(case):
    import sqlvalidator

    sql = case["sql"]
    seen = {"key": sql, "sample": sql, "nontrivial": False, "events": {}}
    _, _, error = database.run(database.get(0), sql, rows=False)
    name = None
    if error:
        for what, sort in (("no such column: ", "missing"), ("ambiguous column name: ", "ambiguous")):
            if error.startswith(what):
                name = error[len(what):].split(".")[-1]
                seen["events"]["%s for SQLite" % sort] = 1
        if name is None:
            seen["events"]["not judged by SQLite"] = 1
            return [], seen
        seen["nontrivial"] = True
    else:
        seen["events"]["found by SQLite"] = 1
    for u in case["used"]:
        seen["events"]["with " + u] = 1
    ok, errors, problem = valid.ask(sqlvalidator, sql)
    if problem:
        return [problem], seen
    if ok and error:
        return ["is_valid() is True, SQLite says %s\n%s" % (error, sql)], seen
    if not ok and not error:
        return ["reported invalid: %r, SQLite finds all columns\n%s" % (errors, sql)], seen
    if error and not any(name in e for e in errors):
        return ["SQLite says %s, errors are %r\n%s" % (error, errors, sql)], seen
    return [], seen
