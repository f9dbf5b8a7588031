"""C28: a formatted query returns the same rows."""
from .. import database, dbgen, render

PROPERTY = "C28"
RULE = (
    "random queries that SQLite runs, over real and derived tables, common tables, joins, set operators, windows and correlated subqueries, "
    "in random layouts; distinct = distinct query texts that give rows"
)
ASSUMPTIONS = ["SQLite compiles equal queries to equal programs, given equal letter case of keywords (no query was seen for which it does not)"]
CASES = {"quick": 24000, "thorough": 300000}
REQUIRED = {
    "run": 15000, "with rows": 8000, "with derived table": 3000, "with correlated": 2000, "with window": 2000, "with compound": 1000, "with with": 1500,
    "with operators 3": 800, "with between": 800, "with case": 2000, "with filter": 60, "with scalar subquery": 1500, "with using": 2000,
}


def upper(tokens):
    return [(k, t.upper() if k in render.KEYED else t) for k, t in tokens]


def make(rng, tier):
    tokens, used = dbgen.make(rng, False)
    sql = render.render(tokens, rng)
    # the same text in the letter case of the formatted one: SQLite keeps the case of constants apart
    tokens = upper(tokens)
    same = tokens[0][1]
    for left, right in zip(tokens, tokens[1:]):
        same += ("" if render.glued(left, right) and not render.needs_blank(left, right) else " ") + right[1]
    return {"sql": sql, "same": same, "db": rng.randrange(database.COUNT), "used": used}


def judge(case):
    import sqlvalidator

    sql, db = case["sql"], database.get(case["db"])
    seen = {"key": sql, "sample": sql, "nontrivial": False, "events": {}}
    program, rows, error = database.run(db, case["same"])
    if error:
        seen["events"]["not run by SQLite"] = 1
        return [], seen
    _, first, error = database.run(db, sql)
    if error or first != rows:
        # the layouts of svv/render.py are not to change anything
        raise AssertionError("SQLite tells two layouts apart: %r %s" % (error, sql))
    seen["nontrivial"] = bool(rows)
    seen["events"] = {"run": 1, "with rows": int(bool(rows)), "rows compared": len(rows), "instructions compared": len(program)}
    for u in case["used"]:
        seen["events"]["with " + u] = 1
    try:
        out = sqlvalidator.format_sql(sql)
    except Exception as e:
        return ["not formatted: %s: %s\n%s" % (type(e).__name__, e, sql)], seen
    after, then, error = database.run(db, out)
    if error:
        return ["SQLite runs the query, but for the formatted one it says %s\n%s\n%s" % (error, sql, out)], seen
    if then != rows:
        return ["the query gives %r, the formatted one %r\n%s\n%s" % (rows[:3], then[:3], sql, out)], seen
    before, then = database.names(db, case["same"]), database.names(db, out)
    seen["events"]["column names compared"] = sum(n is not None for n in before)
    if before != then:
        return ["the columns are called %r, those of the formatted query %r\n%s\n%s" % (before, then, sql, out)], seen
    if after != program:
        return ["the formatted query is compiled to another program\n%s\n%s" % (sql, out)], seen
    return [], seen
