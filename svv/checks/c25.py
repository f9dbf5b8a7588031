"""C25: the problems of a query are those of its parts."""
import collections
import random

from .. import render, scopes, small, valid, vgen, work

PROPERTY = "C25"
RULE = (
    "random scenarios, sound or with planted problems, validated alone and as nested queries of a sound "
    "query that gives them no columns: in FROM, joins, WITH, set operations and expressions, one to four "
    "together, several levels deep; the whole must have exactly the errors of the parts, as often; "
    "distinct = distinct whole queries"
)
ASSUMPTIONS = ["the parts are validated by the code under test itself; no model of the validation is involved"]
CASES = {"quick": 40000, "thorough": 600000}
REQUIRED = {"sound parts": 20000, "parts with errors": 15000, "several parts": 10000, "in expressions": 8000, "in FROM": 10000, "beside other problems": 5000, "levels": 30000}

# What stands around: it has no problem of its own and shows no column to the nested queries
FROM = [
    "select 1 from (%s) w_", "select * from (%s)", "select 1 from (%s) as w_ where 1 = 1 group by 1 order by 1 limit 1",
    "select 1 from (%s) w_, (%s) v_", "select 1 from (%s) w_ cross join (%s) v_", "select 1 from (%s) w_ join (%s) v_ on 1 = 1",
    "select 1 from (%s) w_ left join (%s) v_ on true cross join (%s) u_", "select 1 from t_, (%s) w_", "select 1 from (%s) w_ cross join t_",
    "with c_ as (%s) select 1 from c_", "with c_ as (%s), d_ as (%s) select 1 from c_, d_", "with c_ as (%s) select 1",
    "with c_ as (%s) select 1 from (%s) w_", "with c_ as (select 1), d_ as (%s), e_ as (select 2) select 1 from c_",
    "(%s) union all (%s)", "(%s) intersect distinct (%s) except distinct (%s)", "select 1 from ((%s) union all (%s)) w_",
    "select 1 union all (%s)", "(%s) union distinct select 1 from t_", "select 1 from ((%s) w_ cross join (%s) v_)",
    "with c_ as ((%s) union all (%s)) select 1 from c_", "select 1 from (with c_ as (%s) select 1 from c_) w_",
    "select 1 from (select 2 from (%s) w_) v_",
]
# Problems of the query around, which must not hide those within nor be hidden by them
FAULTS = [
    "select 1 from (%s) w_ limit -1", "select 1 from (%s) w_ limit 2.5 offset -1", "select 1 from (%s) w_ offset 'x'", "select 1 from (%s) w_ group by 9",
    "select 1 from (%s) w_ order by 0", "select 1 from (%s) w_ where 1", "select 1 from (%s) w_ having 2.5 and true", "select 1 from (%s) w_ join (%s) v_",
    "select exists (%s) from (select 1 limit -1)", "select exists (%s) from (select 1 z_) y_ join (select 1 order by 2) w_", "with c_ as (select 1 limit -2) select 1 from (%s) w_, c_",
    "select 1 from (select 1 z_) where 'x' or exists (%s)", "(%s) union all (select 1 limit -3)", "(select 1 offset -3) union all (%s)", "select 1 from (select nope_ from (select 1 z_)) cross join (%s) w_",
    "select nope_, exists (%s) from (select 1 z_)", "select 1 from (%s) w_ where exists (select 1 group by 2) limit 'x'", "select (select nope_), array(%s)",
]
SCALARS = [
    "f(%e, %e)", "f(%e)", "f(1, %e, %e, 2)", "case when %b then %e else %e end", "case when %b then 1 when %b then %e end", "case %e when %e then 1 when %e then %e end",
    "(%e)", "(%e, %e)", "[%e, %e]", "(%e || %e)", "cast(%e as int64)", "count(distinct %e)", "count(%e, %e)", "sum(%e) over (partition by %e, %e order by %e desc, %e)",
    "sum(1) over (order by %e rows between 1 preceding and current row)", "count(1) filter (where %b)", "f(%e) filter (where %b)", "array_agg(%e order by %e limit 2)",
    "array_agg(distinct %e order by %e, %e desc)", "extract(day from %e)", "%e[%e]", "f(%e)[offset(%e)]", "g(%e).h", "1 + f(%e) * f(%e)", "- f(%e)", "coalesce(%e, %e, %e)",
]
TRUTHS = [
    "exists (%s)", "exists (%s)", "not %b", "(%b)", "(%b and %b)", "(%b or %b)", "(%b and %b or not %b)", "%e in (%e, %e)", "%e not in (%s)", "1 in (%s)", "(1, 2) in (%s)", "%e is null",
    "%e between %e and %e", "%e not between %e and %e", "%e = %e", "%e < %e", "%e like %e", "f(%e) <> %e", "(%b) is not true", "f(%e)",
]
PLACES = [
    "select %e", "select %e, %e", "select %b as r_, 1, %e as s_", "select distinct %e, 1", "select 1 where %b", "select 1 from (select 1 z_) where %b", "select 1 from (select 1 z_) where %b and %b",
    "select z_, %e from (select 1 z_) having %b", "select 1 from (select 1 z_) group by %e, %e", "select 1 from (select 1 z_) group by z_, f(%e) having %b or %b",
    "select 1 from (select 1 z_) order by %e, z_, %e desc", "select 1 from (select 1 z_) group by rollup (z_, %e)", "select distinct on (%e, %e) z_ from (select 1 z_)",
    "select * replace (%e as z_), %e from (select 1 z_)", "select %e from (select 1 z_) where %b group by %e having %b order by %e limit 3",
    "select %e union all (select %e)", "with c_ as (select %e, %e) select %b", "select 1 from (select %e as r_) where %b",
]


def expression(rng, kind, depth):
    """An expression of nested queries that names no columns"""
    if kind == "e":
        r = rng.random()
        if depth <= 0 or r < 0.35:
            return rng.choice(("array(%s)", "array(%s)", "exists (%s)", "2.5", "f('q')", "f(array(%s))"))
        form = rng.choice(SCALARS if r < 0.85 else TRUTHS)
        if form not in SCALARS:
            form = "(" + form + ")"
    else:
        form = "exists (%s)" if depth <= 0 else rng.choice(TRUTHS)
    return fill(rng, form, depth - 1)


def fill(rng, form, depth):
    out, i = [], 0
    while i < len(form):
        if form[i] == "%" and form[i + 1] in "eb":
            out.append(expression(rng, form[i + 1], depth))
            i += 2
        else:
            out.append(form[i])
            i += 1
    return "".join(out)


def part(rng, tier):
    r = rng.random()
    if r < 0.35:
        return valid.mixed(rng, ("column", "position", "limit", "boolean", "join"), tier)["sql"]
    if r < 0.55:
        s = vgen.scenario(rng, {}, size=rng.choice((6, 10, 16)))
        return render.render(s.node.tokens(), rng, "plain")
    if r < 0.8:
        return scopes.make(rng, rng.random() < 0.7)["sql"]
    return small.make(rng, rng.choice(("position", "limit", "boolean", "join")), False)["sql"]


def make(rng, tier):
    events = {"levels": 0}

    def grow(level):
        if level == 0:
            sql = part(rng, tier).rstrip().rstrip(";").rstrip()
            parts.append(sql)
            return sql
        r = rng.random()
        if r < 0.5:
            kind, out = "in FROM", rng.choice(FROM)
        elif r < 0.7:
            kind, out = "beside other problems", rng.choice(FAULTS)
            # these problems are its own
            parts.append(out.replace("%s", "select 1 as r_"))
        else:
            kind, out = "in expressions", fill(rng, rng.choice(PLACES), rng.choice((0, 1, 1, 2, 3)))
            while out.count("%s") > 6:
                out = fill(rng, rng.choice(PLACES), 1)
        events[kind] = events.get(kind, 0) + 1
        events["levels"] += 1
        return out % tuple(grow(level - 1 if rng.random() < 0.4 else 0) for _ in range(out.count("%s")))

    parts = []
    whole = grow(rng.choice((1, 1, 2, 3)))
    if rng.random() < 0.1:
        whole += " ;"
    return {"whole": whole, "parts": parts, "events": events}


def judge(case):
    import sqlvalidator

    events = dict(case["events"])
    seen = {"key": case["whole"], "sample": case["whole"], "events": events, "nontrivial": True}
    want = collections.Counter()
    for sql in case["parts"]:
        ok, errors, problem = valid.ask(sqlvalidator, sql)
        if problem:
            return [problem], seen
        want.update(errors)
        events["sound parts" if ok else "parts with errors"] = events.get("sound parts" if ok else "parts with errors", 0) + 1
    if len(case["parts"]) > 1:
        events["several parts"] = 1
    ok, errors, problem = valid.ask(sqlvalidator, case["whole"])
    if problem:
        return [problem], seen
    got = collections.Counter(errors)
    if got != want:
        return [
            "the whole says %r,\nits parts %r\nmissing %r, more %r\n%s\n--\n%s"
            % (errors, sorted(want.elements()), sorted((want - got).elements()), sorted((got - want).elements()), case["whole"], "\n--\n".join(case["parts"]))
        ], seen
    return [], seen
