"""
Small queries with one clause in every shape and place, what is wrong with them known by
construction: {"sql", "expect", "used"} as vgen gives.
"""
NESTS = [
    "select * from (%s)", "select 1 from (%s) w_", "select w_.* from (%s) as w_", "select 1 from t_ join (%s) w_ on t_.k = w_.k",
    "select 1 from (%s) w_, t_", "select 1 from t_, (%s) as w_ where 1 = 1", "select 1 from t_ where exists (%s)", "select 1 from t_ where k in (%s)",
    "select (%s) from t_", "select 1, (%s) as e_ from t_", "select 1 from t_ where k = (%s)", "select 1 from t_ where not exists (%s) and k = 2",
    "with c_ as (%s) select 1 from c_", "with b_ as (select 1), c_ as (%s), d_ as (select 2) select 1 from c_", "select 1 from t_ union all (%s)",
    "(%s) union distinct select 1 from t_", "(%s) except distinct (select 1 from t_) union all select 2", "select array(%s) from t_",
    "select case when exists (%s) then 1 end from t_", "select case when 1 = 1 then 2 else (%s) end from t_", "select 1 from (select * from (%s)) w_",
    "select f((%s)) from t_", "select f(1, (%s), 2) + 1 from t_", "select 1 from t_ having exists (%s)", "select 1 from t_ order by (%s)",
    "select 1 from ((%s) w_ cross join t_ u_)", "select 1 from t_ left join (%s) as w_ using (k)", "select 1 from (t_ cross join (%s) w_) cross join u_",
    "select 1 from t_ where (k = 1 or k in (%s)) and j = 2", "select 1 from t_ where k between 1 and (%s)", "select 1 from unnest(array(%s)) as w_",
    "select sum((%s)) over (partition by k) from t_", "select count(1) filter (where exists (%s)) from t_", "select cast((%s) as int64) from t_",
    "select 1 from t_ group by k having k > (%s)", "select ((%s)) from t_", "select 1 in (%s) from t_", "select -(%s) from t_", "select 1 from ((%s))",
    "select * replace ((%s) as k) from t_", "select t_.* replace (1 as j, f((%s)) as k) from t_", "select distinct on ((%s)) k from t_", "select k[(%s)] from t_",
    "select [1, (%s)] from t_", "select f(k)[offset((%s))] from t_", "select extract(day from (%s)) from t_", "select date_add(k, interval (%s) day) from t_",
    "select sum(k) over (partition by (%s)) from t_", "select sum(k) over (partition by j order by k, (%s) desc) from t_", "select array_agg(k order by (%s)) from t_",
    "select 1 from t_ join u_ on t_.k in (%s)", "select 1 from t_ join u_ on exists (%s) and t_.k = 1", "select 1 from (t_ join u_ on t_.k = (%s)) x_",
    "select 1 from f_((%s))", "select 1 from t_, f_(1, (%s)) as w_", "select 1 from t_ group by (%s)", "select 1 from t_ group by k, f((%s))", "select 1 from t_ group by rollup (k, (%s))",
    "select 1 from t_ order by k, (%s) desc", "select 1 from t_ union all select 2 order by (%s)", "select case (%s) when 1 then 2 end from t_", "select case k when (%s) then 2 end from t_",
    "select k like (%s) from t_", "select k not between 1 and (%s) from t_", "select (%s) is null from t_", "select k in (1, (%s)) from t_", "select (1, (%s)) from t_", "select 1 + (%s) * 2 from t_",
    "select count(distinct (%s)) from t_", "select a.f((%s)) from t_", "select 1 from t_ where f((%s)).g = 1", "select 1 from unnest([(%s)]) with offset", "select 1 from unnest(array(%s)) x_ join u_ using (k)",
    "select 1 from (%s) intersect distinct select 2", "select (%s)[0] from t_", "select 1 from t_ where (k, j) in (%s)", "with a_ as (select 1), b_ as (select * from a_ where k in (%s)) select 1 from b_",
    "select 1 from (with c_ as (%s) select 1 from c_)", "select 1 from ((%s) union all (select 1))", "select 1 from ((select 1) union all (%s)) x_", "select k || (%s) from t_",
]
FILLERS = ["k", "t_.k", "f(k)", "k + 1", "1", "'q'", "case when k = 1 then 2 end", "sum(k) over (partition by j)", "cast(k as int64)", "count(*)", "count(distinct k)", "(k)", "k = 1", "2.5"]


def nest(rng, sql, rate=0.7):
    used = set()
    while rng.random() < rate:
        way = rng.randrange(len(NESTS))
        used.add("nest %d" % way)
        sql = NESTS[way] % sql
        rate = 0.3
    return sql, used


def filler(rng):
    item = rng.choice(FILLERS)
    return item + rng.choice(("", "", " as e_%d" % rng.randrange(99)))


def direction(rng):
    return rng.choice(("", "", " asc", " desc")) + rng.choice(("", "", "", " nulls first", " nulls last"))


def bracket(rng, text, rate=0.3):
    while rng.random() < rate:
        text = "(%s)" % text
    return text


def position(rng):
    """GROUP BY and ORDER BY positions"""
    n = rng.choice((1, 1, 2, 3, 4, 9, 10, 11))
    items = [filler(rng) for _ in range(n)]
    star = rng.random() < 0.3
    used = set()
    if star:
        at = rng.randrange(n)
        items[at] = rng.choice(("*", "t_.*", "* except (k)", "* replace (1 as k)", "t_.* except (j)"))
        used.add("star at %s" % ("the start" if at == 0 else "the end" if at == n - 1 else "the middle"))
    good = [1, n, rng.randint(1, n)] + ([n + 1, n + 7, 999] if star else [])
    bad = [0, 0] + ([] if star else [n + 1, n + 1, n + 2, 10 * n, 10 * n + 1, 10**9])
    expect = []
    sql = "select %s%s from t_" % (rng.choice(("", "", "", "distinct ", "all ")), ", ".join(items))
    if rng.random() < 0.2:
        sql += " where k = 1"

    def listed(clause, negative):
        out = []
        m = rng.choice((1, 1, 2, 3, 5))
        wrong = rng.randrange(m) if rng.random() < 0.6 else None
        for i in range(m):
            if i == wrong:
                p = rng.choice(bad + [-1, -n] * negative)
                expect.append(("position", clause, p))
            elif rng.random() < 0.4:
                out.append(rng.choice(("k", "t_.k", "f(k)")))
                continue
            else:
                p = rng.choice(good)
            out.append(bracket(rng, str(p)))
        return out

    if rng.random() < 0.6:
        out = listed("GROUP BY", True)
        r = rng.random()
        text = ", ".join(out)
        if r < 0.1:
            text = "rollup (%s)" % text
        elif r < 0.2 and len(out) > 1:
            text = "(%s), %s" % (", ".join(out[:-1]), out[-1])
        sql += " group %sby %s" % (rng.choice(("", "", "", "each ")), text)
        if rng.random() < 0.3:
            sql += " having k = 1"
    if rng.random() < 0.6 or "group" not in sql:
        sql += " order by " + ", ".join(p + direction(rng) for p in listed("ORDER BY", True))
    if rng.random() < 0.2:
        sql += " limit 5"
    return sql, expect, used


def limit(rng):
    """LIMIT and OFFSET"""
    expect, used = [], set()
    sql = "select %s from t_" % filler(rng)
    for clause, words in (("where", " where k = 1"), ("group", " group by k"), ("order", " order by k")):
        if rng.random() < 0.2:
            sql += words

    def bound(clause):
        if rng.random() < 0.55:
            text = rng.choice(("0", "1", "10", "00", "007", "99999999999999999999"))
        else:
            expect.append(("limit", clause))
            text = rng.choice((
                "-1", "-0001", "1.0", "1.5", ".5", "1e3", "k", "t_.k", "'1'", '"1"', "f(1)", "1 + 1", "2 * 3", "1 - 2", "true", "null", "false",
                "(select 1)", "cast(1 as int64)", "not 1", "-k", "- f(1)", "1 = 1", "1 and 2", "(1, 2)", "[1]", "case when 1 = 1 then 1 end", "-(1)",
                "1 || 2", "k is null", "1 in (1)", "-1.5", "`1`", "1 between 0 and 2", "extract(year from k)", "1 % 2", "+ k",
            ))
        return bracket(rng, text)

    which = rng.choice(("l", "l", "o", "lo", "lo"))
    if "l" in which:
        sql += " limit " + ("all" if rng.random() < 0.1 else bound("LIMIT"))
    if "o" in which:
        sql += " offset " + bound("OFFSET")
    return sql, expect, used


GOOD = [
    "true", "false", "yes", "no", "k", "t_.k", "f(k)", "k = 1", "1 = k", "k is null", "k is not true", "not k", "not true", "k in (1, 2)", "k not in (1)",
    "k like 'q'", "k between 1 and 2", "k not between 1 and 2", "1 between 0 and 3", "case when k = 1 then true end", "cast(k as bool)", "exists (select 1)",
    "(k = 1)", "((k))", "(select k from t_)", "not (k = 1 or k = 2)", "1 < 2", "'a' = 'b'", "null", "k[0]", "f(1)", "f(1, 'q')", "1 + 1 = 2", "not exists (select 1)",
    "count(*) > 1", "k <> 1.5", "coalesce(k, 1)", "w_.j", "(1 in (select k from t_))",
]
BAD = [
    ("0", "int"), ("1", "int"), ("42", "int"), ("-1", "int"), ("1.5", "float"), (".5", "float"), ("1e5", "float"), ("'q'", "str"), ("''", "str"), ("'true'", "str"),
    ("'a and b'", "str"), ("k + 1", "int|float"), ("1 - k", "int|float"), ("2 * 3", "int"), ("k / 2", "int|float"), ("1.5 + 1", "float"), ("2 - .5", "float"), ("k * 1.5", "float"), ("1 + 2 * 2.5", "float"), ("(1.5) / 2", "float"), ("-1.5 + 3", "float"), ("7 % 2", "int"), ("-k", "int|float"), ("- f(1)", "int|float"),
    ("1 + 2 + 3", "int"), ("(1)", "int"), ("((1.5))", "float"), ("('q')", "str"), ("(k + 1)", "int|float"), ("(-1)", "int"), ("k % 2", "int|float"),
]
TYPED = {"int": ("1", "7", "(2)", "1 + 2", "-3"), "float": ("1.5", "0.0", "1.5 + 2", "-.5"), "str": ("'q'", "''"), "bool": ("true", "k = 1", "not k", "k is null"), "object": ("k", "f(k)", "cast(k as int64)", "null")}


def typed_source(rng):
    """A FROM clause with a column of known type: (text, reference, type)"""
    kind = rng.choice(sorted(TYPED))
    e = rng.choice(TYPED[kind])
    sub = "select %s as j%s from t_" % (e, rng.choice(("", ", k")))
    if rng.random() < 0.3:
        sub = "select %s as j from t_" % e
        if rng.random() < 0.3:
            sub += " union all select k from t_"
    for _ in range(rng.choice((0, 0, 1, 2))):
        way = rng.choice(("select * from (%s)", "select v_.* from (%s) v_", "select j from (%s)", "select v_.j from (%s) as v_", "select j as j from (%s)", "select distinct j from (%s) where 1 = 1"))
        sub = way % sub
        if way == "select j as j from (%s)":
            # whether an alias keeps the type is not said
            kind = "object" if kind not in ("object", "bool") else kind
            if kind == "object":
                return "(%s) w_" % sub, None, kind
    r = rng.random()
    if r < 0.4:
        return "(%s) w_" % sub, rng.choice(("j", "w_.j")), kind
    if r < 0.6:
        return "(%s)" % sub, "j", kind
    if r < 0.8:
        return "(%s) as w_ cross join (select 1 as i_) x_" % sub, rng.choice(("j", "w_.j")), kind
    return "(select 1 as i_) x_ join (%s) w_ on x_.i_ = w_.j" % sub, rng.choice(("j", "w_.j")), kind


def boolean(rng):
    """Conditions of WHERE and HAVING and operands of AND and OR"""
    used, expect = set(), []
    source, reference, kind = "t_", None, None
    good, bad = [g for g in GOOD if "w_" not in g], BAD
    if rng.random() < 0.4:
        source, reference, kind = typed_source(rng)
        good = [g for g in GOOD if "k" not in g.replace("like", "").replace("select k", "") and "w_" not in g]
        if reference:
            used.add("column of type %s" % kind)

    def operand(words):
        if rng.random() < 0.25:
            if reference and rng.random() < 0.7 and kind in ("int", "float", "str"):
                text, types = reference, kind
                used.add("typed operand")
            else:
                text, types = rng.choice([b for b in bad if source == "t_" or "k" not in b[0]])
            expect.append(("boolean", sorted(words), types.split("|")))
            return bracket(rng, text, 0.15)
        if reference and kind in ("bool", "object") and rng.random() < 0.4:
            return bracket(rng, reference, 0.15)
        return bracket(rng, rng.choice(good), 0.1)

    def chain(clause, depth):
        n = rng.choice((1, 1, 2, 2, 3, 4)) if clause else rng.choice((2, 2, 3, 4))
        ops = [rng.choice(("and", "or")) for _ in range(n - 1)]
        out = ""
        for i in range(n):
            words = {w.upper() for w in ops[max(i - 1, 0) : i + 1]} or {clause}
            if depth > 0 and n > 1 and rng.random() < 0.25:
                text = rng.choice(("(%s)", "(%s)", "not (%s)")) % chain(None, depth - 1)
            else:
                text = operand(words)
            out += text + (" %s " % ops[i] if i < n - 1 else "")
        return out

    items = ["1 as i"]
    r = rng.random()
    if r < 0.15:
        items.append(rng.choice(("%s as c_", "f(%s)", "case when %s then 1 end", "not (%s) as c_", "f(1, (%s))", "count(1) filter (where %s)", "case 1 when 2 then (%s) end", "sum(1) over (partition by (%s))")) % chain(None, 1))
    sql = "select %s from %s" % (", ".join(items), source)
    if rng.random() < 0.7:
        sql += " where " + chain("WHERE", 2)
    if rng.random() < 0.25:
        sql += " group by 1"
    if rng.random() < 0.35:
        sql += " having " + chain("HAVING", 1)
    if rng.random() < 0.1:
        sql += " order by (%s)" % chain(None, 1)
    return sql, expect, used


KINDS = [
    "join", "inner join", "left join", "left outer join", "right join", "right outer join", "full join", "full outer join", "cross join", ",",
]


def join(rng):
    """Joins with and without their condition"""
    expect, used = [], set()

    def operand(i, depth):
        r = rng.random()
        alias = rng.choice((" a%d", " as a%d")) % i if rng.random() < 0.6 else ""
        if r < 0.45:
            return rng.choice(("t%d", "p.t%d", "`p.t%d`", "[p:d.t%d]", "f%d(1)")) % i + alias
        if r < 0.6:
            return "(select k from t%d)" % i + alias
        if r < 0.7 and i:
            return rng.choice(("unnest(k)", "unnest(f(k)) as b%d" % i, "unnest(k) b%d with offset" % i, "unnest(k) as b%d with offset as c%d" % (i, i)))
        if r < 0.85 and depth > 0:
            used.add("brackets")
            return "(%s)" % chain(depth - 1, 10 * (i + 1))
        if r < 0.92 and depth > 0:
            used.add("join in a subquery")
            return "(select 1 from %s)" % chain(depth - 1, 10 * (i + 1)) + alias
        return "t%d" % i + alias

    def chain(depth, base=0):
        out = operand(base, depth)
        for i in range(rng.choice((1, 1, 2, 2, 3, 4))):
            kind = rng.choice(KINDS)
            right = operand(base + i + 1, depth)
            if kind == ",":
                out += ", " + right
                continue
            out += " %s %s" % (kind, right)
            if kind == "cross join":
                continue
            r = rng.random()
            if r < 0.25:
                used.add(kind)
                used.add("missing at %s" % ("the start" if i == 0 else "later"))
                expect.append(("join",))
            elif r < 0.55:
                out += " using (%s)" % rng.choice(("k", "k, j"))
            else:
                out += " on " + rng.choice(("1 = 1", "k = j", "(k = j)", "k = j and j = 1", "(k = 1 or j = 2)", "true", "f(k)", "not k", "k in (1, 2)", "k between 1 and 2", "k = j or k = 1 and j = 2"))
        return out

    sql = "select 1 from " + chain(2)
    r = rng.random()
    if r < 0.3:
        sql += rng.choice((" where 1 = 1", " group by 1", " order by 1", " limit 1", " having 1 = 1"))
    elif r < 0.4:
        sql = "select 1 from t where k in (%s)" % sql
    return sql, expect, used


def make(rng, kind, semicolon=True):
    sql, expect, used = {"position": position, "limit": limit, "boolean": boolean, "join": join}[kind](rng)
    sql, nests = nest(rng, sql)
    if semicolon and rng.random() < 0.1:
        sql += ";"
    return {"sql": sql, "expect": [list(e) for e in expect], "used": sorted("small " + u for u in used | nests)}


def sound(rng):
    """One with nothing wrong"""
    while True:
        case = make(rng, rng.choice(("position", "limit", "boolean", "join")))
        if not case["expect"]:
            return case
