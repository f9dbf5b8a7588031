"""Texts that repeat one construct n times."""


def many(piece, sep=", "):
    return lambda n: sep.join(piece.replace("#", str(i)) for i in range(n))


def q(before, inner, after=" from t"):
    return lambda n: before + inner(n) + after


LISTS = {
    "select items": q("select ", many("col_#")),
    "aliased items": q("select ", many("f(col_#, 1) as c_#")),
    "string items": q("select ", many("'a, (b # select'")),
    "chained items": q("select ", many("t.col_#")),
    "and": q("select a from t where ", many("a_# = #", " and "), ""),
    "or": q("select a from t where ", many("a_# > 'x#'", " or "), ""),
    "and or": q("select a from t where ", many("a_# and b_# or c_#", " and "), ""),
    "and of brackets": q("select a from t where ", many("(a_# or b_#)", " and "), ""),
    "and of not": q("select a from t where ", many("not a_#", " and "), ""),
    "and of between": q("select a from t where ", many("a between # and b_#", " and "), ""),
    "and of in": q("select a from t where ", many("a in (#, 2, 3)", " and "), ""),
    "and of subqueries": q("select a from t where ", many("a in (select b from u_#)", " and "), ""),
    "having": q("select a from t group by a having ", many("max(a) > #", " and "), ""),
    "on": q("select a from t join u on ", many("t.a_# = u.b_#", " and "), ""),
    "arguments": q("select f(", many("arg_#"), ") from t"),
    "literal arguments": q("select f(", many("'text #'"), ") from t"),
    "in": q("select a from t where a in (", many("#"), ")"),
    "array": q("select [", many("#"), "] from t"),
    "tuple": q("select (", many("a_#"), ") from t"),
    "group by": q("select a from t group by ", many("a_#"), ""),
    "rollup": q("select a from t group by rollup(", many("a_#"), ")"),
    "order by": q("select a from t order by ", many("a_# desc"), ""),
    "partition by": q("select sum(a) over (partition by ", many("a_#"), ") from t"),
    "window order by": q("select sum(a) over (order by ", many("a_# asc"), ") from t"),
    "windows": q("select ", many("sum(a) over (partition by b_# order by c rows between unbounded preceding and current row)")),
    "filters": q("select ", many("sum(a) filter(where b_# > 1)")),
    "casts": q("select ", many("cast(a_# as int)")),
    "extracts": q("select ", many("extract(day from a_#)")),
    "array aggs": q("select ", many("array_agg(distinct a_# ignore nulls order by b limit 3)")),
    "plus": q("select ", many("a_#", " + ")),
    "minus times": q("select ", many("a_# * b_#", " - ")),
    "concat": q("select ", many("a_#", " || ")),
    "bits": q("select ", many("a_#", " & ")),
    "comparisons": q("select ", many("a_#", " = ")),
    "signs": q("select ", many("a_#", " + -")),
    "nots": lambda n: "select " + "not " * n + "a from t",
    "whens": lambda n: "select case " + " ".join("when a = %d then 'x'" % i for i in range(n)) + " else 1 end from t",
    "cases": q("select ", many("case when a_# = 1 then b else c end")),
    "joins on": lambda n: "select a from t" + "".join(" join u_%d on t.a = u_%d.a" % (i, i) for i in range(n)),
    "joins using": lambda n: "select a from t" + "".join(" left join u_%d using (a)" % i for i in range(n)),
    "joined subqueries": lambda n: "select s_0.a from (select a from t) as s_0" + "".join(
        " join (select a, b_%d from t) as s_%d on s_0.a = s_%d.a" % (i, i, i) for i in range(1, n)
    ),
    "cross joins": q("select a from ", many("t_#", " cross join "), ""),
    "comma joins": q("select a from ", many("t_# as x_#"), ""),
    "using": q("select a from t join u using (", many("a_#"), ")"),
    "unions": lambda n: "select a from t" + " union all select b from u" * n,
    "excepts": lambda n: "select a from t" + " except t2" * n,
    "ctes": lambda n: "with " + ", ".join("q_%d as (select a, b from t where a = %d)" % (i, i) for i in range(n)) + " select a from q_0",
    "star except": q("select * except (", many("a_#"), ") from t"),
    "star replace": q("select * replace (", many("1 as a_#"), ") from t"),
    "distinct on": q("select distinct on (", many("a_#"), ") b from t"),
    "indices": lambda n: "select a" + "[0]" * n + " from t",
    "index items": q("select a[", many("#"), "] from t"),
    "dots": lambda n: "select " + ".".join("a%d" % i for i in range(n)) + " from t",
    "scalar subqueries": q("select ", many("(select max(a) from u_#) as m_#")),
    "subqueries of columns": lambda n: "select " + ", ".join("c_%d" % i for i in range(n)) + " from (select "
    + ", ".join("a as c_%d" % i for i in range(n)) + " from t) as s where c_0 = 1 group by c_0 order by c_0",
    "missing columns": lambda n: "select " + ", ".join("x_%d" % i for i in range(n)) + " from (select a from t) as s",
    "long string": lambda n: "select '" + "select (a, b) from " * n + "' from t",
    "quotes": lambda n: "select '" + "''" * n + "' from t",
    "escapes": lambda n: "select '" + "\\'" * n + "' from t",
    "long name": lambda n: "select " + "a_" * n + " from t",
    "blanks": lambda n: "select" + " \n\t" * n + "a from t",
    "blank between items": lambda n: "select a" + "  ,\n\n b" * n + " from t",
    "long number": lambda n: "select 1" + "0" * n + " from t",
    # texts that are no queries
    "open brackets": lambda n: "select " + "f(" * min(n, 40),
    "closing brackets": lambda n: "select a" + ")" * n,
    "open quotes": lambda n: "select " + "' a " * (2 * n + 1),
    "mixed quotes": lambda n: "select " + "' \" ` " * n,
    "commas": lambda n: "select " + "," * n,
    "semicolons": lambda n: "select a" + ";" * n,
    "operators": lambda n: "select " + "+ * <> " * n,
    "keywords": lambda n: "select " + "from where " * n,
    "selects": lambda n: "select " * n,
    "cases only": lambda n: "select " + "case when " * min(n, 40),
    "withs": lambda n: "with " * n,
    "ands": lambda n: "select a where " + "and " * n,
    "betweens": lambda n: "select a where b between " * n,
    "dots only": lambda n: "select a" + "." * n,
    "unions only": lambda n: "select a from t " + "union " * n,
    "joins only": lambda n: "select a from t " + "join " * n,
    "placeholders": q("select ", many("%(name_#)s")),
}

DEEP = {
    "signs of a condition": lambda n: "select a from t where " + "- " * n + "(a)",
    "signs of an operand": lambda n: "select a from t where b and " + "- " * n + "a",
    "nots of an operand": lambda n: "select a from t where b and " + "not " * n + "a",
    "brackets": lambda n: "select " + "(" * n + "a" + ")" * n + " from t",
    "conditions": lambda n: "select a from t where " + "(a and (" * n + "b" + "))" * n,
    "short or/and": lambda n: "select a from t where " + "(a or b and " * n + "c" + ")" * n,
    "long and/or": lambda n: "select a from t where "
    + "(a_long_name_of_a_column > 1000 or another_long_name_of_a_column = 'a long text' and " * n
    + "c" + ")" * n,
    "calls": lambda n: "select " + "f(a, " * n + "b" + ")" * n + " from t",
    "long calls": lambda n: "select " + "f(a_long_name_of_a_column, another_long_name_of_a_column, 'a long text as well', " * n + "b" + ")" * n + " from t",
    "from": lambda n: "select a from (" * n + "select a from t" + ")" * n,
    "aliased from": lambda n: "select a from (" * n + "select a from t" + "".join(") as s%d" % i for i in range(n)),
    "from with conditions": lambda n: "select a from (" * n + "select a from t" + ") where a = 1 and b = 2 group by a" * n,
    "in": lambda n: "select a from t where a in (" * n + "select a from t" + ")" * n,
    "scalar": lambda n: "select (" * n + "select a from t" + ") as x from t" * n,
    "exists": lambda n: "select a from t where not exists (" * n + "select 1 from t" + ")" * n,
    "joins": lambda n: "select a from t join (" * n + "select a from t" + ") as s on t.a = s.a" * n,
    "cases": lambda n: "select " + "case when a then " * n + "1" + " else 2 end" * n + " from t",
    "case conditions": lambda n: "select " + "case when (" * n + "a" + ") then 1 else 2 end" * n + " from t",
    "casts": lambda n: "select " + "cast(" * n + "a" + " as int)" * n + " from t",
    "arrays": lambda n: "select " + "[" * n + "1" + "]" * n + " from t",
    "indices": lambda n: "select " + "a[" * n + "0" + "]" * n + " from t",
    "not": lambda n: "select a from t where " + "not (a or " * n + "b" + ")" * n,
    "between": lambda n: "select a from t where " + "a between 1 and (" * n + "b" + ")" * n,
    "windows": lambda n: "select " + "sum(" * n + "a" + ") over (partition by b)" * n + " from t",
    "filters": lambda n: "select " + "sum(" * n + "a" + ") filter(where b > 1)" * n + " from t",
    "with": lambda n: "with q as (" * n + "select a from t" + ") select a from q" * n,
    "unions": lambda n: "select a from (select a from t union all " * n + "select a from t" + ")" * n,
    "arithmetic": lambda n: "select " + "(a + " * n + "b" + ") * 2" * n + " from t",
    "having": lambda n: "select a from t having (" * n + "select a from t" + ")" * n,
    "group brackets": lambda n: "select a from t group by " + "(" * n + "a" + ")" * n,
    "order brackets": lambda n: "select a from t order by " + "(" * n + "a" + ")" * n,
    "limit brackets": lambda n: "select a from t limit " + "(" * n + "1" + ")" * n,
    "bracketed joins": lambda n: "select a from " + "(t join " * n + "u" + " using (a))" * n,
    "array aggs": lambda n: "select " + "array_agg(" * n + "a" + " order by b)" * n + " from t",
    "on": lambda n: "select a from t join u on " + "(t.a = u.a and (" * n + "t.b" + "))" * n,
    "extract": lambda n: "select " + "extract(day from " * n + "a" + ")" * n + " from t",
}

# -- pieces that wrap an expression; nested in any order
LONG = "a_long_name_of_a_column > 1000 or another_long_name_of_a_column = 'a long text' and "
PIECES = {
    "brackets": "(%s)",
    "and": "(a and %s)",
    "long and": "(" + LONG + "%s)",
    "not": "not (%s)",
    "call": "f(a, %s)",
    "long call": "f(a_long_name_of_a_column, another_long_name_of_a_column, 'a long text as well', %s)",
    "case": "case when %s then 1 else 2 end",
    "case then": "case when a then %s end",
    "in": "a in (%s, 2)",
    "subquery": "(select %s from t)",
    "subquery where": "(select a from t where %s)",
    "subquery having": "exists(select a from t having (%s))",
    "from": "(select a from (select %s as b from t))",
    "join on": "(select a from t join u on (%s))",
    "from join": "(select a from t join (select %s as b from u) as s on t.a = s.b)",
    "set": "(select a from (select a from t union all select %s))",
    "cast": "cast(%s as int)",
    "index": "a[%s]",
    "array": "[1, %s]",
    "plus": "(1 + %s)",
    "sign": "- %s",
    "bare plus": "1 + %s",
    "unnest": "(select a from t, unnest(%s))",
    "tuple": "(a, %s)",
    "is null": "(%s is null)",
    "like": "(%s like 'x')",
    "distinct": "count(distinct %s)",
    "limit": "(select a from t limit %s)",
    "case value": "case %s when 1 then 2 end",
    "concat": "(a || %s)",
    "compare": "(a = %s)",
    "between": "(a between %s and 2)",
    "between upper": "(a between 1 and %s)",
    "over": "sum(a) over (partition by %s)",
    "over order": "sum(%s) over (order by a)",
    "filter": "sum(a) filter(where %s)",
    "array_agg": "array_agg(%s order by a)",
    "extract": "extract(day from %s)",
    "group": "(select a from t group by %s)",
    "order": "(select a from t order by %s, b)",
    "with": "(select a from (with q as (select %s as b) select a from q))",
    "alias": "(select f(%s) as x, b as y from t)",
    "field": "(%s)[0].x",
}


# where a nested expression stands, and what it holds
HOSTS = {
    "item": ("select %s from t", "a"),
    "number": ("select %s, 2 from t", "1"),
    "typed column": ("select s.x from (select %s as x, b from t) as s where s.x and b group by s.x having x order by x", "1.5"),
    "condition": ("select a from t where %s group by a having %s and b", "1"),
    "missing": ("select b from (select c as b from t) as s where %s order by %s", "a"),
}


def nest(names, host="select %s from t", leaf="a"):
    text = leaf
    for name in reversed(names):
        text = PIECES[name].replace("%s", text)
    return host.replace("%s", text)


def _lines(one, last=""):
    return lambda n: "".join(one.replace("@", str(i)) + "\n" for i in range(n)) + last


# Python files of n parts
FILES = {
    "statements": _lines("x@ = 'select a, b from t'"),
    "sound statements": _lines("x@ = 'SELECT a'"),
    "invalid queries": _lines("x@ = 'select a from t limit 1.5'"),
    "list": lambda n: "x = [\n" + "    'select a, b from t',\n" * n + "]\n",
    "one line": lambda n: "x = [" + "'select a', " * n + "]\n",
    "numbers after a string": lambda n: "x = ['select a, b from t', " + "1, " * n + "]\n",
    "numbers after each string": lambda n: "x = [" + "'select a, b from t', 1, 1, 1, " * n + "]\n",
    "lines after a string": lambda n: "f('select a, b from t',\n" + "  1,\n" * n + ")\n",
    "strings before": lambda n: "x = [" + "'a', " * n + "'select a, b from t']\n",
    "concatenated": lambda n: "x = (" + "'select a, b from t '\n" * n + ")\n",
    "concatenated pairs": _lines("x@ = 'select a, b ' 'from t'"),
    "f-strings": _lines("x@ = f'select {a}, b from t'"),
    "f-string parts": lambda n: "x = f'" + "{a}" * n + "'\ny = 'select a, b from t'\n",
    "comments": _lines("# 'select a, b from t'", "x = 'select a, b from t'\n"),
    "opted out": _lines("x@ = 'select a, b from t'  # nosqlformat"),
    "not validated": _lines("x@ = 'select a, b from t'  # nosqlvalidation"),
    "comments within": lambda n: "x = [\n" + "    'select a, b from t',  # c\n" * n + "]\n",
    "docstrings": _lines("def f@():\n    \"\"\"select a, b from t\"\"\"\n    return 'x'"),
    "triple quotes": _lines("x@ = '''\n  select a,\n  b from t\n'''"),
    "blank lines": lambda n: "x = 'select a, b from t'\n" + "\n" * n + "y = 'select a, b from t'\n",
    "dict": lambda n: "x = {\n" + "".join("    'k%d': 'select a, b from t',\n" % i for i in range(n)) + "}\n",
    "bytes": _lines("x@ = b'select a, b from t'"),
    "escapes": _lines("x@ = 'select a, \\'q\\' from t'"),
    "nested lists": lambda n: "x = " + "[" * min(n, 60) + "'select a, b from t'" + "]" * min(n, 60) + "\n",
    "calls": lambda n: "x" + "('select a, b from t')" * n + "\n",
    "no strings": _lines("x@ = @"),
    "semicolons": lambda n: "x = 'select a, b from t'; " * n + "\n",
}
