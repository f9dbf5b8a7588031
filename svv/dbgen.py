"""
Queries that a real database (SQLite) runs too.

make(rng, wrong) gives the tokens of a query over the tables of SCHEMA. Without wrong, every name
can be resolved; otherwise names are drawn without looking, and only the database knows.
"""
import copy

from . import lex

POOL = ["a", "b", "c", "ab", "id", "user_id", "k", "a_b"]
TABLES = ["t", "u", "v_1", "Orders"]
ALIASES = ["x", "y", "z", "t1", "sub", "x1", "xy", "Big", "q_"]
PARAMETERS = {"p1": 1, "p2": "b", "name": None}
SCALARS = ["abs(%s)", "coalesce(%s, %s)", "ifnull(%s, 0)", "nullif(%s, %s)", "length(%s)", "upper(%s)", "typeof(%s)", "max(%s, %s)", "min(%s, 1)",
           "substr(%s, 1, 2)", "iif(%s, 1, %s)", "round(%s)", "round(%s, 1)", "instr(%s, 'b')", "replace_(%s)"[:0] or "trim(%s)", "hex(%s)"]
AGGREGATES = ["count(*)", "count(%s)", "count(distinct %s)", "sum(%s)", "max(%s)", "min(%s)", "avg(%s)", "total(%s)", "group_concat(%s)", "sum(distinct %s)", "group_concat(distinct %s)", "sum(%s) filter (where %s)", "count(*) filter (where %s)"]
WINDOWS = ["row_number()", "rank()", "sum(%s)", "count(*)", "max(%s)", "lag(%s)", "first_value(%s)", "lag(%s, 1, 0)", "ntile(2)"]
FRAMES = ["", "", "", " rows between 1 preceding and current row", " rows between unbounded preceding and unbounded following", " range between unbounded preceding and current row", " rows 2 preceding", " rows current row", " rows unbounded preceding", " range current row", " rows between current row and unbounded following", " rows between 2 preceding and 1 following", " rows between 1 following and 3 following"]
LITERALS = ["1", "2", "0", "10", "1.5", ".5", "1e2", "2.", "'b'", "'x  y'", "'it''s'", "''", "'a,b'", "'(b)'", "'select a from t'", "null", "true", "false", "'\n b'", "-1", "007", ":p1", ":p2", ":name", "'%b_'"]
TYPES = ["int", "float", "text", "numeric", "real", "integer"]
KEYWORDS = set(
    "select distinct all from where group by having order limit offset union intersect except with as on using join left right full outer inner cross "
    "and or not in is null like between case when then else end exists over partition rows range preceding following unbounded current row filter "
    "asc desc nulls first last true false".split()
)
CONSTS = {"true", "false", "null"}
FUNCTIONS = {s.split("(")[0] for s in SCALARS + AGGREGATES + WINDOWS} | {"cast"}


def schema(rng):
    """Statements that fill a database: every table has all the columns."""
    out = []
    for t in TABLES:
        out.append("create table %s (%s)" % (t, ", ".join(POOL)))
        for _ in range(5):
            row = [rng.choice(["1", "2", "3", "null", "'b'", "'x  y'", "1.5", "10", "0", "-1", "'Ab'"]) for _ in POOL]
            out.append("insert into %s values (%s)" % (t, ", ".join(row)))
    return out


def tokens(text):
    out = []
    scanned = lex.scan(text)
    for i, (kind, t) in enumerate(scanned):
        if kind == "word":
            low = t.lower()
            called = i + 1 < len(scanned) and scanned[i + 1][1] == "("
            before = scanned[i - 1][1] if i else ""
            if t.startswith(":"):
                kind = "par"
            elif low in CONSTS:
                kind = "const"
            elif low in FUNCTIONS and called and before != ".":
                kind = "fn"
            elif low in TYPES and before == "as":
                kind = "ty"
            elif low in KEYWORDS:
                kind = "kw"
            else:
                kind = "id"
        out.append((kind, t))
    return out


class Source:
    def __init__(self, alias, columns):
        self.alias, self.columns = alias, columns


class Scope:
    def __init__(self, sources, outer):
        self.sources, self.outer = sources, outer
        self.closed = False
        # columns joined by USING; those of the select list that have a name of their own
        self.merged, self.aliases, self.output, self.either = [], [], [], []

    def provides(self, name):
        return sum(name in s.columns for s in self.sources)

    def names(self):
        return [n for s in self.sources for n in s.columns if n in self.merged or self.provides(n) == 1]


class Maker:
    def __init__(self, rng, wrong, size):
        self.rng, self.wrong, self.left = rng, wrong, size
        self.used, self.taken = set(), []
        self.fresh = 0
        self.rate = rng.choice((0.02, 0.04, 0.08))

    def alias(self):
        """An alias that nothing around uses"""
        free = [a for a in ALIASES if a not in self.taken]
        if free and self.rng.random() < 0.9:
            a = self.rng.choice(free)
        else:
            self.fresh += 1
            a = "s%d" % self.fresh
        self.taken.append(a)
        return a

    # -- references -------------------------------------------------------------------------
    def ref(self, scope, own=False):
        """own: names of the select list may be used too (GROUP BY, ORDER BY)"""
        rng = self.rng
        full = scope
        if scope.closed:
            # SQLite has no names of the queries around in GROUP BY and ORDER BY
            scope = copy.copy(scope)
            scope.outer = None
        if self.wrong and rng.random() < self.rate:
            hidden, every, s, beyond = set(), [], full, False
            while s:
                # what SQLite would take for the value that the alias names
                hidden |= set(s.either) | set(s.aliases)
                if own or s.closed:
                    hidden |= set(s.output)
                if beyond:
                    hidden |= {n for x in s.sources for n in x.columns}
                else:
                    every += [x.alias for x in s.sources if x.alias]
                beyond |= s.closed
                s = s.outer
            names = [n for n in POOL + ["n1", "n2", "i", "a_"] if n not in hidden]
            name = rng.choice(names)
            several = [n for n in names if n not in scope.merged and scope.provides(n) > 1]
            if several and rng.random() < 0.5:
                self.used.add("ambiguous name")
                return rng.choice(several)
            if every and rng.random() < 0.4:
                self.used.add("any qualified")
                return rng.choice(every) + "." + name
            self.used.add("any name")
            return name
        if scope.outer and rng.random() < 0.25:
            s = scope.outer
            while s.outer and not s.closed and rng.random() < 0.3:
                s = s.outer
            good = []
            inner = scope
            hidden = set()
            while inner is not s:
                hidden |= {n for x in inner.sources for n in x.columns} | set(inner.aliases) | set(inner.output)
                inner = inner.outer
            good += [n for n in s.names() if n not in hidden]
            good += [x.alias + "." + n for x in s.sources if x.alias for n in x.columns]
            if good:
                self.used.add("correlated")
                return rng.choice(good)
        good = scope.names()
        good += [s.alias + "." + n for s in scope.sources if s.alias for n in s.columns]
        if own:
            good += scope.aliases * 2
        if not good:
            return "1"
        return rng.choice(good)

    # -- expressions ------------------------------------------------------------------------
    def fill(self, template, scope, depth, **k):
        return template % tuple(self.value(scope, depth - 1, **k) for _ in range(template.count("%s")))

    def value(self, scope, depth, own=False, aggregates=False):
        rng = self.rng
        r = rng.random()
        self.left -= 1
        if depth <= 0 or self.left <= 0 or r < 0.3:
            if rng.random() < 0.3:
                return rng.choice(LITERALS)
            return self.ref(scope, own)
        k = {"own": own}
        if aggregates and r < 0.45:
            self.used.add("aggregate")
            t = rng.choice(AGGREGATES)
            if t.endswith("where %s)"):
                self.used.add("filter")
                return t % tuple([self.value(scope, 0, **k)] * (t.count("%s") - 1) + [self.truth(scope, depth - 1, **k)])
            return self.fill(t, scope, 1, **k)
        if r < 0.55:
            return self.fill(rng.choice(SCALARS), scope, depth, **k)
        if r < 0.68:
            ops = [rng.choice(["+", "-", "*", "/", "%", "||", "&", "|", "<<", ">>", "+", "-"]) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
            self.used.add("operators %d" % len(ops))
            text = self.value(scope, depth - 1, **k)
            for op in ops:
                text += " %s %s" % (op, self.value(scope, min(depth - 1, 1), **k))
            return text
        if r < 0.74:
            return "(%s)" % self.value(scope, depth - 1, **k)
        if r < 0.79:
            return "cast(%s as %s)" % (self.value(scope, depth - 1, **k), rng.choice(TYPES))
        if r < 0.88:
            subject = " " + (self.value(scope, 0, **k) if rng.random() < 0.8 else self.truth(scope, 0, **k)) if rng.random() < 0.4 else ""
            whens = "".join(
                " when %s then %s" % (self.value(scope, 0, **k) if subject else self.truth(scope, depth - 1, **k), self.value(scope, depth - 1, **k))
                for _ in range(rng.choice((1, 1, 2)))
            )
            self.used.add("case")
            return "case%s%s%s end" % (subject, whens, " else " + self.value(scope, depth - 1, **k) if rng.random() < 0.6 else "")
        if r < 0.92:
            return rng.choice(("- %s", "-%s", "+ %s")) % self.ref(scope, own)
        if r < 0.97:
            self.used.add("scalar subquery")
            return "(%s)" % self.query(scope, 0, one=True)[0]
        return "(%s)" % self.truth(scope, depth - 1, **k)

    def truth(self, scope, depth, own=False, aggregates=False):
        rng = self.rng
        r = rng.random()
        k = {"own": own}
        if depth <= 0 or self.left <= 0 or r < 0.4:
            left = self.value(scope, min(depth, 1), aggregates=aggregates, **k)
            return "%s %s %s" % (left, rng.choice(["=", "<", ">", "<=", ">=", "<>", "!=", "is", "is not"]), self.value(scope, min(depth, 1), **k))
        v = lambda: self.value(scope, min(depth - 1, 1), **k)
        if r < 0.47:
            return "%s %sin (%s)" % (v(), rng.choice(("", "not ")), ", ".join(v() for _ in range(rng.choice((1, 2, 3)))))
        if r < 0.53:
            self.used.add("in subquery")
            return "%s %sin (%s)" % (v(), rng.choice(("", "not ")), self.query(scope, 0, one=True)[0])
        if r < 0.6:
            self.used.add("between")
            return "%s %sbetween %s and %s" % (self.ref(scope, own), rng.choice(("", "not ")), self.value(scope, 0, **k), self.value(scope, 0, **k))
        if r < 0.66:
            return "%s %slike %s" % (v(), rng.choice(("", "not ")), rng.choice(("'%b%'", "'a_'", "''", ":p2")))
        if r < 0.7:
            return "%s is %snull" % (v(), rng.choice(("", "not ")))
        if r < 0.77:
            self.used.add("exists")
            return "%sexists (%s)" % (rng.choice(("", "not ")), self.query(scope, 0)[0])
        if r < 0.82:
            self.used.add("not")
            return "not %s" % rng.choice(("%s", "(%s)", "(%s)", "not %s", "(not %s)", "(not (%s))", "not (%s)", "((%s))")) % self.truth(scope, 0, **k)
        if r < 0.97:
            n = rng.choice((1, 1, 2, 3))
            parts = [self.truth(scope, depth - 1, **k) for _ in range(n + 1)]
            text = parts[0]
            for p in parts[1:]:
                if rng.random() < 0.25:
                    p = "(%s)" % p
                text += " %s %s" % (rng.choice(("and", "or", "and")), p)
            self.used.add("and/or")
            return text
        return "(%s)" % self.truth(scope, depth - 1, **k)

    # -- queries ----------------------------------------------------------------------------
    def source(self, depth):
        rng = self.rng
        if self.ctes and rng.random() < 0.3:
            name, columns = rng.choice(self.ctes)
            alias = self.alias()
            self.used.add("common table")
            return "%s%s%s" % (name, rng.choice((" ", " as ")), alias), Source(alias, columns)
        if not self.wrong and (depth <= 0 or self.left <= 0 or rng.random() < 0.5):
            alias = self.alias()
            return "%s%s%s" % (rng.choice(TABLES), rng.choice((" ", " as ")), alias), Source(alias, list(POOL))
        alias = self.alias()
        mark = len(self.taken)
        text, columns = self.query(None, depth - 1)
        del self.taken[mark:]
        self.used.add("derived table")
        return "(%s)%s%s" % (text, rng.choice((" ", " as ")), alias), Source(alias, columns)

    def leaf(self, one):
        rng = self.rng
        names = rng.sample(POOL, 1 if one else rng.choice((1, 2, 2, 3, 4)))
        t = rng.choice(TABLES)
        items = [rng.choice((n, n, n, t + "." + n)) for n in names]
        if rng.random() < 0.25:
            new = rng.choice([n for n in POOL + ["n1", "n2"] if n not in names])
            i = rng.randrange(len(items))
            items[i] += rng.choice((" as ", " ")) + new
            names[i] = new
        text = "select %s from %s" % (", ".join(items), t)
        if rng.random() < 0.2:
            text += " where %s.%s = 1" % (t, rng.choice(POOL))
        return text, names

    def query(self, outer, depth, one=False, top=False):
        """(text, names of its columns)"""
        rng = self.rng
        if self.wrong and not top and (depth <= 0 and outer is None or self.left <= 0):
            return self.leaf(one)
        mark = len(self.taken)
        text, sources = "", []
        n = 1 if self.left <= 0 else rng.choice((1, 1, 2, 2, 3))
        merged, plain = [], True
        for i in range(n):
            right, source = self.source(depth)
            if not i:
                text = right
                sources.append(source)
                continue
            common = [c for c in source.columns if sum(c in s.columns for s in sources) == 1 and c not in merged]
            r = rng.random()
            if common and r < 0.4 and plain and n == 2:
                using = rng.sample(common, rng.randint(1, min(2, len(common))))
                text += " %s %s using (%s)" % (rng.choice(("join", "left join", "inner join", "full outer join", "right join")), right, ", ".join(using))
                merged += using
                self.used.add("using")
            elif r < 0.6:
                text += rng.choice((", ", " cross join ")) + right
            else:
                s = Scope(sources + [source], outer if not self.wrong else None)
                self.used.add("on")
                if self.wrong:
                    on = "%s.%s = %s.%s" % (sources[0].alias, rng.choice(sources[0].columns), source.alias, rng.choice(source.columns))
                else:
                    on = self.truth(s, 1)
                text += " %s %s on %s" % (rng.choice(("join", "left join", "left outer join", "inner join", "full join")), right, on)
            sources.append(source)
        scope = Scope(sources, outer)
        scope.merged = merged
        group = rng.random() < 0.3
        whole = rng.random() < 0.1 and not group
        items, columns = [], []
        count = 1 if one else rng.choice((1, 2, 2, 3, 4))
        shared = len([c for s in sources for c in s.columns]) != len({c for s in sources for c in s.columns})
        for i in range(count):
            r = rng.random()
            named = [c for c in POOL + ["n%d" % n for n in range(1, 10)] if c not in columns]
            if not one and not group and not whole and r < 0.12 and not columns:
                s = rng.choice(sources)
                every = [c for x in sources for c in x.columns]
                if rng.random() < 0.5 and not shared and not merged:
                    items.append("*")
                    columns += every
                else:
                    items.append(s.alias + ".*")
                    columns += s.columns
                self.used.add("star")
                continue
            if r < 0.4:
                name = self.ref(scope)
                if name.split(".")[-1] in columns or not name.split(".")[-1][:1].isalpha():
                    name = "1 as " + rng.choice(named)
                    scope.aliases.append(name.split()[-1])
                items.append(name)
                columns.append(name.split()[-1].split(".")[-1])
                continue
            if r < 0.5 and not group and not whole:
                self.used.add("window")
                e = self.fill(rng.choice(WINDOWS), scope, 1)
                if rng.random() < 0.1:
                    e = "sum(%s) filter (where %s)" % (self.value(scope, 0), self.truth(scope, 1))
                    self.used.add("filter")
                e += " over ("
                inside = []
                if rng.random() < 0.6:
                    inside.append("partition by " + ", ".join(self.value(scope, 1) for _ in range(rng.choice((1, 1, 2)))))
                inside.append("order by " + ", ".join(self.ref(scope) + rng.choice(("", " desc", " asc")) for _ in range(rng.choice((1, 1, 2)))))
                if rng.random() < 0.05:
                    inside = inside[:-1]
                    e += " ".join(inside) + ")"
                else:
                    e += " ".join(inside) + rng.choice(FRAMES) + ")"
            elif r < 0.6:
                e = self.truth(scope, 2)
            else:
                e = self.value(scope, 3, aggregates=group or whole)
            name = rng.choice(named)
            items.append(e + rng.choice((" as ", " as ", " ")) + name)
            columns.append(name)
            scope.aliases.append(name)
        scope.output = list(columns)
        sql = "select %s%s from %s" % (rng.choice(("", "", "", "", "distinct ", "all ")), ", ".join(items), text)
        # a name that is given in the select list and found in a source means one here, the other there
        scope.either = [a for a in scope.aliases if any(a in s.columns for s in sources)]
        scope.aliases = [a for a in scope.aliases if a not in scope.either]
        if rng.random() < 0.5:
            sql += " where " + self.truth(scope, 3)
        if group:
            self.used.add("group")
            scope.closed = True
            by = [self.ref(scope) if rng.random() < 0.7 else self.value(scope, 2) for _ in range(rng.choice((1, 1, 2, 3)))]
            scope.closed = False
            sql += " group by " + ", ".join(e if e[:1].isalpha() else "coalesce(%s, 1)" % e for e in by)
            if rng.random() < 0.4:
                self.used.add("having")
                sql += " having " + self.truth(scope, 2, aggregates=True)
        compound = not one and rng.random() < 0.1 and not (self.wrong and outer)
        if compound and not whole and len(columns) == len(items) and not any("*" in i.split(" ")[0] for i in items):
            self.used.add("compound")
            for _ in range(rng.choice((1, 1, 2))):
                other = ", ".join(rng.sample(POOL, len(columns)) if len(columns) <= len(POOL) else ["1"] * len(columns))
                sql += " %s select %s from %s" % (rng.choice(("union", "union all", "intersect", "except")), other, rng.choice(TABLES))
            if rng.random() < 0.3:
                sql += " order by %d" % rng.randint(1, len(columns))
        elif rng.random() < 0.4:
            self.used.add("order")
            by = []
            scope.closed = True
            for _ in range(rng.choice((1, 1, 2, 3))):
                e = self.ref(scope, True) if rng.random() < 0.6 else self.value(scope, 2)
                if not e[:1].isalpha():
                    e = "1" if e.isdigit() else "coalesce(%s, 1)" % e
                by.append(e + rng.choice(("", "", " desc", " asc", " desc nulls last", " nulls first")))
            sql += " order by " + ", ".join(by)
        if rng.random() < 0.25:
            sql += " limit %d" % rng.choice((0, 1, 2, 3, 100))
            if rng.random() < 0.4:
                sql += " offset %d" % rng.choice((0, 1, 2))
        del self.taken[mark:]
        return sql, columns


def make(rng, wrong, size=None):
    """(tokens, features used)"""
    m = Maker(rng, wrong, size or rng.choice((6, 10, 15, 25, 40)))
    m.ctes = []
    text = ""
    if not wrong and rng.random() < 0.2:
        parts = []
        for i in range(rng.choice((1, 1, 2, 3))):
            name = ["w", "w2", "Recent"][i]
            q, columns = m.query(None, rng.choice((0, 1)))
            parts.append("%s as (%s)" % (name, q))
            m.ctes.append((name, columns))
        text = "with " + ", ".join(parts) + " "
        m.used.add("with")
    q, _ = m.query(None, rng.choice((1, 1, 2, 2, 3)), top=True)
    out = tokens(text + q)
    if rng.random() < 0.15:
        out.append(("op", ";"))
    return out, sorted(m.used)
