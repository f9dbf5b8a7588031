"""
Small queries over joined and nested subqueries with few column names, so that names are shared,
merged, ambiguous, hidden or close to each other; what each reference is, is known by construction.

make(rng, faulty) gives {"sql", "expect", "used"} as vgen does; expect holds ("column", name).
"""
POOL = ["a", "b", "c", "ab", "a_b", "id", "user_id", "id_", "p", "value_1"]
ALIASES = ["x", "y", "z", "t1", "t", "sub", "x1", "xy", "b1"]
FORMS = [
    "%s", "f(%s)", "f(1, %s)", "f(g(%s))", "count(distinct %s)", "case when %s = 1 then 2 else 3 end", "case %s when 1 then 2 end",
    "case when z_ = 1 then %s end"[:0] or "case when 1 = 1 then %s end", "case when 1 = 1 then 2 else %s end", "cast(%s as int)", "%s + 1", "1 - %s", "-%s", "(%s)",
    "sum(1) over (partition by %s)", "sum(1) over (order by %s desc)", "sum(%s) over (partition by 1)", "%s between 1 and 2",
    "1 between %s and 2", "1 between 0 and %s", "%s in (1, 2)", "1 in (2, %s)", "%s is null", "%s like 'q'", "not %s = 1", "(%s, 1)", "extract(year from %s)",
    "array_agg(%s)", "count(1) filter (where %s = 1)", "%s || 'q'", "f(%s)[0]"[:0] or "%s[0]", "%s = 1 and 1 = 1", "1 = 1 or %s = 1", "coalesce(%s, 1)",
]
TRUTHS = [
    "%s = 1", "1 = %s", "%s is null", "f(%s)", "%s in (1, 2)", "1 in (2, %s)", "%s like 'q'", "%s between 1 and 2", "1 between 0 and %s", "not %s = 1",
    "1 = 1 and %s > 2", "%s = 1 or 1 = 2", "(%s < 2 or 1 = 2)", "case when %s = 1 then true end", "f(%s) > 1", "%s + 1 > 2", "not (1 = 1 and %s = 2)",
    "exists (select 1 from (select q_ from t_) w_ where q_ = %s)",
]


class Source:
    def __init__(self, alias, columns):
        # columns: {name: how often}, or None when it may provide any
        self.alias, self.columns = alias, columns


class Builder:
    def __init__(self, rng, rate):
        self.rng, self.rate = rng, rate
        self.expect, self.used = [], set()
        self.left = rng.choice((1, 1, 2, 3))

    def fault(self):
        if self.left and self.rng.random() < self.rate:
            return True
        return False

    def reference(self, sources, merged, more=(), hidden=(), output=()):
        """
        A reference in a query with these sources; more: aliases it may use too, hidden: aliases
        it must not use, output: names the query projects (not to be told from ambiguous ones)
        """
        rng = self.rng
        open_ = any(s.columns is None for s in sources)
        counts = {}
        for s in sources:
            for n, k in (s.columns or {}).items():
                counts[n] = counts.get(n, 0) + k
        single = [n for n, k in counts.items() if k == 1]
        ambiguous = [
            n for n in counts if sum(n in (s.columns or {}) for s in sources) > 1
            and all(k == 1 for s in sources for m, k in (s.columns or {}).items() if m == n)
            and n not in merged and n not in more and n not in output
        ]
        if self.fault():
            ways = []
            if not open_:
                ways += ["missing"] * 2
                ways += ["ambiguous"] * 4 * bool(ambiguous)
            explicit = [s for s in sources if s.alias and s.columns is not None]
            ways += ["field"] * len(explicit)
            if ways:
                way = rng.choice(ways)
                self.left -= 1
                self.used.add("small " + way)
                if way == "ambiguous":
                    name = rng.choice(ambiguous)
                    self.expect.append(("column", name))
                    return name
                source = rng.choice(explicit) if way == "field" else None
                provided = set(source.columns) if source else set(counts) | set(more) | set(output)
                names = [n for n in POOL if n not in provided] + ["a_", "i", "nothing", "select_1"]
                names = [n for n in names if n not in provided]
                near = [n for n in hidden if n in names]
                name = rng.choice(near if near and rng.random() < 0.5 else names)
                if name in near:
                    self.used.add("small hidden alias")
                self.expect.append(("column", name))
                return source.alias + "." + name if source else name
        choices = [(None, n) for n in single + list(merged) + list(more)]
        choices += [(s.alias, n) for s in sources if s.alias for n, k in (s.columns or {}).items() if k == 1]
        if open_:
            choices += [(None, n) for n in POOL if n not in counts]
            choices += [(s.alias, n) for s in sources if s.alias and s.columns is None for n in POOL[:3]]
        if not choices:
            return "1"
        alias, name = rng.choice(choices)
        if alias is None and name in merged:
            self.used.add("small merged name")
        return name if alias is None else alias + "." + name

    def form(self, forms, *a, **k):
        rng = self.rng
        form = rng.choice(forms if rng.random() < 0.6 else forms[:2])
        return form % self.reference(*a, **k)

    def source(self, depth, alias):
        """(text, source)"""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.07:
            return "t_" + (" " + alias if alias else ""), Source(alias, None)
        text, columns = self.query(depth - 1)
        text = "(%s)" % text
        if rng.random() < 0.06:
            text = "(%s)" % text
        if alias:
            text += rng.choice((" ", " as ")) + alias
        return text, Source(alias, columns)

    def leaf(self):
        """A query that projects some names of a table: (text, columns)"""
        rng = self.rng
        names = rng.sample(POOL, rng.choice((1, 2, 2, 3, 4)))
        items, columns = [], {}
        for n in names:
            items.append(rng.choice((n, n, "t_." + n, "1 as " + n, "f(q) " + n, "q = 1 as " + n)))
            columns[n] = 1
        if rng.random() < 0.05:
            items.append(names[0])
            columns[names[0]] = 2
        return "select %s from t_" % ", ".join(items), columns

    def except_replace(self, sources, merged, of, columns):
        """EXCEPT and REPLACE after a star, taking away from columns what is left out"""
        rng = self.rng
        out = ""
        open_ = any(s.columns is None for s in of)

        def name(good):
            if not open_ and self.fault():
                self.left -= 1
                self.used.add("small name after a star")
                name = rng.choice([n for n in POOL + ["a_", "i"] if n not in columns])
                self.expect.append(("column", name))
                return name
            return rng.choice(good) if good else None

        before = list(self.expect)
        if rng.random() < 0.15:
            names = [name(sorted(columns) + POOL[:2] * open_) for _ in range(rng.choice((1, 1, 2)))]
            names = [n for n in dict.fromkeys(names) if n]
            if names and (open_ or set(columns) - set(names)):
                out += " except (%s)" % ", ".join(names)
                self.used.add("small EXCEPT")
            else:
                self.expect = before
                names = []
        else:
            names = []
        if rng.random() < 0.15:
            good = [c for c, k in columns.items() if k == 1 and c not in names] + POOL[2:4] * (open_ and not columns)
            before = list(self.expect)
            replaced = name(good)
            if replaced and replaced not in names:
                out += " replace (%s as %s)" % (self.form(FORMS, sources, merged), replaced)
                self.used.add("small REPLACE")
            else:
                self.expect = before
        for n in names:
            columns.pop(n, None)
        return out

    def query(self, depth):
        rng = self.rng
        if depth <= 0:
            return self.leaf()
        if rng.random() < 0.08:
            text, columns = self.query(depth - 1)
            saved, self.rate = self.rate, 0
            other, _ = self.query(0)
            self.rate = saved
            self.used.add("small set operation")
            return "%s %s %s" % (text, rng.choice(("union all", "union distinct", "intersect distinct")), other), columns
        sources, merged = [], []
        n = rng.choice((1, 2, 2, 2, 3))
        aliases = rng.sample(ALIASES, n)
        sure = n > 1 or rng.random() < 0.6
        text, source = self.source(depth, aliases[0] if sure else None)
        sources.append(source)
        plain = True
        for alias in aliases[1:]:
            right, source = self.source(depth, alias)
            common = [
                c for c in (source.columns or {}) if source.columns[c] == 1
                and sum((s.columns or {}).get(c, 0) for s in sources) == 1
            ] if plain and all(s.columns is not None for s in sources) else []
            r = rng.random()
            if common and r < 0.45:
                using = rng.sample(common, rng.randint(1, len(common)))
                text += " %s %s using (%s)" % (rng.choice(("join", "left join", "inner join", "full outer join")), right, ", ".join(using))
                merged += using
                # whether a third source makes the name ambiguous again is not said
                plain = False
                self.used.add("small using %d" % min(len(using), 2))
                if len(aliases) == 3:
                    sources.append(source)
                    break
            elif r < 0.6:
                text += rng.choice((", ", " cross join ")) + right
            else:
                text += " %s %s on %s.k = %s.k" % (rng.choice(("join", "left join", "right outer join")), right, aliases[0], alias)
            sources.append(source)
        # select list
        items, columns, named, own = [], {}, [], []
        wild = False

        def project(name, k=1):
            columns[name] = columns.get(name, 0) + k

        for _ in range(rng.choice((1, 2, 2, 3))):
            r = rng.random()
            if r < 0.27 and (r < 0.12 or sure):
                s = rng.choice(sources) if r >= 0.12 else None
                of_star = {}
                for source in [s] if s else sources:
                    wild |= source.columns is None
                    for c, k in (source.columns or {}).items():
                        of_star[c] = of_star.get(c, 0) + (2 if c in merged and not s else k)
                star = s.alias + ".*" if s else "*"
                if s:
                    self.used.add("small alias.*")
                items.append(star + self.except_replace(sources, merged, [s] if s else sources, of_star))
                for c, k in of_star.items():
                    project(c, k)
            elif r < 0.6:
                name = self.reference(sources, merged, hidden=named)
                items.append(name)
                project(name.split(".")[-1])
            else:
                e = self.form(FORMS, sources, merged, hidden=named)
                name = rng.choice(POOL + ["e1", "e2"])
                items.append(e + rng.choice((" as ", " as ", " ")) + name)
                project(name)
                named.append(name)
        provided = {c for s in sources for c in (s.columns or {})} | set(merged)
        known_only_as_alias = [c for c in named if c not in provided]
        # an alias of the name of a source's column can stand for either: keep away from these
        if len(set(named)) < len(named):
            own = []
        else:
            own = known_only_as_alias
        sql = "select %s%s from %s" % (rng.choice(("", "", "", "distinct ")), ", ".join(items), text)
        if rng.random() < 0.5:
            sql += " where " + self.form(TRUTHS, sources, merged, hidden=known_only_as_alias)
        group = rng.random() < 0.4
        if group:
            sql += " group by " + ", ".join(
                self.form(["%s", "%s", "f(%s)", "(%s)"], sources, merged, more=own, output=columns) for _ in range(rng.choice((1, 1, 2, 3)))
            )
        if rng.random() < 0.25:
            sql += " having " + self.form(TRUTHS, sources, merged, hidden=known_only_as_alias, output=())
        if rng.random() < 0.4:
            sql += " order by " + ", ".join(
                self.form(["%s", "%s desc", "f(%s)", "%s + 1"], sources, merged, more=own, output=columns) for _ in range(rng.choice((1, 1, 2)))
            )
        if wild:
            return sql, None
        return sql, {c.split(".")[-1]: k for c, k in columns.items() if c != "1"}


def make(rng, faulty):
    b = Builder(rng, 0.12 if faulty else 0)
    sql, _ = b.query(rng.choice((1, 1, 2, 2, 3)))
    return {"sql": sql, "expect": [list(e) for e in b.expect], "used": sorted(b.used)}
