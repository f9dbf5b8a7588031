"""
Queries whose verdict is known by construction.

Every column a scenario uses is taken from the sources in scope, every condition is boolean,
every position in range, and so on - except where a fault is planted, which is recorded in
`expect` together with the words the error has to hold:

  ("column", name)            missing from or ambiguous in the subqueries it is read from
  ("position", clause, n)     GROUP BY / ORDER BY position
  ("limit", clause)           LIMIT / OFFSET
  ("boolean", clauses, types) WHERE / HAVING / AND / OR argument
  ("join",)                   join without ON or USING

The scoping rules are those of SQL with schemaless tables: a real table provides any column,
a subquery the columns it projects.
"""
import random

from .gen import (
    COMPARE, FRAMES, JOINS, NAMES, SETOPS, TABLES, WORDS, Gen, ends_with_string,
)
from .q import (
    Alias, Aliased, Between, Bin, Bool, Call, Case, Cast, Chain, Combined, Const, Except, Field, Id, Join,
    Not, Num, OrderItem, Par, Select, SetOp, Sign, Star, Str, Sub, Table, TypeName, Unnest, With,
)

# words with a meaning elsewhere, and other names nothing provides
ORDINARY = (
    "second minute hour week quarter year dayofweek time value text name type key rank index first last "
    "row current start stop unit interval ID Total c x1 level data sum lower left_id true_value nullable"
).split()
BASES = (
    "price total status city ref kind score day_of count_of is_open flag title name user x "
    "first_seen Amount UserRef rate fromage ordering selected"
).split()
ALIASES = "s sub q inner_q left_side rhs sq src Cte1 agg base daily".split()
BOOLABLE = ("object", "bool")


class Source:
    def __init__(self, alias, any_, fields=(), sure=True, open_=False):
        self.alias = alias      # name other clauses may qualify with, or None
        self.any = any_         # provides columns that are not known
        self.fields = list(fields)  # [(name, type)]; type "?": not to be relied on
        self.open = open_       # may stand for any unknown qualifier too (unaliased table)
        self.sure = sure        # False: the alias is not to be used as a qualifier


class Scope:
    def __init__(self):
        self.sources = []
        self.merged = []     # [name] joined by USING
        self.aliases = []    # [(name, type)] select aliases, for ORDER BY
        self.made = set()    # the names of its select aliases
        self.hides = []      # those that a clause does not know
        self.use_aliases = False


class VGen(Gen):
    def __init__(self, rng, size=20, depth=3, faults=(), **k):
        super().__init__(rng, size=size, depth=depth, **k)
        self.typed = True
        self.names = list(NAMES)
        self.rates = dict(faults)
        self.most = rng.choice((1, 1, 1, 2, 3))
        self.frames = []
        self.expect = []
        self.unchecked = 0
        self.count = 0
        self.invented = set()
        self.names_made = []
        self.reused = set()

    # -- scope
    @property
    def frame(self):
        return self.frames[-1]

    def sources(self):
        return [s for scope in self.frame for s in scope.sources]

    def any(self):
        return any(s.any for s in self.sources())

    def open(self):
        return any(s.open for s in self.sources())

    def maybe(self, p, feature=None):
        if feature in ("namespaced_call", "postfix_field", "kwid") and not (
            self.frames and self.open()
        ):
            return False
        return super().maybe(p, feature)

    def fault(self, kind):
        if self.unchecked or len(self.expect) >= self.most:
            return False
        return self.rng.random() < self.rates.get(kind, 0)

    def fresh(self, base=None):
        """A new name, now and then a longer form of an older one"""
        name = None
        if self.names_made and self.maybe(0.08):
            name = self.pick(self.names_made) + self.pick(["x", "_", "1", "_b", "s"])
        while name is None or name in self.names_made:
            self.count += 1
            name = "%s_%d" % (base or self.pick(BASES), self.count)
        self.names_made.append(name)
        return name

    def missing_name(self):
        """A name nothing provides, now and then one close to a name that is provided."""
        known = [n for s in self.sources() for n, _ in s.fields]
        # names that are provided, or that an alias may provide
        taken = set(known) | {s.alias for s in self.sources()}
        for scope in self.frame:
            taken |= set(scope.merged) | {n for n, _ in scope.aliases}
        r = self.rng.random()
        hides = [n for n in self.frame[-1].hides if n not in taken]
        if hides and r < 0.25:
            self.used.add("missing but an alias")
            return self.pick(hides)
        for scope in self.frame:
            taken |= scope.made
        if r < 0.4:
            # a column of another query
            names = [n for n in self.names_made if n not in taken and n not in self.invented]
            if names:
                self.used.add("missing but known elsewhere")
                return self.pick(names)
        elif known and r < 0.7:
            name = self.pick(known)
            name = self.pick(
                [name + "x", name + "_", "_" + name, name[:-1] + "q", name.split("_")[0] + "_0", "a" + name]
            )
            if name not in taken:
                return name
        if self.maybe(0.2):
            name = self.pick(ORDINARY)
            if name not in taken and name not in self.names_made:
                return name
        return self.fresh(self.pick(["absent", "typo", "ghost"]))

    # -- columns
    def candidates(self, boolean):
        sources = self.sources()
        out = []
        hidden = set()
        names = [{n for x in scope.sources for n, _ in x.fields} for scope in self.frame]
        # an alias can stand for the column of its name
        shadows = {n for scope in self.frame for n, _ in scope.aliases}
        for k in reversed(range(len(self.frame))):
            # a query's own columns hide those of the queries around it
            scope = self.frame[k]
            counts = {}
            for s in scope.sources:
                for n, _ in s.fields:
                    counts[n] = counts.get(n, 0) + 1
            for s in scope.sources:
                for n, t in s.fields:
                    if t == "double":
                        # a subquery with two columns of the name
                        continue
                    if n not in hidden:
                        if n in scope.merged:
                            out.append((None, n, "object"))
                        elif counts[n] == 1:
                            unique = sum(n in ns for ns in names) == 1 and n not in shadows
                            out.append((None, n, t if unique else "?"))
                            if not unique:
                                self.used.add("hiding name")
                    if s.alias and s.sure:
                        out.append((s.alias, n, t))
            hidden |= names[k]
        if self.any():
            known = set().union(*names)
            out += [
                (None, n, "object") for n in self.rng.sample(self.names, 3) if n not in known
            ]
            for s in sources:
                if s.any and s.alias and s.sure and not s.fields:
                    out += [(s.alias, n, "object") for n in self.rng.sample(self.names, 2)]
        scope = self.frame[-1]
        if scope.use_aliases and not boolean:
            out += [(None, n, t) for n, t in scope.aliases] * 2
        if boolean:
            out = [c for c in out if c[2] in BOOLABLE]
        return out

    def wrong_column(self):
        sources = self.sources()
        explicit = [s for s in sources if s.alias and s.sure and not s.any]
        choices = []
        if not self.any():
            choices += ["name"] * 3
            counts = {}
            for s in sources:
                for n, t in s.fields:
                    counts[n] = counts.get(n, 0) + 1 - 99 * (t == "double")
            merged = {n for scope in self.frame for n in scope.merged}
            aliases = {n for n, _ in self.frame[-1].aliases}
            here = {n for s in self.frame[-1].sources for n, _ in s.fields}
            double = [
                n for n, c in counts.items()
                if c > 1 and n not in merged and n not in aliases and self.twice_aliased(n)
                and n in here and not any(
                    n == m for scope in self.frame[:-1] for s in scope.sources for m, _ in s.fields
                )
            ]
            if double:
                choices += ["ambiguous"] * 4
            if not self.open():
                choices.append("alias")
        if explicit:
            choices += ["field"] * 2
        if not choices:
            return None
        choice = self.pick(choices)
        self.used.add("wrong " + choice)
        if choice == "ambiguous":
            name = self.pick(double)
            self.expect.append(("column", name))
            return Id(name)
        if choice == "field":
            source = self.pick(explicit)
            others = {n for s in sources for n, _ in s.fields} - {n for n, _ in source.fields}
            if others and self.maybe(0.3):
                self.used.add("wrong qualifier")
                name = self.pick(sorted(others))
                self.expect.append(("column", name))
                return Chain([Id(source.alias), Id(name)])
        name = self.missing_name()
        self.expect.append(("column", name))
        if choice == "name":
            return Id(name)
        if choice == "field":
            return Chain([Id(source.alias), Id(name)])
        return Chain([Id(self.fresh("nobody")), Id(name)])

    def twice_aliased(self, name):
        return all(s.alias for s in self.sources() if any(n == name for n, _ in s.fields))

    def column(self, boolean=False, qualified=None):
        """A reference to a column in scope, or None when there is none to refer to."""
        if self.fault("column"):
            wrong = self.wrong_column()
            if wrong is not None:
                return wrong
        options = self.candidates(boolean)
        if qualified is not None:
            narrowed = [o for o in options if (o[0] is not None) == qualified]
            options = narrowed or options
        if not options:
            return None
        alias, name, _ = self.pick(options)
        return Id(name) if alias is None else Chain([Id(alias), Id(name)])

    def id(self):
        c = self.column(qualified=False)
        if c is None:
            return self.number()
        return c

    def chain(self):
        c = self.column(qualified=True)
        return c if c is not None else self.string()

    def field_name(self):
        return Id(self.pick(self.names))

    def index_base(self):
        c = self.column()
        return c if c is not None else Call("f", [self.string()])

    def alias_name(self, as_=True):
        if self.maybe(0.12):
            # the name of a column of a query around this one
            names = {
                n for frame in self.frames[:-1] for scope in frame
                for s in scope.sources for n, _ in s.fields
            }
            if len(self.frames[-1]) > 1:
                names |= {n for x in self.frames[-1][:-1] for s in x.sources for n, _ in s.fields}
            names = sorted(n for n in names - self.reused if "_" in n)
            if names:
                name = self.pick(names)
                self.reused.add(name)
                return Id(name)
        return Id(self.fresh())

    def quoted_id(self):
        # a quoted name is taken for a string, never for a missing column
        return self.string()

    def const(self):
        return Const(self.pick(["true", "false", "yes", "no"]))

    # -- conditions
    def truth(self, depth):
        """A boolean expression, or one of unknown type"""
        r = self.rng.random()
        if r < 0.2:
            c = self.column(boolean=True)
            if c is not None:
                return Par([c]) if self.maybe(0.1) else c
        if r < 0.27:
            return self.const() if self.maybe(0.85) else Const("null")
        if r < 0.35:
            c = self.truth(depth - 1) if depth > 0 else self.const()
            return Not(c)
        if r < 0.42 and depth > 0:
            return Call(self.pick(["f", "is_ok", "coalesce"]), self.many(1, 3, self.expr, depth - 1), self.maybe(0.1))
        if r < 0.47 and depth > 0:
            return self.case(depth - 1)
        if r < 0.5 and depth > 0:
            return Cast(self.expr(depth - 1), TypeName("bool"))
        if r < 0.53 and depth > 0:
            return self.scalar_query(depth - 1)
        if r < 0.56 and depth > 0:
            return Call("exists", [self.subselect(depth - 1)])
        if r < 0.68 and depth > 0:
            par = Par([self.boolean(depth - 1, 2)])
            return Not(par) if self.maybe(0.2) else par
        return self.compare(depth)

    def compare(self, depth):
        left = self.arith(max(depth, 0))
        r = self.rng.random()
        if r < 0.2:
            return Between(self.maybe(0.3), left, self.arith(0), self.arith(max(depth - 1, 0)))
        if r < 0.65:
            return Bin(self.pick(COMPARE), left, self.arith(max(depth - 1, 0)))
        word = self.pick(WORDS)
        if word.startswith("is"):
            right = Const(self.pick(["null", "true", "false"]))
        elif word.endswith("in"):
            right = Par(self.many(1, 4, self.arith, 0))
        else:
            right = self.string()
        return Bin(word, left, right)

    def untruth(self):
        """An expression of a type that is no condition: (expression, types)"""
        typed = [
            (a, n, t) for a, n, t in self.candidates(False)
            if t in ("int", "float", "str") and (a, n, t) not in
            [(None, x, y) for x, y in self.frame[-1].aliases]
        ]
        r = self.rng.random()
        if typed and r < 0.45:
            a, n, t = self.pick(typed)
            self.used.add("typed column")
            e = Id(n) if a is None else Chain([Id(a), Id(n)])
            return (Par([e]) if self.maybe(0.2) else e), (t,)
        if r < 0.6:
            return Num(str(self.rng.randint(0, 9)), neg=self.maybe(0.2)), ("int",)
        if r < 0.7:
            return Num(self.pick(["1.5", "0.0", ".5", "1e5"])), ("float",)
        if r < 0.8:
            text = self.pick(["'yes'", "'true'", "''", "'a and b'", "'x'"])
            return Str(text), ("str",)
        if r < 0.9:
            left = self.column() or Num("1")
            op, right = self.pick("+-*/"), self.pick(["1", "2.5", "7"])
            e = Bin(op, left, Num(right))
            types = ("float",) if right == "2.5" else ("int",) if isinstance(left, Num) and op != "/" else ("int", "float")
            return (Par([e]) if self.maybe(0.3) else e), types
        if r < 0.95:
            return Par([Num("1")]), ("int",)
        return Sign("-", self.column() or Call("f", [])), ("int", "float")

    def boolean(self, depth, low=1, clause=None):
        n = low + int(self.rng.expovariate(0.9))
        ops = [self.pick(["and", "or"]) for _ in range(n - 1)]
        operands = []
        for i in range(n):
            where = ops[max(i - 1, 0) : i + 1] or ([clause] if clause else None)
            if where and self.fault("boolean"):
                e, types = self.untruth()
                self.expect.append(
                    ("boolean", sorted({w.upper() for w in where}), list(types))
                )
                operands.append(e)
            else:
                operands.append(self.truth(depth))
        return Bool(ops, operands) if ops else operands[0]

    def operand(self, depth):
        return self.truth(depth)

    def condition(self, depth, clause=None):
        return self.boolean(depth, clause=clause)

    # -- queries
    def projected(self, item, scope):
        """(any, fields) that a select item gives to the outside"""
        if isinstance(item, Alias):
            name = item.name
            name = name.name if isinstance(name, Id) else name.text[1:-1]
            return False, [(name, self.type_of(item.expr))]
        if isinstance(item, Id):
            return False, [(item.name, self.type_in(scope, None, item.name))]
        if isinstance(item, Chain) and isinstance(item.parts[-1], Id):
            alias = item.parts[0].name if len(item.parts) == 2 and isinstance(item.parts[0], Id) else False
            return False, [(item.parts[-1].name, self.type_in(scope, alias, item.parts[-1].name))]
        excluded, replaced = set(), set()
        while isinstance(item, Except):
            if item.word == "except":
                excluded |= {i.name for i in item.items}
            else:
                replaced |= {i.name.name for i in item.items}
            item = item.star
        if isinstance(item, Star):
            sources = scope.sources
        elif isinstance(item, Chain) and isinstance(item.parts[-1], Star):
            sources = [s for s in scope.sources if s.alias == item.parts[0].name]
        else:
            return False, []
        fields = {}
        for s in sources:
            for n, t in s.fields:
                if n not in excluded:
                    if n in fields:
                        fields[n] = "double"
                    else:
                        fields[n] = "?" if n in replaced else t
        for n in scope.merged:
            if n in fields:
                fields[n] = "?"
        return any(s.any for s in sources), sorted(fields.items())

    @staticmethod
    def type_in(scope, alias, name):
        """The type of a column that the query takes as it is from its sources"""
        if alias is False or alias is None and name in scope.merged:
            return "?"
        types = [t for s in scope.sources for n, t in s.fields if n == name and alias in (None, s.alias)]
        if not types:
            return "object"
        return types[0] if len(types) == 1 and types[0] != "double" else "?"

    def type_of(self, e):
        while isinstance(e, Par) and len(e.items) == 1:
            e = e.items[0]
        if isinstance(e, Num):
            return "int" if e.text.isdigit() else "float"
        if isinstance(e, Str):
            return "str" if e.text[0] in "'" else "?"
        if isinstance(e, Const):
            return "bool" if e.text.lower() != "null" else "?"
        if isinstance(e, (Not, Between, Bool)):
            return "bool"
        if isinstance(e, Bin):
            if e.op in COMPARE or e.op in WORDS:
                return "bool"
            return "?"
        if isinstance(e, (Id, Chain, Call, Case, Cast)):
            return "object"
        return "?"

    def typed_expr(self):
        return self.pick(
            [
                lambda: Num(str(self.rng.randint(0, 99))),
                lambda: Num("2.5"),
                lambda: Str("'text'"),
                lambda: self.const(),
                lambda: self.compare(0),
                lambda: Par([Num("3")]),
                lambda: Not(self.const()),
            ]
        )()

    def select_item(self, depth):
        scope = self.frame[-1]
        r = self.rng.random()
        sources = scope.sources
        if sources and r < 0.08:
            return Star()
        if sources and r < 0.14:
            named = [s for s in sources if s.alias and s.sure]
            if named:
                return Chain([Id(self.pick(named).alias), Star()])
        if sources and r < 0.2 and all(not s.any for s in sources):
            return self.star_except(sources)
        if r < 0.45:
            c = self.column()
            if c is not None:
                return c
        if r < 0.62:
            e = self.typed_expr()
        else:
            e = self.expr(depth)
        # without an alias the name of a field would be one of the column
        if self.maybe(0.75) or isinstance(e, Field):
            as_ = self.maybe(0.6)
            name = self.alias_name()
            if self.maybe(0.08) and (as_ or not ends_with_string(e)):
                name = Str("`%s`" % name.name)
            e = Alias(e, as_, name)
            name = name.name if isinstance(name, Id) else name.text[1:-1]
            scope.made.add(name)
            scope.hides.append(name)
        return e

    def star_except(self, sources):
        counts = {}
        for s in sources:
            for n, t in s.fields:
                counts[n] = counts.get(n, 0) + 1 + (t == "double")
        names = sorted(n for n, c in counts.items() if c == 1)
        if not names:
            return Star()
        self.rng.shuffle(names)
        star = Star()
        cut = self.rng.randint(0, len(names) - 1)
        if names[:cut]:
            star = Except(star, "except", [Id(n) for n in names[: min(cut, 3)]])
        left = names[min(cut, 3) :]
        if left and self.maybe(0.4):
            star = Except(star, "replace", [Alias(Num("1"), True, Id(left[0]))])
        return star

    def subselect(self, depth):
        """A query inside an expression: it sees the columns around it"""
        if self.maybe(0.1):
            return self.combined(depth, True)
        return self.select(depth, nested=True)

    def query_source(self, depth):
        """A query inside FROM: it does not"""
        self.frames.append([])
        try:
            if self.maybe(0.1):
                return self.combined(depth, True)
            return self.select(depth)
        finally:
            self.frames.pop()

    def select(self, depth, nested=False, part=False):
        self.spend(2)
        s = Select()
        scope = Scope()
        self.frame.append(scope)
        outer_aliases = [sc.use_aliases for sc in self.frame]
        for sc in self.frame:
            sc.use_aliases = False
        try:
            if not self.maybe(0.08):
                s.source = self.source(depth)
            s.items = self.many(1, 5, self.select_item, depth)
            if self.maybe(0.15):
                s.quantifier = self.pick(["all", "distinct"])
                if s.quantifier == "distinct" and self.maybe(0.4):
                    s.distinct_on = self.many(1, 2, self.expr, 0)
            if self.maybe(0.55):
                s.where = self.condition(depth, clause="where")
            aliases = [
                (i.name.name if isinstance(i.name, Id) else i.name.text[1:-1], self.type_of(i.expr))
                for i in s.items if isinstance(i, Alias)
            ]
            starred = any(isinstance(p, Star) for i in s.items for p in heads(i))
            hides, scope.hides = scope.hides, []
            if self.maybe(0.35):
                s.group = self.many(1, 4, self.group_item, depth, len(s.items), starred, aliases)
                s.each = self.maybe(0.1)
                if self.maybe(0.12):
                    s.rollup, s.group = True, [Par(s.group)]
            if self.maybe(0.2):
                scope.hides = hides
                s.having = self.condition(depth, clause="having")
                scope.hides = []
            if not part and self.maybe(0.4):
                scope.aliases = aliases
                scope.use_aliases = True
                s.order = self.many(1, 4, self.order_position, depth, len(s.items), starred)
                scope.use_aliases = False
                scope.aliases = []
            if not part and self.maybe(0.3):
                s.limit = self.bound("LIMIT")
            if not part and self.maybe(0.2):
                s.offset = self.bound("OFFSET")
        finally:
            self.frame.pop()
            for sc, used in zip(self.frame, outer_aliases):
                sc.use_aliases = used
        self.shape = (len(s.items), starred, any(x.any for x in scope.sources))
        # what the query offers to a query around it
        self.offer = (False, [])
        for item in s.items:
            any_, fields = self.projected(item, scope)
            self.offer = (self.offer[0] or any_, self.offer[1] + fields)
        names = [n for n, _ in self.offer[1]]
        fields = [(n, "double" if names.count(n) > 1 else t) for n, t in self.offer[1]]
        self.offer = (self.offer[0], sorted(set(fields)))
        return s

    def combined(self, depth, bracketed=False):
        """Queries combined by set operators; the first one gives the names"""
        self.used.add("combined")
        query, first, shape = None, None, None
        for i in range(2 + int(self.rng.expovariate(1.2))):
            if (i or bracketed) and self.maybe(0.25):
                part = Sub(self.subselect(depth - 1))
            else:
                part = self.select(depth, part=True)
            if i == 0:
                query, first, shape = part, self.offer, self.shape
                continue
            word = self.pick(SETOPS)
            if query.tokens()[-1][1] == "*" and word.startswith("except"):
                word = "union"
            query = Combined(word, query, part)
        scope = Scope()
        scope.sources = [Source(None, first[0], first[1], open_=first[0])]
        names = [n for n, t in first[1] if t != "double"]
        self.shape = shape
        if self.maybe(0.4):
            query.order = self.many(1, 3, self.combined_order, names, scope, *shape[:2])
        if self.maybe(0.3):
            query.limit = self.bound("LIMIT")
        if self.maybe(0.2):
            query.offset = self.bound("OFFSET")
        self.offer, self.shape = first, shape
        return query

    def combined_order(self, names, scope, n, starred):
        if not names or self.maybe(0.5):
            e = self.position("ORDER BY", n, starred)
        elif not self.shape_any and self.fault("column"):
            name = self.fresh("absent")
            self.expect.append(("column", name))
            self.used.add("wrong name after set operator")
            e = Id(name)
        else:
            e = Id(self.pick(names))
        return OrderItem(e, self.pick([None, "asc", "desc"]), None)

    @property
    def shape_any(self):
        return self.shape[2] or self.any()

    def position(self, clause, n, starred):
        if self.fault("position"):
            bad = [0, -1, -n] if starred else [0, n + 1, n + 2, -1, 10 * n + 7, 10**6]
            p = self.pick(bad)
            self.expect.append(("position", clause, p))
        else:
            p = self.pick([1, n, self.rng.randint(1, n)])
            if starred and self.maybe(0.3):
                p += 5
        e = Num(str(abs(p)), neg=p < 0)
        while self.maybe(0.15):
            e = Par([e])
        return e

    def group_item(self, depth, n, starred, aliases):
        r = self.rng.random()
        if r < 0.4:
            return self.position("GROUP BY", n, starred)
        if r < 0.5:
            return Par([self.group_item(depth, n, starred, aliases) for _ in range(self.rng.randint(1, 3))])
        if aliases and r < 0.65:
            return Id(self.pick(aliases)[0])
        c = self.column()
        if c is None:
            return self.position("GROUP BY", n, starred)
        if r < 0.85:
            return c
        return Call("date_of", [c, self.number()])

    def order_position(self, depth, n, starred):
        r = self.rng.random()
        if r < 0.4:
            e = self.position("ORDER BY", n, starred)
        elif r < 0.75:
            e = self.column() or self.position("ORDER BY", n, starred)
        else:
            e = self.expr(depth)
            if isinstance(e, Num):
                e = Call("f", [e])
            inner = e
            while isinstance(inner, Par) and len(inner.items) >= 1:
                inner = inner.items[0]
            if isinstance(inner, Num):
                e = Call("f", [e])
        return OrderItem(
            e,
            self.pick([None, None, "asc", "desc"]),
            self.pick(["first", "last"]) if self.maybe(0.1) else None,
        )

    def bound(self, clause):
        if self.fault("limit"):
            self.expect.append(("limit", clause))
            e = self.pick(
                [
                    lambda: Num(str(self.rng.randint(1, 50)), neg=True),
                    lambda: Num(self.pick(["1.5", "10.0", ".5", "1e2"])),
                    lambda: Id(self.pick(self.names)),
                    lambda: Bin(self.pick("+-*/"), Num("1"), Num("1")),
                    lambda: Str("'10'"),
                    lambda: Call("f", [Num("1")]),
                    lambda: Const(self.pick(["true", "null", "false"])),
                    lambda: Cast(Num("1"), TypeName("int64")),
                    lambda: Chain([Id("t"), Id("c")]),
                    lambda: Sign("-", Call("f", [Num("1")])),
                    lambda: Not(Num("1")),
                    lambda: Par([Select(items=[Num("1")])]),
                ]
            )()
        elif clause == "LIMIT" and self.maybe(0.15):
            return "all"
        else:
            e = Num(self.pick(["0", "1", "10", "007", "1000000000000", str(self.rng.randint(0, 999))]))
        while self.maybe(0.2):
            e = Par([e])
        return e

    # window clauses know no select aliases and no positions
    def order(self, depth):
        scope = self.frame[-1]
        used, scope.use_aliases = scope.use_aliases, False
        try:
            return self.many(1, 3, self.order_item, depth)
        finally:
            scope.use_aliases = used

    # -- FROM
    def source(self, depth):
        scope = self.frame[-1]
        plan = self.pick(["table", "sub", "sub", "sub", "join", "join", "set", "unnest", "brackets"])
        if depth <= 0 and plan in ("sub", "join", "set", "brackets"):
            plan = self.pick(["table", "join", "table"]) if plan == "join" else "table"
        if plan == "join":
            return self.joined(depth, scope)
        if plan == "set":
            return Sub(self.set_operation(depth, scope))
        if plan == "brackets":
            inner = self.joined(depth - 1, scope) if self.maybe(0.6) else self.item(depth - 1, scope, False)
            return Sub(inner)
        if plan == "unnest":
            return self.unnest(scope)
        return self.item(depth, scope, plan == "sub")

    def unnest(self, scope):
        self.unchecked += 1
        u = Unnest(args=[self.pick([Id("arr"), Call("f", [Id("arr")]), Chain([Id("t"), Id("arr")])])])
        self.unchecked -= 1
        if self.maybe(0.5):
            u.alias, u.as_ = self.alias_name(), self.maybe(0.5)
        if self.maybe(0.3):
            u.offset = True
            if self.maybe(0.6):
                u.offset_alias, u.offset_as = self.alias_name(), True
        scope.sources.append(Source(u.alias.name if u.alias else None, True, sure=False, open_=True))
        return u

    def table(self, scope, aliased=None):
        t = Table(Id(self.pick(TABLES)))
        r = self.rng.random()
        plain = True
        if r < 0.2:
            t = Table(Chain([Id("proj"), Id(self.pick(TABLES))]))
        elif r < 0.3:
            t, plain = Table(Str("`p.d.tbl`")), False
        elif r < 0.35:
            t, plain = Table(Chain([Id("proj:data"), Id("tbl")]), True), False
        if aliased is None:
            aliased = self.maybe(0.5)
        if aliased:
            alias = self.fresh(self.pick(ALIASES))
            scope.sources.append(Source(alias, True, open_=False))
            return Aliased(t, self.maybe(0.5), Id(alias))
        scope.sources.append(Source(None, True, open_=plain))
        return t

    def item(self, depth, scope, sub=None, aliased=None):
        if sub is None:
            sub = self.maybe(0.65)
        if not sub or depth <= 0:
            return self.table(scope, aliased)
        sources, scope.sources = scope.sources, []
        if self.maybe(0.08):
            query = self.with_source(depth - 1)
        else:
            query = self.query_source(depth - 1)
        any_, fields = self.offer
        scope.sources = sources
        sub_ = Sub(query)
        if self.maybe(0.08):
            sub_ = Sub(sub_)
        if aliased is None:
            aliased = self.maybe(0.7)
        if not aliased:
            scope.sources.append(Source(None, any_, fields, open_=any_))
            return sub_
        alias = self.fresh(self.pick(ALIASES))
        scope.sources.append(Source(alias, any_, fields, sure=True))
        name = Id(alias) if self.maybe(0.93) else Str("`%s`" % alias)
        return Aliased(sub_, self.maybe(0.5), name)

    def with_source(self, depth):
        queries = []
        for _ in range(self.rng.randint(1, 2)):
            if depth > 0 and self.maybe(0.15):
                query = self.with_source(depth - 1)
            else:
                query = self.query_source(depth - 1)
            queries.append((self.fresh("cte"), query))
        return With(queries, self.query_source(depth))

    def joined(self, depth, scope):
        many = 1 + int(self.rng.expovariate(1))
        explicit = self.maybe(0.5)
        left = self.item(depth - 1, scope, sub=explicit or None, aliased=True if explicit else None)
        missing = False
        for _ in range(many):
            before = len(scope.sources)
            word = self.pick([","] + ["cross join"] + JOINS * 1)
            if not explicit and self.maybe(0.1):
                right = self.unnest(scope)
                self.used.add("joined unnest")
            else:
                right = self.item(depth - 1, scope, sub=explicit or None, aliased=True if explicit else None)
            shared = self.shared(left, right, scope, before)
            join = Join(word, left, right)
            if word not in (",", "cross join"):
                if self.fault("join"):
                    self.expect.append(("join",))
                    missing = True
                elif self.maybe(0.6):
                    # columns of join conditions are not looked up
                    self.unchecked += 1
                    join.on = self.on_condition(depth, scope)
                    self.unchecked -= 1
                else:
                    names = shared if shared and self.maybe(0.8) else [self.fresh()]
                    self.rng.shuffle(names)
                    scope.made.update(names)
                    if names is not shared:
                        # provided by the join as far as a star around it can tell
                        self.invented.update(names)
                    if shared and names is shared:
                        scope.merged += shared
                    join.using = Par([Id(n) for n in names])
            left = join
            if missing and word in (",", "cross join"):
                break
        return left

    def shared(self, left, right, scope, before):
        """Renames columns of the new source to those of earlier ones; gives such names."""
        names = []
        if len(scope.sources) > before and self.maybe(0.4):
            for _ in range(self.pick([1, 1, 2, 3])):
                name = self.share(right, scope, before, names)
                if name:
                    names.append(name)
        if len(names) > 1:
            self.used.add("shared names")
        return names

    def share(self, right, scope, before, renamed):
        new = scope.sources[-1]
        old = [
            (n, t) for s in scope.sources[:before] for n, t in s.fields if s.alias and t != "?"
        ]
        taken = [n for s in scope.sources for n, _ in s.fields]
        query = right
        while isinstance(query, (Aliased, Sub)):
            query = query.source if isinstance(query, Aliased) else query.inner
        if not isinstance(query, Select) or not new.alias or not old:
            return None
        name, _ = self.pick(old)
        if taken.count(name) > 1 or name in [n for n, _ in new.fields]:
            return None
        items = [
            i for i in query.items if isinstance(i, Alias) and isinstance(i.name, Id)
            and [n for n, _ in new.fields].count(i.name.name) == 1 and i.name.name not in renamed
        ]
        if not items or query.group or query.order:
            return None
        item = self.pick(items)
        was = item.name.name
        if sum(1 for e in self.expect if was in e) or any(
            isinstance(i, (Id,)) and i.name == was for i in query.items
        ):
            return None
        item.name = Id(name)
        new.fields = [(name if n == was else n, t) for n, t in new.fields]
        self.used.add("shared name")
        return name

    def on_condition(self, depth, scope):
        names = [Chain([Id(s.alias), Id(n)]) for s in scope.sources if s.alias for n, _ in s.fields]
        names += [Id(n) for n in self.rng.sample(self.names, 2)]
        conditions = [
            Bin(self.pick(COMPARE), self.pick(names), self.pick(names + [Num("1")]))
            for _ in range(self.rng.randint(1, 3))
        ]
        if len(conditions) == 1:
            return Par(conditions) if self.maybe(0.2) else conditions[0]
        return Bool([self.pick(["and", "or"]) for _ in conditions[1:]], conditions)

    def set_operation(self, depth, scope):
        left = self.item(depth - 1, scope)
        any_fields = list(scope.sources)
        for _ in range(1 + int(self.rng.expovariate(1.5))):
            if self.maybe(0.5):
                self.frames.append([])
                inner = Scope()
                self.frame.append(inner)
                source = self.item(depth - 1, inner)
                items = self.many(1, 3, self.plain_item)
                self.frames.pop()
                right = Select(items=items, source=source)
            else:
                other = Scope()
                right = self.item(min(depth - 1, 1), other)
            left = SetOp(self.pick(SETOPS), left, right)
        scope.sources = any_fields
        return left

    def plain_item(self):
        c = None if self.maybe(0.2) else self.column()
        if c is None:
            return Alias(self.number(), True, self.alias_name())
        return c

    def query(self):
        self.frames = [[]]
        if self.maybe(0.12):
            self.frames.append([])
            root = self.with_source(self.depth)
            self.frames.pop()
            last = root.select
        elif self.maybe(0.1):
            root = last = self.combined(self.depth, self.maybe(0.2))
        else:
            root = last = self.select(self.depth)
        if self.maybe(0.25):
            last.semicolon = True
        return root


def heads(item):
    while isinstance(item, Except):
        item = item.star
    return item.parts if isinstance(item, Chain) else [item]


class Scenario:
    def __init__(self, node, expect, used):
        self.node, self.expect, self.used = node, expect, used


ALL = {"column": 0.06, "position": 0.15, "limit": 0.25, "boolean": 0.08, "join": 0.2}


def scenario(rng, faults=None, size=None, depth=None):
    if faults is None:
        faults = ALL if rng.random() < 0.6 else {}
    g = VGen(
        rng,
        size=size or rng.choice((6, 10, 16, 25)),
        depth=depth or rng.choice((1, 2, 2, 3)),
        faults=faults,
    )
    node = g.query()
    return Scenario(node, g.expect, g.used)
