"""Random generator of supported SELECT queries (see q.py for the model)."""
import random

from .q import (
    Alias, Aliased, Arr, ArrayAgg, Between, Bin, Bool, Call, Case, Cast, Chain, Combined, Const,
    Count, DatePart, Except, Field, Filter, Id, Index, Join, Not, Num, OrderItem, Over,
    Par, Param, Select, SetOp, Sign, Star, Str, Sub, Table, TypeName, Unnest, With,
)

# Words the parser gives a meaning to: never used as bare identifiers
RESERVED = set(
    """select from where group having order limit offset by each all distinct on using
    join inner left right full cross outer union intersect except replace with as and or
    not in is like contains between case when then else end null true false yes no over
    partition rows range filter ignore respect nulls asc desc rollup unnest cast
    array_agg count r timestamp_trunc lateral natural window
    _table_suffix _partitiondate nfc nfkc nfd nfkd monday tuesday wednesday thursday
    friday saturday sunday""".split()
)
KEYWORD_IDS = (
    "_table_suffix _partitiondate nfc nfkc nfd nfkd monday tuesday wednesday thursday friday saturday sunday".split()
)
TYPES = "int float day month timestamp int64 string date".split()
CAST_TYPES = TYPES + (
    "numeric bool bytes varchar integer bigint float64 time datetime decimal boolean text json geography interval real uuid bignumeric"
).split()
PARTS = (
    "microsecond second minute hour day week month quarter year day_hour year_month "
    "dayofweek dayofyear date second_microsecond minute_microsecond minute_second hour_microsecond "
    "hour_second hour_minute day_microsecond day_second day_minute dayofmonth"
).split()
NAMES = (
    "a b c d e x y z id uid name col field value total amount price qty created_at "
    "user_id city status kind ref payload tmp_1 x1 a_b Foo UserId CamelCase UPPER _priv "
    "orders fromage android wherever grouping order_id selected limits offsets joiner "
    "ending cases case_id when_ts then_v elsewhere nullable is_active not_null inner_id "
    "lefty rightmost crossed union_id having_x byte asset ascii_v descr allx onx using_x "
    "oracle andy notes inbox likes between_x truest falsey over9000 partition_id rows_n "
    "ranges filters ignored castle array_x counter rx e1 x2e rollups overlaps eachx "
    # words that have a meaning elsewhere
    "week year quarter hour minute second isoweek dayofweek dayofyear time datetime type key "
    "first last rank row_number level index position text number data start stop sum max "
    "interval_s mon tue sundays partitiontime _partitiontime "
    "h\u00e9llo \u540d\u524d \u00fcber p$v very_long_identifier_name_for_wrapping_tests"
).split()
TABLES = (
    "t u v tbl users orders_2020 fact_sales dim_customer selects from_x dual "
    "public_events"
).split()
FUNCS = (
    "f g h lower upper coalesce concat sum max min avg date trim nullif left right "
    "if round to_char my_udf Date_Trunc SAFE_DIVIDE regexp_extract json_value format "
    "first_value lag rank array exists_any"
).split()
PARAMS = ["%s", "?", ":name", "@p1", "%(key)s", "{col}", "$1", ":from_date"]
SYMBOLS = "+ - * /".split()
BITS = "& | ^ || << >> #".split()
COMPARE = "= > < <= >= != <>".split()
WORDS = ["is", "is not", "like", "not like", "in", "not in", "contains"]
JOINS = [
    "join", "inner join", "left join", "left outer join", "right join",
    "right outer join", "full join", "full outer join", "inner join each",
    "left outer join each",
]
SETOPS = [
    "union", "union all", "union distinct", "intersect", "except", "except all", "intersect all",
    "except distinct",
]
FRAMES = [
    "rows between unbounded preceding and current row",
    "rows unbounded preceding",
    "range between 3 preceding and 1 following",
    "rows between 10 preceding and unbounded following",
    "range current row",
]
STRING_BITS = [
    "", " ", "  ", "x", "abc", "it", "from", " where ", "select", "SELECT a, b", "and",
    " AND ", "or", "case", "end", "when", "then", "(", ")", "((", "[", "]", ",", ", ", ";",
    ".", "-", "--", "/*", "*/", "*", "=", "<", ">", "<>", "||", "!=", "%", "%s", "%d",
    "100%", "\t", "a\tb", "{x}", "?", ":p", "é", "日本", "😀", "null", "TRUE", "limit 1",
    "group by", "order", "union", "join", "on", "using", "as", "distinct", "r", "1", "1.50",
    "007", "\\\\", "\\n", "\\t", "a.b", "a . b", "2020-01-01 00:00:00", "x  y", " x", "x ",
    "with", "over", "timestamp", "day", "#", "@", "$", "~", "^", "&",
]


class Gen:
    """
    rng      source of all choices
    size     rough number of expression nodes a query may hold
    depth    how deep constructs may nest
    off      features switched off, see maybe()
    """

    def __init__(self, rng=None, size=30, depth=4, off=(), names=None, newlines=True):
        self.rng = rng or random.Random(0)
        self.size = size
        self.depth = depth
        self.off = set(off)
        self.newlines = newlines
        # date part names are columns in some queries, types in others
        self.typed = self.rng.random() < 0.5
        self.names = list(names or NAMES)
        if not self.typed:
            self.names += TYPES
        self.used = set()
        self.funcs = FUNCS

    # -- helpers
    def maybe(self, p, feature=None):
        if feature in self.off:
            return False
        if self.rng.random() < p:
            if feature:
                self.used.add(feature)
            return True
        return False

    def pick(self, options):
        return self.rng.choice(options)

    def many(self, low, high, make, *args):
        # mostly short lists, sometimes long ones
        n = min(self.rng.randint(low, high), low + int(self.rng.expovariate(0.8)))
        if high > 2 and self.maybe(0.025):
            n = self.rng.randint(high, 12)
        return [make(*args) for _ in range(n)]

    def spend(self, n=1):
        self.size -= n
        return self.size > 0

    # -- leaves
    def id(self):
        if self.maybe(0.02, "kwid"):
            # printed in upper case by the formatter
            return TypeName(self.pick(KEYWORD_IDS))
        return Id(self.pick(self.names))

    def field_name(self):
        return self.id()

    def index_base(self):
        return self.id() if self.maybe(0.5) else self.chain()

    def alias_name(self, as_=True):
        if not as_ and self.maybe(0.03, "kwid"):
            # no column is meant: printed as it is
            return Id(self.pick(KEYWORD_IDS))
        return Id(self.pick(self.names))

    def string_body(self, quote):
        bits = [self.pick(STRING_BITS) for _ in range(self.rng.randint(0, 4))]
        others = [q for q in "'\"`" if q != quote]
        if self.maybe(0.25, "other_quotes"):
            bits.insert(self.rng.randint(0, len(bits)), self.pick(others))
        if self.maybe(0.12, "doubled_quote"):
            bits.insert(self.rng.randint(0, len(bits)), quote * 2)
        if self.maybe(0.12, "escaped_quote"):
            bits.insert(self.rng.randint(0, len(bits)), "\\" + quote)
        if self.newlines and self.maybe(0.05, "string_newline"):
            bits.insert(self.rng.randint(0, len(bits)), "\n" + self.pick(["", " ", "  "]))
        return "".join(bits)

    def string(self):
        self.used.add("string")
        quote = self.pick(["'", "'", "'", '"', '"'])
        prefix = self.pick("rR") if self.maybe(0.08, "string_prefix") else ""
        return Str(prefix + quote + self.string_body(quote) + quote)

    def quoted_id(self):
        quote = self.pick(['"', "`", "`"])
        text = self.pick(
            ["Some Col", "from", "a b", "proj.data.t", "weird(", "x,y", "select 1", "Ünï", "a"]
        )
        return Str(quote + text + quote)

    def number(self, signed=True):
        rng = self.rng
        kind = rng.random()
        if kind < 0.5:
            text = str(rng.choice([0, 1, 2, 3, 7, 10, 42, 100, 2020, 99999, 10**12]))
        elif kind < 0.6:
            text = "0" * rng.randint(1, 3) + str(rng.randint(0, 9))
            if rng.random() < 0.3:
                text += "".join(rng.choice("0123456789") for _ in range(rng.choice((3, 8, 18, 25, 40))))
        elif kind < 0.85:
            text = "%d.%s" % (rng.randint(0, 100), rng.choice(["0", "5", "50", "00001", "125"]))
        elif kind < 0.92:
            text = rng.choice([".5", ".05", "1.", "10."])
        else:
            text = rng.choice(["1e5", "1e-5", "2.5E+3", "1E10", ".5e-2"])
        plain = text.replace(".", "").isdigit()
        return Num(text, neg=plain and signed and rng.random() < 0.12)

    def const(self):
        return Const(self.pick(["true", "false", "null", "null", "yes", "no"]))

    def chain(self):
        parts = [self.id() for _ in range(self.pick([2, 2, 2, 3]))]
        if self.maybe(0.1, "quoted_chain"):
            parts[self.rng.randrange(len(parts))] = self.quoted_id()
        return Chain(parts)

    def leaf(self):
        r = self.rng.random()
        if r < 0.45:
            return self.id()
        if r < 0.6:
            return self.chain()
        if r < 0.75:
            return self.number()
        if r < 0.88:
            return self.string()
        if r < 0.91:
            return self.quoted_id()
        if r < 0.96:
            return self.const()
        return Param(self.pick(PARAMS))

    # -- expressions
    def postfix(self, e):
        if self.maybe(0.5, "postfix_index"):
            e = Index(e, self.many(1, 2, self.index_item))
        if self.maybe(0.5, "postfix_field"):
            e = Field(e, [self.field_name() for _ in range(self.rng.randint(1, 2))])
        return e

    def index_item(self):
        if self.maybe(0.4):
            return Call(self.pick(["offset", "ordinal", "safe_offset"]), [Num(str(self.rng.randint(0, 9)))])
        return self.expr(1)

    def primary(self, depth):
        if depth <= 0 or not self.spend():
            return self.leaf()
        r = self.rng.random()
        if r < 0.38:
            return self.leaf()
        if r < 0.46:
            par = Par([self.expr(depth - 1)])
            return self.postfix(par) if self.maybe(0.08, "par_postfix") else par
        if r < 0.49:
            self.used.add("tuple")
            return Par([self.expr(depth - 1) for _ in range(self.rng.randint(2, 3))])
        if r < 0.52:
            self.used.add("array")
            arr = Arr(self.many(0, 4, self.expr, depth - 1))
            return self.postfix(arr) if self.maybe(0.2) else arr
        if r < 0.58:
            return self.case(depth - 1)
        if r < 0.63:
            return self.scalar_query(depth - 1)
        if r < 0.66:
            self.used.add("index")
            e = Index(self.index_base(), self.many(1, 2, self.index_item))
            if self.maybe(0.3, "postfix_field"):
                e = Field(e, [self.field_name()])
            return e
        call = self.call(depth - 1)
        if self.maybe(0.08, "call_postfix"):
            call = self.postfix(call)
        return call

    def call(self, depth):
        r = self.rng.random()
        if r < 0.12:
            self.used.add("cast")
            return Cast(self.expr(depth), TypeName(self.pick(CAST_TYPES)))
        if r < 0.22:
            self.used.add("array_agg")
            call = ArrayAgg(
                distinct=self.maybe(0.3),
                expr=self.expr(depth),
                nulls=self.pick([None, None, "ignore", "respect"]),
                order=self.order(depth) if self.maybe(0.4) else None,
                limit=self.pick([str(self.rng.randint(1, 50)), "0", "010", "0", "1"]) if self.maybe(0.3) else None,
            )
        elif r < 0.36:
            self.used.add("count")
            if self.maybe(0.4):
                call = Count(False, [Star()])
            else:
                call = Count(self.maybe(0.5), self.many(1, 3, self.expr, depth))
        elif r < 0.42:
            self.used.add("extract")
            return Call("extract", [DatePart(self.pick(PARTS), self.arith(depth))])
        elif r < 0.5 and self.typed:
            self.used.add("timestamp_trunc")
            call = Call("timestamp_trunc", [self.expr(depth), TypeName(self.pick(["day", "month"] + TYPES))])
        elif r < 0.55:
            self.used.add("exists")
            return Call(self.pick(["exists", "array"]), [self.subselect(depth)])
        else:
            call = Call(self.pick(self.funcs), self.many(0, 5, self.expr, depth))
            if call.args and self.maybe(0.06, "distinct argument"):
                call.distinct = True
            if self.maybe(0.05, "namespaced_call"):
                return Chain([self.field_name(), call])
        if self.maybe(0.1, "filter"):
            call = Filter(call, self.boolean(depth - 1))
        if self.maybe(0.14, "over"):
            call = Over(
                call,
                partition=self.many(1, 3, self.expr, depth - 1) if self.maybe(0.6) else None,
                order=self.order(depth - 1) if self.maybe(0.6) else None,
                frame=self.pick(FRAMES).split() if self.maybe(0.4) else None,
            )
        return call

    def case(self, depth):
        self.used.add("case")
        return Case(
            value=self.primary(depth - 1) if self.maybe(0.3) else None,
            whens=[
                (self.expr(depth - 1), self.expr(depth - 1))
                for _ in range(1 + int(self.rng.expovariate(1)))
            ],
            other=self.expr(depth - 1) if self.maybe(0.5) else None,
        )

    def scalar_query(self, depth):
        self.used.add("scalar_query")
        return Par([self.subselect(depth)])

    def arith(self, depth):
        e = self.primary(depth)
        if depth > 0 and self.maybe(0.06, "sign") and not isinstance(e, (Num, Const)):
            e = Sign(self.pick("--+"), e)
        while depth > 0 and self.maybe(0.18, "arithmetic") and self.spend():
            sym = self.pick(SYMBOLS) if self.maybe(0.93) else self.pick(["%", "%%"])
            # the operators group to the right
            e = Bin(sym, e, self.arith(depth - 1))
        return e

    def comparison(self, depth):
        left = self.arith(depth)
        if self.maybe(0.08, "not"):
            left = Not(left)
        n = 0
        while n < 2 and depth > 0 and self.maybe(0.4 if n == 0 else 0.1, "comparison") and self.spend():
            n += 1
            r = self.rng.random()
            if r < 0.1:
                left = Between(self.maybe(0.3), left, self.arith(depth - 1), self.arith(depth - 1))
            elif r < 0.25:
                self.used.add("bitwise")
                left = Bin(self.pick(BITS), left, self.arith(depth - 1))
            elif r < 0.6:
                left = Bin(self.pick(COMPARE), left, self.arith(depth - 1))
            else:
                word = self.pick(WORDS)
                if word.startswith("is"):
                    right = Const(self.pick(["null", "true", "false"]))
                elif word.endswith("in"):
                    if self.maybe(0.25):
                        right = self.scalar_query(depth - 1)
                    elif self.maybe(0.2):
                        right = Call("unnest", [self.arith(depth - 1)])
                    else:
                        right = Par(self.many(1, 6, self.arith, depth - 1))
                else:
                    right = self.arith(depth - 1)
                left = Bin(word, left, right)
        return left

    def boolean(self, depth, low=1):
        n = low + int(self.rng.expovariate(0.7))
        if self.maybe(0.05):
            n += self.rng.randint(2, 6)
        operands = [self.operand(depth)]
        while len(operands) < n and self.spend():
            operands.append(self.operand(depth))
        if len(operands) == 1:
            return operands[0]
        self.used.add("and_or")
        if self.maybe(0.6):
            ops = [self.pick(["and", "or"])] * (len(operands) - 1)
        else:
            ops = [self.pick(["and", "or"]) for _ in operands[1:]]
        return Bool(ops, operands)

    def operand(self, depth):
        if depth > 0 and self.maybe(0.15, "nested_condition"):
            par = Par([self.boolean(depth - 1, 2)])
            return Not(par) if self.maybe(0.2, "not") else par
        if depth > 0 and self.maybe(0.05, "exists"):
            e = Call("exists", [self.subselect(depth - 1)])
            return Not(e) if self.maybe(0.4) else e
        e = self.comparison(depth)
        return e

    def expr(self, depth):
        if depth > 0 and self.maybe(0.12):
            return self.boolean(depth - 1, 2)
        return self.comparison(depth)

    # -- clauses
    def select_item(self, depth):
        r = self.rng.random()
        if r < 0.06:
            return Star()
        if r < 0.09:
            return Chain([self.id(), Star()])
        if r < 0.13 and "star_except" not in self.off:
            self.used.add("star_except")
            star = Star() if self.maybe(0.6) else Chain([self.id(), Star()])
            e = star
            if self.maybe(0.7):
                e = Except(e, "except", self.many(1, 3, self.id))
            if e is star or self.maybe(0.3):
                e = Except(
                    e,
                    "replace",
                    self.many(1, 3, lambda: Alias(self.arith(depth - 1), True, self.alias_name())),
                )
            return e
        e = self.expr(depth)
        if self.maybe(0.4, "alias"):
            as_ = self.maybe(0.6)
            name = self.alias_name(as_)
            # a string followed by a quoted alias needs AS
            if self.maybe(0.15, "quoted_alias") and (as_ or not ends_with_string(e)):
                name = self.quoted_id()
            e = Alias(e, as_, name)
        return e

    def order(self, depth):
        return self.many(1, 4, self.order_item, depth)

    def order_item(self, depth):
        if self.maybe(0.25):
            e = Num(str(self.rng.randint(1, 5)))
        else:
            e = self.expr(depth)
        return OrderItem(
            e,
            self.pick([None, None, "asc", "desc"]),
            self.pick(["first", "last"]) if self.maybe(0.1, "nulls_order") else None,
        )

    def group_item(self, depth):
        if self.maybe(0.2):
            return Num(str(self.rng.randint(1, 5)))
        return self.expr(depth)

    def condition(self, depth):
        return self.boolean(depth)

    def subselect(self, depth):
        if self.maybe(0.07, "combined") and self.spend():
            return self.combined(depth, bracketed=True)
        if self.maybe(0.02, "expression_with"):
            return self.with_(depth)
        return self.select(depth, nested=True)

    def combined(self, depth, bracketed=False):
        query = self.combined_part(depth, first=not bracketed)
        for _ in range(1 + int(self.rng.expovariate(1.2))):
            word = self.pick(SETOPS)
            if query.tokens()[-1][1] == "*" and word.startswith("except"):
                word = "union"  # * EXCEPT leaves columns out
            right = self.table_name() if self.maybe(0.06) else self.combined_part(depth)
            query = Combined(word, query, right)
        self.result_clauses(query, depth)
        return query

    def combined_part(self, depth, first=False):
        if self.maybe(0.2) and not first:
            return Sub(self.subselect(depth - 1))
        s = self.select(depth - 1)
        s.order, s.limit, s.offset = [], None, None
        return s

    def select(self, depth, nested=False):
        self.spend(2)
        s = Select()
        s.items = self.many(1, 6, self.select_item, depth)
        if self.maybe(0.15, "quantifier"):
            s.quantifier = self.pick(["all", "distinct", "distinct"])
            if s.quantifier == "distinct" and self.maybe(0.3, "distinct_on"):
                s.distinct_on = self.many(1, 3, self.expr, depth - 1)
        if not self.maybe(0.12, "no_from"):
            s.source = self.source(depth)
        if self.maybe(0.5, "where"):
            s.where = self.condition(depth)
        if self.maybe(0.25, "group_by"):
            s.group = self.many(1, 4, self.group_item, depth)
            s.each = self.maybe(0.1, "group_each_by")
            if self.maybe(0.12, "rollup"):
                s.rollup = True
                s.group = [Par(s.group)]
        if self.maybe(0.15, "having"):
            s.having = self.condition(depth)
        self.result_clauses(s, depth)
        return s

    def result_clauses(self, s, depth):
        if self.maybe(0.3, "order_by"):
            s.order = self.order(depth)
        if self.maybe(0.2, "limit"):
            r = self.rng.random()
            if r < 0.15:
                s.limit = "all"
            elif r < 0.75:
                s.limit = Num(str(self.rng.randint(0, 1000)))
            else:
                s.limit = self.arith(1)
        if self.maybe(0.12, "offset"):
            s.offset = Num(str(self.rng.randint(0, 1000))) if self.maybe(0.7) else self.arith(1)

    # -- FROM
    def table_name(self):
        r = self.rng.random()
        if r < 0.6:
            return Table(Id(self.pick(TABLES)))
        if r < 0.75:
            return Table(Chain([Id(self.pick(TABLES)) for _ in range(self.rng.randint(2, 3))]))
        if r < 0.85:
            self.used.add("quoted_table")
            return Table(self.quoted_id())
        if r < 0.9:
            self.used.add("quoted_table")
            return Table(Chain([self.quoted_id(), Id(self.pick(TABLES))]))
        if r < 0.95:
            self.used.add("bracketed_table")
            return Table(Chain([Id("proj:dataset"), Id(self.pick(TABLES))]), True)
        if r < 0.97:
            return Table(Param(self.pick(["{table}", "%s", ":tbl"])))
        self.used.add("table_function")
        return Table(Call("generate_series", [Num("1"), self.number()]))

    def source_alias(self, source):
        as_ = self.maybe(0.5)
        name = self.alias_name(as_)
        if self.maybe(0.08, "quoted_alias") and not isinstance(source, Table):
            name = self.quoted_id()
        return Aliased(source, as_, name)

    def source_item(self, depth):
        r = self.rng.random()
        if depth <= 0 or r < 0.6 or not self.spend(2):
            t = self.table_name()
            return self.source_alias(t) if self.maybe(0.4) else t
        if r < 0.82:
            self.used.add("from_subquery")
            if self.maybe(0.06, "from_with"):
                sub = Sub(self.with_(depth - 1))
            else:
                sub = Sub(self.subselect(depth - 1))
            if self.maybe(0.06, "double_brackets"):
                sub = Sub(sub)
        elif r < 0.9:
            self.used.add("from_brackets")
            sub = Sub(self.source(depth - 1, bracketed=True))
        else:
            self.used.add("unnest")
            u = Unnest(args=[self.arith(depth - 1)])
            if self.maybe(0.5):
                u.as_ = self.maybe(0.5)
                u.alias = self.alias_name(u.as_)
            if self.maybe(0.4):
                u.offset = True
                if self.maybe(0.6):
                    u.offset_as = self.maybe(0.5)
                    u.offset_alias = self.alias_name(u.offset_as)
            return u
        return self.source_alias(sub) if self.maybe(0.6) else sub

    def source(self, depth, bracketed=False):
        left = self.source_item(depth)
        r = self.rng.random()
        if r < 0.62 or not self.spend():
            return left
        if r < 0.72 and "set_operator" not in self.off:
            self.used.add("set_operator")
            for _ in range(1 + int(self.rng.expovariate(1.5))):
                k = self.rng.random()
                if k < 0.6:
                    right = self.bare_select(depth - 1)
                else:
                    right = self.source_item(min(depth - 1, 2))
                left = SetOp(self.pick(SETOPS), left, right)
            return left if bracketed else Sub(left)
        self.used.add("join")
        for _ in range(1 + int(self.rng.expovariate(1))):
            k = self.rng.random()
            if k < 0.2:
                left = Join(",", left, self.source_item(depth - 1))
            elif k < 0.3:
                left = Join("cross join", left, self.source_item(depth - 1))
            else:
                left = Join(self.pick(JOINS), left, self.source_item(depth - 1))
                if self.maybe(0.7):
                    left.on = self.without_join_words(depth - 1)
                else:
                    left.using = Par(self.many(1, 3, self.id))
        return left

    def without_join_words(self, depth):
        """A condition free of the words the parser takes for the next join."""
        funcs = self.funcs
        self.funcs = [f for f in funcs if f not in ("left", "right")]
        try:
            return self.condition(depth)
        finally:
            self.funcs = funcs

    def bare_select(self, depth):
        """The unbracketed right side of a set operator: SELECT items FROM sources"""
        s = Select(items=self.many(1, 4, self.select_item_plain, depth))
        s.source = self.table_name() if self.maybe(0.9) else None
        return s

    def select_item_plain(self, depth):
        e = self.expr(depth)
        return Alias(e, True, self.alias_name()) if self.maybe(0.3) else e

    def with_(self, depth):
        self.used.add("with")
        queries = [
            (
                self.pick(self.names),
                self.with_(depth - 1) if depth > 0 and self.maybe(0.1, "nested_with")
                else self.subselect(depth - 1),
            )
            for _ in range(1 + int(self.rng.expovariate(1)))
        ]
        if self.maybe(0.08, "combined"):
            return With(queries, self.combined(depth, bracketed=self.maybe(0.2)))
        return With(queries, self.select(depth, nested=True))

    def query(self):
        if self.maybe(0.08, "combined"):
            root = last = self.combined(self.depth, bracketed=self.maybe(0.2))
        elif self.maybe(0.1, "with"):
            root = self.with_(self.depth)
            last = root.select
        else:
            root = last = self.select(self.depth)
        if self.maybe(0.25, "semicolon"):
            last.semicolon = True
        return root


def ends_with_string(e):
    return e.tokens()[-1][0] == "str"
