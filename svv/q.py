"""
A model of the SELECT queries sqlvalidator supports.

Every node knows two things, both independent of the code under test:
  toks(out)  the SQL tokens it is made of, in order, as (kind, text) pairs;
  fmt()      the canonical layout of the documented style.

Token kinds
  kw     keyword, word operator       any letter case in, upper case out
  fn     function name                any letter case in, upper case out
  ty     type or date part            any letter case in, upper case out
  const  TRUE/FALSE/NULL              any letter case in, upper case out
  id     identifier / alias           verbatim
  num    number                       verbatim
  par    bind placeholder             verbatim
  str    string or quoted identifier  verbatim (one token, quotes and prefix included)
  op     symbol                       verbatim
"""

WIDTH = 88


# stands for the newlines of literals, that are not to be indented
LITERAL_NEWLINE = "\ue000"


def ind(text, by=" "):
    return text.replace("\n", "\n" + by)


class N:
    """Base of all nodes; fields are given by keyword."""

    F = ()

    def __init__(self, *a, **k):
        for f, v in zip(self.F, a):
            setattr(self, f, v)
        for f, v in k.items():
            assert f in self.F, (type(self), f)
            setattr(self, f, v)
        for f in self.F:
            if not hasattr(self, f):
                setattr(self, f, None)

    def tokens(self):
        out = []
        self.toks(out)
        return out

    def __repr__(self):
        return "%s(%s)" % (
            type(self).__name__,
            ", ".join("%s=%r" % (f, getattr(self, f)) for f in self.F),
        )


def kw(out, words):
    for w in words.split():
        out.append(("kw", w.upper()))


def op(out, *symbols):
    for s in symbols:
        out.append(("op", s))


def comma(out, items):
    for i, item in enumerate(items):
        if i:
            op(out, ",")
        item.toks(out)


# --------------------------------------------------------------------------- leaves
class Id(N):
    F = ("name",)

    def toks(self, out):
        out.append(("id", self.name))

    def fmt(self):
        return self.name


class Star(N):
    def toks(self, out):
        op(out, "*")

    def fmt(self):
        return "*"


class Num(N):
    """A number, with its sign when it is a negative constant."""

    F = ("text", "neg")

    def toks(self, out):
        if self.neg:
            op(out, "-")
        out.append(("num", self.text))

    def fmt(self):
        return ("-" if self.neg else "") + self.text


class Str(N):
    F = ("text",)  # whole text, quotes and prefix included

    def toks(self, out):
        out.append(("str", self.text))

    def fmt(self):
        return self.text.replace("\n", LITERAL_NEWLINE)


class Const(N):
    F = ("text",)

    def toks(self, out):
        out.append(("const", self.text.upper()))

    def fmt(self):
        return self.text.upper()


class Param(N):
    F = ("text",)

    def toks(self, out):
        out.append(("par", self.text))

    def fmt(self):
        return self.text


class TypeName(N):
    F = ("text",)

    def toks(self, out):
        out.append(("ty", self.text.upper()))

    def fmt(self):
        return self.text.upper()


# ---------------------------------------------------------------------- expressions
class Chain(N):
    F = ("parts",)

    def toks(self, out):
        for i, p in enumerate(self.parts):
            if i:
                op(out, ".")
            p.toks(out)

    def fmt(self):
        return ".".join(p.fmt() for p in self.parts)


class Par(N):
    F = ("items",)

    def toks(self, out):
        op(out, "(")
        comma(out, self.items)
        op(out, ")")

    def fmt(self):
        return "(%s)" % ", ".join(
            "\n " + ind(i.fmt()) + "\n" if is_query(i) else i.fmt()
            for i in self.items
        )


def is_query(node):
    return isinstance(node, (Select, With, SetOp, Combined))


def is_single(e):
    return isinstance(e, Par) and len(e.items) == 1


def opened(par, by=" "):
    """A bracketed expression whose content is broken over several lines."""
    return "(\n" + by + ind(par.items[0].fmt(), by) + "\n"


class Arr(N):
    F = ("items",)

    def toks(self, out):
        op(out, "[")
        comma(out, self.items)
        op(out, "]")

    def fmt(self):
        return "[%s]" % ", ".join(i.fmt() for i in self.items)


class Case(N):
    F = ("value", "whens", "other")

    def toks(self, out):
        kw(out, "case")
        if self.value is not None:
            self.value.toks(out)
        for w, t in self.whens:
            kw(out, "when")
            w.toks(out)
            kw(out, "then")
            t.toks(out)
        if self.other is not None:
            kw(out, "else")
            self.other.toks(out)
        kw(out, "end")

    def fmt(self):
        s = "CASE"
        if self.value is not None:
            s += " " + self.value.fmt()
        branches = []
        for w, t in self.whens:
            text = w.fmt()
            if "\n" not in text:
                b = "WHEN " + text + " "
            elif is_single(w):
                b = "WHEN (\n  " + ind(w.items[0].fmt(), "  ") + "\n )\n "
            else:
                b = "WHEN\n  " + ind(text, "  ") + "\n "
            branches.append(b + "THEN " + t.fmt())
        s += "\n " + "\n ".join(branches)
        if self.other is not None:
            s += "\n ELSE " + self.other.fmt()
        return s + "\nEND"


class Call(N):
    F = ("name", "args", "distinct")

    def toks(self, out):
        out.append(("fn", self.name.upper()))
        op(out, "(")
        if self.distinct:
            kw(out, "distinct")
        comma(out, self.args)
        op(out, ")")

    def fmt(self):
        args = [a.fmt() for a in self.args]
        if self.distinct:
            args[0] = "DISTINCT " + args[0]
        line = ", ".join(args)
        if "\n" in line or len(line) > WIDTH:
            return "%s(\n %s\n)" % (self.name.upper(), ",\n ".join(map(ind, args)))
        return "%s(%s)" % (self.name.upper(), line)


class Cast(N):
    F = ("expr", "type")

    def toks(self, out):
        out.append(("fn", "CAST"))
        op(out, "(")
        self.expr.toks(out)
        kw(out, "as")
        self.type.toks(out)
        op(out, ")")

    def fmt(self):
        return "CAST(%s AS %s)" % (self.expr.fmt(), self.type.fmt())


class ArrayAgg(N):
    F = ("distinct", "expr", "nulls", "order", "limit")

    def toks(self, out):
        out.append(("fn", "ARRAY_AGG"))
        op(out, "(")
        if self.distinct:
            kw(out, "distinct")
        self.expr.toks(out)
        if self.nulls:
            kw(out, self.nulls + " nulls")
        if self.order:
            kw(out, "order by")
            comma(out, self.order)
        if self.limit:
            kw(out, "limit")
            out.append(("num", self.limit))
        op(out, ")")

    def fmt(self):
        s = "ARRAY_AGG("
        if self.distinct:
            s += "DISTINCT "
        s += self.expr.fmt()
        if self.nulls:
            s += " %s NULLS" % self.nulls.upper()
        if self.order:
            s += " ORDER BY " + ", ".join(o.fmt() for o in self.order)
        if self.limit:
            s += " LIMIT " + self.limit
        return s + ")"


class Count(N):
    F = ("distinct", "args")

    def toks(self, out):
        out.append(("fn", "COUNT"))
        op(out, "(")
        if self.distinct:
            kw(out, "distinct")
        comma(out, self.args)
        op(out, ")")

    def fmt(self):
        return "COUNT(%s%s)" % (
            "DISTINCT " if self.distinct else "",
            ", ".join(a.fmt() for a in self.args),
        )


class DatePart(N):
    F = ("part", "expr")

    def toks(self, out):
        out.append(("ty", self.part.upper()))
        kw(out, "from")
        self.expr.toks(out)

    def fmt(self):
        return "%s FROM %s" % (self.part.upper(), self.expr.fmt())


class Filter(N):
    F = ("call", "cond")

    def toks(self, out):
        self.call.toks(out)
        kw(out, "filter")
        op(out, "(")
        kw(out, "where")
        self.cond.toks(out)
        op(out, ")")

    def fmt(self):
        return "%s FILTER (WHERE %s)" % (self.call.fmt(), self.cond.fmt())


class Over(N):
    F = ("call", "partition", "order", "frame")

    def toks(self, out):
        self.call.toks(out)
        kw(out, "over")
        op(out, "(")
        if self.partition:
            kw(out, "partition by")
            comma(out, self.partition)
        if self.order:
            kw(out, "order by")
            comma(out, self.order)
        if self.frame:
            for t in self.frame:
                out.append(("num", t) if t.isdigit() else ("kw", t.upper()))
        op(out, ")")

    def fmt(self):
        s = self.call.fmt() + " OVER ("
        if self.partition:
            s += "\n PARTITION BY"
            if len(self.partition) > 1:
                s += "\n  " + ",\n  ".join(p.fmt() for p in self.partition)
            else:
                s += " " + self.partition[0].fmt()
        if self.order:
            s += "\n ORDER BY" + ind(order_items(self.order))
        if self.frame:
            s += "\n " if "\n" in s else ""
            s += " ".join(t.upper() for t in self.frame)
        return s + ("\n)" if "\n" in s else ")")


def order_items(items):
    if len(items) > 1:
        return ind("\n" + ",\n".join(i.fmt() for i in items))
    return " " + items[0].fmt()


class Index(N):
    F = ("expr", "indices")

    def toks(self, out):
        self.expr.toks(out)
        op(out, "[")
        comma(out, self.indices)
        op(out, "]")

    def fmt(self):
        return "%s[%s]" % (self.expr.fmt(), ", ".join(i.fmt() for i in self.indices))


class Field(N):
    """A field of something that is not a plain column: f(x).a, (a).b, a[0].b"""

    F = ("expr", "parts")

    def toks(self, out):
        self.expr.toks(out)
        for p in self.parts:
            op(out, ".")
            p.toks(out)

    def fmt(self):
        return ".".join([self.expr.fmt()] + [p.fmt() for p in self.parts])


class Bin(N):
    """Arithmetic, bitwise or comparison operator, symbol or words."""

    F = ("op", "left", "right")

    def toks(self, out):
        self.left.toks(out)
        if self.op[0].isalpha():
            kw(out, self.op)
        else:
            op(out, self.op)
        self.right.toks(out)

    def fmt(self):
        return "%s %s %s" % (self.left.fmt(), self.op.upper(), self.right.fmt())


class Sign(N):
    F = ("sign", "expr")

    def toks(self, out):
        op(out, self.sign)
        self.expr.toks(out)

    def fmt(self):
        s = self.expr.fmt()
        return self.sign + (" " if s[:1] in "+-" else "") + s


class Not(N):
    F = ("expr",)

    def toks(self, out):
        kw(out, "not")
        self.expr.toks(out)

    def fmt(self):
        return "NOT" + ("" if isinstance(self.expr, Par) else " ") + self.expr.fmt()


class Bool(N):
    """operands joined by AND/OR"""

    F = ("ops", "operands")

    def toks(self, out):
        self.operands[0].toks(out)
        for o, e in zip(self.ops, self.operands[1:]):
            kw(out, o)
            e.toks(out)

    def _line(self, i=0):
        # single-line form of the chain from operand i on, or None if it has none
        head = self.operands[i].fmt()
        if i == len(self.ops):
            return head
        return head + " %s " % self.ops[i].upper() + self._tail(i + 1)

    def _tail(self, i):
        if i == len(self.ops):
            return self.operands[i].fmt()
        line = self._line(i)
        return line if len(line) < WIDTH else self._broken(i)

    def _broken(self, i=0):
        lines = []
        for j in range(i, len(self.operands)):
            e = self.operands[j]
            text = e.items[0].fmt() if is_single(e) else e.fmt()
            if is_single(e):
                text = "(\n " + ind(text) + "\n)" if "\n" in text else "(%s)" % text
            lines.append(("%s " % self.ops[j - 1].upper() if j > i else "") + text)
        return "\n".join(lines)

    def fmt(self):
        return self._tail(0)


class Between(N):
    F = ("neg", "expr", "low", "high")

    def toks(self, out):
        self.expr.toks(out)
        kw(out, "not between" if self.neg else "between")
        self.low.toks(out)
        kw(out, "and")
        self.high.toks(out)

    def fmt(self):
        return "%s %s %s" % (
            self.expr.fmt(),
            "NOT BETWEEN" if self.neg else "BETWEEN",
            Bool(["and"], [self.low, self.high]).fmt(),
        )


class Alias(N):
    F = ("expr", "as_", "name")  # name: Id or Str

    def toks(self, out):
        self.expr.toks(out)
        if self.as_:
            kw(out, "as")
        self.name.toks(out)

    def fmt(self):
        return self.expr.fmt() + (" AS " if self.as_ else " ") + self.name.fmt()


class Except(N):
    F = ("star", "word", "items")  # word: except | replace

    def toks(self, out):
        self.star.toks(out)
        kw(out, self.word)
        op(out, "(")
        comma(out, self.items)
        op(out, ")")

    def fmt(self):
        s = "%s %s (" % (self.star.fmt(), self.word.upper())
        if len(self.items) > 1:
            return s + "\n " + ",\n ".join(i.fmt() for i in self.items) + "\n)"
        return s + self.items[0].fmt() + ")"


class OrderItem(N):
    F = ("expr", "dir", "nulls")

    def toks(self, out):
        self.expr.toks(out)
        if self.dir:
            kw(out, self.dir)
        if self.nulls:
            kw(out, "nulls " + self.nulls)

    def fmt(self):
        s = self.expr.fmt()
        if self.dir:
            s += " " + self.dir.upper()
        if self.nulls:
            s += " NULLS " + self.nulls.upper()
        return s


# ----------------------------------------------------------------------------- FROM
class Table(N):
    F = ("name", "bracketed")  # name: Id, Chain, Str, Param or Call

    def toks(self, out):
        if self.bracketed:
            op(out, "[")
        self.name.toks(out)
        if self.bracketed:
            op(out, "]")

    def fmt(self):
        return "[%s]" % self.name.fmt() if self.bracketed else self.name.fmt()


class Sub(N):
    """Bracketed source: a query, or another FROM content"""

    F = ("inner",)

    def toks(self, out):
        op(out, "(")
        self.inner.toks(out)
        op(out, ")")

    def top(self):
        """as the whole FROM clause"""
        return "(\n " + ind(self.inner.fmt()) + "\n)"

    def fmt(self):
        """as an operand of a set operator"""
        if is_query(self.inner):
            return self.top()
        return "(%s)" % self.inner.fmt()

    def joined(self):
        """as an operand of a join: the brackets are kept together"""
        n, inner = 1, self.inner
        while isinstance(inner, Sub):
            n, inner = n + 1, inner.inner
        return "(" * n + "\n " + ind(inner.fmt()) + "\n" + ")" * n


class Aliased(N):
    """Source with an alias"""

    F = ("source", "as_", "name")

    def toks(self, out):
        self.source.toks(out)
        if self.as_:
            kw(out, "as")
        self.name.toks(out)

    def tail(self):
        return (" AS " if self.as_ else " ") + self.name.fmt()

    def fmt(self):
        return self.source.fmt() + self.tail()

    def top(self):
        return top(self.source) + self.tail()

    def joined(self):
        return joined(self.source) + self.tail()


def top(source):
    return source.top() if hasattr(source, "top") else source.fmt()


def joined(source):
    return source.joined() if hasattr(source, "joined") else source.fmt()


class Unnest(N):
    F = ("args", "alias", "as_", "offset", "offset_as", "offset_alias")

    def toks(self, out):
        Call("unnest", self.args).toks(out)
        if self.alias is not None:
            if self.as_:
                kw(out, "as")
            self.alias.toks(out)
        if self.offset:
            kw(out, "with offset")
            if self.offset_alias is not None:
                if self.offset_as:
                    kw(out, "as")
                self.offset_alias.toks(out)

    def fmt(self):
        s = Call("unnest", self.args).fmt()
        if self.alias is not None:
            s += (" AS " if self.as_ else " ") + self.alias.fmt()
        if self.offset:
            s += " WITH OFFSET"
            if self.offset_alias is not None:
                s += (" AS " if self.offset_as else " ") + self.offset_alias.fmt()
        return s


class Join(N):
    F = ("word", "left", "right", "on", "using")  # word: "," or "left join", ...

    def toks(self, out):
        self.left.toks(out)
        if self.word == ",":
            op(out, ",")
        else:
            kw(out, self.word)
        self.right.toks(out)
        if self.on is not None:
            kw(out, "on")
            self.on.toks(out)
        if self.using is not None:
            kw(out, "using")
            self.using.toks(out)

    def fmt(self):
        s = joined(self.left)
        s += "," if self.word == "," else "\n" + self.word.upper()
        s += " " + joined(self.right)
        if self.on is not None:
            s += "\nON" + condition(self.on)
        if self.using is not None:
            s += "\nUSING" + condition(self.using)
        return s


class SetOp(N):
    F = ("word", "left", "right")

    def toks(self, out):
        self.left.toks(out)
        kw(out, self.word)
        self.right.toks(out)

    def fmt(self):
        return "%s\n%s%s%s" % (
            self.left.fmt(),
            self.word.upper(),
            " " if is_plain_table(self.right) else "\n",
            self.right.fmt(),
        )


def is_plain_table(source):
    # an unquoted table takes its alias along, a quoted one does not
    if isinstance(source, Aliased):
        return is_plain_table(source.source) and isinstance(
            source.source.name, (Id, Chain, Param, Call)
        ) and not starts_quoted(source.source.name) and not source.source.bracketed
    return isinstance(source, Table)


def starts_quoted(name):
    first = name.parts[0] if isinstance(name, Chain) else name
    return isinstance(first, Str)


# --------------------------------------------------------------------------- queries
def condition(e):
    """The condition of WHERE, HAVING, ON (and the columns of USING)"""
    text = e.fmt()
    if "\n" not in text:
        return " " + text
    if is_single(e):
        return " " + opened(e) + ")"
    return "\n " + ind(text)


def result_toks(query, out):
    """Clauses about the rows of a query, or of combined ones"""
    if query.order:
        kw(out, "order by")
        comma(out, query.order)
    if query.limit is not None:
        kw(out, "limit")
        if query.limit == "all":
            kw(out, "all")
        else:
            query.limit.toks(out)
    if query.offset is not None:
        kw(out, "offset")
        query.offset.toks(out)
    if query.semicolon:
        op(out, ";")


def result_fmt(query):
    s = ""
    if query.order:
        s += "\nORDER BY" + order_items(query.order)
    if query.limit is not None:
        s += "\nLIMIT " + ("ALL" if query.limit == "all" else query.limit.fmt())
    if query.offset is not None:
        s += "\nOFFSET " + query.offset.fmt()
    return s + (";" if query.semicolon else "")


class Select(N):
    F = (
        "quantifier",  # None, all, distinct
        "distinct_on",
        "items",
        "source",
        "where",
        "group",
        "each",
        "rollup",
        "having",
        "order",
        "limit",  # expression or "all"
        "offset",
        "semicolon",
    )

    def toks(self, out):
        kw(out, "select")
        if self.quantifier:
            kw(out, self.quantifier)
            if self.distinct_on:
                kw(out, "on")
                op(out, "(")
                comma(out, self.distinct_on)
                op(out, ")")
        comma(out, self.items)
        if self.source is not None:
            kw(out, "from")
            self.source.toks(out)
        if self.where is not None:
            kw(out, "where")
            self.where.toks(out)
        if self.group:
            kw(out, "group each by" if self.each else "group by")
            if self.rollup:
                kw(out, "rollup")
            comma(out, self.group)
        if self.having is not None:
            kw(out, "having")
            self.having.toks(out)
        result_toks(self, out)

    def fmt(self):
        s = "SELECT"
        if self.quantifier:
            s += " " + self.quantifier.upper()
            if self.distinct_on:
                s += " ON (%s)" % ", ".join(e.fmt() for e in self.distinct_on)
        if len(self.items) == 1:
            s += " " + self.items[0].fmt()
        else:
            s += "\n " + ",\n ".join(ind(e.fmt()) for e in self.items)
        if self.source is not None:
            s += "\nFROM " + top(self.source)
        if self.where is not None:
            s += "\nWHERE" + condition(self.where)
        if self.group:
            s += "\nGROUP EACH BY" if self.each else "\nGROUP BY"
            if self.rollup:
                s += " ROLLUP"
            if len(self.group) > 1:
                s += "\n " + ind(",\n".join(e.fmt() for e in self.group))
            else:
                s += " " + self.group[0].fmt()
        if self.having is not None:
            s += "\nHAVING" + condition(self.having)
        return s + result_fmt(self)


class Combined(N):
    """Queries combined by a set operator"""

    F = ("word", "left", "right", "order", "limit", "offset", "semicolon")

    def toks(self, out):
        self.left.toks(out)
        kw(out, self.word)
        self.right.toks(out)
        result_toks(self, out)

    def fmt(self):
        return "%s\n%s%s%s%s" % (
            self.left.fmt(),
            self.word.upper(),
            " " if is_plain_table(self.right) else "\n",
            self.right.fmt(),
            result_fmt(self),
        )


class With(N):
    F = ("queries", "select")  # queries: [(name, Select)]

    def toks(self, out):
        kw(out, "with")
        for i, (name, query) in enumerate(self.queries):
            if i:
                op(out, ",")
            out.append(("id", name))
            kw(out, "as")
            op(out, "(")
            query.toks(out)
            op(out, ")")
        self.select.toks(out)

    def fmt(self):
        return "WITH %s\n%s" % (
            ",\n".join(
                "%s AS (\n %s\n)" % (n, ind(query.fmt())) for n, query in self.queries
            ),
            self.select.fmt(),
        )


def formatted(node):
    """The text of the formatted query."""
    return node.fmt().replace(LITERAL_NEWLINE, "\n")


def walk(node):
    """All nodes of a query."""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, N):
            yield n
            stack.extend(getattr(n, f) for f in n.F)
        elif isinstance(n, (list, tuple)):
            stack.extend(n)


def canonical(tokens):
    """Tokens as the formatted text must hold them."""
    return [text for _, text in tokens]
