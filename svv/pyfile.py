"""
Generates Python source files as lists of pieces and says what becomes of them.

A piece is [kind, text] or, for kind "sel", [kind, text, optional line prefix]:
  code     anything without strings, comments and statement ends
  str      a string that holds no SELECT query of its own (parts of longer strings included)
  sel      a string literal that holds a SELECT query
  comment  a comment
  end      the line end of a statement
Lines end with \n in the pieces; write() gives them the style of the file.
"""
import ast
import random
import re
import warnings

from . import render, vgen, work

PREFIXES = [""] * 12 + ["r", "R", "u", "U", "b", "B", "rb", "Rb", "bR", "BR", "br", "r"]
OPTOUT = {
    "format": ["# nosqlformat", "#nosqlformat", "# noqa: E501 nosqlformat", "# nosqlformat - as is", "# x nosqlformat'"],
    "validation": ["# nosqlvalidation", "#nosqlvalidation", "# noqa nosqlvalidation (select)", "# nosqlvalidation: y"],
    "both": ["# nosqlformat nosqlvalidation", "# nosqlvalidation,nosqlformat", "#nosqlvalidation#nosqlformat"],
    "none": ["# plain", "# select a, b from t", "#", "# sqlformat", "# noqa", "# nosql format", "# \"select 1, 2\"",
             "# d\xe9j\xe0 vu", "# \x0c tab\there ", "# noformat", "#: select\\"],
}
SIMPLE = [
    "select a, b from t", "select a from t", "SELECT a\nFROM t", "SELECT a", "select 1",
    "select a,b,c from t where x=1 and y='z' order by a;", "Select count(*) From t Group By 1",
    "SELECT\n a,\n b\nFROM t", "\nSELECT\n a,\n b\nFROM t\n", "\nSELECT a\nFROM t\n", "select *\nfrom t\n\n",
    "select a from (select b from u)", "select b from t limit -1", "select a from t order by 3",
    "select x from t join u", "select a from t where 1", "select a, from_x from t where s = 'from select'",
    "select {} from {}", "select %s, %(name)s from t", "select a from t where b = 'it''s'",
    'select "a b", \'c\' from t', "select a from t where b like '%\\\\%'", "select '\xe9t\xe9' from t",
    "select a from t where b = '\u65e5\u672c'", "  select a,  b\n  from t\n", "select a from t where c = 'x\ny'",
    "select a from t where c = 'tab\there'", "select f(a) from t where d = '\x0c'", "select a group by b",
    "select a from t where b = \"\"", "select 'a' from t where c = ''", "SELECT 'x'", 'SELECT "x"', "select `p.d.t`.a from `p.d.t`",
    "select \xff(a), b from t", "select '\udcff\udcc3\udca0', \udcff(a) from t\udc85", "select a\udca0, \udce9 from (select \udcc3\udca9 from t)",
]
OTHER = [
    '"selected"', "'x'", '""', "''", '""""""', "b''", "rb'x'", '"update t set a = 1"', "'''doc\n  string\n'''",
    '"with x as (select 1) select * from x"', '"un select a, b"', "'from t'", 'r"\\select a"', '"a\\tselect"', "'(select a, b)'",
    '"sel" \'ect\'', "u'\xe9'", "'\u2028 \\x0c'", '"it\'s"', "'# nosqlformat'", '"""\n\tselection from\n"""', "'\\\\'", "'''a\\\n  b'''",
    "'selectable a'", "'select_a from t'", '"\\N{BULLET}"', "'\t'", "'trailing  '", "'select'", '"select "',
]
FSTRINGS = [
    'f"select {a}, b from t"', "f'{a}'", 'f"""select {a}\nfrom {b!r:>{c}}\n"""', "f\"{'select a, b from t'}\"", "rf'\\d{a}'",
    "f'select a, b from t'", "F\"{a:select}\"", "f'{{select}} {a}'",
]
PARTIAL = [
    ['"select a, "', " ", '"b from t"'], ["'select a '", "\n    ", "'from t'"], ["f'{a}'", " ", "' select 1'"],
    ['"select a, b "', " ", "f'from {t}'"], ["f'x'", "", "'select a,b from t'"], ["'x'", "  ", "'select a, b from t'"],
    ['"select a, b from t"', " # note\n    ", '"where c"'],
]
CODE = [
    "x = 1", "import os", "from a import b as c", "pass", "x=1+ 2", "y = [1,\n  2 ,3]", "a = b = c", "x: int = 3", "del x", "\x0c",
    "z = {1: 2,\n\t3: 4\n}", "x = a if b else c", "n\xe4me = 3", "x = 1 ; y = 2", "x = (yield_ , )", "a = b \\\n  + c", "@d\ndef g(*a, **k): pass",
    "class A(B): x = 1", "if x: y", "while 0: pass", "for i in j: k", "x = lambda a, *b: a", "assert a , b", "x @= y ; x //= 2", "print(a , end = b)",
    "x[1 : 2, ...]", "if (n := 3): n", "x = 0xFF + 1_000 + 1e5 + 1j", "try: a\nexcept B as e: c", "async def f(): await g()", "x = not a  ",
    "  ", "\t", "", "",
]
NAMES = ["sql", "x", "query_1", "self.q", "d[0]", "_", "SQL", "\xe9t\xe9", "a, b"]
INDENTS = ["    ", "  ", "\t", "        "]

# what cannot be parsed, hence not formatted, but is judged (invalid)
BYLESS = [
    "select a from t group 1", "select a from t order 1", "select a, b\nfrom t where a group a", "SELECT a FROM t ORDER a DESC",
    "select a from t where b between 1 or 2", "select sum(a) over (partition b) from t", "select a from (select b from t order b)",
]
BAD_SQL = [
    "select a from", "select a from t where cast(b as", "select * from ((", "select a from t where",
    "select a from t group by", "select cast(a) from t", "select a from t where a =", "select a from t order by",
]


def evaluate(text):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        value = ast.literal_eval("(" + text + "\n)")
    return value.decode("ascii", "surrogateescape") if isinstance(value, bytes) else value


LITERAL = re.compile(r"([A-Za-z]{0,2})('''|\"\"\"|'|\")")


def read_literal(text, start):
    """(prefix, quotes, body, end) of the literal at a position of a source text, or None"""
    m = LITERAL.match(text, start)
    if not m:
        return None
    prefix, quotes = m.groups()
    i = m.end()
    while i < len(text):
        if text[i] == "\\":
            i += 2
        elif text.startswith(quotes, i):
            return prefix, quotes, text[m.end() : i], i + len(quotes)
        elif text[i] == "\n" and len(quotes) == 1:
            return None
        else:
            i += 1
    return None


class Literals:
    """Writes values down as Python string literals."""

    def __init__(self, rng):
        self.rng = rng

    def plain(self, value, prefix, quotes):
        """The value between the quotes as it is, or None"""
        if "\r" in value or "\x00" in value or any("\ud800" <= c <= "\udfff" for c in value):
            return None
        if len(quotes) == 1 and ("\n" in value or quotes in value):
            return None
        if quotes in value or value.endswith(quotes[0]):
            return None
        if "\\" in value and "r" not in prefix.lower():
            return None
        if value.endswith("\\"):
            return None
        if "b" in prefix.lower() and not value.isascii():
            return None
        text = prefix + quotes + value + quotes
        try:
            ok = evaluate(text) == value
        except Exception:
            return None
        return text if ok else None

    def escaped(self, value, prefix, quotes, much, sure=False):
        rng = self.rng
        is_bytes = "b" in prefix.lower()
        out = []
        for i, c in enumerate(value):
            if c == "\n":
                out.append(c if len(quotes) == 3 and rng.random() < 0.5 else "\\n")
            elif c == "\\":
                follower = value[i + 1 : i + 2]
                out.append("\\" if follower and follower in "dsw %_(" and not sure and rng.random() < 0.3 else "\\\\")
            elif is_bytes and "\udc80" <= c <= "\udcff":
                out.append(rng.choice(("\\x%02x", "\\x%02X", "\\%03o")) % (ord(c) - 0xDC00))
            elif c == quotes[0]:
                out.append("\\" + c if sure or len(quotes) == 1 or rng.random() < 0.5 else c)
            elif c == "\t":
                out.append(rng.choice(("\t", "\\t", "\\x09")))
            elif not c.isprintable() or c in "\r\x00":
                out.append(c.encode("unicode_escape").decode() if ord(c) > 0xFF or not is_bytes else "\\x%02x" % ord(c))
            elif not c.isascii() and (is_bytes or rng.random() < 0.4):
                out.append("\\x%02x" % ord(c) if ord(c) < 256 else c.encode("unicode_escape").decode())
            elif rng.random() < much and i > 8:
                out.append(rng.choice(("\\x%02x", "\\%03o") if is_bytes else ("\\x%02x", "\\%03o", "\\u%04x")) % ord(c) if ord(c) < 128 else c)
            else:
                out.append(c)
            if rng.random() < much / 2:
                out.append("\\\n")
        return prefix + quotes + "".join(out) + quotes

    def write(self, value):
        rng = self.rng
        for _ in range(6):
            prefix = rng.choice(PREFIXES)
            quotes = rng.choice(("'", '"', '"""', "'''", '"""', '"'))
            if "b" in prefix.lower() and any(not c.isascii() and not "\udc80" <= c <= "\udcff" for c in value):
                continue
            if rng.random() < 0.65 or "r" in prefix.lower():
                text = self.plain(value, prefix, quotes)
            else:
                text = self.escaped(value, prefix, quotes, rng.choice((0, 0, 0.03, 0.15)))
                try:
                    if evaluate(text) != value:
                        text = None
                except Exception:
                    text = None
            if text:
                return text
        return self.escaped(value, "", '"""', 0, sure=True)


class File:
    def __init__(self, rng, queries=None, optout=0.15, comments=0.25, strings=0.6, unparsable=0):
        self.rng = rng
        self.literals = Literals(rng)
        self.queries = queries or self.query
        self.optout, self.comments, self.strings = optout, comments, strings
        self.pieces = []
        self.unparsable = unparsable

    # contents
    def query(self):
        rng = self.rng
        r = rng.random()
        if r < 0.55:
            sql = rng.choice(SIMPLE)
        elif r < 0.8:
            sql = render.render(work.query(rng)[0].tokens(), rng)
        else:
            sql = render.render(vgen.scenario(rng, vgen.ALL, size=8).node.tokens(), rng)
        if rng.random() < 0.15:
            sql = rng.choice((" ", "\n", "\n    ", "\t")) + sql + rng.choice(("", " ", "\n"))
        return sql

    def is_select(self, value):
        words = value.split(maxsplit=1)
        return len(words) == 2 and words[0].lower() == "select"

    def select(self):
        while True:
            bad = self.rng.random() < self.unparsable
            value = self.rng.choice(BYLESS) if bad else self.queries().replace("\r", "\n")
            text = self.literals.write(value)
            # blanks and line breaks end the first word whichever way they are written
            if self.is_select(value) and evaluate(text) == value:
                return ["sel", text]

    def other(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            text = rng.choice(OTHER)
            return [["str", text]]
        if r < 0.8:
            return [["str", rng.choice(FSTRINGS)]]
        a, gap, b = rng.choice(PARTIAL)
        if gap.startswith(" #"):
            gap = [["comment", " # note"], ["code", "\n    "]]
        else:
            gap = [["code", gap]]
        return [["code", "("], ["str", a]] + gap + [["str", b], ["code", ")"]]

    def string(self):
        return [self.select()] if self.rng.random() < self.strings else self.other()

    def comment(self):
        rng = self.rng
        kind = rng.choice(("format", "validation", "both")) if rng.random() < self.optout else "none"
        return [["comment", rng.choice(("", " ", "  ", "\t")) + rng.choice(OPTOUT[kind])]]

    def maybe_comment(self, p=None):
        return self.comment() if self.rng.random() < (self.comments if p is None else p) else []

    # expressions
    def item(self, depth=0):
        rng = self.rng
        r = rng.random()
        if depth > 2 or r < 0.6:
            return self.string()
        if r < 0.7:
            return self.string() + [["code", rng.choice((".format(a)", " % (a, b)", " + x", "[0]", ".strip()", ' .join( y )'))]]
        if r < 0.75:
            return [["code", "lambda: "]] + self.string()
        if r < 0.8:
            return [["code", "a if b else "]] + self.string()
        if r < 0.85:
            return [["code", rng.choice(("1", "x", "f(y)", "[]", "-2 "))]]
        return self.bracketed(depth + 1)

    def bracketed(self, depth=0):
        rng = self.rng
        open_, close = rng.choice((("(", ")"), ("[", "]"), ("f(", ")"), ("{", "}"), ("a.b.execute( ", " )"), ("dict(", ")")))
        broken = rng.random() < 0.6
        out = [["code", open_]]
        for k in range(rng.choice((1, 1, 2, 2, 3, 5))):
            if broken:
                out += self.maybe_comment(0.1) + [["code", "\n" + rng.choice(("    ", "\t", "", "  \t"))]]
            elif k:
                out += [["code", rng.choice(("", " ", "  "))]]
            if open_ in ("dict(", "f(") and (open_ == "dict(" or rng.random() < 0.3):
                out += [["code", "k%d%s" % (k, rng.choice(("=", " = ")))]]
            elif open_ == "{" and close == "}":
                out += self.key(k)
            out += self.item(depth)
            if broken and rng.random() < 0.15:
                out += self.comment() + [["code", "\n"]]
            out += [["code", rng.choice((",", ",", " ,"))]]
            if broken:
                out += self.maybe_comment()
        # keyword arguments come last
        if broken:
            out += [["code", "\n"]]
        return out + [["code", close]]

    def key(self, k):
        if self.rng.random() < 0.4:
            return [["str", '"k%d"' % k], ["code", self.rng.choice((":", " : ", ": "))]]
        if self.rng.random() < 0.3:
            return [self.select(), ["code", ": "]]
        return [["code", "%d: " % k]]

    def end(self, indent=""):
        return self.maybe_comment() + [["end", "\n"]]

    # statements
    def statement(self, indent):
        rng = self.rng
        r = rng.random()
        out = [["code", indent]]
        if r < 0.3:
            out += [["code", rng.choice(NAMES) + rng.choice((" = ", "=", "  =\t", " = \\\n"))]] + self.item()
        elif r < 0.45:
            out += [["code", rng.choice(("x = ", "", "return_ = ", "y += "))]] + self.bracketed()
        elif r < 0.52:
            out += [["code", "x = "]] + self.string() + [["code", rng.choice((" ; y = ", "; z="))]] + self.string()
        elif r < 0.57:
            out += [["code", rng.choice(("assert ", "del_(x), ", "x == ", "print "[:0] + "not "))]] + self.string()
        elif r < 0.62:
            out += self.string()
        elif r < 0.67:
            return self.maybe_comment(1) + [["code", "\n"]]
        else:
            text = rng.choice(CODE)
            if not text.strip(" \t"):
                return [["code", rng.choice((text, "\x0c")) + "\n"]]
            if text == "\x0c":
                return [["code", "\x0c\n"]]
            out = [["code", indent + text.replace("\n@", "\n" + indent + "@").replace("\ndef ", "\n" + indent + "def ").replace("\nexcept", "\n" + indent + "except")]]
        if rng.random() < 0.06:
            out += [["code", rng.choice((";", " ;", "; ", ";\t"))]]
        return out + self.end()

    def block(self, indent, depth):
        rng = self.rng
        head = rng.choice(("def f(a={}):", "class A:", "if x:", "for q in {}:", "with a as b :", "async def f( x, y={} ) -> None:", "while x in {}:", "try:", "def g(a: {} = 1):"))
        out = [["code", indent]]
        before, _, after = head.partition("{}")
        out.append(["code", before])
        if "{}" in head:
            out += self.string() + [["code", after]]
        out += self.end()
        inner = indent + rng.choice(INDENTS)
        for k in range(rng.randint(1, 3)):
            if k == 0 and rng.random() < 0.2:
                out += [["code", inner]] + self.string() + self.end()
            elif depth < 2 and rng.random() < 0.2:
                out += self.block(inner, depth + 1)
            elif rng.random() < 0.15 and ("def " in head):
                out += [["code", inner + "return "]] + self.item() + self.end()
            else:
                out += self.statement(inner)
        out += [["code", inner + "pass"]] + self.end()
        if head == "try:":
            out += [["code", indent + "finally: z"]] + self.end()
        return out

    def make(self, statements=None):
        rng = self.rng
        out = []
        if rng.random() < 0.1:
            out += [["comment", "#!/usr/bin/env python"], ["code", "\n"]]
        for _ in range(statements or rng.choice((1, 2, 3, 4, 6, 9, 14))):
            out += self.block("", 0) if rng.random() < 0.2 else self.statement("")
        if rng.random() < 0.25 and out and out[-1] == ["end", "\n"]:
            out[-1] = ["end", ""]
        elif rng.random() < 0.1:
            out.append(["code", rng.choice(("\n\n", "   ", "# end", "\t\n"))] if True else None)
        return out


def join(pieces):
    return "".join(p[1] for p in pieces)


def source(rng, tries=40, **options):
    """Pieces of a valid file."""
    statements = options.pop("statements", None)
    for _ in range(tries):
        pieces = File(rng, **options).make(statements)
        text = join(pieces)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(text, "f", "exec", ast.PyCF_ONLY_AST)
        except (SyntaxError, ValueError):
            continue
        return pieces
    return [["code", "x = "], ["sel", '"select a, b from t"'], ["end", "\n"]]


NEWLINES = ["\n"] * 6 + ["\r\n"] * 3 + ["mixed"]
ENCODINGS = ["utf-8"] * 8 + ["utf-8-sig", "latin-1"]


def dress(pieces, rng):
    """Chooses newline style and encoding: {"pieces", "newline", "encoding", "seed"}"""
    newline, encoding = rng.choice(NEWLINES), rng.choice(ENCODINGS)
    if encoding == "latin-1":
        cookie = [["comment", "# -*- coding: latin-1 -*-"], ["code", "\n"]]
        # the cookie has to be in the first lines, and be one to the interpreter
        try:
            join(pieces).encode("latin-1")
            pieces = cookie + pieces
        except UnicodeEncodeError:
            encoding = "utf-8"
    return {"pieces": pieces, "newline": newline, "encoding": encoding, "seed": rng.randrange(1 << 30)}


def dressed(file):
    """The pieces with the newlines they have in the file."""
    newline = file["newline"]
    if newline == "\n":
        return [p[1] for p in file["pieces"]]
    if newline == "\r\n":
        return [p[1].replace("\n", "\r\n") for p in file["pieces"]]
    rng = random.Random(file["seed"])
    return [re.sub("\n", lambda m: rng.choice(("\n", "\r\n")), p[1]) for p in file["pieces"]]


def encode(file):
    return "".join(dressed(file)).encode(file["encoding"])


def opted_out(pieces, i):
    """Which of "format", "validation" the comment that follows piece i opts out of."""
    comment = ""
    for kind, text in pieces[i + 1 :]:
        if kind == "comment":
            comment += text
        elif comment or kind in ("sel", "str", "end"):
            break
    return {w for w in ("format", "validation") if "nosql" + w in comment}


def line_of(pieces, i):
    return join(pieces[:i]).count("\n") + 1


def reformatted(text, fmt):
    """
    What a SELECT literal becomes, given its formatted query:
    (literal or None when it has escapes, prefix, quotes, value)
    """
    prefix, quotes, body, _ = read_literal(text, 0)
    if len(quotes) == 1 and "\n" in fmt:
        quotes *= 3
    own_lines = len(quotes) == 3 and ("\n" in fmt or fmt.endswith(quotes[0]))
    value = "\n" + fmt + "\n" if own_lines else fmt
    if "\\" in body and "r" not in prefix.lower():
        if evaluate(text) == value:
            return text, prefix, quotes, value, own_lines
        return None, prefix, quotes, value, own_lines
    return prefix + quotes + value + quotes, prefix, quotes, value, own_lines


class Unformattable(Exception):
    """A file that cannot be formatted"""


def outcome(file, sqlvalidator, formats=True):
    """
    What is to become of a file: a list with, for each SELECT literal,
    {"i": piece, "line", "fmt": text or None when opted out, "changes": bool, "errors": list or None};
    an exception when it cannot be formatted or judged, Unformattable when that is as it should be
    """
    pieces = file["pieces"]
    out = []
    for i, p in enumerate(pieces):
        if p[0] != "sel":
            continue
        without = opted_out(pieces, i)
        value = evaluate(p[1])
        o = {"i": i, "line": line_of(pieces, i), "fmt": None, "changes": False, "errors": None, "without": sorted(without)}
        if "format" not in without and formats:
            if value in BYLESS:
                raise Unformattable
            o["fmt"] = sqlvalidator.format_sql(value)
            literal = reformatted(p[1], o["fmt"])[0]
            o["changes"] = literal != p[1]
            try:
                o["fmt"].encode(file["encoding"])
            except UnicodeEncodeError:
                # with escapes it can be written all the same
                if literal:
                    raise Unformattable
        if "validation" not in without:
            query = sqlvalidator.parse(value)
            o["errors"] = [] if query.is_valid() else list(query.errors)
        out.append(o)
    return out


def compare(file, outcomes, data, exact=True):
    """
    Problems of the bytes of a formatted file: (kind, text), kind "code" for what lies outside
    the SELECT literals, "literal" for these and "newlines" for the newline style within them.
    """
    encoding = file["encoding"]
    try:
        got = data.decode(encoding)
    except UnicodeDecodeError as e:
        return [("code", "the file cannot be decoded: %s" % e)]
    if encoding == "utf-8-sig" and not data.startswith(b"\xef\xbb\xbf"):
        return [("code", "the byte order mark is gone")]
    by_piece = {o["i"]: o for o in outcomes}
    texts = dressed(file)
    at, problems = 0, []
    for i, (p, text) in enumerate(zip(file["pieces"], texts)):
        o = by_piece.get(i)
        if o is None or not o["changes"]:
            if not got.startswith(text, at):
                kind = "literal" if o else "code"
                problems.append((kind, "%r became %r" % (text, got[at : at + len(text) + 40])))
                if not o:
                    return problems
                found = read_literal(got, at)
                if not found:
                    return problems
                at = found[3]
                continue
            at += len(text)
            continue
        literal, prefix, quotes, value, own_lines = reformatted(p[1], o["fmt"])
        found = read_literal(got, at)
        if not found:
            problems.append(("literal", "%r became %r" % (text, got[at : at + 200])))
            return problems
        body = found[2]
        new = got[at : found[3]]
        if file["newline"] != "mixed" and "\n" in join(file["pieces"]) and body.replace("\r\n", "\n").replace("\n", file["newline"]) != body:
            problems.append(("newlines", "newlines in %r" % new))
        plain = new.replace("\r\n", "\n").replace("\r", "\n")
        if literal is not None:
            if plain != literal:
                problems.append(("literal", "%r became %r, not %r" % (p[1], plain, literal)))
        elif (found[0], found[1]) != (prefix, quotes):
            problems.append(("literal", "%r became %r with other prefix or quotes" % (p[1], plain)))
        else:
            try:
                read = evaluate(plain)
            except Exception as e:
                read = e
            if read != value:
                problems.append(("literal", "%r became %r, which is read as %r, not %r" % (p[1], plain, read, value)))
            elif own_lines and not (plain.startswith(prefix + quotes + "\n") and plain.endswith("\n" + quotes)):
                problems.append(("literal", "%r is not on lines of its own in %r" % (p[1], plain)))
            elif plain.count("\n") != value.count("\n"):
                problems.append(("literal", "lines of %r in %r" % (p[1], plain)))
        at = found[3]
    if at != len(got):
        problems.append(("code", "the file goes on with %r" % got[at:]))
    return problems
