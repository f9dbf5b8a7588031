"""C02: literals, identifiers, numbers and placeholders come out character for character."""
import string

from .. import gen, lex, q, render, work

PROPERTY = "C02"
RULE = (
    "random supported queries most of whose leaves are string literals, quoted names, numbers and "
    "placeholders of arbitrary content (several lines, all quote styles, escapes, doubled quotes, SQL "
    "words and symbols, control and non-ASCII characters) at every position an operand can take; "
    "distinct = distinct input texts holding at least one literal or quoted name"
)
ASSUMPTIONS = ["svv/lex.py reads literals by the rule: \\ escapes the next character, two quotes are one"]
CASES = {"quick": 110000, "thorough": 1200000}
REQUIRED = {"literals compared": 100000, "numbers compared": 20000, "identifiers compared": 50000}

CHARS = (
    string.ascii_letters + string.digits + string.punctuation.replace("\\", "")
    + "    \t\x0b\x0c\x00\x7f\xa0\u2028\u200b\u00e9\u00df\u0130\u65e5\u672c\U0001f600"
)
WORDS = (
    "select from where group by having order limit offset join left union all except case when "
    "then else end and or not in between is null as on using over filter cast unnest count "
    "array_agg with distinct asc desc ; , ( ) [ ] '' -- /* */ <> != || %% %s {x} .".split()
)
NUMBERS = (
    "0 00 1 01 007 1.0 1.50 0.10 .5 .50 5. 00.5 12345678901234567890 1e5 1E5 1e+5 1E-05 1.e3 .5e1 "
    "00012345678901234567890123 0000000000000000000000001 9007199254740993 18446744073709551616 "
    "0.0000001 100000000000000000000.5 1.7976931348623157e309 3.14159265358979323846"
).split()
PARAMS = gen.PARAMS + ["%(a_b)s", ":a1", "@Foo", "{snake_case}", "{0}", "$12"]
KINDS = {"str": "literals", "num": "numbers", "id": "identifiers", "par": "placeholders"}


class LiteralGen(gen.Gen):
    literals = 0.6

    def body(self, quote):
        rng = self.rng
        out = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 8))):
            r = rng.random()
            if r < 0.35:
                out.append(rng.choice(WORDS) if rng.random() < 0.7 else rng.choice(gen.STRING_BITS))
                if rng.random() < 0.6:
                    out.append(" ")
            elif r < 0.75:
                out.append("".join(rng.choice(CHARS) for _ in range(rng.randint(1, 6))))
            elif r < 0.83:
                out.append(rng.choice("'\"`"))
            elif r < 0.86:
                # a literal over several lines
                for _ in range(rng.choice((1, 1, 2, 4, 8))):
                    out.append(rng.choice(("\n", "\n ", "\n  ", " \n", "\n\n", "x\n", "\n(", "\n\t")))
            elif r < 0.92:
                out.append("\\" + rng.choice("\\\\'\"`nt0x%_ (,"))
            else:
                out.append(quote * 2)
        text = "".join(out)
        # what is left of the quote itself is doubled
        safe, i = [], 0
        while i < len(text):
            if text[i] == "\\":
                safe.append(text[i : i + 2] if i + 1 < len(text) else "\\\\")
                i += 2
            elif text[i] == quote:
                safe.append(quote * 2)
                i += 2 if text[i + 1 : i + 2] == quote else 1
            else:
                safe.append(text[i])
                i += 1
        return "".join(safe)

    def string(self):
        quote = self.pick("'''\"\"")
        prefix = self.pick("rR") if self.maybe(0.06) else ""
        return q.Str(prefix + quote + self.body(quote) + quote)

    def quoted_id(self):
        quote = self.pick('"`')
        return q.Str(quote + self.body(quote) + quote)

    def leaf(self):
        r = self.rng.random()
        if r < 0.5:
            return self.string()
        if r < 0.58:
            return self.quoted_id()
        if r < 0.68:
            if self.maybe(0.3):
                digits = "".join(self.rng.choice("0123456789") for _ in range(self.rng.randint(1, 40)))
                return q.Num(digits if self.maybe(0.6) else digits + "." + digits[::-1])
            return q.Num(self.pick(NUMBERS))
        if r < 0.74:
            return q.Param(self.pick(PARAMS))
        return super().leaf()


def make(rng, tier):
    sizes = work.SIZES if tier == "quick" or rng.random() < 0.9 else work.HUGE
    g = LiteralGen(rng, size=rng.choice(sizes), depth=rng.choice((1, 1, 2, 3)))
    tokens = g.query().tokens()
    return {"sql": render.render(tokens, rng), "tokens": tokens}


def judge(case):
    import sqlvalidator

    want = case["tokens"]
    verbatim = [(k, t) for k, t in want if k in KINDS]
    seen = {
        "key": case["sql"],
        "nontrivial": any(k == "str" for k, _ in verbatim),
        "sample": case["sql"],
        "events": {},
    }
    for k, _ in verbatim:
        name = KINDS[k] + " compared"
        seen["events"][name] = seen["events"].get(name, 0) + 1
    out, problem = work.as_text(sqlvalidator, case["sql"])
    if problem:
        return ["%s\n%s" % (problem, case["sql"])], seen
    # each of them stands in the output, in order, and between them only other tokens
    at = 0
    for k, text in verbatim:
        found = out.find(text, at)
        if found < 0:
            return ["%r is missing or altered\n%s\n=>\n%s" % (text, case["sql"], out)], seen
        at = found + len(text)
    try:
        got = lex.scan(out)
    except lex.LexError as e:
        return ["the formatted text cannot be read (%s)\n%s\n=>\n%s" % (e, case["sql"], out)], seen
    if len(got) != len(want):
        i = work.first_difference([t.lower() for _, t in want], [t.lower() for _, t in got])
        return [
            "literals swallow or become tokens near %r / %r\n%s\n=>\n%s"
            % (want[i : i + 4], got[i : i + 4], case["sql"], out)
        ], seen
    for (k, text), (_, new) in zip(want, got):
        if k in KINDS and text != new:
            return ["%r became %r\n%s\n=>\n%s" % (text, new, case["sql"], out)], seen
    return [], seen
