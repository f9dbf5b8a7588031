"""
An SQL lexer independent of the one under test.

scan(text) gives (kind, text) pairs; kinds: word, num, str, op.
"""
import re

_TOKEN = re.compile(
    r"""
    (?P<ws>[ \t\r\n\f\v]+)
  | (?P<par>%\(\w+\)s|%s(?!\w)|\{\w+\}|\$\d+|[:@]\w+)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?(?!\w))
  | (?P<word>[^\W\d](?:[\w$]|:(?=\w))*|\d\w*)
  | (?P<op><>|<=|>=|<<|>>|\|\||!=|%%|[^\w\s])
    """,
    re.X,
)
_PREFIXED = re.compile(r"[rR](?=['\"])")


class LexError(Exception):
    pass


def _string_end(text, i):
    quote = text[i]
    i += 1
    while i < len(text):
        c = text[i]
        if c == "\\":
            i += 2
        elif c == quote:
            if text[i + 1 : i + 2] == quote:
                i += 2
            else:
                return i + 1
        else:
            i += 1
    raise LexError("unterminated literal")


def scan(text):
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in "'\"`" or _PREFIXED.match(text, i):
            start = i
            if c in "rR":
                i += 1
            i = _string_end(text, i)
            out.append(("str", text[start:i]))
            continue
        m = _TOKEN.match(text, i)
        if m is None:
            raise LexError("cannot read %r" % text[i : i + 10])
        if m.lastgroup == "num" and m.group().startswith("."):
            # a field of something, not a number: a.1
            if out and text[i - 1 : i].strip() and out[-1][0] in ("word", "str"):
                out.append(("op", "."))
                i += 1
                continue
        if m.lastgroup != "ws":
            kind = "word" if m.lastgroup == "par" else m.lastgroup
            out.append((kind, m.group()))
        i = m.end()
    return out


def folded(tokens):
    """Token texts with the letter case of words taken out."""
    return [t if k == "str" else t.lower() for k, t in tokens]
