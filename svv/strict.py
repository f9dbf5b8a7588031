"""
The atoms of any text, SQL this package does not support included: comments,
dollar-quoted texts and literals with a prefix are one atom each; outside of them
each word, each operator and each other character but blanks is one.
"""
import re

from . import lex

_COMMENT = re.compile(r"--[^\n]*|/\*.*?(?:\*/|$)", re.S)
# operators of several symbols; a sign after another one is an operator of its own
_OPERATORS = (
    "<-> <#> <=> ->> #>> -|- ||/ !~* !~~ ~~* |/ -> => == #> #- @> <@ @@ @? ^@ ^= |> && ** != <> <= >= << >> || := :: "
    "!~ ~* ~~ !< !> += -= *= /= %= &= |= ?| ?& %%"
).split()
_ATOM = re.compile(r"[\w$]+|" + "|".join(map(re.escape, sorted(_OPERATORS, key=len, reverse=True))) + r"|\S")
_DOLLAR = re.compile(r"(?<![\w$])\$(?:[^\W\d]\w*)?\$")
_PREFIX = re.compile(r"(?<![\w$.])(?:[rR][bB]|[bB][rR]|[bBeEnNrRxX])(?=['\"`])")


def scan(text):
    """(kind, text) pairs, words in lower case; LexError when a literal has no end"""
    out = []
    i = 0
    plain = 0

    def rest(end):
        if plain < end:
            out.extend(("word", w.lower()) for w in _ATOM.findall(text[plain:end]))

    while i < len(text):
        m = _COMMENT.match(text, i)
        if m:
            rest(i)
            out.append(("comment", m.group().strip()))
            i = plain = m.end()
            continue
        m = _DOLLAR.match(text, i)
        if m:
            rest(i)
            end = text.find(m.group(), m.end())
            if end < 0:
                raise lex.LexError("unterminated text")
            i = plain = end + len(m.group())
            out.append(("str", text[m.start() : i]))
            continue
        m = _PREFIX.match(text, i)
        if m or text[i] in "'\"`":
            rest(i)
            start = i
            i = plain = lex._string_end(text, m.end() if m else i)
            out.append(("str", text[start:i]))
            continue
        i += 1
    rest(len(text))
    return out


def content(text):
    """The atoms without the comma before FROM"""
    out = []
    for kind, atom in scan(text):
        if atom == "from" and out and out[-1] == ",":
            out.pop()
        out.append(atom)
    return out
