"""Writes a token sequence down in one of its many layouts."""

WORDY = ("kw", "fn", "ty", "const", "id", "num", "par")
BLANKS = [" ", " ", "  ", "\n", "\n", "\t", "\n    ", " \n", "\n\t ", "   ", "\r\n", "\r\n  ", "\f"]
# operators the tokeniser tells apart only between blanks
SPACED = {"#", "%", "%%"}
KEYED = ("kw", "fn", "ty", "const")


def needs_blank(left, right):
    (lk, lt), (rk, rt) = left, right
    if lk == "op" and lt in SPACED or rk == "op" and rt in SPACED:
        return True
    if lk in WORDY and rk in WORDY:
        return True
    if lk == "str" and rk == "str":
        return True
    if lk in WORDY and rk == "str":
        # a word against a quote could be read as a string prefix
        return True
    if lk == "str" and rk in WORDY:
        return True
    if lt == "-" and rt == "-" or (lt, rt) in (("/", "*"), ("*", "/"), ("-", ">")):
        return True
    if lk == "op" and rk == "op" and lt + rt in ("||", "<>", "<=", ">=", "<<", ">>", "!="):
        return True
    if lk == "num" and (lt.endswith(".") or rt == ".") or rk == "num" and lt == ".":
        return True
    if lk == "op" and lt in "+-" and rk == "num":
        # 1e -5 against 1e-5
        return False
    if rk == "num" and rt.startswith(".") and lk not in ("op",):
        return True
    if lk == "op" and lt in "])" and (rk == "num" and rt.startswith(".")):
        return True
    if (lk == "par" or rk == "par") and (lk == "op" and lt not in "(),[]" or rk == "op" and rt not in "(),[];"):
        # placeholders are made of symbols themselves
        return True
    return False


def keyword_case(rng, text, style):
    if style == "upper":
        return text.upper()
    if style == "lower":
        return text.lower()
    if style == "title":
        return text.title()
    return "".join(rng.choice((c.upper(), c.lower())) for c in text)


def blank(rng, style):
    if style == "plain":
        return " "
    return "".join(rng.choice(BLANKS) for _ in range(rng.choice((1, 1, 1, 2))))


def render(tokens, rng, style=None):
    """
    style: plain   one blank between tokens, none around dots
           tight   a blank only where one is required
           loose   blanks of all sorts everywhere
           mixed   any of these at each place
    """
    style = style or rng.choice(("plain", "tight", "loose", "mixed", "mixed"))
    case = rng.choice(("upper", "lower", "lower", "title", "mixed"))
    out = []
    if style in ("loose", "mixed") and rng.random() < 0.3:
        out.append(blank(rng, style))
    prev = None
    for token in tokens:
        if prev is not None:
            if needs_blank(prev, token):
                out.append(blank(rng, "plain" if style == "tight" else style))
            elif style == "plain":
                out.append("" if glued(prev, token) else " ")
            elif style == "loose":
                out.append(blank(rng, style))
            elif style == "mixed" and rng.random() < 0.6:
                out.append(blank(rng, style))
        kind, text = token
        out.append(keyword_case(rng, text, case) if kind in KEYED else text)
        prev = token
    if style in ("loose", "mixed") and rng.random() < 0.3:
        out.append(blank(rng, style))
    return "".join(out)


def glued(left, right):
    return "." in (left[1], right[1]) or left[1] in ("(", "[") or right[1] in (")", "]", ",", "(", ";")
