"""Other names and literals for a query: what they are called must not matter."""
import random
import re
import string

from .gen import KEYWORD_IDS, RESERVED, TYPES

# words that mean something somewhere, to this package, to SQL, or to Python
ODD = (
    "year week hour minute second quarter dayofweek dayofyear date_ day_ month_ time datetime value key type name text "
    "first last next offset_x limit_1 row rownum rank index position number data start stop sum max min avg count_1 "
    "interval unnest_1 array struct json ordinal safe_offset exists_1 any some every lower upper coalesce if_1 iff to "
    "for set table view into insert update delete create top percent only ties fetch qualify_1 sample escape symmetric "
    "current unbounded preceding following exclude include self cls None True_ False_ str int_ object list dict "
    "selects selected fromage wherever grouping ordered having_x limits union_ joined onto using_ andy orc noted inner_ "
    "casey whenever thence elsewhere ended nullable overs partitions rows_ ranges asc_ descr distinctly allx eachx by_ "
    "_ __ _a a_ a1 x0 z9 A B ID Id iD CamelCase UPPER_CASE mixed_Case_1 t_1 u_2 q_3 src_4 col column_1 field alias_x "
    "e e1 e5 b x n rb br R2 r_ rr lateral_x natural_ window_ cross_1 left_x right_x full_x outer_x "
    "p$v a$b \u00e9t\u00e9 na\u00efve \u540d\u524d \u00df_x \u03b1\u03b2\u03b3 \u0416 \ua000 \u0130x"
).split()
MESSAGE = set(
    "the column columns was is not found in alias ambiguous argument of must be boolean type missing on or using "
    "variables contain position limit offset where having group order by negative integer and it select list "
    "join null int float str bool object true false case when array of".split()
)
BAD = RESERVED | set(TYPES) | set(KEYWORD_IDS) | MESSAGE | {"left", "right", "exists", "extract", "array"}
LETTERS = string.ascii_lowercase * 4 + string.digits + "_" * 4
INSIDE = string.ascii_letters + string.digits + " .,;:()[]{}+-*/=<>!|&^%?@#~_$" + "\u00e9\u65e5"
BITS = ["select ", " from ", " and ", " or ", "(", ")", "case ", " end", "''", "--", ", ", ";", " group by "]
NAME = re.compile(r"[^\W\d][\w$]*\Z")


def new_name(rng, old, same_length, taken):
    for _ in range(30):
        if same_length:
            options = [w for w in ODD if len(w) == len(old)]
            if options and rng.random() < 0.5:
                name = rng.choice(options)
            else:
                name = rng.choice("abcdefghxyz_") + "".join(rng.choice(LETTERS) for _ in old[1:])
        else:
            name = rng.choice(ODD)
            if rng.random() < 0.4:
                name += "_" + "".join(rng.choice(LETTERS) for _ in range(rng.randint(1, 12)))
        if name.lower() not in BAD and name.lower() not in taken:
            taken.add(name.lower())
            return name
    return old


def names(rng, tokens, same_length):
    """{old: new}: one to one, also when the case of letters is left out"""
    old = sorted({t for k, t in tokens if k == "id" and NAME.match(t) and t.lower() not in BAD})
    spelled = {}
    for t in old:
        spelled.setdefault(t.lower(), []).append(t)
    # also what a quoted name may hold, and functions
    taken = {t.lower() for _, t in tokens} | {t.lower().strip("'\"`") for _, t in tokens}
    chosen = [t for t in old if len(spelled[t.lower()]) == 1]
    if rng.random() < 0.3 and chosen:
        # only one of them: its name alone makes the difference
        chosen = [rng.choice(chosen)]
    return {t: new_name(rng, t, same_length, taken) for t in chosen}


def new_body(rng, body):
    """Other content of the same length, line breaks at the same places"""
    out = []
    while len(out) < len(body):
        if rng.random() < 0.2:
            out += rng.choice(BITS)
        else:
            out.append(rng.choice(INSIDE))
    out = out[: len(body)]
    for i, c in enumerate(body):
        if c == "\n":
            out[i] = "\n"
    # quotes stay in pairs
    return "".join(out).replace("'", "_")


def apply(rng, tokens, mapping, numbers=False, quotes="'\"`"):
    """The tokens with other names, literals and, if asked for, numbers"""
    bodies = {}
    out = []
    for kind, text in tokens:
        if kind == "id":
            text = mapping.get(text, text)
        elif kind == "str":
            prefix = text[: len(text) - len(text.lstrip("rR"))]
            quote, body = text[len(prefix)], text[len(prefix) + 1 : -1]
            if quote != "'" and body in mapping:
                text = prefix + quote + mapping[body] + quote
            elif quote in quotes:
                if text not in bodies:
                    bodies[text] = prefix + quote + new_body(rng, body) + quote
                text = bodies[text]
        elif kind == "num" and numbers:
            text = re.sub(r"\d", lambda m: rng.choice(string.digits), text)
        out.append((kind, text))
    return out
