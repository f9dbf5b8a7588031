"""Workloads shared by the formatting checks."""
import json
import os

from . import gen, lex, q, render

SIZES = (3, 4, 6, 8, 12, 20, 35)
HUGE = (80, 150)
STRETCH = ("long", "very_long", "x", "abcdefgh")

with open(os.path.join(os.path.dirname(__file__), "corpus.json"), encoding="utf-8") as f:
    CORPUS = json.load(f)


def query(rng, tier="quick", off=(), **more):
    """A random supported query: (node, features used)"""
    sizes = SIZES if tier == "quick" or rng.random() < 0.9 else HUGE
    if "names" not in more and rng.random() < 0.2:
        # long names make lines reach the limit
        more["names"] = [n + "_" + rng.choice(STRETCH) * rng.randint(1, 3) for n in gen.NAMES]
    g = gen.Gen(rng, size=rng.choice(sizes), depth=rng.choice((1, 2, 2, 3, 4)), off=off, **more)
    node = g.query()
    if rng.random() < 0.25:
        at_the_limit(rng, node, g)
    return node, g.used


def at_the_limit(rng, node, g):
    """
    Stretches a name of one AND/OR chain or call so that its one-line form comes close to
    the length where the layout changes.
    """
    spots = [n for n in q.walk(node) if isinstance(n, (q.Bool, q.Call)) and "\n" not in n.fmt()]
    if not spots:
        return
    spot = rng.choice(spots)
    if isinstance(spot, q.Bool):
        line = " ".join(e.fmt() for e in spot.operands) + "".join(" " + o for o in spot.ops)
    else:
        line = ", ".join(a.fmt() for a in spot.args)
    names = [n for n in q.walk(spot) if type(n) is q.Id]
    want = rng.randint(85, 91) - len(line)
    if names and want > 0:
        name = rng.choice(names)
        name.name += "_" + "x" * (want - 1)
        g.used.add("at_the_limit")


def layouts(rng, tokens, n):
    out = [render.render(tokens, rng, s) for s in ("plain", "tight", "loose")[: n - 1]]
    while len(out) < n:
        out.append(render.render(tokens, rng, "mixed"))
    return out


def as_text(sqlvalidator, sql):
    """format_sql, with a failure told as text: (text, problem)"""
    try:
        out = sqlvalidator.format_sql(sql)
    except Exception as e:
        return None, "formatting failed: %s: %s" % (type(e).__name__, e)
    if not isinstance(out, str):
        return None, "formatting gave %r" % (out,)
    return out, None


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


# -- the corpus in other layouts: a query is read by the independent lexer
# words that are keywords wherever they stand in the corpus
SURE = set(
    "select from where group by having order limit join left right full outer inner "
    "cross on using union intersect except with as and or not in is like between case when "
    "then else end null true false distinct over partition asc desc unnest cast filter rows "
    "range unbounded preceding following current row ignore respect nulls".split()
)


def corpus_tokens(sql):
    out = []
    tokens = lex.scan(sql)
    for i, (kind, text) in enumerate(tokens):
        if kind == "word":
            after_dot = i and tokens[i - 1][1] == "."
            if text.lower() in SURE and not after_dot:
                kind = "kw"
            elif i + 1 < len(tokens) and tokens[i + 1][1] == "(" and not after_dot:
                kind = "fn?"
            else:
                kind = "id"
        out.append((kind, text))
    return out


def corpus_layout(rng, sql):
    """
    The query in another layout. Blanks between operators and operands stay: the corpus
    holds symbols the lexers read differently when they touch.
    """
    tokens = [("id" if k == "fn?" else k, t) for k, t in corpus_tokens(sql)]
    return render.render(tokens, rng, rng.choice(("plain", "loose")))
