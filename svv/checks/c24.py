"""C24: a part of a query is laid out the same wherever it stands."""
import random

from .. import gen, lex, q, render, work

PROPERTY = "C24"
RULE = (
    "random supported queries taken apart: the whole must be its clauses, select items, GROUP BY and "
    "ORDER BY items as each is laid out in a query of its own, and random nested queries put into "
    "FROM, joins, WITH, IN, EXISTS, scalar operands and set operations must stand there as they are "
    "laid out alone, one level deeper; distinct = distinct composed texts of several lines"
)
ASSUMPTIONS = ["the parts are formatted by the code under test itself; no model of the layout is involved"]
CASES = {"quick": 100000, "thorough": 1000000}
REQUIRED = {"clauses": 15000, "items": 10000, "nested": 20000, "set operations": 2000, "terminated": 2000}


def indent(text):
    """One level deeper; lines inside of literals stay where they are"""
    out, i, start = [], 0, 0
    while i < len(text):
        if text[i] in "'\"`":
            end = lex._string_end(text, i)
            out.append(text[start:i].replace("\n", "\n "))
            out.append(text[i:end])
            i = start = end
        else:
            i += 1
    out.append(text[start:].replace("\n", "\n "))
    return " " + "".join(out)


# (the text around a nested query, its layout, levels)
ONE = [
    ("select x from ( %s ) a", "SELECT x\nFROM (\n%s\n) a", 1),
    ("select x from ( %s )", "SELECT x\nFROM (\n%s\n)", 1),
    ("select x from ( %s ) as a where x = 1 limit 3 ;", "SELECT x\nFROM (\n%s\n) AS a\nWHERE x = 1\nLIMIT 3;", 1),
    ("select x from ( select y from ( %s ) as b ) a", "SELECT x\nFROM (\n SELECT y\n FROM (\n%s\n ) AS b\n) a", 2),
    ("select x from t join ( %s ) as b on c = d", "SELECT x\nFROM t\nJOIN (\n%s\n) AS b\nON c = d", 1),
    ("select x from t left join ( %s ) b using ( c ) group by 1", "SELECT x\nFROM t\nLEFT JOIN (\n%s\n) b\nUSING (c)\nGROUP BY 1", 1),
    ("with n as ( %s ) select x from n", "WITH n AS (\n%s\n)\nSELECT x\nFROM n", 1),
    ("with n as ( %s ) , m as ( select 1 ) select x from n", "WITH n AS (\n%s\n),\nm AS (\n SELECT 1\n)\nSELECT x\nFROM n", 1),
    ("with m as ( select 1 ) , n as ( %s ) select x from n", "WITH m AS (\n SELECT 1\n),\nn AS (\n%s\n)\nSELECT x\nFROM n", 1),
    ("select x from t where exists ( %s )", "SELECT x\nFROM t\nWHERE\n EXISTS(\n%s\n )", 2),
    ("select x from t where y in ( %s )", "SELECT x\nFROM t\nWHERE\n y IN (\n%s\n )", 2),
    ("select x from t having y not in ( %s ) order by z", "SELECT x\nFROM t\nHAVING\n y NOT IN (\n%s\n )\nORDER BY z", 2),
    ("select x from t where y = ( %s )", "SELECT x\nFROM t\nWHERE\n y = (\n%s\n )", 2),
    ("select ( %s ) as n from t", "SELECT (\n%s\n) AS n\nFROM t", 1),
    ("select y , ( %s ) as n from t", "SELECT\n y,\n (\n%s\n ) AS n\nFROM t", 2),
    ("select array ( %s ) , y", "SELECT\n ARRAY(\n%s\n ),\n y", 2),
    ("select y from ( %s ) a , ( select 1 ) b", "SELECT y\nFROM (\n%s\n) a, (\n SELECT 1\n) b", 1),
]
LINE_LENGTH = 88
ONE_LINE = {
    "SELECT x\nFROM t\nWHERE\n EXISTS(\n%s\n )": "SELECT x\nFROM t\nWHERE EXISTS(%s)",
    "SELECT\n ARRAY(\n%s\n ),\n y": "SELECT\n ARRAY(%s),\n y",
}


def text_of(node):
    return render.render(node.tokens(), random.Random(0), "plain")


def part(**clauses):
    return text_of(q.Select(items=[q.Num("1")], **clauses))


def parts_of(s):
    """Queries that hold one clause of a SELECT each"""
    out = [text_of(q.Select(items=s.items, quantifier=s.quantifier, distinct_on=s.distinct_on))]
    if s.source is not None:
        out.append(part(source=s.source))
    if s.where is not None:
        out.append(part(where=s.where))
    if s.group:
        out.append(part(group=s.group, each=s.each, rollup=s.rollup))
    if s.having is not None:
        out.append(part(having=s.having))
    if s.order:
        out.append(part(order=s.order))
    if s.limit is not None:
        out.append(part(limit=s.limit))
    if s.offset is not None:
        out.append(part(offset=s.offset))
    return out


def make(rng, tier):
    sizes = work.SIZES if tier == "quick" or rng.random() < 0.9 else work.HUGE
    options = {}
    if rng.random() < 0.2:
        options["names"] = [n + "_" + rng.choice(work.STRETCH) * rng.randint(1, 3) for n in gen.NAMES]
    g = gen.Gen(rng, size=rng.choice(sizes), depth=rng.choice((1, 2, 2, 3)), **options)
    r = rng.random()
    if r < 0.3:
        s = g.select(g.depth)
        if not g.maybe(0.5) or s.source is None:
            s.where = s.where or g.condition(2)
        return {"kind": "clauses", "whole": text_of(s), "parts": parts_of(s)}
    if r < 0.5:
        what = rng.choice(("select", "select", "group by", "order by"))
        make_one = {"select": g.select_item, "group by": g.group_item, "order by": g.order_item}[what]
        items = [make_one(2) for _ in range(rng.choice((2, 2, 3, 4, 7)))]
        if what == "select":
            quantifier = rng.choice((None, None, "distinct", "all"))
            whole = q.Select(items=items, quantifier=quantifier)
            parts = [text_of(q.Select(items=[e])) for e in items]
        else:
            key = what.split()[0]
            whole = q.Select(items=[q.Num("1")], **{key: items})
            parts = [part(**{key: [e]}) for e in items]
            quantifier = None
        return {"kind": "items", "what": what, "quantifier": quantifier, "whole": text_of(whole), "parts": parts}
    if r < 0.9:
        inner = g.subselect(g.depth)
        k = rng.randrange(len(ONE))
        inner_text = text_of(inner)
        return {"kind": "nested", "whole": ONE[k][0].replace("%s", inner_text), "parts": [inner_text], "k": k}
    if r < 0.96:
        parts, words = [], []
        for i in range(rng.choice((2, 2, 3, 4))):
            s = g.combined_part(2, first=True)
            parts.append(text_of(s))
            word = rng.choice(gen.SETOPS)
            words.append("union" if s.tokens()[-1][1] == "*" and word.startswith("except") else word)
        whole = parts[0] + "".join(" %s %s" % (w, p) for w, p in zip(words, parts[1:]))
        return {"kind": "set operations", "whole": whole, "parts": parts, "words": words}
    inner = text_of(g.query()).rstrip("; ")
    return {"kind": "terminated", "whole": inner + " ;", "parts": [inner]}


def compose(case, outs):
    kind = case["kind"]
    if kind == "clauses":
        out = outs[0]
        for text in outs[1:]:
            if not text.startswith("SELECT 1\n"):
                return None
            out += text[len("SELECT 1"):]
        return out
    if kind == "items":
        head = {"select": "SELECT ", "group by": "SELECT 1\nGROUP BY ", "order by": "SELECT 1\nORDER BY "}[case["what"]]
        if not all(text.startswith(head) for text in outs):
            return None
        first = head[:-1] + (" " + case["quantifier"].upper() if case["quantifier"] else "")
        return first + "\n" + ",\n".join(indent(text[len(head):]) for text in outs)
    if kind == "nested":
        _, layout, levels = ONE[case["k"]]
        text = outs[0]
        if "\n" not in text and len(text) <= LINE_LENGTH and layout in ONE_LINE:
            # a short argument of one line stays on the line of its call
            return ONE_LINE[layout] % text
        for _ in range(levels):
            text = indent(text)
        return layout.replace("%s", text)
    if kind == "set operations":
        return outs[0] + "".join("\n%s\n%s" % (w.upper(), text) for w, text in zip(case["words"], outs[1:]))
    return outs[0] + ";"


def judge(case):
    import sqlvalidator

    seen = {"key": case["whole"], "sample": case["whole"], "events": {}}
    outs = []
    for sql in [case["whole"]] + case["parts"]:
        out, problem = work.as_text(sqlvalidator, sql)
        if problem:
            return ["%s\n%s" % (problem, sql)], seen
        outs.append(out)
    whole, outs = outs[0], outs[1:]
    want = compose(case, outs)
    seen["nontrivial"] = "\n" in whole
    seen["events"] = {case["kind"]: 1, "parts formatted": len(outs)}
    if want is None:
        return ["a part alone has another beginning\n%s\n%r" % (case["whole"], outs)], seen
    if whole != want:
        return ["%s\nis formatted to\n%s\nbut its parts make\n%s" % (case["whole"], whole, want)], seen
    return [], seen
