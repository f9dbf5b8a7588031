"""C05: the layout of the formatted text is the documented one."""
import re

from .. import lex, q, render, work

PROPERTY = "C05"
RULE = (
    "random supported SELECT queries in random layouts, compared with the layout the reference "
    "printer of svv/q.py computes, and the corpus through the layout lint; distinct = distinct "
    "input texts whose output has several lines"
)
ASSUMPTIONS = [
    "svv/q.py states the documented style (README, tests) as the pinned tree lays queries out",
]
CASES = {"quick": 120000, "thorough": 1000000}
REQUIRED = {
    "outputs compared": 20000, "with at_the_limit": 500, "broken chains": 500, "corpus": 100,
}
STARTS = re.compile(
    r"\s*(SELECT|FROM|WHERE|GROUP (EACH )?BY|HAVING|ORDER BY|LIMIT|OFFSET|ON|USING|"
    r"((INNER|LEFT|RIGHT|FULL|CROSS|OUTER|EACH) )*JOIN|UNION|INTERSECT|EXCEPT|WITH)\b"
)


def make(rng, tier):
    if rng.random() < 0.05:
        sql = work.corpus_layout(rng, rng.choice(work.CORPUS))
        return {"sql": sql, "want": None, "used": ["corpus"]}
    node, used = work.query(rng, tier)
    return {"sql": render.render(node.tokens(), rng), "want": q.formatted(node), "used": sorted(used)}


def fixed(tier):
    return [{"sql": s, "want": None, "used": ["corpus"]} for s in work.CORPUS]


def lint(out):
    """What holds for the layout of any output, whatever the query."""
    # literals may hold anything
    plain = []
    i = 0
    for kind, text in lex.scan(out):
        at = out.index(text, i)
        plain.append(out[i:at])
        plain.append("S" * len(text) if kind == "str" else text)
        i = at + len(text)
    plain = "".join(plain) + out[i:]
    problems = []
    if plain != plain.strip():
        problems.append("blanks around the text")
    before = 0
    for line in plain.split("\n"):
        if "\t" in line:
            problems.append("tab")
        if not line.strip():
            problems.append("blank line")
        if line != line.rstrip():
            problems.append("trailing blank")
        if re.search(r"\S  ", line):
            problems.append("several blanks in a line")
        indent = len(line) - len(line.lstrip())
        if indent > before + 3:
            problems.append("indentation jumps")
        before = indent
        for m in re.finditer(r"\b(SELECT|FROM|WHERE|HAVING|GROUP BY)\b", line):
            word = m.group()
            head = line[: m.start()].rstrip()
            if word == "FROM" and ("EXTRACT(" in line or not head or "(" in head):
                continue
            if head and not (word == "WHERE" and head.endswith("(")):
                problems.append("%s does not start its line" % word)
    return ["%s in the layout" % p for p in problems]


def judge(case):
    import sqlvalidator

    seen = {"key": case["sql"], "sample": case["sql"]}
    out, problem = work.as_text(sqlvalidator, case["sql"])
    if problem:
        return ["%s\n%s" % (problem, case["sql"])], seen
    seen["nontrivial"] = "\n" in out
    seen["events"] = {"outputs compared": 1, "broken chains": int("\nAND " in out or "\nOR " in out)}
    for u in case["used"]:
        seen["events"]["with " + u if u != "corpus" else u] = 1
    want = case["want"]
    if want is None:
        problems = lint(out)
        if problems:
            return ["%s\n%s\n=>\n%s" % (problems[0], case["sql"], out)], seen
    elif out != want:
        return ["the layout of\n%s\nis\n%s\nbut should be\n%s" % (case["sql"], out, want)], seen
    return [], seen
