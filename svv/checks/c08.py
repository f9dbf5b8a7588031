"""C08: the verdict and the errors agree, and is_valid always answers."""
from .. import findings, render, valid, vgen, work

PROPERTY = "C08"
RULE = (
    "random supported queries, sound or with planted problems, the corpus, and queries that lost "
    "the BY of a GROUP, ORDER or PARTITION, the bracket after OVER or after the EXCEPT or REPLACE of a "
    "star, the AND of a BETWEEN or the first SELECT, asked for their verdict and "
    "errors several times; plus texts with tokens lost, doubled or cut off, for which only the "
    "agreement is checked; distinct = distinct query texts"
)
ASSUMPTIONS = ["supported queries are those svv/q.py and svv/vgen.py derive, and the corpus"]
CASES = {"quick": 80000, "thorough": 800000}
REQUIRED = {
    "supported": 20000, "invalid": 5000, "valid": 5000, "parse errors": 5000, "damaged": 5000,
}
BEFORE = ("GROUP", "ORDER", "PARTITION", "EACH")


def supported(rng, tier):
    if rng.random() < 0.5:
        return work.query(rng, tier)[0].tokens()
    return vgen.scenario(rng).node.tokens()


def between_ends(tokens):
    """Positions of the AND of each BETWEEN"""
    for start, token in enumerate(tokens):
        if token != ("kw", "BETWEEN") or tokens[start - 1][1] in ("ROWS", "RANGE"):
            continue
        depth = 0
        for i in range(start + 1, len(tokens)):
            kind, text = tokens[i]
            if kind == "str":
                continue
            if text in ("(", "[") or (kind == "kw" and text == "CASE"):
                depth += 1
            elif text in (")", "]") or (kind == "kw" and text == "END"):
                depth -= 1
            if depth == 0 and token[0] == kind and text == "AND":
                yield i
                break
            if depth < 0:
                break


def damage(rng, tokens):
    """The query with one of the errors the parser tells by name, or None"""
    spots = []
    for i in range(1, len(tokens)):
        if tokens[i] == ("kw", "BY") and tokens[i - 1][1] in BEFORE:
            spots.append((i, []))
        if tokens[i][1] == "(" and tokens[i - 1][0] == "kw" and (
            tokens[i - 1][1] == "OVER" or tokens[i - 1][1] in ("EXCEPT", "REPLACE") and tokens[i - 2][1] == "*"
        ):
            spots.append((i, [("id", "w"), tokens[i]]))
    if rng.random() < 0.3:
        spots = []
    spots += [(i, [("kw", rng.choice(("OR", "TO")))]) for i in between_ends(tokens)]
    if not spots and rng.random() < 0.1:
        return unfinished(rng)
    if not spots and rng.random() < 0.05:
        spots = [(0, [("kw", rng.choice(("INSERT", "SELEC", "VALUES")))])]
    if not spots:
        return None
    i, new = rng.choice(spots)
    return tokens[:i] + new + tokens[i + 1 :]


def unfinished(rng):
    """A set operation whose last query is missing or goes on after its bracket"""
    one = rng.choice(("SELECT a FROM t", "SELECT a , b FROM ( SELECT a , b FROM t ) x WHERE a = 1", "SELECT 1"))
    word = rng.choice(("UNION", "UNION ALL", "INTERSECT", "EXCEPT DISTINCT", "UNION ALL SELECT b FROM u UNION"))
    end = rng.choice((
        "", ";", "ORDER BY 1", "LIMIT 1", "OFFSET 1", "( SELECT b FROM u ) WHERE c = 1", "u WHERE c", "( SELECT 1 ) GROUP BY 1",
        "( SELECT a FROM u ) HAVING a > 1", "( SELECT 1 ) FROM u",
    ))
    words = " ".join((one, word, end)).split()
    return [("id" if w.islower() else "op" if not w.isalnum() else "kw", w) for w in words]


def make(rng, tier):
    r = rng.random()
    if r < 0.03:
        return {"sql": rng.choice(work.CORPUS), "kind": "supported"}
    tokens = supported(rng, tier)
    kind = "supported"
    if r > 0.55:
        broken = damage(rng, tokens)
        if broken:
            tokens, kind = broken, "parse error"
    if kind == "supported" and r > 0.7:
        kind = "damaged"
        for _ in range(rng.choice((1, 1, 2, 4))):
            i = rng.randrange(1, len(tokens)) if len(tokens) > 1 else 0
            what = rng.choice("dddxcs")
            if what == "d":
                del tokens[i]
            elif what == "x":
                tokens.insert(i, tokens[i])
            elif what == "c":
                tokens = tokens[: i + 1]
            else:
                j = rng.randrange(len(tokens))
                tokens[i], tokens[j] = tokens[j], tokens[i]
            if not tokens:
                break
    return {"sql": render.render(tokens, rng, "plain"), "kind": kind}


def judge(case):
    import sqlvalidator

    sql, kind = case["sql"], case["kind"]
    seen = {"key": sql, "sample": case, "events": {}}
    if kind == "damaged":
        try:
            sqlvalidator.parse(sql).is_valid()
        except RecursionError:
            raise
        except Exception as e:
            # nothing is promised for such a text but that no wrong answer is given
            query = sqlvalidator.parse(sql)
            for _ in range(2):
                try:
                    answer = query.is_valid()
                except Exception:
                    continue
                return ["is_valid() raised %r, then gave %r\n%s" % (e, answer, sql)], seen
            seen["events"] = {"damaged": 1, "damaged, no answer": 1}
            return [], seen
    ok, errors, problem = valid.ask(sqlvalidator, sql)
    if problem:
        return [problem], seen
    if kind == "parse error" and ok:
        return ["reported valid\n%s" % sql], seen
    query = sqlvalidator.parse(sql)
    answers = []
    if query.errors != []:
        return ["errors before validation: %r" % query.errors], seen
    for _ in range(3):
        answers.append((query.is_valid(), list(query.errors)))
    if any(a != (ok, errors) for a in answers):
        return ["the answers differ: %r\n%s" % ([(ok, errors)] + answers, sql)], seen
    seen["events"] = {
        {"parse error": "parse errors"}.get(kind, kind): 1, "valid" if ok else "invalid": 1,
    }
    return [], seen


def fixed(tier):
    return [{"sql": s, "kind": "supported"} for s in work.CORPUS]


finding = findings.no_answer
