"""C22: what the package does not understand is refused, never mangled."""
import os

from .. import cli, dialects, lex, render, strict, work

PROPERTY = "C22"
RULE = (
    "texts beginning with SELECT or WITH that need not be supported: pieces of other dialects, alone "
    "and spliced into supported queries at any place, comments and prefixed literals at any place, and "
    "supported queries with tokens lost, doubled, exchanged, replaced or cut off; one in twenty also "
    "stands in a file that is formatted; distinct = distinct texts"
)
ASSUMPTIONS = [
    "svv/strict.py tells tokens, comments and literals apart; # is an operator, as in PostgreSQL",
    "the comma after the last selected value may go, as the repository's tests expect",
]
CASES = {"quick": 120000, "thorough": 1200000}
REQUIRED = {
    "refused": 20000, "kept": 10000, "dialect refused": 2000, "splice refused": 2000, "comment refused": 2000,
    "damage refused": 2000, "damage kept": 2000, "supported kept": 2000, "files refused": 300, "files kept": 300,
}
BLANKS = (" ", " ", " ", "\n", "  ", "\t", "\n    ")


def supported(rng, tier):
    if rng.random() < 0.25:
        tokens = [t for _, t in work.corpus_tokens(rng.choice(work.CORPUS))]
    else:
        tokens = [t for _, t in work.query(rng, tier)[0].tokens()]
    return tokens


def join(rng, tokens):
    plain = rng.random() < 0.5
    return "".join(t + (" " if plain else rng.choice(BLANKS)) for t in tokens).rstrip(" \t")


def dialect(rng):
    pick = rng.choice
    out = [pick(dialects.STARTS) if rng.random() < 0.25 else "select"]
    for i in range(rng.choice((1, 1, 2, 3))):
        e = pick(dialects.EXPRESSIONS) if rng.random() < 0.6 else pick(("a", "t.b", "f(x)", "1", "'x'", "*"))
        if rng.random() < 0.2:
            e += pick((" as x", " x", ' as "X y"'))
        if rng.random() < 0.15:
            e = pick(("f(%s)", "(%s)", "coalesce(1, %s, 2)", "case when %s then 1 end", "a and %s", "%s or b", "[%s]")) % e if "%" not in e else e
        out += [","] * bool(i) + [e]
    if rng.random() < 0.85:
        out += ["from", pick(("t", "t as u", "a.b.c", "(select 1) x", "t join u on t.a = u.a", "t, u", "`p.d.t`"))]
        if rng.random() < 0.25:
            out.append(pick(dialects.CLAUSES))
        if rng.random() < 0.4:
            out += [pick(("where", "having")), pick(dialects.EXPRESSIONS)]
            if rng.random() < 0.3:
                out += [pick(("and", "or")), pick(dialects.EXPRESSIONS)]
        if rng.random() < 0.15:
            out += [pick(("group by", "order by")), pick(dialects.EXPRESSIONS)]
        if rng.random() < 0.5:
            out.append(pick(dialects.CLAUSES))
    return " ".join(out)


def splice(rng, tokens):
    piece = rng.choice(dialects.EXPRESSIONS if rng.random() < 0.6 else dialects.CLAUSES)
    if rng.random() < 0.3:
        # in the place of an operand
        spots = [i for i, t in enumerate(tokens) if i and t[:1].isalnum() and t.lower() not in work.SURE]
        if spots:
            i = rng.choice(spots)
            return tokens[:i] + [piece] + tokens[i + 1 :]
    i = rng.randint(1, len(tokens))
    return tokens[:i] + [piece] + tokens[i:]


def comment(rng, tokens):
    tokens = list(tokens)
    for _ in range(rng.choice((1, 1, 1, 2, 4))):
        tokens.insert(rng.randint(1, len(tokens)), rng.choice(dialects.COMMENTS))
    return tokens


def prefixed(rng, tokens):
    spots = [i for i, t in enumerate(tokens) if i and t[0] in "'\""]
    if not spots:
        return comment(rng, tokens)
    i = rng.choice(spots)
    return tokens[:i] + [rng.choice(("b", "B", "x", "X", "n", "e", "E", "br", "rb", "bR")) + tokens[i]] + tokens[i + 1 :]


def damage(rng, tokens):
    tokens = list(tokens)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        i = rng.randrange(1, len(tokens)) if len(tokens) > 1 else 0
        what = rng.choice("ddiiirxscq")
        if what == "d" and len(tokens) > 1:
            del tokens[i]
        elif what == "i":
            tokens.insert(i + 1, rng.choice(dialects.WORDS))
        elif what == "r":
            tokens[i] = rng.choice(dialects.WORDS)
        elif what == "x":
            tokens.insert(i, tokens[i])
        elif what == "s":
            j = rng.randrange(1, len(tokens)) if len(tokens) > 1 else 0
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif what == "c":
            tokens = tokens[: i + 1]
        elif what == "q":
            tokens[i] = tokens[i][:-1] or "'"
    return tokens


def make(rng, tier):
    r = rng.random()
    if r < 0.2:
        kind, sql = "dialect", dialect(rng)
    else:
        tokens = supported(rng, tier)
        if r < 0.28:
            kind = "supported"
        elif r < 0.48:
            kind, tokens = "splice", splice(rng, tokens)
        elif r < 0.58:
            kind, tokens = "comment", comment(rng, tokens)
        elif r < 0.63:
            kind, tokens = "prefix", prefixed(rng, tokens)
        else:
            kind, tokens = "damage", damage(rng, tokens)
        sql = join(rng, tokens)
    return {"sql": sql, "kind": kind, "file": rng.random() < 0.05}


def fixed(tier):
    out = []
    for e in dialects.EXPRESSIONS:
        for frame in ("select %s", "select %s from t", "select a from t where %s", "select a, f(%s), b from t", "select %s as x from t"):
            out.append(frame.replace("%s", e))
    for c in dialects.CLAUSES:
        for frame in ("select a from t %s", "select a from t where a = 1 %s", "select a from (select b from t %s) x", "select a %s"):
            out.append(frame.replace("%s", c))
    out += ["%s a from t" % s for s in dialects.STARTS]
    for c in dialects.COMMENTS:
        for k in range(6):
            words = ["select", "a,", "b", "from", "t", "where", "c", "=", "1"]
            words.insert(k + 2, c)
            out.append(" ".join(words))
            out.append(" ".join(words).replace("b", "'b'"))
    return [{"sql": s, "kind": "listed", "file": i % 9 == 0} for i, s in enumerate(out)]


def content(text):
    try:
        return strict.content(text)
    except lex.LexError:
        return "".join(text.lower().split())


def file_problems(case, formatted, events):
    """The query in a file next to one that is to be formatted"""
    sql = case["sql"]
    if sql.lower().split()[:1] != ["select"] or len(sql.split()) < 2 or not sql[:6].isalpha():
        return []
    path = os.path.join(cli.scratch(), "a.py")
    before = ("q = %r\nother = 'select  1'\n" % sql).encode("utf-8", "surrogatepass")
    with open(path, "wb") as f:
        f.write(before)
    # named or found in the folder
    run = cli.run(["--format", "." if len(sql) % 2 else "a.py"], cli.BASE)
    with open(path, "rb") as f:
        after = f.read()
    if run.crash:
        return ["the run stopped: %s" % run.crash]
    if formatted is None:
        events["files refused"] = 1
        if after != before or run.writes:
            return ["a file with a query that is refused is written\n%s\n=>\n%s" % (before, after)]
        if "a.py" not in run.out + run.err:
            return ["a file with a query that is refused is not reported\n%s\n%s" % (before, run.out)]
        return []
    events["files kept"] = 1
    names = {}
    try:
        exec(compile(after, "a.py", "exec"), names)
    except Exception as e:
        return ["the file is broken: %r\n%s\n=>\n%s" % (e, before, after)]
    if content(names["q"]) != content(sql):
        return ["the query in the file has other tokens\n%s\n=>\n%s" % (before, after)]
    return []


def judge(case):
    import sqlvalidator

    sql, kind = case["sql"], case["kind"]
    seen = {"key": sql, "sample": sql, "events": {}}
    answers = []
    for form in (sqlvalidator.format_sql, lambda text: sqlvalidator.parse(text).format()):
        try:
            answers.append(form(sql))
        except Exception:
            answers.append(None)
    out, other = answers
    if out != other:
        return ["format_sql gives %r, parse().format() %r\n%s" % (out, other, sql)], seen
    what = "refused" if out is None else "kept"
    seen["events"] = {what: 1, "%s %s" % (kind, what): 1}
    problems = []
    if out is not None:
        want, got = content(sql), content(out)
        if want != got:
            i = work.first_difference(want, got)
            problems.append(
                "near %r the tokens change to %r\n%s\n=>\n%s" % (want[i : i + 4], got[i : i + 4], sql, out)
            )
    if case["file"] and not problems:
        problems = file_problems(case, out, seen["events"])
    return problems, seen
