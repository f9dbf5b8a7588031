"""Execution and judgement shared by the validation checks."""
import random

from . import render, verdict, vgen


def ask(sqlvalidator, sql):
    """(valid, errors, problem)"""
    try:
        query = sqlvalidator.parse(sql)
        valid = query.is_valid()
        errors = query.errors
    except Exception as e:
        return None, None, "validation failed: %s: %s\n%s" % (type(e).__name__, e, sql)
    if type(valid) is not bool or not isinstance(errors, list):
        return None, None, "is_valid() gives %r with errors %r\n%s" % (valid, errors, sql)
    if valid is not (errors == []):
        return None, None, "is_valid() gives %r, errors %r\n%s" % (valid, errors, sql)
    if any(not isinstance(e, str) or not e for e in errors):
        return None, None, "an error has no message: %r\n%s" % (errors, sql)
    return valid, errors, None


def case(rng, faults, tier="quick"):
    size = rng.choice((6, 10, 16, 25) if tier == "quick" or rng.random() < 0.9 else (40, 70))
    s = vgen.scenario(rng, faults, size=size)
    sql = render.render(s.node.tokens(), rng, rng.choice(("plain", "plain", "tight", "loose", "mixed")))
    return {"sql": sql, "expect": [list(e) for e in s.expect], "used": sorted(s.used)}


def mixed(rng, kinds, tier):
    """A query with problems of the given kinds mostly, now and then with none or several kinds."""
    r = rng.random()
    if r < 0.15:
        faults = {}
    elif r < 0.35:
        faults = vgen.ALL
    else:
        faults = {k: {"column": 0.15, "boolean": 0.15}.get(k, 0.3) for k in kinds}
    return case(rng, faults, tier)


def judge(case, kinds):
    """
    Problems of the kinds are reported exactly where they were planted; any planted problem
    makes the query invalid.
    """
    import sqlvalidator

    sql, expect = case["sql"], [tuple(e) for e in case["expect"]]
    mine = [e for e in expect if e[0] in kinds]
    seen = {"key": sql, "sample": {"sql": sql, "expect": expect}, "nontrivial": bool(mine)}
    seen["events"] = events = {"planted": len(mine), "sound": int(not expect)}
    for e in mine:
        what = {"position": e[1:2], "limit": e[1:2], "boolean": e[2:3]}.get(e[0])
        if what:
            events["planted %s" % (what[0],)] = events.get("planted %s" % (what[0],), 0) + 1
    for u in case.get("used", ()):
        events["with " + u] = 1
    valid, errors, problem = ask(sqlvalidator, sql)
    if problem:
        return [problem], seen
    problems = []
    if expect and valid:
        problems.append("is_valid() is True, but wrong are %r\n%s" % (expect, sql))
    for e in dict.fromkeys(map(repr, mine)):
        e = next(m for m in mine if repr(m) == e)
        # positions and limits are reported clause by clause
        least = mine.count(e) if e[0] in ("position", "limit") else 1
        if sum(verdict.matches(e, error) for error in errors) < least:
            problems.append("%r is not reported (%d times) in %r\n%s" % (e, least, errors, sql))
    for error in errors:
        events["errors read"] = events.get("errors read", 0) + 1
        if verdict.kind_of(error) in kinds and not any(verdict.matches(e, error) for e in mine):
            problems.append(
                "%r is reported, but planted are %r\n%s" % (error, expect, sql)
            )
    return problems[:2], seen
