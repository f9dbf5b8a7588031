"""Compares what validation reported with what was planted."""
import re

WORD = {}


def holds(error, name):
    return re.search(r"(?<![\w])%s(?![\w])" % re.escape(name), error) is not None


def matches(expected, error):
    kind = expected[0]
    if kind == "column":
        return holds(error, expected[1]) and "argument of" not in error.lower()
    if kind == "position":
        return (
            expected[1] in error.upper()
            and re.search(r"(?<!\w)%d(?!\d)" % expected[2], error) is not None
        )
    if kind == "limit":
        return expected[1] in error.upper()
    if kind == "boolean":
        return any(holds(error, c) for c in expected[1]) and any(
            holds(error, t) for t in expected[2]
        )
    return "ON or USING" in error


def kind_of(error):
    """The sort of problem a message tells of, as far as its words show."""
    if "ON or USING" in error:
        return "join"
    if "position" in error and re.search(r"\b(GROUP|ORDER) BY\b", error.upper()):
        return "position"
    if "boolean" in error:
        return "boolean"
    if "LIMIT" in error or "OFFSET" in error:
        return "limit"
    return "column"


def compare(expect, valid, errors):
    problems = []
    if valid is not (not expect):
        problems.append(
            "is_valid() is %r, but planted problems are %r (errors %r)" % (valid, expect, errors)
        )
    for e in expect:
        if not any(matches(e, error) for error in errors):
            problems.append("%r is not reported in %r" % (e, errors))
    for error in errors:
        if not any(matches(e, error) for e in expect):
            problems.append("%r is reported, but nothing of the kind is wrong" % error)
    return problems
