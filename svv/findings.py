"""Does a known finding still show on the code under test?"""


def squash(text):
    return "".join(text.split()).lower()


def tokens_change(finding):
    """C01, C02: the formatted text is not the query, or there is none."""
    import sqlvalidator

    try:
        out = sqlvalidator.format_sql(finding["sql"])
    except Exception:
        return True
    if "keep" in finding:
        return finding["keep"] not in out
    return squash(out) != squash(finding["sql"])


def no_answer(finding):
    """C08: validation raises."""
    import sqlvalidator

    try:
        sqlvalidator.parse(finding["sql"]).is_valid()
    except Exception:
        return True
    return False


def refused(finding):
    """C09: a sound query is reported invalid."""
    import sqlvalidator

    return not sqlvalidator.parse(finding["sql"]).is_valid()
