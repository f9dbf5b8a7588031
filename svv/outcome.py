"""What the API gives for one text, in a comparable form."""


def kind(e):
    return "raises " + type(e).__name__


def of_format(obj):
    try:
        return obj.format()
    except Exception as e:
        return kind(e)


def of_valid(obj):
    try:
        return bool(obj.is_valid())
    except Exception as e:
        return kind(e)


def of_format_sql(sqlvalidator, text):
    try:
        return sqlvalidator.format_sql(text)
    except Exception as e:
        return kind(e)


def fresh(sqlvalidator, text):
    """Each answer on an object of its own."""
    obj = sqlvalidator.parse(text)
    valid = of_valid(obj)
    return {
        "format": of_format(sqlvalidator.parse(text)),
        "format_sql": of_format_sql(sqlvalidator, text),
        "valid": valid,
        "errors": list(obj.errors),
    }
