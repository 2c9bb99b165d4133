"""The code under test, through its public surface."""
from lib.harness import Violation

import sqlvalidator


def raised(e):
    return "{}: {}".format(type(e).__name__, e)[:300]


def fmt(sql, what="formatting a supported query raised"):
    """The formatted text; a supported query must have one."""
    try:
        out = sqlvalidator.format_sql(sql)
    except Exception as e:
        raise Violation("{} {}\n{}".format(what, raised(e), sql))
    if not isinstance(out, str):
        raise Violation("format_sql returned {!r}\n{}".format(out, sql))
    return out


def try_fmt(sql):
    """('ok', text) or ('raise', exception name)"""
    try:
        return ("ok", sqlvalidator.format_sql(sql))
    except Exception as e:
        return ("raise", type(e).__name__)


def verdict(sql, what="validating a supported query raised"):
    """(is_valid, errors)"""
    try:
        query = sqlvalidator.parse(sql)
        valid = query.is_valid()
        errors = query.errors
    except Exception as e:
        raise Violation("{} {}\n{}".format(what, raised(e), sql))
    if not isinstance(valid, bool) or not isinstance(errors, list):
        raise Violation("is_valid() returned {!r}, errors is {!r}\n{}".format(valid, errors, sql))
    if valid != (errors == []) or not all(isinstance(e, str) and e for e in errors):
        raise Violation("is_valid() returned {!r} with errors {!r}\n{}".format(valid, errors, sql))
    return valid, errors
