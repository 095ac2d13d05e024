"""Helpers shared by the harnesses."""
from vf import kinds
from vf.engine import Unsupported
from vf.runner import Custom, Lazy  # noqa: F401

LOGICS = ("PL", "LTL", "PLTL", "LDL", "FOL")


def attempt(f, *a):
    """(result, None) or (None, exception)."""
    try:
        return f(*a), None
    except Exception as e:
        return None, e


def base():
    return kinds.universe().base


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:80])


PTF = {"LTL": ["LTL.PropositionalTrue", "LTL.PropositionalFalse"],
       "PLTL": ["PLTL.PropositionalTrue", "PLTL.PropositionalFalse"]}
