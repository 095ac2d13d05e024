"""C12: LTL parsing follows the documented grammar."""
from checks import parsing

FUNCTIONS = parsing.functions("ltl")
ASSUMPTIONS = parsing.ASSUMPTIONS


def bounds(tier):
    return parsing.bounds(10, 12, tier)


def tasks(tier):
    n, natives = (10, 40) if tier == "quick" else (12, 200)
    return parsing.tasks("ltl", n, natives, tier)
