"""C13: Past LTL parsing follows the documented grammar."""
from checks import parsing

FUNCTIONS = parsing.functions("pltl")
ASSUMPTIONS = parsing.ASSUMPTIONS


def bounds(tier):
    return parsing.bounds(11, 13, tier)


def tasks(tier):
    n, natives = (11, 40) if tier == "quick" else (13, 200)
    return parsing.tasks("pltl", n, natives, tier)
