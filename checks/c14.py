"""C14: LDL parsing follows the documented grammar."""
from checks import parsing

FUNCTIONS = parsing.functions("ldl")
ASSUMPTIONS = parsing.ASSUMPTIONS


def bounds(tier):
    return parsing.bounds(11, 13, tier)


def tasks(tier):
    n, natives = (11, 50) if tier == "quick" else (13, 200)
    return parsing.tasks("ldl", n, natives, tier)
