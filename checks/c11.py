"""C11: Propositional logic parsing follows the documented grammar."""
from checks import parsing

FUNCTIONS = parsing.functions("pl")
ASSUMPTIONS = parsing.ASSUMPTIONS


def bounds(tier):
    return parsing.bounds(12, 14, tier)


def tasks(tier):
    n, natives = (12, 40) if tier == "quick" else (14, 200)
    return parsing.tasks("pl", n, natives, tier)
