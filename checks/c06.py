"""C06: formula equality is structural."""
import z3

from checks.common import Lazy, attempt, describe

FUNCTIONS = ["__eq__ of every formula and term class of syntax.base, pl, ltl, pltl, ldl, fol"]
ASSUMPTIONS = [
    "operands below the compared formulas compare structurally (the induction hypothesis: the same statement for "
    "smaller formulas)",
    "formulas are those the public constructors build; the formula cache remembers nothing (C09)"]
GROUPS = {"PL": ["PL"], "LTL": ["LTL"], "PLTL": ["PLTL"], "LDL": ["LDL"], "RE": ["RE"], "FOL": ["FOL"],
          "TERM": ["TERM"]}
ALL = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL", "TERM"]


def bounds(tier):
    return "operators with at most %d operands; operands arbitrary" % (3 if tier == "quick" else 4)


class Duck:
    """Not a formula, but looks like one."""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, n):
        return getattr(self.f, n)


def pair(la, lb, history=False):
    def h(ctx):
        f, g = ctx.formula(la, eqmode="real"), ctx.formula(lb, eqmode="real")
        if history:
            for x in (f, g):
                ctx.kind(x)
                k = ctx.choose(3)
                if k == 1:
                    hash(x)
                elif k == 2:
                    attempt(repr, x)
        r, e = attempt(lambda: f == g)
        ctx.require(e is None, "== raised %s" % (e and describe(e)))
        ctx.require(ctx.same(f, g) == bool(r), "== is not structural equality")
        r2, e = attempt(lambda: f != g)
        ctx.require(e is None and bool(r2) == (not r), "!= is not the negation of ==")
        r3, e = attempt(lambda: g == f)
        ctx.require(e is None and bool(r3) == bool(r), "== is not symmetric")
        ctx.require(ctx.unmodified(f) and ctx.unmodified(g), "comparing modified a formula")

    return h


def reflexive(l):
    def h(ctx):
        f = ctx.formula(l, eqmode="real")
        ctx.kind(f)
        r, e = attempt(lambda: f == f)
        ctx.require(e is None and bool(r), "a formula is not equal to itself")

    return h


def stranger(l):
    """Comparing with what is not a formula."""
    def h(ctx):
        f = ctx.formula(l, eqmode="real")
        k = ctx.kind(f)
        other = [None, 0, True, "a", (), frozenset(), Duck(f), type(f), object(), [], k.get(f),
                 frozenset(k.get(f)), getattr(f, "name", "x"), f.logic if hasattr(f, "logic") else 1][ctx.choose(14)]
        r, e = attempt(lambda: f == other)
        ctx.require(e is None, "comparing with something that is not a formula raised %s" % (e and describe(e)))
        ctx.require(not r, "a formula equals an object that is not a formula")
        r, e = attempt(lambda: other == f)
        ctx.require(e is None and not r, "an object that is not a formula equals a formula")
        r, e = attempt(lambda: f != other)
        ctx.require(e is None and bool(r), "!= with something that is not a formula")

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    fb = {"depth": 1, "budget": 20, "arities": {"Predicate": (0, 1, 2), "Function": (1, 2)}}
    lazy = {"max_arity": 4 if deep else 3, "max_names": 3,
            "arities": {"Predicate": (0, 1, 2), "Function": (1, 2)}}
    b = 600 if deep else 60
    for l in ALL:
        out.append(Lazy("pair %s" % l, pair(l, l), b, lazy=lazy, fallback=fb, guard={"patch_hash": False}))
        out.append(Lazy("history %s" % l, pair(l, l, True), b, lazy=dict(lazy, max_arity=3 if deep else 2),
                        fallback=fb, guard={"patch_hash": False}))
        rest = [x for x in ALL if x != l]
        out.append(Lazy("pair %s/other" % l, pair(l, rest), b, lazy=dict(lazy, max_arity=2), fallback=fb,
                        guard={"patch_hash": False}))
        out.append(Lazy("reflexive %s" % l, reflexive(l), b, lazy=lazy, fallback=fb, guard={"patch_hash": False}))
        out.append(Lazy("stranger %s" % l, stranger(l), b, lazy=dict(lazy, max_arity=2), fallback=fb,
                        guard={"patch_hash": False}))
    return out
