"""C07: hashing agrees with equality and is stable."""
import z3

from checks.common import Lazy, attempt, base, describe

FUNCTIONS = ["__hash__ of every formula and term class", "helpers.cache_hash: Hashable, _cache_hash",
             "__eq__ of every formula and term class (to find a key again)"]
ASSUMPTIONS = [
    "operands of the hashed formulas hash consistently with equality (the induction hypothesis); their hash values are "
    "drawn from several pools, spread, descending and colliding, and equalities between them are symbolic",
    "formulas are those the public constructors build; the formula cache remembers nothing (C09)"]
ALL = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL", "TERM"]
ARITIES = {"Predicate": (0, 1, 2), "Function": (1, 2)}


def bounds(tier):
    return "operators with at most %d operands; operands arbitrary; hash values of operands from %d pools" % (
        (3, 3) if tier == "quick" else (4, 3))


def agree(l):
    def h(ctx):
        f, g = ctx.formula(l, eqmode="real"), ctx.formula(l, eqmode="real")
        ctx.assume_checked(ctx.same(f, g))
        a, e = attempt(hash, f)
        ctx.require(e is None, "hashing raised %s" % (e and describe(e)))
        b, e = attempt(hash, g)
        ctx.require(e is None, "hashing raised %s" % (e and describe(e)))
        ctx.require(a == b, "equal formulas have different hashes")
        d, e = attempt(lambda: {f: 1, g: 2})
        ctx.require(e is None and len(d) == 1 and d.get(f) == 2 and d.get(g) == 2,
                    "a formula used as a key is not found again by an equal formula")

    return h


def stable(l):
    def h(ctx):
        f = ctx.formula(l, eqmode="real")
        ctx.kind(f)
        a, e = attempt(hash, f)
        ctx.require(e is None, "hashing raised %s" % (e and describe(e)))
        d = {f: 1}
        k = ctx.choose(8)
        B = base()
        if k == 0:
            attempt(lambda: ~f)
        elif k == 1:
            attempt(lambda: B.And(f, ctx.formula(l)))
        elif k == 2:
            attempt(lambda: B.Equivalence(ctx.formula(l), f))
        elif k == 3:
            attempt(lambda: f == ctx.formula(l))
        elif k == 4:
            B.reset_cache()
        elif k == 5:
            for n in ("operands", "argument", "logic", "name", "variable", "formula", "tail_formula",
                      "regular_expression", "_frozenset_operands"):
                attempt(lambda: getattr(f, n))
        elif k == 6:
            attempt(lambda: B.Implies(f, ctx.formula(l)) >> f)
        elif k == 7:
            attempt(lambda: {f, ctx.formula(l)} & {f})
        b, e = attempt(hash, f)
        ctx.require(e is None and a == b, "the hash of a formula changed")
        ctx.require(d.get(f) == 1, "a formula used as a key is lost")

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    b = 900 if deep else 40
    for l in ALL:
        for pool in ("spread", "collide", "reverse"):
            lazy = {"max_arity": 4 if deep else 3, "max_names": 3, "hash_pool": pool, "arities": ARITIES}
            out.append(Lazy("agree %s %s" % (l, pool), agree(l), b, lazy=lazy, guard={"patch_hash": "pool"},
                            salts=60, fallback={"depth": 1, "budget": 20, "arities": ARITIES}))
        out.append(Lazy("stable %s" % l, stable(l), b, lazy=dict(lazy, max_arity=2, hash_pool="spread"),
                        guard={"patch_hash": "pool"}, fallback={"depth": 1, "budget": 20, "arities": ARITIES}))
    return out
