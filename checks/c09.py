"""C09: the formula cache is coherent with what was built."""
import z3

from checks.common import Lazy, attempt, base, describe
from vf import kinds

FUNCTIONS = ["syntax.base: _HashConsing.__new__, __call__, reset_cache, get_cache_context",
             "every constructor (_MetaOp, _MonotoneBinaryOp, _MetaImpliesOp, _MetaEquivalenceOp, Not.__new__)",
             "__hash__ and __eq__ of the formulas built"]
ASSUMPTIONS = [
    "the symbolic operands are formulas of a kind that the history does not build (atoms, predicates, boxes, stars), "
    "so that their hash values can be arbitrary numbers that agree with equality",
    "the cache is observed through get_cache_context()"]
SYM = {"PL": ["PL.Atomic"], "LTL": ["LTL.Atomic"], "PLTL": ["PLTL.Atomic"], "LDL": ["LDL.Box"], "RE": ["RE.Star"],
       "FOL": ["FOL.Predicate"], "TERM": ["TERM.Constant"], "VAR": ["TERM.Variable"]}


def bounds(tier):
    return "histories of up to %d constructions with a possible reset before each; operands symbolic, or earlier " \
           "results" % (3 if tier == "quick" else 4)


def ops_of(logic):
    u = kinds.universe()
    return [k for k in u.kinds if k.logic == logic and k.key not in SYM[logic] and not (k.shape == "named")]


def check_cache(ctx, live, when):
    cache = base().get_cache_context()
    for r in live:
        lg = r.logic
        n = 0
        for l, entries in list(cache.items()):
            for x in list(entries):
                ctx.require(x.logic == l, "%s: a formula is recorded under another formalism" % when)
                if type(x) is type(r) and (x is r or ctx.eq(x, r)):
                    ctx.require(l == lg, "%s: a formula is recorded under another formalism" % when)
                    n += 1
        ctx.require(n >= 1, "%s: a formula built since the last reset is not in the cache" % when)
        ctx.require(n <= 1, "%s: equal formulas have several entries in the cache" % when)
        ok, e = attempt(lambda: r in cache[lg])
        ctx.require(e is None and ok, "%s: a formula built since the last reset is not found in the cache" % when)


def history(plan, nested=True, only=None):
    """plan: the formalism of each construction."""
    def h(ctx):
        B = base()
        B.reset_cache()
        live, results = [], []
        for i, l in enumerate(plan):
            if i and ctx.flag("reset"):
                B.reset_cache()
                ctx.require(not any(len(d) for d in B.get_cache_context().values()), "a reset does not empty the cache")
                live = []
            ops = [k for k in ops_of(l) if only is None or k.name in only]
            k = ops[ctx.choose(len(ops))]
            n = 2 if k.shape == "nary" else len(k.children)
            args = []
            for cl in k.child_logics(n):
                old = [r for r in results if ctx.u.kind_of(r) is not None and ctx.u.kind_of(r).logic == cl]
                if nested and old and not args and ctx.flag("earlier result"):
                    args.append(old[-1])
                else:
                    args.append(ctx.formula(cl, only=SYM[cl]))
            r, e = attempt(k.make, None, args)
            ctx.require(e is None, "constructing %s raised %s" % (k.key, e and describe(e)))
            ctx.require(isinstance(r, B.Formula), "constructing %s does not give a formula" % k.key)
            if any(r is a for a in args) or ctx.isa(r, *SYM[l]):
                continue  # simplified to an operand
            live.append(r)
            results.append(r)
            check_cache(ctx, live, "after %d constructions" % (i + 1))
            last = (k, args, r)
        if results:
            k, args, r = last
            B.reset_cache()
            r2, e = attempt(k.make, None, args)
            ctx.require(e is None and ctx.u.kind_of(r2) is ctx.u.kind_of(r),
                        "a constructor returns something else when the cache is empty")
            ctx.require(ctx.same(r, r2), "a constructor returns another formula when the cache is empty")
            kd = ctx.u.kind_of(r)
            a, b = list(kd.get(r)), list(kd.get(r2))
            if not kd.commutative:
                ctx.require(len(a) == len(b), "a constructor returns another formula when the cache is empty")
                for x, y in zip(a, b):
                    ctx.require(ctx.same(x, y), "a constructor returns another formula when the cache is empty")

    return h


def atoms(n):
    """Atoms, predicates and constants of all formalisms: names and formalisms decided by the solver's forks."""
    def h(ctx):
        B, u = base(), kinds.universe()
        B.reset_cache()
        live = []
        leaf = [k for k in u.kinds if (k.shape == "named" and k.logic != "TERM") or k.shape == "const"]
        for i in range(n):
            if i and ctx.flag("reset"):
                B.reset_cache()
                ctx.require(not any(len(d) for d in B.get_cache_context().values()), "a reset does not empty the cache")
                live = []
            k = leaf[ctx.choose(len(leaf))]
            name = ("a", "b")[ctx.choose(2)] if k.shape == "named" else None
            r, e = attempt(k.make, name, [])
            ctx.require(e is None, "constructing %s raised %s" % (k.key, e and describe(e)))
            ctx.require(u.kind_of(r) is k and (name is None or u.name_of(r) == name),
                        "a constructor returns another formula, depending on what was built before")
            live.append(r)
            cache = B.get_cache_context()
            for x in live:
                where = [l for l, d in cache.items() for y in d if type(y) is type(x) and
                         kinds.to_ast(y) == kinds.to_ast(x)]
                ctx.require(where == [x.logic], "a formula is not recorded exactly once, under its formalism")
                ctx.require(x in cache[x.logic], "a formula built is not found in the cache")

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    g = {"patch_hash": "pool", "null_cache": False}
    lazy = {"hash_pool": "spread", "max_names": 4}
    fb = {"depth": 0, "budget": 20}
    only = ("And", "Not", "Equivalence", "True", "Seq", "Union", "Prop")
    for l in ("PL", "LTL", "PLTL", "LDL", "RE", "FOL"):
        n = 3 if deep else 2
        out.append(Lazy("history %s x%d" % (l, n), history([l] * n), 600 if deep else 60, lazy=lazy, guard=g,
                        fallback=fb))
        if l in ("PL", "RE") and not deep:
            out.append(Lazy("history %s x3" % l, history([l] * 3, nested=False, only=only), 60, lazy=lazy, guard=g, fallback=fb))
        if l == "PL" and deep:
            out.append(Lazy("history %s x4" % l, history([l] * 4, nested=False, only=only), 900, lazy=lazy, guard=g, fallback=fb))
    for p in (("PL", "LTL"), ("LTL", "PLTL"), ("PLTL", "LDL"), ("LDL", "RE"), ("RE", "LDL"), ("FOL", "PL"),
              ("LTL", "FOL")):
        out.append(Lazy("history %s" % "-".join(p), history(list(p) + ([p[0]] if deep else [])), 400 if deep else 40,
                        lazy=lazy, guard=g, fallback=fb))
    out.append(Lazy("atoms", atoms(3 if deep else 2), 600 if deep else 60, lazy=lazy, guard=g, fallback=fb))
    return out
