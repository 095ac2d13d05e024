"""C24: first-order predicates, functions and quantifiers are well formed."""
import z3

from checks.common import Lazy, attempt, base, describe
from vf import kinds

FUNCTIONS = ["syntax.fol: Predicate.__init__, __call__, Function.__init__, __call__, _Quantifier.__init__ and accessors",
             "_MetaOp formalism checks as they apply to quantifiers"]
ASSUMPTIONS = [
    "arguments are arbitrary terms, arbitrary formulas of every formalism, and the strangers None, a string, a number "
    "and a class",
    "the applied symbol has arbitrary terms as operands"]
EVERY = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL"]


def bounds(tier):
    return "arities 0 to %d and argument counts 0 to %d; arguments arbitrary" % ((2, 3) if tier == "quick" else (3, 4))


def keys(logic):
    return [k.key for k in kinds.universe().kinds if k.logic == logic]


def strangers():
    return [None, "x", 1, kinds.universe().fol.Variable]


def application(key, m, twice):
    def h(ctx):
        f = ctx.formula(key.split(".")[0], only=[key])
        ctx.materialise(f)
        k = ctx.u.by_key[key]
        name, old = ctx.u.name_of(f), list(k.get(f))
        args, terms = [], []
        odd = ctx.choose(m + 1) if m else 0
        for i in range(m):
            if i + 1 == odd:
                x = ctx.choose(len(strangers()) + 1)
                if x < len(strangers()):
                    args.append(strangers()[x])
                    terms.append(z3.BoolVal(False))
                else:
                    args.append(ctx.formula(EVERY))
                    terms.append(z3.BoolVal(False))
            elif twice and old and ctx.flag("own"):
                args.append(old[ctx.choose(len(old))])
                terms.append(z3.BoolVal(True))
            else:
                args.append(ctx.formula("TERM"))
                terms.append(z3.BoolVal(True))
        r, e = attempt(lambda: f(*args))
        ok = z3.And(z3.BoolVal(m == len(old)), *terms)
        if e is not None:
            ctx.require(z3.Not(ok), "%s refuses terms of its arity: %s" % (k.name, describe(e)))
        else:
            ctx.require(ok, "%s of arity %d accepts %d arguments, or an argument that is no term" % (k.name, len(old), m))
            check(ctx, k, r, name, args)
            if twice:
                args2 = [ctx.formula("TERM") for _ in old]
                r2, e = attempt(lambda: r(*args2))
                ctx.require(e is None, "an applied %s cannot be applied again: %s" % (k.name, e and describe(e)))
                check(ctx, k, r2, name, args2)
                check(ctx, k, r, name, args)
                _, e = attempt(lambda: r(*(args2 + [ctx.formula("TERM")])))
                ctx.require(e is not None, "an applied %s accepts another number of arguments" % k.name)
        ctx.require(ctx.u.name_of(f) == name, "applying a %s changed its name" % k.name)
        now = list(k.get(f))
        ctx.require(type(f) is k.cls and len(now) == len(old) and all(a is b for a, b in zip(now, old)),
                    "applying a %s changed its operands" % k.name)

    return h


def check(ctx, k, r, name, args):
    ctx.require(type(r) is k.cls, "applying a %s gives a %s" % (k.name, type(r).__name__))
    ctx.require(ctx.u.name_of(r) == name, "applying a %s changes the name" % k.name)
    got = list(k.get(r))
    ctx.require(len(got) == len(args), "applying a %s does not keep exactly the given terms" % k.name)
    for a, b in zip(got, args):
        ctx.require(a is b or (ctx.u.kind_of(a) is not None or ctx.mode == "lazy") and ctx.same(a, b),
                    "applying a %s does not keep exactly the given terms" % k.name)


def quantifier(key):
    def h(ctx):
        k = ctx.u.by_key[key]
        v = ctx.formula(EVERY + ["TERM"])
        f = ctx.formula(EVERY + ["TERM"])
        r, e = attempt(lambda: k.cls(v, f))
        ok = z3.And(ctx.is_kind(v, ["TERM.Variable"]), ctx.is_kind(f, keys("FOL")))
        if e is not None:
            ctx.require(z3.Not(ok), "%s refuses a variable and a first-order formula: %s" % (k.name, describe(e)))
            return
        ctx.require(ok, "%s accepts something else than a variable and a first-order formula" % k.name)
        ctx.require(type(r) is k.cls, "%s gives a %s" % (k.name, type(r).__name__))
        ctx.require(ctx.same(r.variable, v), "%s exposes another variable" % k.name)
        ctx.require(ctx.same(r.formula, f), "%s exposes another formula" % k.name)
        ctx.require(ctx.unmodified(v) and ctx.unmodified(f), "%s modifies its operands" % k.name)
        a, b = attempt(lambda: tuple(r.operands))
        ctx.require(b is None and len(a) == 2 and a[0] is r.variable and a[1] is r.formula,
                    "the operands of %s are not its variable and formula" % k.name)

    return h


def counts(key):
    def h(ctx):
        k = ctx.u.by_key[key]
        n = ctx.choose(4)
        if n == 2:
            s = strangers()
            args = [ctx.formula("VAR"), ctx.formula("FOL")]
            args[ctx.choose(2)] = s[ctx.choose(len(s))]
        else:
            args = [ctx.formula("VAR"), ctx.formula("FOL"), ctx.formula("FOL")][:n]
        _, e = attempt(lambda: k.cls(*args))
        ctx.require(e is not None, "%s accepts %d arguments, or a stranger" % (k.name, n))

    return h


def tasks(tier):
    deep = tier != "quick"
    b = 600 if deep else 60
    ar = (0, 1, 2, 3) if deep else (0, 1, 2)
    lazy = {"max_arity": 2, "max_names": 3, "arities": {"Predicate": ar, "Function": ar}}
    fb = {"depth": 1, "budget": 25, "max_names": 2, "arities": {"Predicate": ar, "Function": ar}}
    out = []
    for key in ("FOL.Predicate", "TERM.Function"):
        for m in range(5 if deep else 4):
            out.append(Lazy("%s(%d)" % (key, m), application(key, m, False), b, lazy=lazy, fallback=fb))
        for m in (1, 2):
            for real in (False, True):
                out.append(Lazy("%s(%d) twice%s" % (key, m, " cached" if real else ""), application(key, m, True), b,
                                lazy=lazy, fallback=fb, guard={"null_cache": not real}))
    for key in ("FOL.ForAll", "FOL.Exists"):
        out.append(Lazy(key, quantifier(key), b, lazy=lazy, fallback=fb))
        out.append(Lazy("counts " + key, counts(key), b, lazy=lazy, fallback=fb))
    return out
