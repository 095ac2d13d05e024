"""C04: building an implication or equivalence never changes the meaning."""
import z3

from checks.common import LOGICS, PTF, Lazy, attempt, base, describe

FUNCTIONS = ["syntax.base: Implies, Equivalence constructors (_MetaImpliesOp, _MetaEquivalenceOp, _MetaOp)",
             "syntax.base: __eq__ of operators and constants (as used by the simplifiers)"]
ASSUMPTIONS = [
    "formulas are those the public constructors build",
    "hash() of formulas is a constant in these runs (C07); the formula cache remembers nothing (C09)",
    "operands of an equivalence are pairwise different, or repeated operands count once, as documented"]


def bounds(tier):
    return "2 to %d operands; arity of inspected operands <= %d; everything below arbitrary" % (
        (4, 2) if tier == "quick" else (5, 3))


def implies(logic, n, skip=None, alias=None):
    def h(ctx):
        xs = [ctx.formula(logic, without=skip) for _ in range(n)]
        if alias is not None:
            xs[alias[1]] = xs[alias[0]]
        r, e = attempt(lambda: base().Implies(*xs))
        ctx.require(e is None, "Implies of %d operands raised %s" % (n, describe(e)))
        want = ctx.V(xs[-1])
        for x in reversed(xs[:-1]):
            want = z3.Implies(ctx.V(x), want)
        ctx.require(ctx.V(r) == want, "Implies(...) does not mean the right-associated implication of its operands")

    return h


def equivalence(logic, n, skip=None, repeat=False):
    def h(ctx):
        xs = [ctx.formula(logic, without=skip) for _ in range(n)]
        if repeat:
            args = xs + [xs[0]]
        else:
            args = xs
        for i in range(n):
            for j in range(i):
                ctx.assume_checked(z3.Not(ctx.same(xs[i], xs[j])))
        r, e = attempt(lambda: base().Equivalence(*args))
        ctx.require(e is None, "Equivalence of %d operands raised %s" % (n, describe(e)))
        want = ctx.V(xs[0])
        for x in xs[1:]:
            want = want == ctx.V(x)
        ctx.require(ctx.V(r) == want, "Equivalence(...) does not mean the chain of equivalences of its operands")

    return h


def equal_operands(logic):
    """Operands that are equal but not the same object count once."""
    def h(ctx):
        x, y, z = ctx.formula(logic), ctx.formula(logic), ctx.formula(logic)
        ctx.assume_checked(ctx.same(x, y))
        ctx.assume_checked(z3.Not(ctx.same(x, z)))
        r, e = attempt(lambda: base().Equivalence(x, z, y))
        ctx.require(e is None, "Equivalence raised %s" % describe(e))
        ctx.require(ctx.V(r) == (ctx.V(x) == ctx.V(z)), "a repeated operand of Equivalence is not considered once")

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    fb = {"depth": 1, "budget": 12}
    for l in LOGICS:
        lazy = {"max_arity": 3 if deep else 2}
        for n in (1, 2, 3, 4) + ((5,) if deep else ()):
            if n == 1:
                out.append(Lazy("implies/1 %s" % l, one(l, "Implies"), 20, lazy=lazy, fallback=fb))
                out.append(Lazy("equivalence/1 %s" % l, one(l, "Equivalence"), 20, lazy=lazy, fallback=fb))
                continue
            b = 400 if deep else 40
            out.append(Lazy("implies/%d %s" % (n, l), implies(l, n), b, lazy=lazy, fallback=fb))
            out.append(Lazy("equivalence/%d %s" % (n, l), equivalence(l, n), b, lazy=lazy, fallback=fb))
        out.append(Lazy("implies/3 repeated %s" % l, implies(l, 3, alias=(0, 2)), 30, lazy=lazy, fallback=fb))
        out.append(Lazy("implies/3 repeated antecedent %s" % l, implies(l, 3, alias=(0, 1)), 30, lazy=lazy,
                        fallback=fb))
        out.append(Lazy("equivalence/2+1 %s" % l, equivalence(l, 2, repeat=True), 30, lazy=lazy, fallback=fb))
        out.append(Lazy("equivalence equal operands %s" % l, equal_operands(l), 30, lazy=lazy, fallback=fb))
    return out


def one(logic, op):
    def h(ctx):
        x = ctx.formula(logic)
        r, e = attempt(lambda: getattr(base(), op)(x))
        ctx.require(e is None, "%s of one operand raised %s" % (op, describe(e)))
        ctx.require(ctx.V(r) == ctx.V(x), "%s of one operand changes its meaning" % op)

    return h
