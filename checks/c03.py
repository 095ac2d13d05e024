"""C03: simplifying and/or/not never changes the meaning."""
import z3

from checks.common import LOGICS, PTF, Lazy, attempt, base, describe

FUNCTIONS = ["syntax.base: And, Or, Not constructors (_MonotoneBinaryOp, _MetaOp, Not.__new__)",
             "syntax.base: Formula.__and__, __or__, __invert__, __rshift__ and their overrides",
             "syntax.base: __eq__ of operators and constants (as used by the simplifier)"]
ASSUMPTIONS = [
    "formulas are those the public constructors build (operands already canonical, decided by C05)",
    "in these runs hash() of formulas is a constant (hash/equality coherence is C07) and the formula cache "
    "remembers nothing (C09)",
    "propositional true/false of a trace logic are complementary but otherwise arbitrary"]


def bounds(tier):
    return "operators &, |, ~, >>, And, Or, Not; operands <= %s; arity of inspected operands <= 3 (PL, two operands) " \
           "or 2; everything below arbitrary" % ("3" if tier == "quick" else "3, arity 3 everywhere")


def nary(logic, op, n, alias=None, skip=None):
    def h(ctx):
        b = base()
        xs = [ctx.formula(logic, without=skip) for _ in range(n)]
        if alias is not None:
            xs.append(xs[alias])
        cls = b.And if op == "And" else b.Or
        r, e = attempt(lambda: cls(*xs))
        ctx.require(e is None, "%s of %d operands of one formalism raised %s" % (op, n, describe(e)))
        vs = [ctx.V(x) for x in xs]
        ctx.require(ctx.V(r) == (z3.And(*vs) if op == "And" else z3.Or(*vs)),
                    "%s(...) does not mean %s of its operands" % (op, op))

    return h


def operator(logic, op, same=False):
    def h(ctx):
        b = base()
        x = ctx.formula(logic)
        y = x if same else None
        if op not in ("~", "Not", "~~") and y is None:
            y = ctx.formula(logic)
        X = ctx.V(x)
        Y = ctx.V(y) if y is not None else None
        f, want = {
            "~": (lambda: ~x, lambda: z3.Not(X)),
            "Not": (lambda: b.Not(x), lambda: z3.Not(X)),
            "~~": (lambda: ~~x, lambda: X),
            "&": (lambda: x & y, lambda: z3.And(X, Y)),
            "|": (lambda: x | y, lambda: z3.Or(X, Y)),
            ">>": (lambda: x >> y, lambda: z3.Implies(X, Y)),
        }[op]
        r, e = attempt(f)
        ctx.require(e is None, "%s raised %s" % (op, describe(e)))
        ctx.require(ctx.V(r) == want(), "%s changes the meaning" % op)

    return h


def one(logic, op):
    """A single operand is returned with its meaning."""
    def h(ctx):
        b = base()
        x = ctx.formula(logic)
        r, e = attempt(lambda: (b.And if op == "And" else b.Or)(x))
        ctx.require(e is None, "%s of one operand raised %s" % (op, describe(e)))
        ctx.require(ctx.V(r) == ctx.V(x), "%s of one operand changes its meaning" % op)

    return h


def tasks(tier):
    out = []
    deep = tier != "quick"
    fb = {"depth": 2, "budget": 12}
    for l in LOGICS:
        for op in ("~", "Not", "~~"):
            out.append(Lazy("%s %s" % (op, l), operator(l, op), 30, lazy={}, fallback=fb))
        for op in ("And", "Or"):
            out.append(Lazy("%s/1 %s" % (op, l), one(l, op), 30, lazy={}, fallback=fb))
        for op in ("&", "|", ">>"):
            lazy = {"max_arity": 3 if deep or l == "PL" else 2}
            out.append(Lazy("%s same %s" % (op, l), operator(l, op, True), 30, lazy=lazy, fallback=fb))
            out.append(Lazy("%s %s" % (op, l), operator(l, op), 400 if deep else 60, lazy=lazy, fallback=fb))
    for l in LOGICS:
        for op in ("And", "Or"):
            if not deep and (op, l) in (("And", "LDL"), ("Or", "FOL"), ("And", "PLTL"), ("Or", "LTL")):
                continue
            if l not in PTF or deep:
                out.append(Lazy("%s/3 %s" % (op, l), nary(l, op, 3, skip=None if deep else PTF.get(l)),
                                700 if deep else 90, lazy={"max_arity": 3 if deep and l == "PL" else 2},
                                fallback={"depth": 1, "budget": 15}))
            out.append(Lazy("%s/2+1 %s" % (op, l), nary(l, op, 2, alias=0, skip=PTF.get(l)),
                            100 if deep else 60, lazy={"max_arity": 2}, fallback={"depth": 1, "budget": 15}))
    return out
