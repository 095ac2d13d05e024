"""C05: And/or/not results are in canonical form."""
import z3

from checks.common import LOGICS, PTF, Lazy, attempt, base, describe

FUNCTIONS = ["syntax.base: And, Or, Not constructors (_MonotoneBinaryOp._simplify_monotone_op_operands, Not.__new__)",
             "syntax.base: Formula.__and__, __or__, __invert__, __rshift__ and their overrides"]
ASSUMPTIONS = ["operand formulas are built by the public constructors (induction: their own operands are canonical)",
               "hash() of formulas is a constant in these runs (C07); the formula cache remembers nothing (C09)"]


def bounds(tier):
    return "1 to 3 operands; arity of inspected operands <= %s; everything below arbitrary" % (
        "3 (PL, two operands) or 2" if tier == "quick" else "3")


def complementary(ctx, l, a, b):
    for x, y in ((a, b), (b, a)):
        if ctx.isa(x, l + ".Not") and ctx.eq(ctx.kids(x)[0], y):
            return True
        if l in PTF and ctx.isa(x, PTF[l][0]) and ctx.isa(y, PTF[l][1]):
            return True
    return False


def canonical(ctx, l, op, xs):
    """Documented result of And/Or: ('const', key) | ('one', operand) | ('op', operands)."""
    absorbing, identity = (l + ".False", l + ".True") if op == "And" else (l + ".True", l + ".False")
    flat = []
    for x in xs:
        if ctx.isa(x, l + "." + op):
            flat += ctx.kids(x)
        elif not ctx.isa(x, identity):
            flat.append(x)
    kept = []
    for x in flat:
        if ctx.isa(x, absorbing):
            return "const", absorbing
        if not any(ctx.eq(x, y) for y in kept):
            kept.append(x)
    for i, x in enumerate(kept):
        for y in kept[:i]:
            if complementary(ctx, l, x, y):
                return "const", absorbing
    if not kept:
        return "const", identity
    if len(kept) == 1:
        return "one", kept[0]
    return "op", kept


def require_result(ctx, l, op, r, exp):
    what, x = exp
    if what == "const":
        ctx.require(ctx.is_kind(r, [x]), "%s should have simplified to the constant %s" % (op, x))
    elif what == "one":
        ctx.require(ctx.same(r, x), "%s should have simplified to its only remaining operand" % op)
    else:
        ctx.require(ctx.is_kind(r, [l + "." + op]), "%s returned something else than a %s" % (op, op))
        ks = ctx.kids(r)
        ctx.require(len(ks) == len(x), "%s has %d operands instead of %d" % (op, len(ks), len(x)))
        for i, (a, b) in enumerate(zip(ks, x)):
            ctx.require(ctx.same(a, b), "operand %d of %s is not the one expected in order of first occurrence" % (
                i + 1, op))


def nary(l, op, n, via="ctor", alias=None, skip=None):
    def h(ctx):
        xs = [ctx.formula(l, without=skip) for _ in range(n)]
        if alias is not None:
            xs.append(xs[alias])
        if via == "ctor":
            f = lambda: getattr(base(), op)(*xs)
        else:
            f = lambda: (xs[0] & xs[1]) if op == "And" else (xs[0] | xs[1])
        r, e = attempt(f)
        ctx.require(e is None, "%s raised %s" % (op, describe(e)))
        if n == 1 and alias is None:
            ctx.require(ctx.same(r, xs[0]), "%s of one operand should be that operand" % op)
        else:
            require_result(ctx, l, op, r, canonical(ctx, l, op, xs))
        for x in xs:
            ctx.require(ctx.unmodified(x), "an operand of %s was modified" % op)

    return h


def neg(ctx, l, r, x, op="Not"):
    """r must be the canonical negation of x."""
    if ctx.isa(x, l + ".Not"):
        ctx.require(ctx.same(r, ctx.kids(x)[0]), "%s of a negation should be its argument" % op)
        return
    for a, b in ((l + ".True", l + ".False"), tuple(PTF.get(l, ("?", "?")))):
        for k, m in ((a, b), (b, a)):
            if ctx.isa(x, k):
                ctx.require(ctx.is_kind(r, [m]), "%s of the constant %s should be %s" % (op, k, m))
                return
    ctx.require(ctx.is_kind(r, [l + ".Not"]), "%s should return a negation" % op)
    ctx.require(ctx.same(ctx.kids(r)[0], x), "%s should negate its argument" % op)


def negation(l, via):
    def h(ctx):
        x = ctx.formula(l)
        r, e = attempt((lambda: ~x) if via == "~" else (lambda: base().Not(x)))
        ctx.require(e is None, "%s raised %s" % (via, describe(e)))
        neg(ctx, l, r, x, via)
        ctx.require(ctx.unmodified(x), "the argument of %s was modified" % via)

    return h


def double(l):
    def h(ctx):
        x = ctx.formula(l)
        r, e = attempt(lambda: ~~x)
        ctx.require(e is None, "~~ raised %s" % describe(e))
        ctx.require(ctx.same(r, x), "a double negation survives")

    return h


def implies_op(l, skip=None):
    def h(ctx):
        x, y = ctx.formula(l, without=skip), ctx.formula(l, without=skip)
        n, e = attempt(lambda: ~x)
        ctx.require(e is None, "~ raised %s" % describe(e))
        neg(ctx, l, n, x, "~")
        r, e = attempt(lambda: x >> y)
        ctx.require(e is None, ">> raised %s" % describe(e))
        require_result(ctx, l, "Or", r, canonical(ctx, l, "Or", [n, y]))

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    fb = {"depth": 2, "budget": 12}
    for l in LOGICS:
        for via in ("~", "Not"):
            out.append(Lazy("%s %s" % (via, l), negation(l, via), 30, lazy={}, fallback=fb))
        out.append(Lazy("~~ %s" % l, double(l), 30, lazy={}, fallback=fb))
        out.append(Lazy(">> %s" % l, implies_op(l, None if deep else PTF.get(l)), 300 if deep else 40,
                        lazy={"max_arity": 3 if deep else 2}, fallback=fb))
        for op in ("And", "Or"):
            out.append(Lazy("%s/1 %s" % (op, l), nary(l, op, 1), 30, lazy={}, fallback=fb))
            out.append(Lazy("%s/1+1 %s" % (op, l), nary(l, op, 1, alias=0), 30, lazy={}, fallback=fb))
            a = {"max_arity": 3 if deep or l == "PL" else 2}
            out.append(Lazy("%s/2 %s" % (op, l), nary(l, op, 2), 400 if deep else 60, lazy=a, fallback=fb))
            out.append(Lazy("%s/op %s" % (op, l), nary(l, op, 2, via="op", skip=PTF.get(l)), 100, lazy={
                "max_arity": 2}, fallback=fb))
    for l in LOGICS:
        for op in ("And", "Or"):
            if not deep and (op, l) in (("Or", "LDL"), ("And", "FOL"), ("Or", "PLTL"), ("And", "LTL")):
                continue
            out.append(Lazy("%s/2+1 %s" % (op, l), nary(l, op, 2, alias=0, skip=PTF.get(l)), 100,
                            lazy={"max_arity": 2}, fallback={"depth": 1, "budget": 15}))
            if not deep and l in PTF:
                continue
            out.append(Lazy("%s/3 %s" % (op, l), nary(l, op, 3, skip=None if deep else PTF.get(l)),
                            700 if deep else 90, lazy={"max_arity": 3 if deep and l == "PL" else 2},
                            fallback={"depth": 1, "budget": 15}))
    return out
