"""C20: natural deduction accepts every textbook rule application."""
from checks.c19 import Shape, bodies, FUN, VARS
from checks.common import Lazy, base
from checks.nd import LOOKALIKES, check, nd
from vf import repo

FUNCTIONS = ["deduction.fol.nd: NaturalDeductionProof, NaturalDeduction.check, check_proof, all rule checks and their "
             "substitution and occurrence helpers", "syntax.base, syntax.fol: the operators and equality that they use"]
ASSUMPTIONS = [
    "the rows referred to are premises, or boxes with a derived row that copies a premise or applies one rule",
    "rule applications whose formulas the constructors simplify out of the displayed shape are not required to be accepted, "
    "double negation (which is always simplified) apart"]


def bounds(tier):
    return "one application of each rule; formulas of any size and shape with up to %d operands where the checker looks into " \
        "them; quantified formulas of given shapes of up to %d connectives or quantifiers with arbitrary terms, functions of " \
        "one argument not nested, up to 3 variable names" % ((2, 2) if tier == "quick" else (3, 3))


def shown(ctx, f, key, *xs):
    """f still has the displayed shape."""
    if not ctx.isa(f, key):
        return False
    ks = ctx.kids(f)
    return len(ks) == len(xs) and all(ctx.eq(k, x) for k, x in zip(ks, xs))


def accepted(ctx, rows, what):
    ok, e = check(rows)
    ctx.require(e is None and bool(ok), "%s: a correct application of the rule is not accepted" % what)


def schema(name, lg):
    """One rule on arbitrary formulas."""
    def h(ctx):
        R = nd().rule
        B = base()
        bot = B.FalseFormula()
        P = [R.premise]
        new = lambda: ctx.formula(lg)
        AND, OR = lg + ".And", lg + ".Or"
        if name == "bot_e":
            rows = [1, bot, P, 2, new(), [R.bot_e, 1]]
        elif name in ("copy", "premise", "dneg_i", "dneg_e"):
            a = new()
            rows = {"copy": lambda: [1, a, P, 2, a, [R.copy, 1]],
                    "premise": lambda: [1, a, P],
                    "dneg_i": lambda: [1, a, P, 2, ~~a, [R.dneg_i, 1]],
                    "dneg_e": lambda: [1, ~~a, P, 2, a, [R.dneg_e, 1]]}[name]()
        elif name in ("and_i", "and_e1", "and_e2"):
            a, b = new(), new()
            c = B.And(a, b)
            if not shown(ctx, c, AND, a, b):
                return
            rows = {"and_i": lambda: [1, a, P, 2, b, P, 3, c, [R.and_i, 1, 2]],
                    "and_e1": lambda: [1, c, P, 2, a, [R.and_e1, 1]],
                    "and_e2": lambda: [1, c, P, 2, b, [R.and_e2, 1]]}[name]()
        elif name in ("or_i1", "or_i2", "or_e", "or_e, derived", "or_e, longer"):
            a, b = new(), new()
            c = B.Or(a, b)
            if not shown(ctx, c, OR, a, b):
                return
            if name == "or_e":
                d = new()
                rows = [1, c, P, 2, d, P, 3, [a, [R.assumption], 4, d, [R.copy, 2]], 5, [b, [R.assumption], 6, d, [R.copy, 2]],
                        7, d, [R.or_e, 1, 3, 5]]
            elif name == "or_e, longer":
                d = new()
                rows = [1, c, P, 2, d, P, 3, [a, [R.assumption], 4, a, [R.copy, 3], 5, d, [R.copy, 2]],
                        6, [b, [R.assumption], 7, b, [R.copy, 6], 8, b, [R.copy, 7], 9, d, [R.copy, 2]], 10, d, [R.or_e, 1, 3, 6]]
            elif name == "or_e, derived":  # or is commutative
                d = B.Or(b, a)
                rows = [1, c, P, 2, [a, [R.assumption], 3, d, [R.or_i2, 2]], 4, [b, [R.assumption], 5, d, [R.or_i1, 4]],
                        6, d, [R.or_e, 1, 2, 4]]
            else:
                rows = {"or_i1": lambda: [1, a, P, 2, c, [R.or_i1, 1]],
                        "or_i2": lambda: [1, b, P, 2, c, [R.or_i2, 1]]}[name]()
        elif name in ("impl_e", "impl_i", "MT", "impl_i, one row", "impl_i, longer"):
            a = new()
            b = a if name == "impl_i, one row" else new()
            c = a >> b
            if b is not a and not shown(ctx, c, OR, ~a, b):
                return
            rows = {"impl_e": lambda: [1, a, P, 2, c, P, 3, b, [R.impl_e, 1, 2]],
                    "impl_i": lambda: [1, b, P, 2, [a, [R.assumption], 3, b, [R.copy, 1]], 4, c, [R.impl_i, 2]],
                    "impl_i, longer": lambda: [1, b, P, 2, [a, [R.assumption], 3, a, [R.copy, 2], 4, b, [R.copy, 1]],
                                               5, c, [R.impl_i, 2]],
                    "impl_i, one row": lambda: [1, [a, [R.assumption]], 2, c, [R.impl_i, 1]],
                    "MT": lambda: [1, c, P, 2, ~b, P, 3, ~a, [R.MT, 1, 2]]}[name]()
        elif name == "neg_e":
            a = new()
            rows = [1, a, P, 2, ~a, P, 3, bot, [R.neg_e, 1, 2]]
        elif name == "neg_i":
            a = new()
            rows = [1, bot, P, 2, [a, [R.assumption], 3, bot, [R.copy, 1]], 4, ~a, [R.neg_i, 2]]
        elif name == "neg_i, longer":
            a = new()
            rows = [1, bot, P, 2, [a, [R.assumption], 3, a, [R.copy, 2], 4, bot, [R.copy, 1]], 5, ~a, [R.neg_i, 2]]
        elif name == "neg_i, derived":
            a = new()
            rows = [1, ~a, P, 2, [a, [R.assumption], 3, bot, [R.neg_e, 2, 1]], 4, ~a, [R.neg_i, 2]]
        elif name == "nested":
            a, b = new(), new()
            c = a >> b
            if not shown(ctx, c, OR, ~a, b):
                return
            d = b >> c
            rows = [1, [b, [R.assumption], 2, [a, [R.assumption], 3, b, [R.copy, 1]], 4, c, [R.impl_i, 2]], 5, d, [R.impl_i, 1]]
        accepted(ctx, rows, name)

    return h


SCHEMAS = ["bot_e", "copy", "premise", "dneg_i", "dneg_e", "and_i", "and_e1", "and_e2", "or_i1", "or_i2", "or_e",
           "or_e, derived", "impl_e", "impl_i", "MT", "impl_i, one row", "neg_e", "neg_i", "neg_i, derived", "neg_i, longer", "impl_i, longer",
           "or_e, longer", "nested"]


# ------------------------------------------------------------------ quantifiers
class Substitution:
    """The textbook's capture-free substitution."""

    def __init__(self, ctx):
        self.ctx, self.m = ctx, repo.mod("syntax.fol")

    def occurs(self, t, f):
        """A term occurs somewhere in a formula, as a bound variable too."""
        c = self.ctx
        if c.isa(f, "TERM.Variable", "TERM.Constant", "TERM.Function") and c.eq(t, f):
            return True
        return any(self.occurs(t, k) for k in c.kids(f))

    def free(self, x, f):
        c = self.ctx
        if c.isa(f, "TERM.Variable", "TERM.Constant", "TERM.Function"):
            return self.occurs(x, f)
        ks = c.kids(f)
        if c.isa(f, "FOL.ForAll", "FOL.Exists"):
            return not c.eq(ks[0], x) and self.free(x, ks[1])
        return any(self.free(x, k) for k in ks)

    def apply(self, f, x, t):
        """f with t for x, or None if a variable would be captured or the formula loses its shape."""
        c = self.ctx
        k = c.kind(f)
        if k.logic == "TERM" and c.eq(f, x):
            return t
        ks = c.kids(f)
        if k.name in ("ForAll", "Exists"):
            if c.eq(ks[0], x) or not self.free(x, ks[1]):
                return f
            if self.occurs(ks[0], t):
                return None
            r = self.apply(ks[1], x, t)
            return None if r is None else k.make(None, [ks[0], r])
        if not ks:
            return f
        rs = [self.apply(o, x, t) for o in ks]
        if any(r is None for r in rs):
            return None
        if k.shape == "named":
            return k.make(f.name, rs)
        r = k.make(None, rs)
        return r if shown(c, r, k.key, *rs) else None


def parts(ctx, n):
    s = Shape(ctx)
    k, make = bodies(ctx, n)
    vs = [s.var() for _ in range(k)]
    phi = make(vs)
    ctx.assume_checked(ctx.is_kind(phi, [ctx.kind(phi).key]))
    return s, s.var(), s.term(), phi, Substitution(ctx)


def quantifier(rule, n, m=None):
    def h(ctx):
        R = nd().rule
        s, x, t, phi, sub = parts(ctx, n)
        inst = sub.apply(phi, x, t)
        if inst is None:
            return
        if rule == "forall_e":
            rows = [1, s.quant(0, x, phi), [R.premise], 2, inst, [R.forall_e, 1]]
        elif rule == "exists_i":
            rows = [1, inst, [R.premise], 2, s.quant(1, x, phi), [R.exists_i, 1]]
        else:
            if ctx.isa(t, "TERM.Function"):
                return
            q = s.quant(0 if rule.startswith("forall_i") else 1, x, phi)
            if sub.occurs(t, q):
                return
            # a box begins with its term, or with a row of its own for it
            box = lambda i, j, f, just: [t, f, just] if n != "P(t)" or ctx.flag() else [t, [R.assumption], j, f, just]
            if rule == "forall_i":
                rows = [1, q, [R.premise], 2, box(2, 3, inst, [R.forall_e, 1]), 4, q, [R.forall_i, 2]]
            elif rule == "exists_e":
                b = box(2, 3, inst, [R.assumption])
                rows = [1, q, [R.premise], 2, b + [4, q, [R.exists_i, 2 if len(b) == 3 else 3]], 5, q, [R.exists_e, 1, 2]]
            elif rule == "exists_e, twice":  # the second box has a term that only another box uses
                rows = [1, q, [R.premise], 2, [t, inst, [R.assumption], 3, q, [R.exists_i, 2]], 4, q, [R.exists_e, 1, 2],
                        5, [t, inst, [R.assumption], 6, q, [R.exists_i, 5]], 7, q, [R.exists_e, 4, 5]]
            elif rule == "forall_i, twice":
                rows = [1, q, [R.premise], 2, [t, inst, [R.forall_e, 1]], 4, q, [R.forall_i, 2],
                        5, [t, inst, [R.forall_e, 4]], 6, q, [R.forall_i, 5]]
            else:
                k, make = bodies(ctx, m)
                c = make([s.var() for _ in range(k)])
                if sub.occurs(t, c):
                    return
                rows = [1, q, [R.premise], 2, c, [R.premise], 3, [t, inst, [R.assumption], 4, c, [R.copy, 2]],
                        5, c, [R.exists_e, 1, 3]]
        accepted(ctx, rows, rule)

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    for lg in ("PL", "FOL"):
        for n in SCHEMAS:
            lazy = dict(max_arity=3 if deep else 2, max_names=2, max_depth=4, no_str=True)
            out.append(Lazy("%s/%s" % (n, lg), schema(n, lg), 900 if deep else 60, lazy,
                            fallback=dict(LOOKALIKES, depth=1, budget=30)))
    b = 1500 if deep else 60
    small = ["P(t)", "P(t, t)", "exists y P(t)", "not P(t)", "P(t) and P(t)", "P(t) implies P(t)", "forall y exists z P(t, t)"]
    more = ["forall y P(t, t)", "P(t) or P(t)", "P(t) iff P(t)", "P(t) and exists y P(t, t)"]
    for rule in ("forall_e", "exists_i", "forall_i", "exists_e"):
        for n in small + (more if deep or rule[-1] == "e" and rule[0] == "f" else []):
            out.append(Lazy("%s, %s" % (rule, n), quantifier(rule, n), b, FUN))
    for rule in ("forall_i, twice", "exists_e, twice"):
        out.append(Lazy(rule, quantifier(rule, "exists y P(t)"), b, FUN))
    for m in small + (more if deep else []):
        out.append(Lazy("exists_e, copy of " + m, quantifier("copy", "P(t)", m), b, FUN if deep else VARS))
    if deep:
        for n in ("not exists y P(t, t)", "P(t) implies exists y P(t, t)", "(forall y P(t)) or P(t)"):
            for rule in ("forall_e", "exists_i", "forall_i", "exists_e"):
                out.append(Lazy("%s, %s" % (rule, n), quantifier(rule, n), b, FUN))
    return out
