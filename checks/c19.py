"""C19: natural deduction accepts only valid steps of the quantifier rules."""
from checks.common import Lazy
from checks.nd import LOOKALIKES, RULES, check, nd
from vf import folsem, kinds, repo

FUNCTIONS = ["deduction.fol.nd: NaturalDeductionProof, NaturalDeduction.check, check_proof, the quantifier rule checks and "
             "their substitution and occurrence helpers", "syntax.fol: terms, predicates, quantifiers and their equality"]
ASSUMPTIONS = [
    "a proof is judged row by row, as for C18; the propositional rules are decided by C18, the scope of references by C21",
    "truth in all structures with two individuals, for all assignments of the variables; constants carry no value"]


def bounds(tier):
    return "one premise (two for exists_e), at most two nested boxes; forall_e and exists_i on any pair of formulas of depth " \
        "2, and on all instances of given shapes of up to 3 nested quantifiers or connectives; up to 3 variable names, one " \
        "name for each of the other symbols, functions of one argument not nested; structures with two individuals"


def sound(ctx, premises, row):
    folsem.require_entailed(ctx, premises, row, "a row is accepted that does not follow from the premises")


def fol(ctx):
    return ctx.formula("FOL")


def flat(rule):
    def h(ctx):
        p, f = fol(ctx), fol(ctx)
        ok, e = check([1, p, [nd().rule.premise], 2, f, [rule(), 1]])
        if e is None and ok:
            sound(ctx, [p], f)

    return h


class Shape:
    """Formulas of given connectives with arbitrary terms and variables."""

    def __init__(self, ctx):
        self.ctx, self.m, self.b = ctx, repo.mod("syntax.fol"), repo.mod("syntax.base")

    def term(self):
        return self.ctx.formula("TERM")

    def var(self):
        return self.ctx.formula("VAR")

    def pred(self, n=2):
        return self.m.Predicate("P0", [self.term() for _ in range(n)])

    def quant(self, k, x, f):
        return (self.m.Exists if k else self.m.ForAll)(x, f)


def bodies(ctx, n):
    """A shape: its number of bound variables, and a function from these to a formula with fresh terms."""
    s = Shape(ctx)
    b = s.b
    p1 = lambda: s.pred(1)
    p2 = lambda: s.pred(2)
    return {
        "P(t)": (0, lambda vs: p1()),
        "P(t, t)": (0, lambda vs: p2()),
        "forall y P(t)": (1, lambda vs: s.quant(0, vs[0], p1())),
        "exists y P(t)": (1, lambda vs: s.quant(1, vs[0], p1())),
        "forall y P(t, t)": (1, lambda vs: s.quant(0, vs[0], p2())),
        "exists y P(t, t)": (1, lambda vs: s.quant(1, vs[0], p2())),
        "forall y exists z P(t, t)": (2, lambda vs: s.quant(0, vs[0], s.quant(1, vs[1], p2()))),
        "not exists y P(t, t)": (1, lambda vs: b.Not(s.quant(1, vs[0], p2()))),
        "not P(t)": (0, lambda vs: b.Not(p1())),
        "P(t) and P(t)": (0, lambda vs: b.And(p1(), p1())),
        "P(t) or P(t)": (0, lambda vs: b.Or(p1(), p1())),
        "P(t) implies P(t)": (0, lambda vs: b.Implies(p1(), p1())),
        "P(t) iff P(t)": (0, lambda vs: b.Equivalence(p1(), p1())),
        "P(t) and exists y P(t, t)": (1, lambda vs: b.And(p1(), s.quant(1, vs[0], p2()))),
        "(forall y P(t)) or P(t)": (1, lambda vs: b.Or(s.quant(0, vs[0], p1()), p1())),
        "P(t) implies exists y P(t, t)": (1, lambda vs: b.Implies(p1(), s.quant(1, vs[0], p2()))),
        "P(t) iff exists y P(t)": (1, lambda vs: b.Equivalence(p1(), s.quant(1, vs[0], p1()))),
    }[n]


def instance(rule, n, gen):
    """A quantified formula and an alleged instance of the same shape."""
    def h(ctx):
        s = Shape(ctx)
        k, make = bodies(ctx, n)
        vs = [s.var() for _ in range(k)]
        q = s.quant(0 if gen else 1, s.var(), make(vs))
        f = make(vs)
        if not gen:
            q, f = f, q
        ok, e = check([1, q, [nd().rule.premise], 2, f, [rule(), 1]])
        if e is None and ok:
            sound(ctx, [q], f)

    return h


def generalise(n, how):
    """A box with a term, closed by forall-introduction."""
    def h(ctx):
        R = nd().rule
        s = Shape(ctx)
        k, make = bodies(ctx, n)
        vs = [s.var() for _ in range(k)]
        t = s.term()
        phi = make(vs)
        f = s.quant(0, s.var(), make(vs))
        if how == "copy":            # of a premise
            ps, rows = [make(vs)], [t, phi, [R.copy, 1]]
        elif how == "instance":      # of a general premise
            ps, rows = [s.quant(0, s.var(), make(vs))], [t, phi, [R.forall_e, 1]]
        elif how == "assumption":    # of the box
            ps, rows = [make(vs)], [t, phi, [R.assumption]]
        elif how == "later":         # copied from an assumption of the box
            ps, rows = [make(vs)], [t, phi, [R.assumption], 3, make(vs), [R.copy, 2]]
        else:                        # the assumption of an inner box
            ps, rows = [make(vs)], [t, phi, [R.copy, 1], 3, [make(vs), [R.assumption]]]
        ok, e = check([1, ps[0], [R.premise], 2, rows, 9, f, [R.forall_i, 2]])
        if e is None and ok:
            sound(ctx, ps, f)

    return h


def outer(n):
    """Generalisation inside a box whose assumption may mention the term."""
    def h(ctx):
        R = nd().rule
        s = Shape(ctx)
        k, make = bodies(ctx, n)
        vs = [s.var() for _ in range(k)]
        t = s.term()
        a, phi = make(vs), make(vs)
        f = s.quant(0, s.var(), make(vs))
        g = a >> f
        p = make(vs)
        ok, e = check([1, p, [R.premise], 2, [a, [R.assumption], 3, [t, phi, [R.copy, 2]], 5, f, [R.forall_i, 3]],
                       6, g, [R.impl_i, 2]])
        if e is None and ok:
            sound(ctx, [p], g)

    return h


def witness(n, how):
    """A box with a term and an assumption about it, closed by exists-elimination."""
    def h(ctx):
        R = nd().rule
        s = Shape(ctx)
        k, make = bodies(ctx, n)
        vs = [s.var() for _ in range(k)]
        t = s.term()
        p, phi = s.quant(1, s.var(), make(vs)), make(vs)
        q = make(vs) if how != "alone" else p
        if how == "copy":
            chi, just = make(vs), [R.copy, 1 + ctx.choose(3)]
        elif how == "none":
            chi, just = phi, None
        elif how == "exists_i":
            chi, just = s.quant(1, s.var(), make(vs)), [R.exists_i, 2 + ctx.choose(2)]
        else:
            chi, just = s.quant(1, s.var(), make(vs)), [R.exists_i, 3]
        f = chi if how == "alone" or ctx.flag() else make(vs)
        box = [t, phi, [R.assumption]] + ([4, chi, just] if just else [])
        ok, e = check([1, p, [R.premise], 2, q, [R.premise], 3, box, 5, f, [R.exists_e, 1, 3]])
        if e is None and ok:
            sound(ctx, [p, q], f)

    return h


NAMES = {"Predicate": 1, "Constant": 1, "Function": 1, "Variable": 3}
FUN = dict(max_arity=2, no_str=True, names_by=NAMES, max_term_depth=1, max_names=2, max_depth=2, arities={"Predicate": (1,)})
VARS = dict(FUN, within=["FOL.ForAll", "FOL.Exists", "FOL.Predicate", "TERM.Variable", "TERM.Constant"])
LINES = ["P(t)", "exists y P(t)"]
JUNCTIONS = ["not P(t)", "P(t) and P(t)", "P(t) or P(t)", "P(t) implies P(t)", "P(t) iff P(t)"]
CLOSE = ("copy", "instance", "assumption", "later", "inner")


def tasks(tier):
    deep = tier != "quick"
    out = []
    plain = [k.key for k in kinds.universe().kinds if k.logic == "FOL"] + ["TERM.Variable", "TERM.Constant"]

    def add(name, h, lazy, depth=1):
        out.append(Lazy(name, h, 1500 if deep else 60, lazy, fallback=dict(LOOKALIKES, depth=depth, budget=30,
                                                                          arities={"Predicate": (1,)})))
    for r, gen in (("forall_e", True), ("exists_i", False)):
        add(r + ", any formulas", flat(RULES[r]), FUN if deep else dict(FUN, within=plain))
        for n in (["P(t, t)", "(forall y P(t)) or P(t)", "P(t) iff exists y P(t)"]
                  + (["forall y exists z P(t, t)"] if gen or deep else [])
                  + (["forall y P(t, t)", "exists y P(t, t)", "not exists y P(t, t)", "P(t) and exists y P(t, t)",
                      "P(t) implies exists y P(t, t)"] + JUNCTIONS if deep else [])):
            add("%s, %s" % (r, n), instance(RULES[r], n, gen), FUN)
    for n, lazy in ([(n, FUN) for n in LINES] + [(n, VARS) for n in JUNCTIONS] + [("P(t, t)", FUN if deep else VARS)]
                    + ([("forall y P(t, t)", FUN), ("P(t) and exists y P(t, t)", VARS)] if deep else [])):
        some = not deep and lazy is VARS
        if n == "P(t, t)" and not deep:
            add("forall_i, instance, " + n, generalise(n, "instance"), lazy)
            add("exists_e, alone, " + n, witness(n, "alone"), lazy)
        for how in ("copy", "later") if some else CLOSE:
            add("forall_i, %s, %s" % (how, n), generalise(n, how), lazy)
        if some and n[4:7] in (" an", " or", " if"):
            continue
        add("forall_i below an assumption, " + n, outer(n), lazy)
        for how in ("none",) if some else ("copy", "none", "exists_i", "alone"):
            if not deep and (how == "copy" and n != "P(t)" or how == "alone"):
                continue
            add("exists_e, %s, %s" % (how, n), witness(n, how), lazy if how != "exists_i" or deep else VARS)
    return out
