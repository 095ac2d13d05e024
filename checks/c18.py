"""C18: natural deduction accepts only propositionally valid steps."""
import z3

from checks.common import Lazy
from checks.nd import BOXED, HEAVY, LOOKALIKES, RULES, check, choose_refs, kinds_for, nd

FUNCTIONS = ["deduction.fol.nd: NaturalDeductionProof, NaturalDeduction.check, check_proof and the propositional rule "
             "checks", "syntax.base: the operators and constructors that the rule checks apply"]
ASSUMPTIONS = [
    "a proof is judged row by row: the rows referred to are arbitrary premises, or boxes whose rows follow from the "
    "premises and the box's assumption by an arbitrary rule; longer proofs by induction over their rows",
    "truth of a formula is the fold of its operands' truth; formulas that are equal have equal truth",
    "quantifier rules are decided by C19, the scope of references by C21"]


def bounds(tier):
    return "rows with up to 3 references to premises; boxes with one derived row, two boxes side by side, boxes nested 2 " \
        "deep; formulas of any size and shape with up to %d operands (3 where the rule only takes formulas apart) where " \
        "the checker looks into them" % (2 if tier == "quick" else 3)


def sound(ctx, premises, rows, row):
    ctx.require(z3.Implies(z3.And(*[ctx.V(p) for p in premises]), ctx.V(row)),
                "a row is accepted that does not follow from the premises")


def flat(rule, logic, k):
    """Premises, and one row by a rule from them."""
    def h(ctx):
        rs = choose_refs(ctx, k)
        n = max(rs, default=0)
        ps = [kinds_for(ctx, logic) for _ in range(n)]
        f = kinds_for(ctx, logic)
        rows = []
        for i, p in enumerate(ps):
            rows += [i + 1, p, [nd().rule.premise]]
        rows += [n + 1, f, [rule()] + rs]
        ok, e = check(rows)
        if e is None and ok:
            sound(ctx, ps, rows, f)

    return h


def inner(ctx, label, logic, inside, outside):
    """A derived row of a box: (content, justification)."""
    R = nd().rule
    turn = ctx.choose(3)
    refs = inside + outside
    if turn == 0:
        return [label, kinds_for(ctx, logic), [R.copy, refs[ctx.choose(len(refs))]]]
    if turn == 1:
        return [label, kinds_for(ctx, logic), [R.or_i1, refs[ctx.choose(len(refs))]]]
    return [label, kinds_for(ctx, logic), [R.neg_e, refs[ctx.choose(len(refs))], refs[ctx.choose(len(refs))]]]


def box(ctx, label, logic, outside, rows):
    a = kinds_for(ctx, logic)
    out = [a, [nd().rule.assumption]]
    if rows:
        out += inner(ctx, label + 1, logic, [label], outside)
    return [label, out]


def one_box(rule, logic, rows):
    """A premise, a box, and a row by a rule."""
    def h(ctx):
        p = kinds_for(ctx, logic)
        b = box(ctx, 2, logic, [1], rows)
        f = kinds_for(ctx, logic)
        n = len(nd().REFERENCES[rule()]) if hasattr(nd(), "REFERENCES") and rule() in nd().REFERENCES else 1
        n = max(n, 1)
        refs = [1 + ctx.choose(3 if rows else 2) for _ in range(n)]
        ok, e = check([1, p, [nd().rule.premise]] + b + [9, f, [rule()] + refs])
        if e is None and ok:
            sound(ctx, [p], None, f)

    return h


def two_boxes(logic, rows1, rows2):
    """Or-elimination from a premise and two boxes, in any roles."""
    def h(ctx):
        p = kinds_for(ctx, logic)
        b1 = box(ctx, 2, logic, [1], rows1)
        b2 = box(ctx, 4, logic, [1], rows2)
        f = kinds_for(ctx, logic)
        refs = [[1, 2, 4], [1, 4, 2], [1, 2, 2], [1, 4, 4], [2, 1, 4], [1, 2, 1]][ctx.choose(6)]
        ok, e = check([1, p, [nd().rule.premise]] + b1 + b2 + [9, f, [nd().rule.or_e] + refs])
        if e is None and ok:
            sound(ctx, [p], None, f)

    return h


def nested(logic, first, second):
    """A box in a box, closed by two rules."""
    def h(ctx):
        R = nd().rule
        p = kinds_for(ctx, logic)
        a, b = kinds_for(ctx, logic), kinds_for(ctx, logic)
        c, d, f = kinds_for(ctx, logic), kinds_for(ctx, logic), kinds_for(ctx, logic)
        row = [4, c, [R.copy, 1 + ctx.choose(3)]]
        ok, e = check([1, p, [R.premise], 2, [a, [R.assumption], 3, [b, [R.assumption]] + row, 5, d, [first(), 3]],
                       6, f, [second(), 2 + ctx.choose(4)]])
        if e is None and ok:
            sound(ctx, [p], None, f)

    return h


def tasks(tier):
    deep = tier != "quick"
    b = 1200 if deep else 60
    out = []

    def add(name, h, cheap, logic, depth=1):
        lazy = dict(max_arity=3 if deep or cheap else 2, max_names=2, max_depth=4, no_str=True)
        out.append(Lazy(name + "/" + logic, h, b, lazy, fallback=dict(LOOKALIKES, depth=depth, budget=40),
                        eager=dict(LOOKALIKES, depth=depth, budget=200) if deep else None))
    for lg in ("PL", "FOL"):
        for name, rule in RULES.items():
            if name == "premise":
                continue
            quant = "forall" in name or "exists" in name
            if not (quant and lg == "FOL"):
                add(name, flat(rule, lg, 2 if name in HEAVY else 3), name not in HEAVY, lg)
                if name not in BOXED:
                    continue
            for rows in (0, 1):
                if name in ("impl_i", "neg_i"):
                    add("%s, box of %d" % (name, rows + 1), one_box(rule, lg, rows), False, lg, 0)
        for r1 in (0, 1):
            for r2 in (0, 1):
                if not deep and (lg == "FOL" and r1 + r2 or r1 + r2 == 2):
                    continue
                add("or_e, boxes of %d and %d" % (r1 + 1, r2 + 1), two_boxes(lg, r1, r2), False, lg, 0)
        for f in ("impl_i", "neg_i") if deep or lg == "PL" else ():
            for g in ("impl_i", "neg_i"):
                add("%s in %s" % (f, g), nested(lg, RULES[f], RULES[g]), False, lg, 0)
    return out
