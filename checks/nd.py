"""Shared by C18-C21."""
from checks.common import attempt
from vf import repo


def nd():
    return repo.mod("deduction.fol.nd").NaturalDeduction


NAMES = ["and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i", "forall_e",
         "forall_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise"]
BOXED = ["impl_i", "neg_i", "or_e", "forall_i", "exists_e"]
HEAVY = ["and_i", "impl_e", "MT"]  # rules whose check builds formulas from several operands

# different formulas that print alike
LOOKALIKES = dict(name_pool={"PL.Atomic": ["false", "a0", "true"], "FOL.Predicate": ["P0", "false"],
                             "TERM.Variable": ["x0", "x1"], "TERM.Constant": ["x0"], "TERM.Function": ["f0"]}, max_arity=2)


def _rule(name):
    def f():
        return getattr(nd().rule, name)
    f.__name__ = name
    return f


RULES = {n: _rule(n) for n in NAMES}


def check(rows):
    """(verdict, exception) of the natural-deduction checker."""
    def f():
        N = nd()
        return N.check(N.Proof(rows))
    return attempt(f)


def choose_refs(ctx, k):
    """References to 0 to k of the first rows, up to renaming of the rows."""
    n = ctx.choose(k + 1)
    out, top = [], 0
    for _ in range(n):
        r = 1 + ctx.choose(top + 1)
        top = max(top, r)
        out.append(r)
    return out


def kinds_for(ctx, logic):
    """A formula of a formalism; in first-order proofs also the contradiction, which is the propositional constant."""
    if logic == "FOL":
        u = ctx.u
        return ctx.formula(["FOL", "PL"], only=[k.key for k in u.kinds if k.logic == "FOL"] + ["PL.False"])
    return ctx.formula(logic)
