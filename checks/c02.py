"""C02: generic Boolean semantics is right for every sub-formula evaluator."""
import z3

from checks.common import LOGICS, Lazy, attempt, base, describe
from vf import kinds, repo

FUNCTIONS = ["semantics.base: base_semantics and every handler registered for it",
             "semantics.pl: evaluate_pl on formulas of other formalisms"]
ASSUMPTIONS = ["the evaluator given to base_semantics answers with booleans and does not modify the formula",
               "operands of an inspected operator are arbitrary formulas of its formalism"]
BOOL = ("And", "Or", "Not", "Implies", "Equivalence")


def bounds(tier):
    return "operators with 2 to %d operands, all evaluator answers, 0 to 2 extra positional and keyword arguments" % (
        4 if tier == "quick" else 6)


class _Bad(Exception):
    pass


def combine(kind, vals):
    from vf.symform import fold_value
    return fold_value(kind, [z3.BoolVal(v) if isinstance(v, bool) else v for v in vals])


def connective(l, op):
    def h(ctx):
        f = ctx.formula(l, only=[l + "." + op])
        na, nk = ctx.choose(3), ctx.choose(3)
        extra = [object() for _ in range(na)]
        kw = {k: object() for k in ("interpretation", "index")[:nk]}
        bad = []

        def fn(sub, *args, **kwargs):
            if len(args) != na or any(a is not b for a, b in zip(args, extra)) or set(kwargs) != set(kw) or any(
                    kwargs[k] is not kw[k] for k in kw):
                bad.append((len(args), sorted(kwargs)))
            if ctx.mode == "lazy" and sub is f or sub is f:
                bad.append("evaluator called on the formula itself")
                raise _Bad()
            return ctx.truth(sub)

        r, e = attempt(lambda: repo.mod("semantics.base").base_semantics(f, fn, *extra, **kw))
        ctx.require(not bad, "the evaluator received other arguments than those given: %s" % bad[:1])
        ctx.require(e is None, "base_semantics raised %s" % (e and describe(e)))
        vals = [ctx.V(c) for c in ctx.kids(f)]
        ctx.require(combine(ctx.kind(f), vals) == z3.BoolVal(bool(r)),
                    "base_semantics of %s is not the truth-table combination of the operands' values" % op)

    return h


def again(l, op):
    """An earlier evaluation with another evaluator, or other arguments, has no influence."""
    def h(ctx):
        f = ctx.formula(l, only=[l + "." + op])
        first = ctx.flag("first")
        same = ctx.flag("same evaluator")
        state = [0]

        def fn(sub, *args):
            return first if state[0] == 0 else ctx.truth(sub)

        base_semantics = repo.mod("semantics.base").base_semantics
        attempt(lambda: base_semantics(f, fn if same else lambda sub, *args: first, *([1] if same else [])))
        state[0] = 1
        r, e = attempt(lambda: base_semantics(f, fn, *([2] if same else [])))
        ctx.require(e is None, "base_semantics raised %s in a second evaluation" % (e and describe(e)))
        vals = [ctx.V(c) for c in ctx.kids(f)]
        ctx.require(combine(ctx.kind(f), vals) == z3.BoolVal(bool(r)),
                    "a second evaluation by base_semantics of %s is not the combination of the operands' values" % op)

    return h


def refused(l, which):
    """Everything that is not a connective is refused with the library's error."""
    def h(ctx):
        u = kinds.universe()
        err = repo.mod("exceptions").PylogicsError
        if which == "base":
            f = ctx.formula(l, without=[l + "." + op for op in BOOL])
            run = lambda: repo.mod("semantics.base").base_semantics(f, lambda *a, **k: True)
        else:
            pl_ok = ["%s.%s" % (l, op) for op in BOOL + ("True", "False", "PropositionalTrue", "PropositionalFalse")]
            f = ctx.formula(l, without=[k for k in pl_ok + (["PL.Atomic"] if l == "PL" else []) if k in u.by_key])
            run = lambda: repo.mod("semantics.pl").evaluate_pl(f, {})
        ctx.materialise(f)
        r, e = attempt(run)
        ctx.require(e is not None, "%s accepted a formula that is not %s" % (
            which, "a Boolean connective" if which == "base" else "propositional"))
        ctx.require(isinstance(e, err), "%s refused a formula with %s instead of PylogicsError" % (
            which, type(e).__name__))

    return h


def nested_foreign(l, op):
    """A foreign formula below a connective is refused too when its value is needed."""
    def h(ctx):
        f = ctx.formula(l, without=[k for k in ["%s.%s" % (l, o) for o in BOOL + (
            "True", "False", "PropositionalTrue", "PropositionalFalse")] if k in kinds.universe().by_key])
        ctx.materialise(f)
        g, e = attempt(lambda: base().Not(f))
        ctx.require(e is None, "Not raised %s" % (e and describe(e)))
        r, e = attempt(lambda: repo.mod("semantics.pl").evaluate_pl(g, {}))
        ctx.require(e is not None and isinstance(e, repo.mod("exceptions").PylogicsError),
                    "evaluate_pl of the negation of a foreign formula: %s" % (e and describe(e)))

    return h


def tasks(tier):
    out = []
    n = 4 if tier == "quick" else 6
    fb = {"depth": 1, "budget": 10}
    for l in LOGICS:
        for op in BOOL:
            out.append(Lazy("base_semantics %s %s" % (op, l), connective(l, op), 120,
                            lazy={"max_arity": n if l in ("PL", "LTL") or tier != "quick" else 3}, fallback=fb))
            out.append(Lazy("again %s %s" % (op, l), again(l, op), 60, lazy={"max_arity": 2 if tier == "quick" else 3},
                            fallback=fb))
    for l in LOGICS + ("RE",):
        out.append(Lazy("base_semantics refuses %s" % l, refused(l, "base"), 20, lazy={}, fallback=fb))
        if l != "PL":
            out.append(Lazy("evaluate_pl refuses %s" % l, refused(l, "pl"), 20, lazy={}, fallback=fb))
            if l != "RE":
                out.append(Lazy("evaluate_pl refuses ~%s" % l, nested_foreign(l, "Not"), 20, lazy={}, fallback=fb))
    return out
