"""C01: propositional evaluation computes the classical truth value."""
import z3

from checks.common import Lazy, attempt, base, describe
from vf import kinds, repo, symform

FUNCTIONS = ["semantics.pl: evaluate_pl, its handlers, _PropInterpretationWrapper",
             "semantics.base: base_semantics and its handlers (And, Or, Not, Implies, Equivalence)"]
ASSUMPTIONS = [
    "induction: in the step harness evaluate_pl answers V(g) for a sub-formula g of the evaluated formula; the bounded "
    "harness does not assume it",
    "interpretations are dicts from names to booleans or sets of names; names are valid atom names",
    "formulas are built by the public constructors"]


def bounds(tier):
    return "step: operators with 2 to %d operands, arbitrary sub-formulas; bounded: nesting 2, arity <= %d; " \
           "interpretations mention any subset of the "\
           "names; second evaluations after one under another interpretation (empty or full, or the same object before a change)" % ((4, 2) if tier == "quick" else (6, 3))


_summary = None


def summary_class():
    """A class that evaluate_pl dispatches to the assumed value of a sub-formula."""
    global _summary
    pl = repo.mod("semantics.pl")
    if not hasattr(pl.evaluate_pl, "register"):
        return False
    if _summary is None:
        class _Summary:
            pass

        pl.evaluate_pl.register(_Summary)(lambda f, *a, **k: symform.CUR.truth(f))
        _summary = _Summary
    return _summary


def evaluate(ops, step):
    def h(ctx):
        f = ctx.formula("PL", only=["PL." + o for o in ops])
        as_set = ctx.flag("set")
        if ctx.mode == "lazy" and step:
            ctx.summary = summary_class() or False
            if not ctx.summary:
                ctx.max_depth = 2
        interp = ctx.interpretation(as_set)
        r, e = attempt(lambda: repo.mod("semantics.pl").evaluate_pl(f, interp))
        ctx.require(e is None, "evaluate_pl raised %s" % (e and describe(e)))
        ctx.require(ctx.V(f) == z3.BoolVal(bool(r)), "evaluate_pl answers %s, the classical value differs" % bool(r))
        ctx.require(ctx.interpretation_unmodified(interp), "evaluate_pl modified the interpretation")

    return h


def again(ops):
    """Earlier evaluations, of the same formula or another one that looks the same, have no influence."""
    def h(ctx):
        f = ctx.formula("PL", only=["PL." + o for o in ops])
        as_set = ctx.flag("set")
        interp = ctx.interpretation(as_set)
        evaluate_pl = repo.mod("semantics.pl").evaluate_pl
        with ctx.earlier_content(interp, ctx.flag("full")):
            if ctx.flag("another object"):
                attempt(lambda: evaluate_pl(f, set(interp) if as_set else dict(interp)))
            else:
                attempt(lambda: evaluate_pl(f, interp))
        r, e = attempt(lambda: evaluate_pl(f, interp))
        ctx.require(e is None, "evaluate_pl raised %s in a second evaluation" % (e and describe(e)))
        ctx.require(ctx.V(f) == z3.BoolVal(bool(r)),
                    "evaluate_pl answers %s in a second evaluation, the classical value differs" % bool(r))

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    fb = {"depth": 2, "max_arity": 3, "max_names": 2, "budget": 25}
    for o in ("Atomic", "True", "False", "Not", "And", "Or", "Implies", "Equivalence"):
        out.append(Lazy("step %s" % o, evaluate([o], True), 60, lazy={"max_arity": 6 if deep else 4}, fallback=fb))
    for o in ("Not", "And", "Or", "Implies", "Equivalence"):
        out.append(Lazy("bounded %s" % o, evaluate([o], False), 300 if deep else 25,
                        lazy={"max_arity": 3 if deep else 2, "max_depth": 2, "max_names": 3}, fallback=fb))
    for o in ("Atomic", "Not", "And", "Or", "Implies", "Equivalence"):
        out.append(Lazy("again %s" % o, again([o]), 120 if deep else 20,
                        lazy={"max_arity": 3 if deep else 2, "max_depth": 2 if deep else 1, "max_names": 2}, fallback=fb))
    out.append(Lazy("wide", evaluate(["And", "Or", "Implies", "Equivalence"], False), 300 if deep else 40,
                    lazy={"max_arity": 4 if deep else 3, "max_depth": 1, "max_names": 3}, fallback=fb))
    return out
