"""C10: operators only accept operands of the formalisms they are meant for."""
import z3

from checks.common import Lazy, attempt, base, describe
from vf import kinds

FUNCTIONS = ["syntax.base: _MetaOp and its operand checks, _MonotoneBinaryOp, _MetaImpliesOp, _MetaEquivalenceOp, "
             "_BinaryOp.__init__, _UnaryOp.__init__, Not, `logic` of every class",
             "constructors of syntax.ltl, syntax.pltl, syntax.ldl and of the quantifiers of syntax.fol",
             "Formula.__and__, __or__, __invert__"]
ASSUMPTIONS = [
    "operands are arbitrary formulas of any formalism (three or more operands of a connective: constants, negations "
    "and one other kind per formalism), arbitrary terms, and the strangers None, a string, a "
    "number and a class",
    "logical constants of a formalism other than that of the connective's other operands are not constrained "
    "(the connectives deliberately let them through), nor are logical constants of the formalism RE"]
EVERY = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL"]
CONNECTIVES = ("And", "Or", "Implies", "Equivalence")


def bounds(tier):
    return "up to %d operands per operator, each any formula or term" % (3 if tier == "quick" else 4)


def strangers():
    return [None, "a", 1, base().Formula]


def keys(logics, without=()):
    return [k.key for k in kinds.universe().kinds if k.logic in logics and k.key not in without]


CONSTS = ["%s.%s" % (l, n) for l in EVERY for n in ("True", "False", "PropositionalTrue", "PropositionalFalse")]


def consts():
    u = kinds.universe()
    return [c for c in CONSTS if c in u.by_key]


def logic_name(ctx, r):
    k = ctx.u.kind_of(r)
    return None if k is None else ("FOL" if k.logic in ("TERM", "VAR") else k.logic)


def sample(name, logics):
    """Constants, a formula of another kind, and (some) negations, for each formalism."""
    u = kinds.universe()
    other = {"LDL": "Diamond", "RE": "Prop", "FOL": "Predicate"}
    ks = ["%s.%s" % (l, n) for l in logics for n in ("True", "False", other.get(l, "Atomic"),
                                                   "Not" if l == "PL" or name in ("Implies", "Equivalence") else "")]
    return [k for k in ks if k in u.by_key]


def connective(name, n, logics=None):
    def h(ctx):
        B = base()
        fs = [ctx.formula(EVERY, only=sample(name, logics) if logics else None) for _ in range(n)]
        cls = getattr(B, name)
        how = ctx.choose(2) if n == 2 and name in ("And", "Or") else 0
        if how:
            r, e = attempt(lambda: fs[0] & fs[1] if name == "And" else fs[0] | fs[1])
        else:
            r, e = attempt(lambda: cls(*fs))
        cs = consts()
        # the formalism of the operands, logical constants apart
        same = []
        for l in EVERY:
            if l != "RE":
                same.append(z3.And(*[ctx.is_kind(f, keys([l])) for f in fs]))
        ok = z3.Or(*same)
        proper = [z3.Not(ctx.is_kind(f, cs)) for f in fs]
        pairs = []
        for i in range(n):
            for j in range(i):
                eq = z3.Or(*[z3.And(ctx.is_kind(fs[i], keys([l])), ctx.is_kind(fs[j], keys([l]))) for l in EVERY])
                pairs.append(z3.And(proper[i], proper[j], z3.Not(eq)))
        re_ = [z3.And(proper[i], ctx.is_kind(fs[i], keys(["RE"]))) for i in range(n)]
        bad = z3.Or(*(pairs + re_))
        if e is None:
            ctx.require(z3.Not(bad), "%s accepts operands of different formalisms, or regular expressions" % name)
            if ctx.branch(ok):
                ctx.require(isinstance(r, B.Formula), "%s does not give a formula" % name)
                lg = attempt(lambda: r.logic)[0]
                for l in EVERY:
                    if lg == ctx.u.logic_of[l]:
                        ctx.require(ctx.is_kind(fs[0], keys([l])), "%s reports a formalism that its operands do not have" % name)
                        break
                else:
                    ctx.require(False, "%s reports no formalism" % name)
        else:
            ctx.require(isinstance(e, Exception) and z3.Not(ok), "%s refuses operands of one formalism: %s" % (name, describe(e)))

    return h


def operator(key, n):
    """Operators with declared formalisms, and `not`."""
    def h(ctx):
        B, u = base(), kinds.universe()
        k = u.by_key[key]
        want = k.child_logics(n)
        fs = [ctx.formula(EVERY + ["TERM"]) for _ in want]
        r, e = attempt(lambda: k.cls(*fs))
        ok = z3.And(*[ctx.is_kind(f, ["TERM.Variable"] if l == "VAR" else keys([l])) for f, l in zip(fs, want)])
        if e is None:
            ctx.require(ok, "%s accepts an operand outside its formalism" % k.name)
            ctx.require(isinstance(r, B.Formula), "%s does not give a formula" % k.name)
            lg = attempt(lambda: r.logic)[0]
            ctx.require(lg == u.logic_of[k.logic], "a formula built by %s reports the formalism %s" % (k.name, lg))
        else:
            ctx.require(z3.Not(ok), "%s refuses operands of its formalism: %s" % (k.name, describe(e)))

    return h


def negation(ctx):
    B, u = base(), kinds.universe()
    f = ctx.formula(EVERY + ["TERM"])
    r, e = attempt(lambda: B.Not(f) if ctx.choose(2) else ~f)
    re_ = ctx.is_kind(f, [x for x in keys(["RE"]) if x not in consts()])
    term = ctx.is_kind(f, keys(["TERM"]))
    if e is None:
        ctx.require(z3.Not(z3.Or(re_, term)), "not accepts a regular expression or a term")
        lg = attempt(lambda: r.logic)[0]
        ctx.require(isinstance(r, B.Formula) and z3.Or(*[ctx.is_kind(f, keys([l])) for l in EVERY if lg == u.logic_of[l]]),
                    "a negation reports another formalism than its operand")
    else:
        ctx.require(z3.Or(re_, term, ctx.is_kind(f, keys(["RE"]))), "not refuses a formula: %s" % describe(e))


def odd(key, n):
    """A stranger in some position, or too few operands."""
    def h(ctx):
        u = kinds.universe()
        k = u.by_key[key]
        want = k.child_logics(n)
        fs = [ctx.formula(l) for l in want]
        if ctx.flag("missing"):
            if k.name in CONNECTIVES:
                fs = []
            else:
                del fs[ctx.choose(len(fs))]
                if k.shape == "nary":
                    fs = fs[:1]
            what = "too few operands"
        else:
            i = ctx.choose(len(fs))
            s = strangers() if not (i == 0 and want[0] == "VAR") else strangers() + ["term", "formula"]
            x = s[ctx.choose(len(s))]
            if x == "term":
                x = ctx.formula("TERM", without=["TERM.Variable"])
            elif x == "formula":
                x = ctx.formula("FOL")
            if k.name in CONNECTIVES and ctx.flag("term"):
                x = ctx.formula("TERM")
            fs[i] = x
            if k.name in CONNECTIVES and ctx.flag("alone"):
                fs = [x]
            elif k.shape == "nary" and ctx.flag("twice"):
                fs = [x, x]
            what = "an operand that is no formula"
        r, e = attempt(lambda: k.cls(*fs))
        ctx.require(e is not None, "%s accepts %s" % (k.name, what))

    return h


def leaves(ctx):
    u = kinds.universe()
    ks = [k for k in u.kinds if k.shape in ("const", "named")]
    k = ks[ctx.choose(len(ks))]
    f = ctx.formula(k.logic, only=[k.key])
    ctx.materialise(f)
    lg, e = attempt(lambda: f.logic)
    ctx.require(e is None and lg == u.logic_of[k.logic], "%s reports the formalism %s" % (k.key, lg))


def tasks(tier):
    deep = tier != "quick"
    out = []
    b = 600 if deep else 40
    lazy = {"max_arity": 2, "max_names": 3}
    fb = {"depth": 1, "budget": 25, "max_names": 2}
    u = kinds.universe()
    for c in CONNECTIVES:
        for n in (1, 2):
            out.append(Lazy("%s %d" % (c, n), connective(c, n), b, lazy=lazy, fallback=fb))
        for ls in [EVERY] if deep else [["PL", "LTL"], ["LDL", "RE"], ["FOL", "PLTL"]]:
            out.append(Lazy("%s 3 %s" % (c, "+".join(ls)), connective(c, 3, ls), b, lazy=lazy, fallback=dict(fb, depth=0)))
        if deep:
            out.append(Lazy("%s 4" % c, connective(c, 4, ["PL", "LTL", "RE"]), b, lazy=lazy, fallback=dict(fb, depth=0)))
    out.append(Lazy("not", negation, b, lazy=lazy, fallback=fb))
    for k in u.kinds:
        if k.shape == "fixed" and k.name != "Not":
            out.append(Lazy(k.key, operator(k.key, len(k.children)), b, lazy=lazy, fallback=fb))
        elif k.shape == "nary" and k.name not in CONNECTIVES:
            for n in (2, 3, 4) if deep else (2, 3):
                out.append(Lazy("%s %d" % (k.key, n), operator(k.key, n), b, lazy=lazy, fallback=dict(fb, depth=1 if n < 3 else 0)))
        if k.shape == "nary" or (k.shape == "fixed" and k.children):
            n = 3 if k.shape == "nary" else len(k.children)
            out.append(Lazy("odd " + k.key, odd(k.key, n), b, lazy=lazy, fallback=dict(fb, depth=0)))
    out.append(Lazy("leaves", leaves, b, lazy=lazy))
    return out
