"""C15: printed formulas parse back to the same formula."""
import contextlib

from checks.common import Lazy, attempt, describe
from vf import actions, engine, kinds, refgram, repo, symform
from vf.engine import Unsupported

FUNCTIONS = ["utils.to_string: to_string and all its registered implementations",
             "parsers: parse_pl, parse_ltl, parse_pltl, parse_ldl (on the instances of the paths; their grammars are "
             "decided by C11-C14, their tokens by C17)"]
ASSUMPTIONS = [
    "induction over the formula: the text of a formula is its operator's text around the texts of the operands, which "
    "are opaque strings known to parse back; the surrounding text is parsed with the documented grammar, in which an "
    "operand's text is a sentence of the levels that every operator of the operand's formalism can print itself at",
    "regular expressions do not contain the two constants that have no spelling; atoms are not reserved words"]

STARTS = {"PL": ["e0", "e1", "e2", "e3", "u", "w"],
          "LTL": ["e%d" % i for i in range(8)] + ["u", "w"],
          "PLTL": ["e%d" % i for i in range(6)] + ["u", "w"],
          "LDL": ["e0", "e1", "e2", "e3", "u", "w"], "RE": ["r", "s", "t", "q"]}
GRAMMAR = {"PL": "pl", "LTL": "ltl", "PLTL": "pltl", "LDL": "ldl", "RE": "ldl"}
# What may stand directly beside an operand's text, which begins with a name, a quote, a bracket or a prefix operator and
# ends with a name, a quote, a bracket or a postfix operator, so that the two stay separate tokens.
SEPARATE_LEFT = " \t\n()[]<>;+*?~&|"
SEPARATE_RIGHT = " \t\n()[]<>;+*?&|"
NO_SPELLING = ["RE.True", "RE.False"]


def bounds(tier):
    return "formulas of any size and nesting (induction); operators with up to %d operands" % (5 if tier == "quick" else 8)


def op_of(key):
    lg, n = key.split(".")
    if n in ("And", "Or", "Not", "Implies", "Equivalence"):
        return n
    low = "ldl" if lg == "RE" else lg.lower()
    leaf = {"Atomic": "atom", "PropositionalTrue": "true", "PropositionalFalse": "false"}.get(n)
    if n in ("True", "False"):
        leaf = n.lower() if lg == "PL" else {"True": "tt", "False": "ff"}[n]
    return low + "." + (leaf or n)


class Mark(str):
    """The unknown text of an operand."""

    def _no(self, *a):
        raise Unsupported("looks into the text of an operand")

    for _n in ("contains getitem len eq ne lt gt le ge iter hash mul rmul mod").split():
        locals()["__%s__" % _n] = _no
    for _n in ("startswith endswith strip lstrip rstrip replace find index split count isalpha isalnum islower isupper "
               "lower upper partition rpartition rsplit splitlines isidentifier translate encode").split():
        locals()[_n] = _no

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            self._no()
        return str.__format__(self, "")

    def __add__(self, o):
        return str.__add__(self, o)


def to_string():
    return repo.mod("utils.to_string").to_string


@contextlib.contextmanager
def guard(ctx):
    with symform.sym_guard(ctx):
        real = to_string()
        saved = []

        def wrapped(f, *a, **k):
            if f is not ctx.root and id(f) in ctx.meta:
                return ctx.mark(f)
            return real(f, *a, **k)
        for n in dir(real):
            if not n.startswith("__"):
                setattr(wrapped, n, getattr(real, n))
        for m in repo.modules():
            for n, v in list(vars(m).items()):
                if v is real:
                    saved.append((m, n))
                    setattr(m, n, wrapped)
        try:
            yield
        finally:
            for m, n in saved:
                setattr(m, n, real)


class Ctx(symform.LazyCtx):
    root = None

    def opaque(self, dom, label, eqmode=None):
        return super().opaque(dom - self.u.keys(NO_SPELLING), label, eqmode)

    def mark(self, f):
        for c, g in self.marks.items():
            if g is f:
                return Mark(c)
        c = chr(0xE000 + len(self.marks))
        self.marks[c] = f
        return Mark(c)


_levels = {}


def levels(key):
    """Nonterminals of the documented grammar at which the text of an operator's formulas is guessed to stand."""
    if key not in _levels:
        u = kinds.universe()
        k = u.by_key[key]
        lg = k.logic
        f, g = sample(key), refgram.GRAMMARS[GRAMMAR[lg]]
        text, err = attempt(to_string(), f)
        out = set()
        if err is None:
            toks = refgram.lex(g, text)
            for s in STARTS[lg]:
                if toks and refgram.parse(g, toks, lambda op, a, t: (op, tuple(a)), s) is not None:
                    out.add(s)
        _levels[key] = frozenset(out)
    return _levels[key]


def sample(key):
    u = kinds.universe()
    k = u.by_key[key]
    leaf = {"PL": lambda n: u.pl.Atomic("x%d" % n), "LTL": lambda n: u.ltl.Atomic("x%d" % n),
            "PLTL": lambda n: u.pltl.Atomic("x%d" % n)}
    leaf["RE"] = lambda n: u.ldl.Prop(leaf["PL"](n))
    leaf["LDL"] = lambda n: u.ldl.Diamond(leaf["RE"](n), u.base.TrueFormula(logic=u.base.Logic.LDL))
    return k.make("x0", [leaf[l](n) for n, l in enumerate(k.child_logics(2 if k.shape == "nary" else 0))])


def hole_levels(ctx, f):
    """Levels common to all the kinds that the operand can still have, with their grammar's names."""
    rec = ctx.meta[id(f)]
    dom = [ctx.u.kinds[i] for i in (rec.dom if rec.kind is None else [rec.kind.idx])]
    dom = [k for k in dom if k.key not in NO_SPELLING]
    out = None
    for k in dom:
        out = levels(k.key) if out is None else out & levels(k.key)
    return dom[0].logic if dom else None, out or frozenset()


def harness(logic):
    g = refgram.GRAMMARS[GRAMMAR[logic]]
    start = STARTS[logic][0]

    def expected(ctx, f, holes):
        if f in holes:
            return ("#", holes.index(f))
        k = ctx.kind(f)
        if k.shape == "named":
            return (op_of(k.key), ctx.u.name_of(f))
        return (op_of(k.key),) + tuple(expected(ctx, c, holes) for c in k.get(f))

    def native(ctx, f):
        text, e = attempt(to_string(), f)
        if logic == "RE":
            if e is None:
                text = "<%s>tt" % text
        ctx.require(e is None, "to_string raises %s" % (e and describe(e)))
        r, e = attempt(getattr(repo.mod("parsers"), "parse_" + GRAMMAR[logic]), text)
        ctx.require(e is None, "the text %r is not parsed back: %s" % (text, e and describe(e)))
        want = f
        if logic == "RE":
            r = r.regular_expression
        ctx.require(r == want and actions.same_value(norm(r), norm(want)), "the text %r is parsed as another formula" % text)

    def h(ctx):
        f = ctx.formula(logic, without=NO_SPELLING)
        if ctx.mode != "lazy":
            if unparsable(f):
                return
            native(ctx, f)
            return
        ctx.root, ctx.marks = f, {}
        text, e = attempt(repo.mod("utils.to_string").to_string, f)
        ctx.require(e is None, "to_string raises %s" % (e and describe(e)))
        ctx.require(isinstance(text, str), "to_string gives no string")
        text = str.__str__(text)
        holes = list(ctx.marks.values())
        toks = refgram.lex(g, text, {c: n for n, c in enumerate(ctx.marks)})
        for i, x in enumerate(text):
            if x in ctx.marks:
                left, right = text[i - 1:i] or " ", text[i + 1:i + 2] or " "
                if left not in SEPARATE_LEFT or right not in SEPARATE_RIGHT:
                    raise Unsupported("operand text next to %r and %r" % (left, right))
        ctx.require(toks is not None, "the text %r does not consist of documented tokens" % show(text))
        want = expected(ctx, f, Ident(holes))

        def allowed(n):
            lg, ls = hole_levels(ctx, holes[n])
            if lg == "PL" and logic in ("LDL", "RE"):
                return {"p" + x for x in ls}
            return ls
        make = lambda op, args, t: (op,) + (tuple(args) if args else (t,) if op.endswith(".atom") else ())
        own = levels(ctx.kind(f).key)
        def derive():
            try:
                return {s: refgram.parse(g, toks, make, s, allowed) for s in set(own) | {start}}
            except refgram.Ambiguous:
                raise Unsupported("ambiguous text")
        got = derive()
        for f in holes:
            if all(x == want for x in got.values()):
                break
            ctx.kind(f)
            got = derive()
        ctx.require(got[start] == want, "the text %r is derived as %s instead of %s" % (show(text), got[start], want))
        for s in own:
            if got[s] != want:
                raise Unsupported("the text %r does not stand at %s" % (show(text), s))
        ctx.require(True, "")

    return h


RESERVED = ["true", "false", "tt", "ff", "last", "end", "start", "first"]


class Names:
    """Atoms with names of every form, chosen by the solver, print and parse back (native)."""

    name = "names"

    def __init__(self, tier):
        self.n = 4 if tier == "quick" else 20

    def replay(self, rec):
        u, n = kinds.universe(), rec["name"]
        P = repo.mod("parsers")
        pl, ltl, pltl = u.pl.Atomic(n), u.ltl.Atomic(n), u.pltl.Atomic(n)
        fs = [(P.parse_pl, pl), (P.parse_pl, u.base.Implies(pl, u.pl.Atomic("q"))), (P.parse_ltl, ltl),
              (P.parse_ltl, u.ltl.Next(ltl)), (P.parse_ltl, u.ltl.Until(u.ltl.Always(ltl), ltl)), (P.parse_pltl, pltl),
              (P.parse_pltl, u.pltl.Since(u.pltl.Once(pltl), pltl)),
              (P.parse_ldl, u.ldl.Diamond(u.ldl.Star(u.ldl.Prop(pl)), u.base.TrueFormula(logic=u.base.Logic.LDL)))]
        for p, f in fs:
            text, e = attempt(to_string(), f)
            g, e = attempt(p, text) if e is None else (None, e)
            if e is not None:
                return "violated", "%r prints as %r, which is not parsed back: %s" % (f, text, describe(e))
            if not actions.same_value(f, g):
                return "violated", "%r prints as %r, which is parsed as %r" % (f, text, g)
        return "ok", ""

    def replay_task(self):
        t = type("T", (), {})()
        t.replay = self.replay
        return t

    def run(self, tier):
        import z3
        from checks import c16
        from vf import rex
        R = rex.to_z3
        any_ = rex.any_string()
        r = engine.Result()
        shapes = [R('".*"'), R("[a-z_].*"), z3.Concat(any_, R("-"), any_), z3.Concat(any_, R("[A-Z]"), any_),
                  R("_.*"), R("[a-z]+-+[a-z0-9]+"), R('".*[()].*"'), R('".*[|&<>].*"'), R('"[A-Z].* .*"'), R('" .*'),
                  R('".* "'), R("true.+"), R("tt.+"), R("last.+"), R("end.+"), R("ff[^f].*"), R("start.+"), R("_true")]
        for shape in shapes:
            S = z3.String("name")
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(z3.InRe(S, c16.documented()), z3.InRe(S, shape), z3.Length(S) <= 12)
            s.add(*[S != w for w in RESERVED])
            for _ in range(self.n):
                r.stats.add(queries=1, obligations=1)
                if s.check() != z3.sat:
                    break
                v = s.model().eval(S, model_completion=True)
                s.add(S != v)
                if _ % 2 == 0:
                    s.add(z3.Length(S) != z3.Length(v))
                rec = {"name": rex.decode(v)}
                verdict, msg = self.replay(rec)
                if verdict == "violated":
                    r.violations.append(dict(rec, msg=msg))
                    return [(self.name, "solver-chosen", r)]
                r.stats.add(validated=1, discharged=1)
        return [(self.name, "solver-chosen", r)]


class Ident:
    def __init__(self, xs):
        self.xs = xs

    def __contains__(self, f):
        return any(x is f for x in self.xs)

    def index(self, f):
        return next(n for n, x in enumerate(self.xs) if x is f)


def norm(f):
    return f


def unparsable(f):
    def walk(a):
        return a[0] in NO_SPELLING or any(walk(c) for c in a[2])
    return walk(kinds.to_ast(f))


def show(text):
    return "".join("{%d}" % (ord(c) - 0xE000) if 0xE000 <= ord(c) < 0xF000 else c for c in text)


def tasks(tier):
    n = 5 if tier == "quick" else 8
    out = []
    for lg in ("PL", "LTL", "PLTL", "LDL", "RE"):
        class L(Lazy):
            def lazy_task(self):
                t = super().lazy_task()
                t.guard = guard
                return t
        t = L("round trip/" + lg, harness(lg), 60, dict(ctx_cls=Ctx, max_arity=n, max_names=1, max_depth=3),
                 fallback=dict(depth=2, budget=60), validate=40,
                 eager=None if tier == "quick" else dict(depth=2, budget=200))
        out.append(t)
    return out + [Names(tier)]
