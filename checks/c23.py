"""C23: endpoint constants mean what they say on every finite trace."""
import z3

from checks.common import Lazy, attempt, base, describe
from vf import kinds, repo
from vf.traces import Trace

FUNCTIONS = ["syntax.ltl.Last, syntax.ldl.Last, syntax.ldl.End, syntax.pltl.Start",
             "parsers.ltl.parse_ltl, parsers.ldl.parse_ldl, parsers.pltl.parse_pltl on texts with the keywords"]
ASSUMPTIONS = [
    "the meaning of the operators is the standard semantics on finite traces (position n, after the last instant, is a "
    "position of LDL only), encoded in vf/traces.py",
    "the meaning of the keyword inside a larger formula is compared with that of a placeholder in the same place; the "
    "larger formulas are the listed contexts, up to two levels deep"]


def bounds(tier):
    return "all traces of length 1 to %d over arbitrary letters, all instants; contexts of depth %d" % (
        (8, 2) if tier == "quick" else (16, 3))


def keyword(name):
    """(parser, constructor, meaning, positions)."""
    ltl, ldl, pltl = repo.mod("syntax.ltl"), repo.mod("syntax.ldl"), repo.mod("syntax.pltl")
    p = repo.mod("parsers")
    return {"ltl last": (p.parse_ltl, ltl.Last, "last", lambda t, i: t.last(i)),
            "ldl last": (p.parse_ldl, ldl.Last, "last", lambda t, i: t.last(i)),
            "ldl end": (p.parse_ldl, ldl.End, "end", lambda t, i: t.n == i),
            "pltl start": (p.parse_pltl, pltl.Start, "start", lambda t, i: z3.BoolVal(i == 0))}[name]


def positions(name, N):
    return range(N + 1) if name == "ldl end" else range(N)


def there(name, t, i):
    return z3.And(t.n >= i, t.n >= 1, t.n <= t.N) if name == "ldl end" else z3.And(t.inside(i), t.n <= t.N)


def alone(name, N):
    def h(ctx):
        parse, make, word, meaning = keyword(name)
        B = base()
        how = ctx.choose(8)
        B.reset_cache()
        if how == 0:
            f, e = attempt(make)
        elif how == 1:
            attempt(make)
            B.reset_cache()
            f, e = attempt(make)
        elif how == 2:
            f0, e = attempt(make)
            attempt(lambda: [~f0, ~~f0, B.And(f0, f0), B.Or(f0, ~f0), hash(f0)])
            f, e = attempt(make)
        else:
            texts = [word, "(%s)" % word, " \t%s\n" % word, "((%s))" % word, "!!%s" % word]
            f, e = attempt(parse, texts[how - 3])
        ctx.require(e is None, "%s raised %s" % (name, e and describe(e)))
        t = Trace(N)
        for i in positions(name, N):
            ctx.require(z3.Implies(there(name, t, i), t.sat(f, i) == meaning(t, i)),
                        "%s does not hold exactly where it should (position %d)" % (name, i))

    return h


CONTEXTS = {
    "ltl last": (["!(@)", "~@", "X[!] @", "X @", "F @", "G @", "(@)"] +
                 [c % o for o in ("&", "&&", "|", "||", "->", ">>", "<->", "U ", "R ", "W ", "M ")
                  for c in ("@ %s a", "a %s @")] +
                 ["@ & a & b", "a | @ | b", "a -> @ -> b", "@ <-> @", "a U (@ & b)", "!@ & a", "true & @", "ff | @"]),
    "pltl start": (["!(@)", "~@", "Y @", "Z @", "O @", "H @", "(@)"] +
                   [c % o for o in ("&", "&&", "|", "||", "->", ">>", "<->", "S ", "T ")
                    for c in ("@ %s a", "a %s @")] +
                   ["@ & a & b", "a | @ | b", "a -> @ -> b", "@ <-> @", "a S (@ & b)", "!@ & a", "tt & @"]),
    "ldl last": (["!(@)", "~@", "(@)", "<a>@", "[a]@", "<a*>@", "[a*]@", "<a;b>@", "[a+b]@", "<@?>tt", "<@?;a>tt",
                  "<(@?;a)*>tt", "[@?]ff", "<a;@?>tt", "[@? + a]ff", "<(@ & <a>tt)?>tt", "<true;(!@)?>tt"] +
                 [c % o for o in ("&", "&&", "|", "||", "->", ">>", "<->")
                  for c in ("@ %s <a>tt", "<a>tt %s @", "[b]ff %s @")] + ["@ <-> @", "@ & @", "tt & @", "@ | ff"]),
}
CONTEXTS["ldl end"] = CONTEXTS["ldl last"]


def inside(name, N, depth):
    def h(ctx):
        parse, make, word, meaning = keyword(name)
        cs = CONTEXTS[name]
        c = cs[ctx.choose(len(cs))]
        for _ in range(depth - 1):
            c = c.replace("@", "(%s)" % cs[ctx.choose(len(cs))])
        text = c.replace("@", word)
        placeholder = "(<zz_q>tt)" if name.startswith("ldl") else "zz_q"
        base().reset_cache()
        f, e = attempt(parse, text)
        ctx.require(e is None, "parsing %r raised %s" % (text, e and describe(e)))
        g, e = attempt(parse, c.replace("@", placeholder))
        ctx.require(e is None, "parsing %r raised %s" % (c.replace("@", placeholder), e and describe(e)))

        def is_placeholder(x):
            k = kinds.universe().kind_of(x)
            if k is None:
                return False
            if k.key == "LDL.Diamond":
                return kinds.to_ast(x) == ["LDL.Diamond", None, [["RE.Prop", None, [["PL.Atomic", "zz_q", []]]],
                                                                 ["LDL.True", None, []]]]
            return k.name == "Atomic" and x.name == "zz_q"

        t = Trace(N)
        t2 = Trace(N, known=[(is_placeholder, lambda i: meaning(t, i))])
        ctx.require(z3.And(*[z3.Implies(there(name, t, i), t.sat(f, i) == t2.sat(g, i)) for i in positions(name, N)]),
                    "the keyword means something else in %r" % text)

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    N = 16 if deep else 8
    for name in ("ltl last", "pltl start", "ldl last", "ldl end"):
        eager = {"budget": 60}
        out.append(Lazy(name, alone(name, N), eager=eager, eager_validate=4))
        out.append(Lazy(name + " inside", inside(name, 6 if deep else 5, 1), eager=eager, eager_validate=2))
        out.append(Lazy(name + " inside 2", inside(name, 5 if deep else 4, 2), eager=eager, eager_validate=2))
        if deep:
            out.append(Lazy(name + " inside 3", inside(name, 4, 3), eager={"budget": 900}, eager_validate=2))
    return out
