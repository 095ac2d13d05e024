"""C16: atom names are exactly the documented symbols."""
import contextlib
import re
import types

import z3

from checks.common import attempt, base, describe
from vf import engine, repo, rex
from vf.engine import ReplayCtx, SymCtx, Task, Unsupported

FUNCTIONS = ["syntax.base: AtomName, AbstractAtomic.__init__, AbstractAtomic.name", "helpers.misc.RegexConstrainedString",
             "constructors of the atoms of syntax.pl, syntax.ltl, syntax.pltl",
             "the symbol terminal of parsers/pl.lark, ltl.lark, pltl.lark, ldl.lark as compiled by lark"]
ASSUMPTIONS = [
    "characters up to U+2FFFF", "Python's fullmatch, match and search decide membership in the language of the pattern "
    "(z3's theory of strings decides it here)",
    "names are str objects; apart from regular expressions the constructors treat the name as a whole (the solver's "
    "example names of each case are re-run natively)"]

PLACES = ["vf_symbolic_name", '"vf symbolic ~ Name"', "_vF-9x_-Y", "Vf!"]


def bounds(tier):
    return "none on the length of the name; characters up to U+2FFFF; %d native examples per case" % (
        12 if tier == "quick" else 60)


def documented():
    R = rex.to_z3
    return z3.Union(R(r"[a-z_]"), R(r"[a-z_][a-zA-Z0-9_-]*[a-zA-Z0-9_]"), R(r'"[ !#-~]+"'))


class _Match:
    def __init__(self, s):
        self.s = s

    def group(self, *a):
        if a not in ((), (0,)):
            raise Unsupported("groups of a match")
        return self.s

    def __getattr__(self, n):
        raise Unsupported("match.%s" % n)


class SymPattern:
    """A compiled pattern that answers for the symbolic name."""

    def __init__(self, pat, ctx):
        self.pat, self.ctx = pat, ctx

    def _is(self, s):
        return isinstance(s, str) and str.__str__(s) == self.ctx.place

    def _ask(self, s, how, rest):
        if rest:
            raise Unsupported("match positions")
        r = rex.to_z3(self.pat.pattern, self.pat.flags & ~re.UNICODE)
        any_ = rex.any_string()
        r = {"fullmatch": r, "match": z3.Concat(r, any_), "search": z3.Concat(any_, r, any_)}[how]
        self.ctx.asked += 1
        return _Match(s) if self.ctx.branch(z3.InRe(self.ctx.S, r)) else None

    def fullmatch(self, s, *rest):
        return self._ask(s, "fullmatch", rest) if self._is(s) else self.pat.fullmatch(s, *rest)

    def match(self, s, *rest):
        return self._ask(s, "match", rest) if self._is(s) else self.pat.match(s, *rest)

    def search(self, s, *rest):
        return self._ask(s, "search", rest) if self._is(s) else self.pat.search(s, *rest)

    def __getattr__(self, n):
        if n in ("pattern", "flags", "groups"):
            return getattr(self.pat, n)
        raise Unsupported("pattern.%s" % n)

    def __format__(self, spec):
        return repr(self.pat)

    def __repr__(self):
        return repr(self.pat)


def sym_re(ctx):
    m = types.SimpleNamespace(**{n: getattr(re, n) for n in dir(re) if not n.startswith("__")})
    comp = lambda p, flags=0: p if isinstance(p, SymPattern) else SymPattern(re.compile(p, flags), ctx)
    m.compile = comp
    for n in ("fullmatch", "match", "search"):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(comp(p, flags), n)(s))
    return m


@contextlib.contextmanager
def guard(ctx):
    saved = []
    classes = set()
    for m in repo.modules():
        for n, v in list(vars(m).items()):
            if isinstance(v, re.Pattern):
                saved.append((m, n, v))
                setattr(m, n, SymPattern(v, ctx))
            elif v is re:
                saved.append((m, n, v))
                setattr(m, n, sym_re(ctx))
            elif isinstance(v, type) and v.__module__.startswith(repo.PKG):
                classes.add(v)
    for c in classes:
        for n, v in list(vars(c).items()):
            if isinstance(v, re.Pattern):
                saved.append((c, n, v))
                setattr(c, n, SymPattern(v, ctx))
    base().reset_cache()
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
        base().reset_cache()


@contextlib.contextmanager
def native(ctx):
    base().reset_cache()
    yield
    base().reset_cache()


class StrCtx(SymCtx):
    mode = "lazy"

    def __init__(self, prefix, stats):
        super().__init__(prefix, stats, timeout_ms=60000)
        self.S = z3.String("name")
        self.asked = 0

    def name(self):
        self.place = PLACES[self.choose(len(PLACES))]
        return self.place

    def documented(self):
        return z3.InRe(self.S, documented())

    def record(self):
        m = self.get_model()
        return None if m is None else {"name": rex.decode(m.eval(self.S, model_completion=True)),
                                       "choices": [d for t, d in self.log if t == "choose"]}

    def describe(self):
        return self.record()


class StrReplay(ReplayCtx):
    def __init__(self, rec):
        super().__init__(dict({"bools": {}, "ints": {}}, **rec))
        self.asked = 1

    def name(self):
        self.choose(len(PLACES))
        self.place = self.record["name"]
        return self.place

    def documented(self):
        return z3.BoolVal(doc_match(self.record["name"]))


def doc_match(s):
    """The documented language, natively, for replays."""
    word = "abcdefghijklmnopqrstuvwxyz_"
    tail = word + "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    if s[:1] == '"':
        return len(s) > 2 and s[-1] == '"' and all(" " <= c <= "~" and c != '"' for c in s[1:-1])
    return s[:1] != "" and s[0] in word and all(c in tail + "-" for c in s[1:]) and s[-1] != "-"


MAKERS = ("pl", "ltl", "pltl")


def construct(ctx):
    m = MAKERS[ctx.choose(len(MAKERS))]
    name = ctx.name()
    how = ctx.choose(3)
    cls = repo.mod("syntax." + m).Atomic
    B = base()
    if how == 0:
        r, e = attempt(cls, name)
    elif how == 1:
        r, e = attempt(lambda: cls(name=name))
    else:
        r, e = attempt(lambda: cls(B.AtomName(name)))
    if ctx.asked == 0:
        raise Unsupported("the constructor does not consult a regular expression")
    if e is not None:
        ctx.require(isinstance(e, Exception) and z3.Not(ctx.documented()), "%s.Atomic refuses a documented symbol: %s" % (
            m, describe(e)))
        return
    ctx.require(ctx.documented(), "%s.Atomic accepts a name that is no documented symbol" % m)
    ctx.require(type(r) is cls, "%s.Atomic gives a %s" % (m, type(r).__name__))
    ctx.require(str(r.name) == name and r.name == name, "%s.Atomic does not keep its name" % m)


class Construct:
    name = "constructors"

    def __init__(self, tier):
        self.n = 12 if tier == "quick" else 60

    def task(self):
        return Task(self.name, construct, StrCtx, guard, StrReplay, native, validate=100, replay_limit=20)

    def replay_task(self):
        return self.task()

    def run(self, tier):
        t = self.task()
        r = engine.explore(t, 120, procs=1)
        if not r.violations:
            examples(t, r, self.n)
        return [(self.name, "symbolic string", r)]


def examples(task, res, n):
    """Names chosen by the solver inside and just outside the documented language, run natively."""
    S = z3.String("name")
    D = documented()
    R = rex.to_z3
    any_ = rex.any_string()
    shapes = [R('".*"'), R("[a-z_].*"), z3.Concat(any_, R("-"), any_), z3.Concat(any_, R("[A-Z]"), any_),
              z3.Concat(any_, R(" ")), z3.Concat(R(" "), any_), z3.Concat(any_, R(r"\n")), R("[A-Z0-9].*"),
              R('"[^"]*"'), R(""), z3.Concat(R('" '), any_), z3.Concat(any_, R("~"), any_), R("[a-z]+-+[a-z0-9]+"),
              R('[^"]*"'), R("__.*"), R(r".*[\x7f-\xff].*"), R("[a-z]+[A-Z]+[a-z]*"), R('"[A-Z].* .*"')]
    for inside in (True, False):
        for k, shape in enumerate(shapes):
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(z3.InRe(S, D) if inside else z3.Not(z3.InRe(S, D)), z3.InRe(S, shape), z3.Length(S) <= 12)
            for j in range(max(1, n // 6)):
                r = s.check()
                res.stats.add(queries=1)
                if r != z3.sat:
                    break
                v = s.model().eval(S, model_completion=True)
                s.add(S != v)
                if j % 2 == 0:
                    s.push()
                    s.pop()
                name = rex.decode(v)
                for m in range(len(MAKERS)):
                    rec = {"name": name, "choices": [m, 0, 0]}
                    verdict, msg = task.replay(rec)
                    if verdict == "violated":
                        rec["msg"] = msg
                        res.violations.append(rec)
                        return
                    res.stats.add(validated=1)


class Terminals:
    """The symbol terminal of each parser denotes the documented language."""

    def __init__(self, which):
        self.name, self.which = "symbol of the %s parser" % which, which

    def terminal(self):
        from vf import larks
        lk = larks.lark_of(self.which)
        return larks.symbol_terminal(lk, self.which)

    def run(self, tier):
        r = engine.Result()
        try:
            pats = self.terminal()
            L = z3.Union(*[rex.to_z3(p) for p in pats]) if len(pats) > 1 else rex.to_z3(pats[0])
            S = z3.String("text")
            s = z3.Solver()
            s.set("timeout", 120000)
            s.add(z3.InRe(S, L) != z3.InRe(S, documented()))
            import time
            t0 = time.time()
            a = s.check()
            r.stats.add(queries=1, obligations=1, solver_s=time.time() - t0, states=1)
            if a == z3.unsat:
                r.stats.add(discharged=1, validated=1)
                r.samples.append({"terminal": pats})
            elif a == z3.sat:
                rec = {"text": rex.decode(s.model().eval(S, model_completion=True))}
                v, msg = self.replay(rec)
                if v == "violated":
                    rec["msg"] = msg
                    r.violations.append(rec)
                else:
                    r.stats.add(spurious=1)
            else:
                r.complete = False
        except Unsupported as e:
            r.unsupported.append(str(e))
            r.stats.add(paths_unsupported=1)
            r.complete = False
        return [(self.name, "regular languages", r)]

    def replay(self, rec):
        text = rec["text"]
        got = False
        for p in self.terminal():
            if re.fullmatch(p, text):
                got = True
        want = doc_match(text)
        if got == want:
            return "ok", "as documented"
        return "violated", "the symbol token of the %s parser %s %r, which is %s documented symbol" % (
            self.which, "denotes" if got else "does not denote", text, "a" if want else "no")

    def replay_task(self):
        t = type("T", (), {})()
        t.replay = self.replay
        return t


def tasks(tier):
    return [Construct(tier)] + [Terminals(w) for w in ("pl", "ltl", "pltl", "ldl")]
