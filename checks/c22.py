"""C22: sequence and default helpers honour their contracts."""
import collections.abc
import operator

import z3

from checks.common import attempt, base, describe
from vf import repo
from vf.vals import SymInt, Values

FUNCTIONS = ["helpers.misc: safe_get, safe_index, find, ensure, ensure_set, ensure_sequence, enforce",
             "syntax.base.ensure_formula"]
ASSUMPTIONS = ["equality of elements is an equivalence; every element may be truthy or falsy",
               "predicates answer True or False",
               "integers that index a list are followed one by one up to 12, larger ones by one representative"]


def bounds(tier):
    return "sequences of up to %d elements, every integer index, every outcome of predicates and comparisons" % (
        3 if tier == "quick" else 5)


class Seq(collections.abc.Sequence):
    """A sequence that is neither a list nor a tuple."""

    def __init__(self, items):
        self._items = list(items)

    def __getitem__(self, i):
        return self._items[i]

    def __len__(self):
        return len(self._items)


def misc():
    return repo.mod("helpers.misc")


def sequence(ctx, mx):
    n = ctx.choose(mx + 1)
    xs = [ctx.elem() for _ in range(n)]
    return xs, (list, tuple, Seq)[ctx.choose(3)](xs)


def untouched(ctx, seq, xs):
    ctx.require(len(seq) == len(xs) and all(a is b for a, b in zip(seq, xs)), "the sequence was modified")


def get(mx):
    def h(ctx):
        xs, seq = sequence(ctx, mx)
        n, i = len(xs), ctx.integer()
        t = ctx.term(i)
        how = ctx.choose(3)
        d = ctx.elem() if how else None
        if how == 0:
            r, e = attempt(lambda: misc().safe_get(seq, i))
        elif how == 1:
            r, e = attempt(lambda: misc().safe_get(seq, i, d))
        else:
            r, e = attempt(lambda: misc().safe_get(seq, i, default=d))
        ctx.require(e is None, "safe_get raised %s" % (e and describe(e)))
        where = [z3.Or(t == k, t == k - n) for k in range(n)]
        conds = [w for k, w in enumerate(where) if r is xs[k]]
        if r is d:
            conds.append(z3.Not(z3.Or(*where)))
        ctx.require(z3.Or(*conds), "safe_get returned something else than the element at the index, or the default")
        untouched(ctx, seq, xs)

    return h


def index(mx, how):
    def h(ctx):
        xs, seq = sequence(ctx, mx)
        n = len(xs)
        x = ctx.elem() if ctx.choose(2) or not xs else xs[ctx.choose(n)]
        lo, hi = z3.IntVal(0), z3.IntVal(n)
        args = [ctx.integer() for _ in range(how)]
        clip = lambda v: z3.If(v < 0, z3.If(v + n < 0, 0, v + n), v)
        if how >= 1:
            lo = clip(ctx.term(args[0]))
        if how == 2:
            hi = clip(ctx.term(args[1]))
        r, e = attempt(lambda: misc().safe_index(seq, x, *args))
        ctx.require(e is None, "safe_index raised %s" % (e and describe(e)))
        hit = [z3.And(lo <= k, k < hi, ctx.equal(xs[k], x)) for k in range(n)]
        if r is None:
            ctx.require(z3.Not(z3.Or(*hit)), "safe_index did not find an element that is there")
        else:
            ctx.require(type(r) in (int, SymInt), "safe_index returned %r" % (r,))
            r = operator.index(r)
            ctx.require(0 <= r < n, "safe_index returned %r" % (r,))
            ctx.require(z3.And(hit[r], *[z3.Not(c) for c in hit[:r]]), "safe_index did not return the first position")
        untouched(ctx, seq, xs)

    return h


def find(mx):
    def h(ctx):
        xs, seq = sequence(ctx, mx)
        answers = {}

        def cond(x):
            if x.i not in answers:
                answers[x.i] = z3.Bool("p%d" % x.i)
            return ctx.branch(answers[x.i]) if ctx.mode == "lazy" else ctx.record["bools"].get("p%d" % x.i, False)

        def value(x):
            return z3.Bool("p%d" % x.i) if ctx.mode == "lazy" else z3.BoolVal(
                ctx.record["bools"].get("p%d" % x.i, False))

        r, e = attempt(lambda: misc().find(seq, cond))
        ctx.require(e is None, "find raised %s" % (e and describe(e)))
        vs = [value(x) for x in xs]
        if r == -1:
            ctx.require(z3.Not(z3.Or(*vs)), "find missed an element that satisfies the condition")
        else:
            ctx.require(type(r) is int and 0 <= r < len(xs), "find returned %r" % (r,))
            ctx.require(z3.And(vs[r], *[z3.Not(v) for v in vs[:r]]), "find did not return the first position")
        untouched(ctx, seq, xs)

    return h


def ensure_any(ctx):
    x = ctx.elem() if ctx.choose(2) else None
    d = ctx.elem() if ctx.choose(2) else None
    r, e = attempt(lambda: misc().ensure(x, d))
    ctx.require(e is None, "ensure raised %s" % (e and describe(e)))
    ctx.require(r is (d if x is None else x), "ensure returned something else")


def ensure_collection(name, mx):
    def h(ctx):
        n = ctx.choose(mx + 1)
        xs = [ctx.elem() for _ in range(n)]
        kinds_ = (list, tuple, set, frozenset, Seq) if name == "ensure_set" else (list, tuple, Seq)
        k = ctx.choose(len(kinds_) + 1)
        arg = None if k == len(kinds_) else kinds_[k](xs)
        before = None if arg is None else list(arg)
        how = ctx.choose(5)
        f = getattr(misc(), name)
        imm = (True, True, False, True, False)[how]
        r, e = attempt(lambda: f(arg) if how == 0 else f(arg, imm) if how < 3 else f(arg, immutable=imm))
        ctx.require(e is None, "%s raised %s" % (name, e and describe(e)))
        want = before or []
        if name == "ensure_set":
            ctx.require(isinstance(r, collections.abc.Set), "ensure_set does not return a set")
            ctx.require(isinstance(r, collections.abc.MutableSet) == (not imm), "ensure_set: wrong mutability")
            if imm:
                ctx.require(isinstance(r, collections.abc.Hashable), "ensure_set: an immutable set must be hashable")
            got = list(r)
            for x in want:
                ctx.require(z3.Or(*[ctx.equal(x, y) for y in got]), "ensure_set lost an element")
            for i, y in enumerate(got):
                ctx.require(z3.Or(*[ctx.equal(x, y) for x in want]), "ensure_set invented an element")
        else:
            ctx.require(isinstance(r, collections.abc.Sequence), "ensure_sequence does not return a sequence")
            ctx.require(isinstance(r, collections.abc.MutableSequence) == (not imm), "ensure_sequence: wrong mutability")
            got = list(r)
            ctx.require(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                        "ensure_sequence changed the content")
        if arg is not None:
            now = list(arg)
            ctx.require(len(now) == len(before) and all(a is b for a, b in zip(now, before)), "the argument was modified")

    return h


class _Own(Exception):
    pass


def enforcing(ctx):
    excs = [None, ValueError, AssertionError, repo.mod("exceptions").PylogicsError, _Own, KeyError]
    msgs = [None, "", "m", "100% {x} %s"]
    ex, ms = excs[ctx.choose(len(excs))], msgs[ctx.choose(len(msgs))]
    c = ctx.elem() if ctx.choose(2) else None
    if c is None:
        c = (None, False, True, 0, 1, [], [0], "")[ctx.choose(8)]
        truth = z3.BoolVal(bool(c))
    else:
        truth = ctx.truthy(c)
    kw = {}
    if ms is not None and ctx.choose(2):
        kw["message"] = ms
    pos = [] if ms is None or kw else [ms]
    if ex is not None:
        if pos and ctx.choose(2):
            pos.append(ex)
        else:
            kw["exception_cls"] = ex
    r, e = attempt(lambda: misc().enforce(c, *pos, **kw))
    if e is None:
        ctx.require(truth, "enforce does not raise although the condition is false")
    else:
        ctx.require(z3.Not(truth), "enforce raises although the condition holds")
        ctx.require(type(e) is (ex or AssertionError), "enforce raises %s" % type(e).__name__)
        ctx.require(e.args == ((ms or ""),), "enforce raises with another message: %r" % (e.args,))


def formulas(ctx):
    B = base()
    B.reset_cache()
    fs = [None, B.TrueFormula(), B.FalseFormula(), repo.mod("syntax.pl").Atomic("a"), repo.mod("syntax.ltl").Atomic("a")]
    f = fs[ctx.choose(len(fs))]
    flag = ctx.elem()
    r, e = attempt(lambda: B.ensure_formula(f, flag) if ctx.choose(2) else B.ensure_formula(f, is_none_true=flag))
    ctx.require(e is None, "ensure_formula raised %s" % (e and describe(e)))
    if f is not None:
        ctx.require(r is f, "ensure_formula changed the formula")
    else:
        ctx.require(type(r) in (B.TrueFormula, B.FalseFormula), "ensure_formula(None) is no constant")
        ctx.require(ctx.truthy(flag) if type(r) is B.TrueFormula else z3.Not(ctx.truthy(flag)),
                    "ensure_formula(None) is the wrong constant")


def tasks(tier):
    deep = tier != "quick"
    n, b = (5, 600) if deep else (3, 60)
    return [Values("safe_get", get(n), b), Values("find", find(n), b),
            Values("safe_index", index(n, 0), b), Values("safe_index from", index(4 if deep else 3, 1), b),
            Values("safe_index from to", index(3 if deep else 2, 2), b),
            Values("ensure", ensure_any, b), Values("ensure_set", ensure_collection("ensure_set", n), b),
            Values("ensure_sequence", ensure_collection("ensure_sequence", n), b), Values("enforce", enforcing, b),
            Values("ensure_formula", formulas, b)]
