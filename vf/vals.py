"""Symbolic integers, elements and truth values for code over plain Python data."""
import contextlib

import z3

from . import engine, repo
from .engine import ReplayCtx, SymCtx, Task

CUR = None


def _z(x):
    if type(x) is SymInt:
        return x.t
    if isinstance(x, bool) or not isinstance(x, int):
        return None
    return z3.IntVal(x)


class SymInt:
    """An arbitrary integer; comparisons are decided by the solver."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __index__(self):
        return CUR.concretise(self.t)

    __int__ = __index__

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def __hash__(self):
        return hash(CUR.concretise(self.t))

    def __repr__(self):
        return str(CUR.concretise(self.t))

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self


def _cmp(name, f):
    def op(self, other):
        o = _z(other)
        return NotImplemented if o is None else CUR.branch(f(self.t, o))

    setattr(SymInt, name, op)


def _arith(name, f):
    def op(self, other):
        o = _z(other)
        return NotImplemented if o is None else SymInt(f(self.t, o))

    setattr(SymInt, name, op)


_cmp("__eq__", lambda a, b: a == b)
_cmp("__ne__", lambda a, b: a != b)
_cmp("__lt__", lambda a, b: a < b)
_cmp("__le__", lambda a, b: a <= b)
_cmp("__gt__", lambda a, b: a > b)
_cmp("__ge__", lambda a, b: a >= b)
_arith("__add__", lambda a, b: a + b)
_arith("__radd__", lambda a, b: b + a)
_arith("__sub__", lambda a, b: a - b)
_arith("__rsub__", lambda a, b: b - a)
_arith("__mul__", lambda a, b: a * b)
_arith("__rmul__", lambda a, b: b * a)
SymInt.__hash__ = lambda self: hash(CUR.concretise(self.t))


class Elem:
    """An arbitrary object: which other elements it equals and whether it is truthy is symbolic."""

    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        if self is other:
            return True
        if type(other) is not Elem:
            return NotImplemented
        return CUR.branch(z3.Int("e%d" % self.i) == z3.Int("e%d" % other.i))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 0

    def __bool__(self):
        return CUR.branch(z3.Bool("t%d" % self.i))

    def __repr__(self):
        return "<element %d>" % self.i


def _isinstance_shim(x, cls):
    if type(x) is SymInt:
        return isinstance(0, cls)
    return isinstance(x, cls)


class ValCtx(SymCtx):
    mode = "lazy"
    eager = False

    def __init__(self, prefix, stats, eager=False, reach=12):
        super().__init__(prefix, stats)
        self.eager, self.reach = eager, reach
        self.n = 0

    def integer(self):
        self.n += 1
        t = z3.Int("i%d" % self.n)
        return self.concretise(t) if self.eager else SymInt(t)

    def term(self, x):
        return _z(x)

    def elem(self):
        self.n += 1
        e = Elem(self.n)
        # equal objects need not agree on anything else
        return e

    def equal(self, a, b):
        return z3.BoolVal(True) if a is b else z3.Int("e%d" % a.i) == z3.Int("e%d" % b.i)

    def truthy(self, a):
        return z3.Bool("t%d" % a.i)

    def outcome(self):
        """An arbitrary truth value, decided when looked at."""
        self.n += 1
        return self.branch(z3.Bool("b%d" % self.n))

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        m = self.reach
        vals = list(range(-m, m + 1)) + [10 ** 6, -10 ** 6]
        conds = [t == v for v in range(-m, m + 1)] + [t > m, t < -m]
        return vals[self.fork(conds)]

    def record(self):
        m = self.get_model()
        if m is None:
            return None
        return {"choices": [d for t, d in self.log if t == "choose"],
                "bools": {d.name(): z3.is_true(m[d]) for d in m.decls() if d.range() == z3.BoolSort()},
                "ints": {d.name(): m[d].as_long() for d in m.decls() if d.range() == z3.IntSort()}}

    def describe(self):
        return self.record()


class ConcElem:
    def __init__(self, key, truth, i):
        self.key, self.truth, self.i = key, truth, i

    def __eq__(self, other):
        return self.key == other.key if type(other) is ConcElem else NotImplemented

    def __hash__(self):
        return 0

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return "<element %s%s>" % (self.key, "" if self.truth else " (falsy)")


class ValReplay(ReplayCtx):
    def __init__(self, rec):
        super().__init__(rec)
        self.n = 0

    def integer(self):
        self.n += 1
        return self.record["ints"].get("i%d" % self.n, 0)

    def term(self, x):
        return z3.IntVal(x)

    def elem(self):
        self.n += 1
        return ConcElem(self.record["ints"].get("e%d" % self.n, -self.n), self.record["bools"].get("t%d" % self.n, True),
                        self.n)

    def equal(self, a, b):
        return z3.BoolVal(a == b)

    def truthy(self, a):
        return z3.BoolVal(bool(a))

    def outcome(self):
        self.n += 1
        return self.record["bools"].get("b%d" % self.n, False)


@contextlib.contextmanager
def guard(ctx):
    global CUR
    saved = []
    CUR = ctx
    try:
        for m in repo.modules():
            d = m.__dict__
            saved.append((d, d.get("isinstance")))
            d["isinstance"] = _isinstance_shim
        yield
    finally:
        for d, v in saved:
            if v is None:
                d.pop("isinstance", None)
            else:
                d["isinstance"] = v
        CUR = None


@contextlib.contextmanager
def native(ctx):
    yield


class Values:
    """A harness over symbolic values."""

    def __init__(self, name, harness, budget=60, validate=4):
        self.name, self.harness, self.budget, self.validate = name, harness, budget, validate

    def task(self, eager=False):
        return Task(self.name, self.harness, lambda p, s: ValCtx(p, s, eager=eager), guard, ValReplay, native,
                    validate=self.validate)

    def run(self, tier):
        r = engine.explore(self.task(), self.budget)
        out = [(self.name, "symbolic values", r)]
        if not r.violations and (r.stats.get("paths_unsupported") or r.stats.get("spurious") or not r.complete):
            out.append((self.name, "integers decided at creation", engine.explore(self.task(True), self.budget)))
        return out

    def replay_task(self):
        return self.task()
