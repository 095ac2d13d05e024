"""Finite-trace semantics (LTL, LDL and past LTL on finite traces) as z3 terms over a symbolic trace."""
import z3

from . import kinds
from .engine import Unsupported


class Trace:
    """A trace of symbolic length up to N; atom p holds at instant i according to a symbolic Boolean.

    known: [(predicate on formulas, function of the instant)] gives the meaning of placeholder formulas.
    """

    def __init__(self, N, known=()):
        self.N, self.known = N, list(known)
        self.n = z3.Int("n")
        self.memo, self.keep = {}, []
        self.u = kinds.universe()

    def val(self, name, i):
        return z3.Bool("%s@%d" % (name, i))

    def length(self, n):
        return self.n == n

    def last(self, i):
        return self.n == i + 1

    def inside(self, i):
        return self.n > i

    def letter(self, f, i):
        """A propositional formula on the letter at instant i."""
        k = self.u.kind_of(f)
        if k is None or k.logic != "PL":
            raise Unsupported("not propositional: %r" % (f,))
        if k.name == "Atomic":
            return self.val(f.name, i)
        return self.boolean(k, [self.letter(c, i) for c in k.get(f)])

    def boolean(self, k, vs):
        from .symform import fold_value
        if k.bool_op in ("PTrue", "PFalse"):
            return z3.BoolVal(k.bool_op == "PTrue")
        return fold_value(k, vs)

    def sat(self, f, i):
        """f at position i of the trace (0 <= i <= N; i = n is the position after the last instant)."""
        key = (id(f), i)
        if key not in self.memo:
            self.keep.append(f)
            for test, value in self.known:
                if test(f):
                    self.memo[key] = value(i)
                    break
            else:
                self.memo[key] = self._sat(f, i)
        return self.memo[key]

    def _sat(self, f, i):
        k = self.u.kind_of(f)
        if k is None:
            raise Unsupported("no semantics for %r" % (f,))
        N, sat = self.N, self.sat
        cs = list(k.get(f))
        if k.bool_op:
            return self.boolean(k, [sat(c, i) for c in cs])
        if k.name == "Atomic":
            return z3.And(self.inside(i), self.val(f.name, i)) if i < N else z3.BoolVal(False)
        if k.logic == "LTL":
            if len(cs) > 2:  # right-associative
                return self.binary(k.name, cs, i)
            if k.name == "Next":
                return z3.And(self.inside(i + 1), sat(cs[0], i + 1)) if i + 1 < N else z3.BoolVal(False)
            if k.name == "WeakNext":
                return z3.Or(z3.Not(self.inside(i + 1)), sat(cs[0], i + 1)) if i + 1 < N else z3.BoolVal(True)
            if k.name == "Eventually":
                return z3.Or(*[z3.And(self.inside(j), sat(cs[0], j)) for j in range(i, N)])
            if k.name == "Always":
                return z3.And(*[z3.Implies(self.inside(j), sat(cs[0], j)) for j in range(i, N)])
            return self.binary(k.name, cs, i)
        if k.logic == "PLTL":
            if k.name == "Before":
                return sat(cs[0], i - 1) if i else z3.BoolVal(False)
            if k.name == "WeakBefore":
                return sat(cs[0], i - 1) if i else z3.BoolVal(True)
            if k.name == "Once":
                return z3.Or(*[sat(cs[0], j) for j in range(i + 1)])
            if k.name == "Historically":
                return z3.And(*[sat(cs[0], j) for j in range(i + 1)])
            return self.binary(k.name, cs, i)
        if k.logic == "LDL":
            re_, tail = cs
            if k.name == "Diamond":
                return z3.Or(*[z3.And(self.run(re_, i, j), sat(tail, j)) for j in range(i, N + 1)])
            return z3.And(*[z3.Implies(self.run(re_, i, j), sat(tail, j)) for j in range(i, N + 1)])
        raise Unsupported("no semantics for " + k.key)

    def binary(self, name, cs, i):
        """Binary temporal operators; a run of one operator groups to the right."""
        key = (name, tuple(map(id, cs)), i)
        if key in self.memo:
            return self.memo[key]
        a = lambda j: self.sat(cs[0], j)
        b = (lambda j: self.sat(cs[1], j)) if len(cs) == 2 else (lambda j: self.binary(name, cs[1:], j))
        N = self.N

        def until(x, y):
            return z3.Or(*[z3.And(self.inside(j), y(j), *[x(m) for m in range(i, j)]) for j in range(i, N)])

        def always(x):
            return z3.And(*[z3.Implies(self.inside(j), x(j)) for j in range(i, N)])

        both = lambda j: z3.And(a(j), b(j))
        if name == "Until":
            r = until(a, b)
        elif name == "WeakUntil":
            r = z3.Or(until(a, b), always(a))
        elif name == "Release":
            r = z3.Or(until(b, both), always(b))
        elif name == "StrongRelease":
            r = until(b, both)
        elif name == "Since":
            r = z3.Or(*[z3.And(b(j), *[a(m) for m in range(j + 1, i + 1)]) for j in range(i + 1)])
        elif name == "Triggers":
            r = z3.And(*[z3.Or(b(j), *[a(m) for m in range(j + 1, i + 1)]) for j in range(i + 1)])
        else:
            raise Unsupported("no semantics for " + name)
        self.memo[key] = r
        return r

    def run(self, re_, i, j):
        """The regular expression leads from position i to position j."""
        key = ("run", id(re_), i, j)
        if key not in self.memo:
            self.keep.append(re_)
            self.memo[key] = self._run(re_, i, j)
        return self.memo[key]

    def _run(self, re_, i, j):
        k = self.u.kind_of(re_)
        if k is None:
            raise Unsupported("no semantics for %r" % (re_,))
        cs = list(k.get(re_))
        F = z3.BoolVal(False)
        if k.name == "Prop":
            return z3.And(self.inside(i), self.letter(cs[0], i)) if j == i + 1 and i < self.N else F
        if k.name == "Test":
            return self.sat(cs[0], i) if i == j else F
        if k.name == "Union":
            return z3.Or(*[self.run(c, i, j) for c in cs])
        if k.name == "Seq":
            return self.seq(cs, i, j)
        if k.name == "Star":
            if i == j:
                return z3.BoolVal(True)
            return z3.Or(*[z3.And(self.run(cs[0], i, m), self.run(re_, m, j)) for m in range(i + 1, j + 1)])
        raise Unsupported("no semantics for " + k.key)

    def seq(self, cs, i, j):
        if len(cs) == 1:
            return self.run(cs[0], i, j)
        return z3.Or(*[z3.And(self.run(cs[0], i, m), self.seq(cs[1:], m, j)) for m in range(i, j + 1)])
