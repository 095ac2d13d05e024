"""C21: natural deduction respects box scope."""
import z3

from checks.common import Lazy
from checks.nd import LOOKALIKES, NAMES, RULES, check, nd
from vf import kinds
from vf.engine import Unsupported

FUNCTIONS = ["deduction.fol.nd: NaturalDeductionProof, NaturalDeduction.check, check_proof, copy, impl_i and the other rule "
             "checks on references of the wrong kind"]
ASSUMPTIONS = [
    "the labels of a proof are pairwise different; they and the references are arbitrary (symbolic) numbers",
    "the label of a box is the label of its first row: inside the box it denotes this row, afterwards the box",
    "the boxes of a proof are of one form: opened by an assumption, by a term and an assumption in a row of its own, or by "
    "a term and an assumption that share a label; in the last two forms the formulas are arbitrary atoms without the terms"]
ROWS = {"quick": (3, 2), "thorough": (4, 3)}  # the rows besides the examined one; the same for the costlier rules


def bounds(tier):
    return "all arrangements of up to %d rows in boxes nested up to 3 deep, with the examined row anywhere (%d rows for the " \
        "rules other than copy, impl_i, premise and assumption, one less for exists_i and forall_e in first-order proofs); arbitrary labels, references and formulas; up to one " \
        "reference more than the rule needs" % ROWS[tier]


# ------------------------------------------------------------------ symbolic labels
class Label(int):
    """An arbitrary number, compared by the solver."""

    def __new__(cls, ctx, term, row):
        self = int.__new__(cls, 0)
        self.ctx, self.term, self.row = ctx, term, row
        return self

    def __eq__(self, other):
        if isinstance(other, Label):
            if self is other or self.row and other.row:  # labels of rows are pairwise different
                return self is other
            return self.ctx.branch(self.term == other.term)
        if isinstance(other, int):
            return self.ctx.branch(self.term == int(other))
        return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    def _cmp(op):
        def f(self, other):
            if not isinstance(other, int):
                return NotImplemented
            return self.ctx.branch(op(self.term, other.term if isinstance(other, Label) else int(other)))
        return f

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __bool__(self):
        return self.ctx.branch(self.term != 0)

    def _other(self, *a):
        raise Unsupported("calculates with a label, or prints it")

    __repr__ = __str__ = __format__ = __index__ = __int__ = __float__ = __neg__ = __abs__ = __invert__ = _other
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = __floordiv__ = __divmod__ = _other


class Labels:
    def __init__(self, ctx):
        self.ctx, self.rows, self.n = ctx, [], 0
        if ctx.mode == "lazy":
            ctx.solver.add(z3.Int("lab!symbolic") == 1)

    def _new(self, row):
        self.n += 1
        name = "lab!%d" % self.n
        c = self.ctx
        if c.mode == "lazy":
            t = z3.Int(name)
            if row:
                for o in self.rows:
                    c.solver.add(t != o.term)
            return Label(c, t, row)
        if c.mode == "replay" and "lab!symbolic" in c.record["ints"]:
            return c.record["ints"].get(name, 7000 + self.n)  # any number
        return len(self.rows) + 1 if row else 1 + c.choose(len(self.rows) + 3)

    def row(self):
        r = self._new(True)
        self.rows.append(r)
        return r

    def ref(self):
        return self._new(False)

    def is_(self, ref, row):
        """The reference is the label (as a z3 expression)."""
        if self.ctx.mode == "lazy":
            return ref.term == row.term
        return z3.BoolVal(ref == row)


# ------------------------------------------------------------------ arrangements
def arrangements(rows, depth):
    """Lists of rows 'r' and boxes (lists, without their first row) with exactly that many rows."""
    if rows == 0:
        yield []
        return
    for rest in arrangements(rows - 1, depth):
        yield ["r"] + rest
    if depth:
        for n in range(1, rows + 1):
            for body in arrangements(n - 1, depth - 1):
                for rest in arrangements(rows - n, depth):
                    yield [body] + rest


def with_probe(arr):
    """The same with the examined row '?' at any place."""
    for i in range(len(arr) + 1):
        yield arr[:i] + ["?"] + arr[i:]
    for i, x in enumerate(arr):
        if isinstance(x, list):
            for b in with_probe(x):
                yield arr[:i] + [b] + arr[i + 1:]


def all_arrangements(n, depth=3):
    return [p for k in range(n + 1) for a in arrangements(k, depth) for p in with_probe(a)]


PLAIN, TERM, SHORT = range(3)  # forms of boxes


class Builder:
    """A proof that is correct but for the examined row, and what that row may refer to."""

    def __init__(self, ctx, lg, arr, probe):
        self.ctx, self.lg, self.probe = ctx, lg, probe
        self.L, self.R = Labels(ctx), nd().rule
        boxes = any(isinstance(x, list) for x in arr)
        self.form = ctx.choose(3) if boxes else PLAIN
        self.terms = 0
        self.scope = self.inside = None  # of the examined row
        self.rows, _ = self.level(arr, [], None)

    def new(self):
        if self.form == PLAIN:
            return self.ctx.formula(self.lg)
        return self.ctx.formula("PL", only=["PL.Atomic"])

    def head(self, l):
        """Opening rows of a box: rows, what they add to the scope, and the (label, formula) of the assumption."""
        A = [self.R.assumption]
        a = self.new()
        if self.form == PLAIN:
            return [a, A], [(l, "formula", a, None)], (l, a)
        self.terms += 1
        t = kinds.universe().fol.Constant("fresh%d" % self.terms)
        if self.form == SHORT:
            return [t, a, A], [(l, "formula", a, None)], (l, a)
        m = self.L.row()
        return [t, A, m, a, A], [(l, "term", t, None), (m, "formula", a, None)], (m, a)

    def level(self, arr, scope, first):
        """Rows, and the content of the last one (None: a box). first: the assumption of the box."""
        out, last = [], first and first[1]
        scope = list(scope)
        for x in arr:
            l = self.L.row()
            if isinstance(x, list):
                head, add, opening = self.head(l)
                rows, lastc = self.level(x, scope + add, opening)
                out += [l, head + rows]
                scope.append((l, "box", opening[1] if self.form == PLAIN else None, lastc))
                last = None
                continue
            if x == "?":
                self.scope, self.inside, self.own = list(scope), first is not None, l
                c, just = self.probe(self)
                out += [l] + ([] if just is None else [c]) + ([c] if just is None else [just])
            elif first is None:
                c = self.new()
                out += [l, c, [self.R.premise]]
            else:
                c = first[1]
                out += [l, c, [self.R.copy, first[0]]]
            last = None if type(c) is list else c
            scope.append((l, "formula", c, None))
        return out, last


# ------------------------------------------------------------------ harnesses
def judged(ctx, b):
    ok, e = check(b.rows)
    ctx.require(e is None, "checking a proof raised %s" % type(e).__name__)
    return bool(ok)


def either(conds):
    conds = list(conds)
    return z3.Or(*conds) if conds else z3.BoolVal(False)


def available(lg, arrs, rule):
    """A row is justified by exactly the rows and boxes that are available to it."""
    def h(ctx):
        def probe(b):
            b.ref, b.f = b.L.ref(), b.new()
            return b.f, [getattr(b.R, rule), b.ref]

        b = Builder(ctx, lg, arrs[ctx.choose(len(arrs))], probe)
        ok = judged(ctx, b)
        good = []
        for l, kind, c, last in b.scope:
            if rule == "copy" and kind == "formula":
                good.append(z3.And(b.L.is_(b.ref, l), ctx.same(b.f, c)))
            elif rule == "impl_i" and kind == "box" and c is not None and last is not None:
                if ctx.branch(b.L.is_(b.ref, l)):
                    good.append(ctx.same(b.f, c >> last))
        want = either(good)
        ctx.require(want if ok else z3.Not(want), "a row is %s by a row that is %s to it" %
                    (("justified", "not available") if ok else ("not justified", "available")))

    return h


def history(lg, arrs, rule):
    """Proofs checked before, right or wrong, have no influence."""
    def h(ctx):
        turn = ctx.choose(4)

        def probe(b):
            b.ref, b.f = b.L.ref(), b.new()
            return b.f, [getattr(b.R, rule), b.ref]

        b = Builder(ctx, lg, arrs[ctx.choose(len(arrs))], probe)
        L, R = b.L, b.R
        f, g = b.new(), b.new()
        l = L.row()
        first = {0: [l, f, [R.premise]],
                 1: [l, [f, [R.assumption], L.row(), f, [R.copy, l]]],
                 2: [l, f, [R.premise], L.row(), g, [R.assumption]],
                 3: [l, [f, [R.assumption], L.row(), g, [R.premise]]]}[turn]
        check(first)
        ok = judged(ctx, b)
        if ok:
            ctx.require(either(b.L.is_(b.ref, l) for l, kind, _, _ in b.scope),
                        "a row is justified by a row of another proof")

    return h


def misplaced(lg, arrs, rule):
    """Premises are accepted outside of boxes only, assumptions nowhere but at the opening of a box."""
    def h(ctx):
        b = Builder(ctx, lg, arrs[ctx.choose(len(arrs))], lambda b: (b.new(), [getattr(b.R, rule)]))
        ok = judged(ctx, b)
        want = rule == "premise" and not b.inside
        ctx.require(ok == want, "%s %s is %s" % ("a premise" if rule == "premise" else "an assumption",
                                                 "in a box" if b.inside else "outside of boxes",
                                                 "accepted" if ok else "rejected"))

    return h


def opening(lg, arrs):
    """A box opened by a premise."""
    def h(ctx):
        def probe(b):
            head, add, o = b.head(b.own)
            return head[:-1] + [[b.R.premise]], None

        b = Builder(ctx, lg, arrs[ctx.choose(len(arrs))], probe)
        ctx.require(not judged(ctx, b), "a box opened by a premise is accepted")

    return h


NEEDS = {"and_i": "ff", "exists_e": "fb", "forall_i": "b", "impl_e": "ff", "impl_i": "b", "MT": "ff", "neg_e": "ff",
         "neg_i": "b", "or_e": "fbb", "premise": "", "assumption": ""}
KIND = {"f": "formula", "b": "box"}


def references(lg, arrs, rule):
    """No rule accepts a row that refers to unknown rows, rows out of scope, the wrong kinds of rows, or too few."""
    need = NEEDS.get(rule, "f")

    def h(ctx):
        def probe(b):
            b.refs = [b.L.ref() for _ in range(ctx.choose(len(need) + 2))]
            return b.new(), [getattr(b.R, rule)] + b.refs

        b = Builder(ctx, lg, arrs[ctx.choose(len(arrs))], probe)
        if not judged(ctx, b):
            return
        ctx.require(len(b.refs) >= len(need), "%s is accepted with %d references" % (rule, len(b.refs)))
        for i, r in enumerate(b.refs):
            ctx.require(either(b.L.is_(r, l) for l, kind, _, _ in b.scope if i >= len(need) or kind == KIND[need[i]]),
                        "%s is accepted with a reference to %s" % (rule, "no available row" if i >= len(need) else
                                                                   "something else than an available " + KIND[need[i]]))

    return h


def tasks(tier):
    deep = tier != "quick"
    n, m = ROWS[tier]
    all_n, all_m = all_arrangements(n), all_arrangements(m)
    out = []

    def add(name, h, **kw):
        out.append(Lazy(name, h, 1500 if deep else 90, dict(dict(max_arity=2, max_names=3, max_depth=3, no_str=True), **kw),
                        fallback=dict(LOOKALIKES, depth=0, budget=60)))

    parts = 8 if deep else 2
    for lg in ("PL", "FOL"):
        for rule in ("copy", "impl_i"):
            for i in range(parts):
                add("available by %s %d/%s" % (rule, i, lg), available(lg, all_n[i::parts], rule))
            add("after another proof %s/%s" % (rule, lg), history(lg, all_arrangements(1), rule))
        for rule in ("premise", "assumption"):
            add("misplaced %s/%s" % (rule, lg), misplaced(lg, all_n, rule))
        add("premise opens a box/" + lg, opening(lg, all_n))
        for rule in NAMES:
            if lg == "FOL" and rule in ("exists_i", "forall_e"):  # these look into the formulas
                add("references of %s/%s" % (rule, lg), references(lg, all_arrangements(m - 1), rule), max_depth=2 if deep else 1,
                    max_names=2, max_term_depth=1 if deep else 0)
            elif deep or lg == "PL" or rule not in ("impl_e", "MT"):
                add("references of %s/%s" % (rule, lg), references(lg, all_m, rule))
    return out
