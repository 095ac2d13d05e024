"""What the parsers build at each grammar rule: lark's callbacks and /repo's transformer run on opaque children."""
import contextlib
import itertools

import lark

from . import kinds, larks, repo
from .engine import Unsupported


class Inspected(BaseException):
    """The code looks into a child value."""


class RawTree(Exception):
    pass


class Child:
    """A value the code may only pass on."""

    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def __getattribute__(self, name):
        if name == "__class__":
            import sys
            if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "lark":
                return Child
        raise Inspected(name)

    def __setattr__(self, name, v):
        raise Inspected(name)

    def _no(self, *a, **k):
        raise Inspected()

    for _n in ("eq ne hash bool str repr len iter call and or invert rshift lshift rand ror add radd lt gt le ge "
               "getitem contains format copy deepcopy reduce_ex xor sub mul neg").split():
        locals()["__%s__" % _n] = _no


class Term(Child):
    """cls(*args, **kw) with opaque arguments."""

    def __init__(self, cls, args, kw):
        object.__setattr__(self, "t", (cls, args, kw))


def num(c):
    return object.__getattribute__(c, "n")


def term(t):
    return object.__getattribute__(t, "t")


def is_child(x):
    return type(x) in (Child, Term)


def _deep(x):
    return is_child(x) or (type(x) in (list, tuple, set, dict) and any(_deep(y) for y in (
        x.values() if type(x) is dict else x if type(x) is not set else ())))


class Maker:
    """Stands for a formula class in the parser modules."""

    def __init__(self, cls):
        self.__dict__["cls"] = cls

    def __call__(self, *args, **kw):
        if any(_deep(a) for a in args) or any(_deep(a) for a in kw.values()):
            return Term(self.cls, args, kw)
        return self.cls(*args, **kw)

    def __getattr__(self, n):
        return getattr(self.cls, n)

    def __setattr__(self, n, v):
        raise Inspected(n)

    def __instancecheck__(self, x):
        return isinstance(x, self.cls)


@contextlib.contextmanager
def recording():
    """Formula classes in the parser modules only record how they are called."""
    u = kinds.universe()
    saved = []

    def no_type(*a):
        if len(a) == 1 and is_child(a[0]):
            raise Inspected()
        return type(*a)
    for m in repo.modules():
        if not m.__name__.startswith(repo.PKG + ".parsers"):
            continue
        ns = vars(m)
        for n, v in list(ns.items()):
            if isinstance(v, type) and (v in u.by_cls or (v.__module__.startswith(repo.PKG + ".syntax")
                                                           and issubclass(v, u.base.Formula))):
                saved.append((ns, n, True, v))
                ns[n] = Maker(v)
        saved.append((ns, "type", "type" in ns, ns.get("type")))
        ns["type"] = no_type
    try:
        yield
    finally:
        for ns, n, had, v in saved:
            if had:
                ns[n] = v
            else:
                del ns[n]


OPS = {}


def ops():
    """Operator name of the reference grammars -> class, and leaf name -> function of the text."""
    if not OPS:
        u = kinds.universe()
        b = u.base
        for n in ("And", "Or", "Not", "Implies", "Equivalence"):
            OPS[n] = getattr(b, n)
        for m, names in (("ltl", "Always Eventually Next WeakNext Until WeakUntil Release StrongRelease"),
                         ("pltl", "Before WeakBefore Once Historically Since Triggers"),
                         ("ldl", "Diamond Box Seq Union Star Test Prop")):
            for n in names.split():
                OPS[m + "." + n] = getattr(getattr(u, m), n)
    return OPS


def leaves():
    u = kinds.universe()
    b, L = u.base, u.base.Logic
    out = {}
    for m, lg in (("pl", L.PL), ("ltl", L.LTL), ("pltl", L.PLTL), ("ldl", L.LDL)):
        mod = getattr(u, m)
        if m != "ldl":
            out[m + ".atom"] = lambda t, mod=mod: mod.Atomic(t)
        if m == "pl":
            out["pl.true"] = lambda t: b.TrueFormula()
            out["pl.false"] = lambda t: b.FalseFormula()
        else:
            out[m + ".tt"] = lambda t, lg=lg: b.TrueFormula(logic=lg)
            out[m + ".ff"] = lambda t, lg=lg: b.FalseFormula(logic=lg)
        if m in ("ltl", "pltl"):
            out[m + ".true"] = lambda t, mod=mod: mod.PropositionalTrue()
            out[m + ".false"] = lambda t, mod=mod: mod.PropositionalFalse()
    out["ltl.last"] = lambda t: u.ltl.Last()
    out["pltl.start"] = lambda t: u.pltl.Start()
    out["ldl.last"] = lambda t: u.ldl.Last()
    out["ldl.end"] = lambda t: u.ldl.End()
    return out


def make(op, args, text):
    """The value of a node of the reference grammar."""
    if op in ops():
        return ops()[op](*args)
    return leaves()[op](text)


RESULT_SORT = {"ldl.Diamond": "LDL", "ldl.Box": "LDL", "ldl.Seq": "RE", "ldl.Union": "RE", "ldl.Star": "RE",
               "ldl.Test": "RE", "ldl.Prop": "RE"}


def result_sort(op, child_sorts):
    if op in RESULT_SORT:
        return RESULT_SORT[op]
    if "." in op:
        return op.split(".")[0].upper()
    return child_sorts[0] if child_sorts else None


def same_value(a, b):
    """Structural identity of two formulas, operand order included."""
    try:
        return kinds.to_ast(a) == kinds.to_ast(b)
    except Exception:
        return False


class Actions:
    """Labels of the rule applications of a compiled grammar."""

    def __init__(self, tables, lexemes, which):
        self.t, self.lexemes, self.which = tables, lexemes, which
        self.transformer = larks.transformer_of(which)
        self.cache = {}

    # -- derivations with a given number of composite children
    def derivations(self, name, n, c):
        r = self.t.rules[name][n]
        out = []

        def expand(sym, budget):
            """(count, derivation) of a symbol using at most budget composite children"""
            if self.t.inline(sym.name):
                for k in range(1, budget + 1):
                    for m in range(len(self.t.rules[sym.name])):
                        for d in self.derivations(sym.name, m, k):
                            yield k, d
            else:
                yield 1, sym.name

        def rec(i, left, acc):
            if i == len(r.expansion):
                if left == 0:
                    out.append((r, acc))
                return
            rest = len(r.expansion) - i - 1
            if left - rest < 1:
                return
            for k, d in expand(r.expansion[i], left - rest):
                rec(i + 1, left - k, acc + [d])
        key = ("d", name, n, c)
        if key not in self.cache:
            rec(0, c, [])
            self.cache[key] = out
        return self.cache[key]

    @staticmethod
    def leaves_of(d):
        for x in d[1]:
            if isinstance(x, str):
                yield x
            else:
                yield from Actions.leaves_of(x)

    def build(self, d, vals):
        """lark's value of a derivation, given an iterator of the values of its composite children"""
        r, parts = d
        kids = [next(vals) if isinstance(x, str) else self.build(x, vals) for x in parts]
        return self.t.callbacks[r](kids)

    def value(self, d, vals):
        v = self.build(d, iter(vals))
        if issubclass(type(v), lark.Tree):
            if self.transformer is None:
                raise Unsupported("no transformer")
            v = self.transformer.transform(v)
        if issubclass(type(v), (lark.Tree, lark.Token)):
            raise RawTree()
        return v

    def find_raw(self, upto=3):
        """Symbols without a value of their own are read as part of the rules that use them."""
        again = True
        while again:
            again = False
            for x, rules in self.t.rules.items():
                if self.t.inline(x):
                    continue
                for n in range(len(rules)):
                    for c in range(1, upto + 1):
                        if self.label(x, n, c) == ("raw",):
                            again = True
                            self.t.raw.add(x)
            if again:
                self.cache.clear()

    def token(self, name, text):
        return lark.Token(name, text)

    # -- labels
    def label(self, name, n, c):
        """("is", child) | ("op", op) | ("run", op, m) | ("leaf", op) | ("?", reason), for all derivations alike"""
        key = ("l", name, n, c)
        if key not in self.cache:
            ls = [self._label(d) for d in self.derivations(name, n, c)]
            self.cache[key] = ls[0] if ls and all(x == ls[0] for x in ls) else ("?", "several derivations") if ls else None
        return self.cache[key]

    def _label(self, d):
        syms = list(self.leaves_of(d))
        nts = [k for k, s in enumerate(syms) if s in self.t.rules]
        if not nts:
            return self._leaf(d, syms)
        out = None
        for texts in self._texts(syms):
            vals = [Child(k) if k in nts else self.token(s, t) for k, (s, t) in enumerate(zip(syms, texts))]
            try:
                with recording():
                    v = self.value(d, vals)
            except RawTree:
                return ("raw",)
            except Inspected as e:
                return ("!", "looks into its operands (%s)" % e)
            except TypeError as e:
                return ("!", "TypeError %s" % e)
            except Exception as e:
                if "isinstance()" in str(e):
                    return ("!", str(e)[:80])
                return ("raise", type(e).__name__)
            x = self._match(v, syms, nts)
            if out is not None and out != x:
                return ("?", "depends on the spelling of a token")
            out = x
        return out

    def _texts(self, syms):
        alts = [self.lexemes.get(s, [s]) if s not in self.t.rules else [None] for s in syms]
        for n in range(max(len(a) for a in alts)):
            yield [a[n % len(a)] for a in alts]

    def _match(self, v, syms, nts):
        if type(v) is Child:
            if [num(v)] == nts:
                return ("is",)
            return ("!", "returns one of several operands")
        if type(v) is Term:
            m, w = 0, v
            while type(w) is Term:
                cls, args, kw = term(w)
                op = next((o for o, c in ops().items() if c is cls), None)
                if op is None or kw:
                    return ("!", "calls %s" % getattr(cls, "__name__", cls))
                if len(args) != 1 or type(args[0]) not in (Child, Term):
                    break
                m, w = m + 1, args[0]
                if m > 1 and op != first:
                    return ("!", "nested operators")
                first = op
            if m == 0:
                if [num(a) if type(a) is Child else None for a in args] == nts:
                    return ("op", op)
                return ("!", "%s over other operands" % op)
            if type(w) is not Child or [num(w)] != nts:
                return ("!", "nested operators")
            if m == 1:
                return ("op", first)
            if nts[0] == m and len(syms) == m + 1:
                return ("run", first, m)
            return ("!", "%s applied %d times" % (first, m))
        return ("!", "a value without the operands")

    def _leaf(self, d, syms):
        cands = dict(leaves())
        for texts in self._texts(syms):
            toks = [self.token(s, t) for s, t in zip(syms, texts)]
            try:
                v = self.value(d, toks)
            except RawTree:
                return ("raw",)
            except Exception as e:
                return ("?", "raises %s" % e)
            body = [t for s, t in zip(syms, texts)]
            for k in list(cands):
                try:
                    ok = len(body) == 1 and same_value(v, cands[k](body[0]))
                except Exception:
                    ok = False
                if not ok:
                    del cands[k]
        if cands:
            return ("leaf", sorted(cands)[0])
        return ("?", "another value")
