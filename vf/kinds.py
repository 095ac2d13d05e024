"""The formula classes of the library, described by their public constructors and accessors."""
from . import repo

LOGICS = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL", "TERM", "VAR"]


class Kind:
    """One operator class in one formalism.

    shape: 'const' | 'nary' (>= 2 operands of one formalism) | 'fixed' (children with given formalisms)
           | 'named' (a name and `arities` operands of formalism `operand`).
    """

    def __init__(self, idx, name, cls, logic, shape, children=(), operand=None, commutative=False,
                 bool_op=None, make=None, get=None, arities=()):
        self.idx, self.name, self.cls, self.logic = idx, name, cls, logic
        self.shape, self.children, self.operand = shape, tuple(children), operand
        self.commutative, self.bool_op = commutative, bool_op
        self.make, self.get, self.arities = make, get, tuple(arities)

    @property
    def key(self):
        return self.logic + "." + self.name

    def __repr__(self):
        return "<%s>" % self.key

    def child_logics(self, n):
        if self.shape in ("nary", "named"):
            return [self.operand] * n
        return list(self.children)


class Universe:
    """All kinds of the library (built from the live classes of /repo)."""

    def __init__(self):
        self.kinds = []
        self.by_key = {}
        self.by_cls = {}
        self._inst = {}
        self._logic = {}
        self._build()

    def _add(self, name, cls, logic, shape, **kw):
        k = Kind(len(self.kinds), name, cls, logic, shape, **kw)
        self.kinds.append(k)
        self.by_key[k.key] = k
        self.by_cls.setdefault(cls, []).append(k)
        return k

    def _build(self):
        base, pl, ltl = repo.mod("syntax.base"), repo.mod("syntax.pl"), repo.mod("syntax.ltl")
        pltl, ldl, fol = repo.mod("syntax.pltl"), repo.mod("syntax.ldl"), repo.mod("syntax.fol")
        L = base.Logic
        self.base, self.pl, self.ltl, self.pltl, self.ldl, self.fol = base, pl, ltl, pltl, ldl, fol
        self.logic_of = {l: getattr(L, l) for l in ("PL", "LTL", "PLTL", "LDL", "RE", "FOL")}
        self.logic_of["TERM"] = self.logic_of["VAR"] = L.FOL
        operands = lambda f: tuple(f.operands)
        argument = lambda f: (f.argument,)

        def nary(cls, logic, comm=False, bool_op=None):
            self._add(cls.__name__, cls, logic, "nary", operand=logic, commutative=comm, bool_op=bool_op,
                      make=lambda name, cs, cls=cls: cls(*cs), get=operands)

        def unary(cls, logic, arg=None, bool_op=None):
            self._add(cls.__name__, cls, logic, "fixed", children=[arg or logic], bool_op=bool_op,
                      make=lambda name, cs, cls=cls: cls(cs[0]), get=argument)

        for l in ("PL", "LTL", "PLTL", "LDL", "FOL"):
            nary(base.And, l, True, "And")
            nary(base.Or, l, True, "Or")
            nary(base.Implies, l, False, "Implies")
            nary(base.Equivalence, l, True, "Equivalence")
            unary(base.Not, l, None, "Not")
        for l in ("PL", "LTL", "PLTL", "LDL", "RE", "FOL"):
            lg = self.logic_of[l]
            self._add("True", base.TrueFormula, l, "const", bool_op="True",
                      make=lambda n, cs, lg=lg: base.TrueFormula(logic=lg), get=lambda f: ())
            self._add("False", base.FalseFormula, l, "const", bool_op="False",
                      make=lambda n, cs, lg=lg: base.FalseFormula(logic=lg), get=lambda f: ())
        for l, m in (("PL", pl), ("LTL", ltl), ("PLTL", pltl)):
            self._add("Atomic", m.Atomic, l, "named", operand=None, arities=(0,),
                      make=lambda n, cs, m=m: m.Atomic(n), get=lambda f: ())
            if l != "PL":
                self._add("PropositionalTrue", m.PropositionalTrue, l, "const", bool_op="PTrue",
                          make=lambda n, cs, m=m: m.PropositionalTrue(), get=lambda f: ())
                self._add("PropositionalFalse", m.PropositionalFalse, l, "const", bool_op="PFalse",
                          make=lambda n, cs, m=m: m.PropositionalFalse(), get=lambda f: ())
        for c in (ltl.Next, ltl.WeakNext, ltl.Eventually, ltl.Always):
            unary(c, "LTL")
        for c in (ltl.Until, ltl.Release, ltl.WeakUntil, ltl.StrongRelease):
            nary(c, "LTL")
        for c in (pltl.Before, pltl.WeakBefore, pltl.Once, pltl.Historically):
            unary(c, "PLTL")
        for c in (pltl.Since, pltl.Triggers):
            nary(c, "PLTL")
        for c in (ldl.Diamond, ldl.Box):
            self._add(c.__name__, c, "LDL", "fixed", children=["RE", "LDL"],
                      make=lambda n, cs, c=c: c(cs[0], cs[1]),
                      get=lambda f: (f.regular_expression, f.tail_formula))
        nary(ldl.Seq, "RE")
        nary(ldl.Union, "RE", True)
        unary(ldl.Star, "RE")
        unary(ldl.Test, "RE", "LDL")
        unary(ldl.Prop, "RE", "PL")
        self._add("Predicate", fol.Predicate, "FOL", "named", operand="TERM", arities=(0, 1),
                  make=lambda n, cs: fol.Predicate(n, list(cs)), get=operands)
        for c in (fol.ForAll, fol.Exists):
            self._add(c.__name__, c, "FOL", "fixed", children=["VAR", "FOL"],
                      make=lambda n, cs, c=c: c(cs[0], cs[1]), get=lambda f: (f.variable, f.formula))
        self._add("Variable", fol.Variable, "TERM", "named", arities=(0,),
                  make=lambda n, cs: fol.Variable(n), get=lambda f: ())
        self._add("Constant", fol.Constant, "TERM", "named", arities=(0,),
                  make=lambda n, cs: fol.Constant(n), get=lambda f: ())
        self._add("Function", fol.Function, "TERM", "named", operand="TERM", arities=(1,),
                  make=lambda n, cs: fol.Function(n, list(cs)), get=operands)

    @property
    def leaf_kinds(self):
        """Kinds without operands of their own formalism."""
        return frozenset(k.idx for k in self.kinds if k.shape == "const" or
                         k.shape == "named" and (0 in k.arities or k.operand != k.logic))

    def of_logic(self, logic):
        r = self._logic.get(logic)
        if r is None:
            if logic == "VAR":
                r = frozenset([self.by_key["TERM.Variable"].idx])
            else:
                r = frozenset(k.idx for k in self.kinds if k.logic == logic)
            self._logic[logic] = r
        return r

    def leaves(self, logic):
        """Kinds used where nesting stops."""
        ks = self.of_logic(logic)
        return ks & self.leaf_kinds or ks

    def keys(self, keys):
        return frozenset(self.by_key[k].idx for k in keys if k in self.by_key)

    def kind_of(self, obj):
        """The kind of a real object, or None."""
        ks = self.by_cls.get(type(obj))
        if not ks:
            return None
        if len(ks) == 1:
            return ks[0]
        lg = obj.logic
        for k in ks:
            if self.logic_of[k.logic] == lg:
                return k
        return None

    def name_of(self, obj):
        return obj.name

    def instances_of(self, cls):
        """Kinds whose objects are instances of cls (a class, tuple or union)."""
        if isinstance(cls, tuple):
            r = frozenset()
            for c in cls:
                r |= self.instances_of(c)
            return r
        args = getattr(cls, "__args__", None)
        if args and not isinstance(cls, type):
            return self.instances_of(tuple(args))
        r = self._inst.get(cls)
        if r is None:
            r = self._inst[cls] = frozenset(k.idx for k in self.kinds if issubclass(k.cls, cls))
        return r


_U = None


def universe():
    global _U
    if _U is None:
        _U = Universe()
    return _U


# ------------------------------------------------------------------ concrete formulas as JSON
def build(ast, u=None):
    """AST (nested lists) -> real formula, through the public constructors."""
    u = u or universe()
    key, name, cs = ast
    k = u.by_key[key]
    return k.make(name, [build(c, u) for c in cs])


def to_ast(obj, u=None):
    u = u or universe()
    k = u.kind_of(obj)
    if k is None:
        raise ValueError("not a known formula: %r" % (obj,))
    return [k.key, u.name_of(obj) if k.shape == "named" else None, [to_ast(c, u) for c in k.get(obj)]]


def ast_key(ast, u=None):
    """Canonical text of an AST, modulo order and repetition of the operands of commutative operators."""
    u = u or universe()
    key, name, cs = ast
    k = u.by_key[key]
    sub = [ast_key(c, u) for c in cs]
    if k.commutative:
        sub = sorted(set(sub))
    if not sub and name is None:
        return key
    return "%s(%s)" % (key, ",".join(([repr(name)] if name is not None else []) + sub))


def show(ast, u=None):
    """Readable text of an AST."""
    key, name, cs = ast
    short = key.split(".")[1]
    if name is not None:
        return name + ("(%s)" % ", ".join(show(c) for c in cs) if cs else "")
    if not cs:
        return key
    return "%s(%s)" % (short, ", ".join(show(c) for c in cs))
