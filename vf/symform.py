"""Opaque formulas: objects standing for an arbitrary formula, inspected lazily by the code under test."""
import abc
import builtins
import contextlib
import copy as _copy
import types

import z3

from . import engine, kinds, repo
from .engine import Infeasible, SymCtx, Unsupported

_type = builtins.type
_isinstance = builtins.isinstance
_dir = builtins.dir
_set_class = object.__dict__["__class__"].__set__

CUR = None  # the current symbolic context


# ------------------------------------------------------------------ the stand-in
class Opaque(abc.ABC):  # same object layout as Formula and Term
    """An arbitrary formula. Becomes a real object of the library when its structure is looked at."""

    def __init__(self, rec):
        self.__dict__["_vf"] = rec

    @property
    def __class__(self):
        if CUR.summary and CUR.meta[id(self)].depth > 0:
            return CUR.summary
        CUR.materialise(self)
        return _type(self)

    def __getattr__(self, name):
        if name.startswith("_vf"):
            raise AttributeError(name)
        return CUR.opaque_attr(self, name)

    def __setattr__(self, name, value):
        CUR.materialise(self)
        setattr(self, name, value)

    def __eq__(self, other):
        return CUR.opaque_eq(self, other)

    def __ne__(self, other):
        r = CUR.opaque_eq(self, other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return CUR.opaque_hash(self)

    def __str__(self):
        return CUR.opaque_str(self, "__str__")

    def __repr__(self):
        return CUR.opaque_str(self, "__repr__")

    def __format__(self, spec):
        return format(CUR.opaque_str(self, "__str__"), spec)

    def __dir__(self):
        return CUR.opaque_dir(self)

    def __copy__(self):
        return CUR.opaque_copy(self)

    def __deepcopy__(self, memo):
        return CUR.opaque_copy(self)

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling an opaque formula")


def _mk_dunder(name):
    def method(self, *args):
        return CUR.opaque_dunder(self, name, args)

    method.__name__ = name
    return method


_HANDLED = {"__class__", "__init__", "__new__", "__getattr__", "__setattr__", "__eq__", "__ne__", "__hash__",
            "__str__", "__repr__", "__format__", "__dir__", "__copy__", "__deepcopy__", "__reduce_ex__",
            "__dict__", "__weakref__", "__module__", "__doc__", "__init_subclass__", "__subclasshook__",
            "__getattribute__", "__delattr__", "__reduce__", "__sizeof__", "__annotations__", "__slots__",
            "__abstractmethods__", "__getstate__", "__setstate__", "__qualname__", "__getnewargs__",
            "__post_init__", "__static_attributes__", "__firstlineno__", "__dataclass_fields__",
            "__match_args__", "__orig_bases__", "__parameters__", "__classcell__", "__call__", "__getnewargs_ex__",
            "__le__", "__ge__"}
_installed = False


def _install_dunders():
    """Give Opaque the operators that the library's classes define (&, |, ~, >> ...)."""
    global _installed
    if _installed:
        return
    names = set()
    for k in kinds.universe().kinds:
        for c in k.cls.__mro__:
            if c is object:
                continue
            for n, v in vars(c).items():
                if n.startswith("__") and n.endswith("__") and callable(v) and n not in _HANDLED:
                    names.add(n)
    for n in names:
        setattr(Opaque, n, _mk_dunder(n))
    _installed = True


class Rec:
    __slots__ = ("obj", "vid", "dom", "kind", "children", "cname", "label", "eqmode", "depth", "serial")

    def __init__(self, vid, dom, label, eqmode):
        self.vid, self.dom, self.label, self.eqmode = vid, dom, label, eqmode
        self.obj = self.kind = self.children = self.cname = None
        self.depth = 0


# ------------------------------------------------------------------ shims for builtins
class _TypeMeta(_type):
    def __call__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            if _type(a[0]) is Opaque:
                CUR.materialise(a[0])
            return _type(a[0])
        return _type(*a, **kw)

    def __instancecheck__(cls, x):
        return _isinstance(x, _type)

    def __subclasscheck__(cls, x):
        return issubclass(x, _type)

    def __eq__(cls, other):
        return other is cls or other is _type

    def __hash__(cls):
        return hash(_type)


class _type_shim(_type, metaclass=_TypeMeta):
    pass


def _isinstance_shim(x, cls):
    if _type(x) is Opaque:
        return CUR.kind_in(x, kinds.universe().instances_of(cls))
    return _isinstance(x, cls)


def _dir_shim(*a):
    if a and _type(a[0]) is Opaque:
        return CUR.opaque_dir(a[0])
    return _dir(*a)


def _hash_shim(x):
    return CUR.salted(builtins.hash(x)) if CUR is not None else builtins.hash(x)


SHIMS = {"type": _type_shim, "isinstance": _isinstance_shim, "dir": _dir_shim, "hash": _hash_shim}


class NullCache(dict):
    """A formula cache that never remembers."""

    def __setitem__(self, k, v):
        pass

    def setdefault(self, k, d=None):
        return d if d is not None else NullCache()

    def __missing__(self, k):
        return NullCache()

    def get(self, k, d=None):
        return d

    def __contains__(self, k):
        return False

    def update(self, *a, **k):
        pass


def _formula_classes():
    base, fol = repo.mod("syntax.base"), repo.mod("syntax.fol")
    seen, todo = set(), [base.Formula, fol.Term]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo.extend(c.__subclasses__())
    return seen


def _cache_holder():
    """(owner, attribute) pairs that hold the formula cache."""
    base = repo.mod("syntax.base")
    ctx = base.get_cache_context()
    out = []
    for owner in [base] + [v for v in vars(base).values() if _isinstance(v, _type)]:
        for n, v in list(vars(owner).items()):
            if v is ctx:
                out.append((owner, n))
    return out


def _pool_hash(ctx, real):
    def __hash__(self):
        m = ctx.meta.get(id(self))
        return ctx.opaque_hash(self) if m is not None and m.eqmode != "real" else real(self)

    return __hash__


@contextlib.contextmanager
def sym_guard(ctx, patch_hash=True, null_cache=True, shims=("type", "isinstance", "dir")):
    """Install the stand-ins around one symbolic path."""
    global CUR
    saved = []
    base = repo.mod("syntax.base")
    base.reset_cache()
    CUR = ctx
    try:
        for m in repo.modules():
            d = m.__dict__
            for n in shims:
                if n in d:
                    saved.append((d, n, d[n]))
                else:
                    saved.append((d, n, None))
                    d[n] = SHIMS[n]
        hs = []
        if patch_hash:
            for c in _formula_classes():
                if "__hash__" in c.__dict__:
                    h = c.__dict__["__hash__"]
                    hs.append((c, h))
                    c.__hash__ = (lambda self: 0) if patch_hash is True else _pool_hash(ctx, h)
        cs = []
        if null_cache:
            nc = NullCache()
            for owner, n in _cache_holder():
                cs.append((owner, n, getattr(owner, n)))
                setattr(owner, n, nc)
        try:
            yield
        finally:
            for owner, n, v in cs:
                setattr(owner, n, v)
            for c, h in hs:
                c.__hash__ = h
    finally:
        for d, n, v in saved:
            if v is None:
                d.pop(n, None)
        CUR = None
        base.reset_cache()


@contextlib.contextmanager
def native_guard(ctx):
    base = repo.mod("syntax.base")
    base.reset_cache()
    try:
        yield
    finally:
        base.reset_cache()


# ------------------------------------------------------------------ contexts
class FormulaApi:
    """What harnesses may ask, in every mode."""

    def V(self, obj):
        raise NotImplementedError


def fold_value(kind, vals):
    """Classical value of a Boolean operator from the operands' values."""
    op = kind.bool_op
    if op == "And":
        return z3.And(*vals)
    if op == "Or":
        return z3.Or(*vals)
    if op == "Not":
        return z3.Not(vals[0])
    if op == "True":
        return z3.BoolVal(True)
    if op == "False":
        return z3.BoolVal(False)
    if op == "PTrue":
        return z3.Bool("ptrue!" + kind.logic)
    if op == "PFalse":
        return z3.Not(z3.Bool("ptrue!" + kind.logic))
    if op == "Implies":
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = z3.Implies(v, r)
        return r
    if op == "Equivalence":
        r = vals[0]
        for v in vals[1:]:
            r = r == v
        return r
    return None


HASH_POOLS = {
    None: None,
    "spread": [0x5bd1e995 * k * k + 97 * k for k in range(1, 40)],
    "collide": [k * (1 << 30) for k in range(1, 40)],      # one bucket in any small hash table
    "reverse": [1000 - 7 * k for k in range(1, 40)],
}


class LazyCtx(SymCtx):
    """Symbolic context with opaque formulas."""

    mode = "lazy"
    max_arity = 3
    max_names = 4
    max_size = None
    hash_salt = 0
    str_mode = "distinct"

    def __init__(self, prefix, stats, **kw):
        super().__init__(prefix, stats, timeout_ms=kw.pop("timeout_ms", 20000))
        self.max_depth = kw.get("max_depth", None)
        self.summary = kw.get("summary", False)
        _install_dunders()
        self.u = kinds.universe()
        self.opts = kw
        self.max_arity = kw.get("max_arity", 3)
        self.max_names = kw.get("max_names", 4)
        self.names_by = kw.get("names_by", {})
        self.arities = kw.get("arities", {})
        self.eq_default = kw.get("eq_default", "id")
        I, B = z3.IntSort(), z3.BoolSort()
        self.K = z3.Function("K", I, I)
        self.Vf = z3.Function("V", I, B)
        self.N = z3.Function("N", I, I)
        self.NM = z3.Function("NM", I, I)
        self.S = z3.Function("S", I, I)
        self.A = z3.Function("A", I, I)
        self.meta = {}       # id(obj) -> Rec
        self.keep = []
        self.idterms = []    # all identity terms
        self.structured = []  # (vid, kind, name index, [child ids])
        self.roots = []
        self.names = {}      # class of names -> list of strings
        self.nid = self.nobj = 0
        self.inputs = []
        u = self.u
        self.nots = [k for k in u.kinds if k.name == "Not"]
        self.consts = [k for k in u.kinds if k.shape == "const"]
        self.atoms = [k for k in u.kinds if k.shape == "named" and k.arities == (0,)]
        self._k = {k.idx: z3.IntVal(k.idx) for k in u.kinds}
        self.not_arg_forbidden = {k.logic: [x.idx for x in u.kinds if x.logic == k.logic and
                                            (x.name == "Not" or x.shape == "const")] for k in self.nots}
        self.strs = {}
        self.hash_pool = HASH_POOLS.get(kw.get("hash_pool"))
        self.hashes = []
        self.within = self.u.keys(kw["within"]) if "within" in kw else None

    # ---------------------------------------------------------------- identities
    def new_vid(self, dom):
        self.nid += 1
        v = _vid(self.nid)
        self.register(v, dom)
        return v

    def in_kinds(self, vid, dom):
        key = ("in", vid.get_id(), dom)
        r = _ax_cache.get(key)
        if r is None:
            r = _ax_cache[key] = self._in_kinds(vid, dom)
            _keep.append(vid)
        return r

    def _in_kinds(self, vid, dom):
        ks = sorted(dom)
        kt = self.K(vid)
        if len(ks) == 1:
            return kt == ks[0]
        # contiguous ranges are cheaper
        parts, i = [], 0
        while i < len(ks):
            j = i
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
                j += 1
            parts.append(kt == ks[i] if i == j else z3.And(kt >= ks[i], kt <= ks[j]))
            i = j + 1
        return parts[0] if len(parts) == 1 else z3.Or(*parts)

    def register(self, vid, dom):
        key = (vid.get_id(), dom)
        ax = _ax_cache.get(key)
        if ax is None:
            ax = _ax_cache[key] = self._own_axioms(vid, dom)
        self.solver.add(ax)
        for w, wdom in self.idterms:
            key = (vid.get_id(), dom, w.get_id(), wdom)
            ax = _ax_cache.get(key)
            if ax is None:
                ax = _ax_cache[key] = self._pair_axioms(vid, dom, w, wdom)
            if ax is not True:
                self.solver.add(ax)
        self.idterms.append((vid, dom))

    def _own_axioms(self, vid, dom):
        r = [self.in_kinds(vid, dom), self.S(vid) >= 0]
        kt = self.K(vid)
        for k in self.consts:
            if k.idx in dom:
                r.append(z3.Implies(kt == k.idx, self.Vf(vid) == fold_value(k, [])))
        for k in self.nots:
            if k.idx in dom:
                n = self.N(vid)
                allowed = self.u.of_logic(k.logic) - frozenset(self.not_arg_forbidden[k.logic])
                r.append(z3.Implies(kt == k.idx, z3.And(self.in_kinds(n, allowed), self.S(n) < self.S(vid),
                                                        self.S(n) >= 0, self.Vf(n) == z3.Not(self.Vf(vid)))))
        return z3.And(*r)

    def _pair_axioms(self, vid, dom, w, wdom):
        both = dom & wdom
        if not both:
            return True
        r = []
        kt = self.K(vid)
        consts = [k for k in self.consts if k.idx in both]
        if consts:
            r.append(self.in_kinds(vid, frozenset(k.idx for k in consts)))
        for k in self.nots:
            if k.idx in both:
                r.append(z3.And(kt == k.idx, self.N(w) == self.N(vid)))
        atoms = [k for k in self.atoms if k.idx in both]
        if atoms:
            r.append(z3.And(self.in_kinds(vid, frozenset(k.idx for k in atoms)), self.NM(w) == self.NM(vid)))
        if not r:
            return True
        return z3.Implies(z3.And(kt == self.K(w), z3.Or(*r)), w == vid)

    def structure(self, vid, kind, cname, child_ids):
        """State what vid is made of, relative to everything structured so far."""
        key = ("own", vid.get_id(), kind.idx, cname, tuple(c.get_id() for c in child_ids))
        r = _ax_cache.get(key)
        if r is None:
            parts = []
            self._structure_own(vid, kind, cname, child_ids, parts.append)
            r = _ax_cache[key] = z3.And(*parts) if parts else True
            _keep.extend(child_ids + [vid])
        if r is not True:
            self.solver.add(r)
        if kind.shape != "const" and not (kind.shape == "named" and kind.arities == (0,)) and kind.name != "Not":
            for (w, wk, wname, wcs) in self.structured:
                if wk is not kind:
                    continue
                key = ("same", vid.get_id(), w.get_id(), kind.idx, wname == cname,
                       tuple(c.get_id() for c in child_ids), tuple(c.get_id() for c in wcs))
                r = _ax_cache.get(key)
                if r is None:
                    _keep.extend(child_ids + wcs + [vid, w])
                    if kind.commutative:
                        same = z3.And(*[z3.Or(*[c == d for d in wcs]) for c in child_ids],
                                      *[z3.Or(*[c == d for d in child_ids]) for c in wcs])
                    elif len(wcs) != len(child_ids) or wname != cname:
                        same = z3.BoolVal(False)
                    else:
                        same = z3.And(*[c == d for c, d in zip(child_ids, wcs)])
                    r = _ax_cache[key] = (w == vid) == same
                self.solver.add(r)
        self.structured.append((vid, kind, cname, list(child_ids)))

    def _structure_own(self, vid, kind, cname, child_ids, add):
        if kind.name == "Not" and kind.bool_op:
            add(self.N(vid) == child_ids[0])
        for c in child_ids:
            add(self.S(c) < self.S(vid))
        if kind.bool_op:
            add(self.Vf(vid) == fold_value(kind, [self.Vf(c) for c in child_ids]))
        if cname is not None:
            add(self.NM(vid) == cname)

    def canonical(self, kind, child_ids):
        """Shape invariants that the library's own constructors establish (decided by C05)."""
        key = ("can", kind.idx, tuple(c.get_id() for c in child_ids))
        if key not in _ax_cache:
            r = []
            self._canonical(kind, child_ids, r.append)
            _keep.extend(child_ids)
            _ax_cache[key] = z3.And(*r) if r else True
        if _ax_cache[key] is not True:
            self.solver.add(_ax_cache[key])

    def _canonical(self, kind, child_ids, add):
        op = kind.bool_op
        u = self.u
        if kind.name in ("And", "Or"):
            bad = [kind.idx, u.by_key[kind.logic + ".True"].idx, u.by_key[kind.logic + ".False"].idx]
            for i, c in enumerate(child_ids):
                for b in bad:
                    add(self.K(c) != b)
                for d in child_ids[:i]:
                    add(c != d)
                    add(z3.Not(self.complement(kind.logic, c, d)))
        elif kind.name == "Not":
            for b in self.not_arg_forbidden[kind.logic]:
                add(self.K(child_ids[0]) != b)
        elif kind.name == "Implies":
            f = u.by_key[kind.logic + ".False"].idx
            for c in child_ids[:-1]:
                add(self.K(c) != f)
        elif kind.name == "Equivalence":
            for i, c in enumerate(child_ids):
                for d in child_ids[:i]:
                    add(c != d)

    def complement(self, logic, c, d):
        k = self.u.by_key[logic + ".Not"].idx
        r = [z3.And(self.K(c) == k, self.N(c) == d), z3.And(self.K(d) == k, self.N(d) == c)]
        pt = self.u.by_key.get(logic + ".PropositionalTrue")
        if pt is not None:
            pf = self.u.by_key[logic + ".PropositionalFalse"]
            r.append(z3.And(self.K(c) == pt.idx, self.K(d) == pf.idx))
            r.append(z3.And(self.K(d) == pt.idx, self.K(c) == pf.idx))
        return z3.Or(*r)

    # ---------------------------------------------------------------- inputs
    def formula(self, logic="PL", label=None, only=None, without=None, eqmode=None):
        """An arbitrary formula of a formalism (or of several)."""
        dom = frozenset()
        for l in ([logic] if _isinstance(logic, str) else logic):
            dom |= self.u.of_logic(l)
        if only is not None:
            dom &= self.u.keys(only)
        if without is not None:
            dom -= self.u.keys(without)
        if self.within is not None:
            dom &= self.within
        o = self.opaque(dom, label or "x%d" % (len(self.inputs) + 1), eqmode)
        self.inputs.append(o)
        return o

    def opaque(self, dom, label, eqmode=None):
        rec = Rec(self.new_vid(dom), dom, label, eqmode or self.eq_default)
        self.nobj += 1
        rec.serial = z3.IntVal(self.nobj)  # equal formulas may have different numbers of (repeated) operands
        o = Opaque(rec)
        rec.obj = o
        self.meta[id(o)] = rec
        return o

    def rec(self, o):
        return self.meta.get(id(o))

    # ---------------------------------------------------------------- deciding
    def kind_in(self, o, ks):
        rec = self.meta[id(o)]
        inter = rec.dom & ks
        if not inter:
            return False
        if inter == rec.dom:
            return True
        # decide on the smaller side
        r = self.branch(self.in_kinds(rec.vid, inter))
        if _type(o) is Opaque:
            rec.dom = inter if r else rec.dom - inter
        return r

    def materialise(self, o):
        if _type(o) is not Opaque:
            return o
        rec = self.meta[id(o)]
        u = self.u
        opts = []
        for k in sorted(rec.dom):
            kind = u.kinds[k]
            if kind.shape == "nary":
                for n in range(2, self.arities.get(kind.name, self.max_arity) + 1):
                    opts.append((kind, n, z3.And(self.K(rec.vid) == k, self.A(rec.serial) == n)))
            elif kind.shape == "named" and len(kind.arities) > 1:
                for n in self.arities.get(kind.name, kind.arities):
                    opts.append((kind, n, z3.And(self.K(rec.vid) == k, self.A(rec.serial) == n)))
            elif kind.shape == "named":
                ar = self.arities.get(kind.name, kind.arities)
                for n in ar:
                    c = self.K(rec.vid) == k
                    opts.append((kind, n, c if len(ar) == 1 else z3.And(c, self.A(rec.serial) == n)))
            else:
                opts.append((kind, len(kind.children), self.K(rec.vid) == k))
        if not opts:
            raise Infeasible()
        d = self.fork([c for _, _, c in opts]) if len(opts) > 1 else 0
        kind, n, _ = opts[d]
        if _type(o) is not Opaque:  # re-entrant
            return o
        cname = name = None
        if kind.shape == "named":
            pool = self.names.setdefault(kind.key, [])
            conds = [self.NM(rec.vid) == i for i in range(len(pool))]
            if len(pool) < self.names_by.get(kind.name, self.max_names):
                conds.append(z3.And(*[self.NM(rec.vid) != i for i in range(len(pool))]) if pool else True)
            cname = self.fork(conds) if len(conds) > 1 else 0
            if cname == len(pool):
                pool.append(_name_for(kind, cname))
            self.solver.add(self.NM(rec.vid) == cname)
            name = pool[cname]
        children = []
        for l in kind.child_logics(n):
            dom = u.of_logic(l)
            depth = rec.depth + 1 if kind.logic != "FOL" or l != "TERM" else 0  # terms count anew
            if self.max_depth is not None and depth >= (
                    self.max_depth if l != "TERM" else self.opts.get("max_term_depth", self.max_depth)):
                dom = u.leaves(l)
            if self.within is not None:
                dom &= self.within
            c = self.opaque(dom, "%s.%d" % (rec.label, len(children) + 1), self.opts.get("eq_children", "id"))
            self.meta[id(c)].depth = depth
            children.append(c)
        cids = [self.meta[id(c)].vid for c in children]
        self.structure(rec.vid, kind, cname, cids)
        self.canonical(kind, cids)
        # become a real object
        tdict, placeholders = _template(kind, n, name)
        new = {k: _replace(v, placeholders, children) for k, v in tdict.items()}
        rec.kind, rec.children, rec.cname = kind, children, name
        d = o.__dict__
        d.clear()
        d.update(new)
        _set_class(o, kind.cls)
        got = kind.get(o)
        if len(got) != len(children) or any(a is not b for a, b in zip(got, children)):
            raise Unsupported("cannot build an instance of %s with opaque children" % kind.key)
        self.stats.add(materialised=1)
        return o

    # ---------------------------------------------------------------- what opaque objects do
    def opaque_attr(self, o, name):
        rec = self.meta[id(o)]
        if name == "logic":
            items = _cached(("logic", rec.dom), lambda: self._logic_groups(rec.dom))
            for lg, ks in items[:-1]:
                if self.kind_in(o, frozenset(ks)):
                    return lg
            return items[-1][0]
        have = _cached(("attr", rec.dom, name), lambda: frozenset(
            k for k in rec.dom if _has_attr(self.u.kinds[k], name)))
        if not have or not self.kind_in(o, have):
            raise AttributeError("'%s' object has no attribute '%s'" % ("Formula", name))
        # methods shared by all remaining kinds need no inspection
        items = self._groups(self.meta[id(o)].dom, name)
        if len(items) == 1:
            f = items[0][0]
            if _isinstance(f, types.FunctionType) and not _uses_super(f):
                return f.__get__(o, Opaque)
        self.materialise(o)
        return getattr(o, name)

    def opaque_dir(self, o):
        self.materialise(o)
        return _dir(o)

    def group(self, o, name):
        """Decide which implementation of a method applies to o."""
        rec = self.meta[id(o)]
        items = self._groups(rec.dom, name)
        for f, ks in items[:-1]:
            if self.kind_in(o, frozenset(ks)):
                return f
        return items[-1][0]

    def _groups(self, dom, name):
        def make():
            groups = {}
            for k in dom:
                groups.setdefault(_impl(self.u.kinds[k].cls, name), set()).add(k)
            return sorted(groups.items(), key=lambda t: min(t[1]))

        return _cached(("impl", dom, name), make)

    def _logic_groups(self, dom):
        groups = {}
        for k in dom:
            groups.setdefault(self.u.logic_of[self.u.kinds[k].logic], set()).add(k)
        return sorted(groups.items(), key=lambda t: t[0].value)

    def opaque_dunder(self, o, name, args):
        f = self.group(o, name)
        if f is None:
            raise TypeError("unsupported operand for %s" % name)
        if _uses_super(f):
            self.materialise(o)
        return f(o, *args)

    def opaque_eq(self, o, other):
        if o is other:
            return True
        if self.meta[id(o)].eqmode == "real":
            f = self.group(o, "__eq__")
            if _uses_super(f):
                self.materialise(o)
            return f(o, other)
        if _type(other) is Opaque:
            return self.branch(self.meta[id(o)].vid == self.meta[id(other)].vid)
        rec = self.rec(other)
        if rec is not None:
            return self.branch(self.meta[id(o)].vid == rec.vid)
        k = self.u.kind_of(other)
        if k is None:
            return NotImplemented
        if k.idx not in self.meta[id(o)].dom:
            return False
        return self.branch(self.meta[id(o)].vid == self.ident(other))

    def opaque_hash(self, o):
        """Equal formulas get equal numbers; different ones get different numbers of the pool."""
        if not self.hash_pool:
            return 0
        rec = self.rec(o)
        if rec is not None and rec.eqmode == "real" and _type(o) is Opaque:
            self.materialise(o)
            return hash(o)
        vid = self.ident(o)
        for v, h in self.hashes:
            if v is vid or self.branch(v == vid):
                return self.salted(h)
        if len(self.hashes) >= len(self.hash_pool):
            raise Unsupported("too many different formulas hashed")
        h = self.hash_pool[len(self.hashes)]
        self.hashes.append((vid, h))
        return self.salted(h)

    def salted(self, h):
        """Hash values as another interpreter (another hash seed) would compute them."""
        return h ^ self.hash_salt if self.hash_salt else h

    def other_interpreter(self, f):
        """Run f in another interpreter."""
        self.hash_salt += 0x5DEECE66D
        return f()

    def opaque_copy(self, o):
        return o

    def opaque_str(self, o, which):
        if self.opts.get("no_str"):
            raise Unsupported("uses the text of a formula")
        rec = self.meta[id(o)]
        for v, s in self.strs.items():
            if v is rec.vid:
                return s
        for v, s in list(self.strs.items()):
            if self.branch(rec.vid == v):
                return s
        s = "<formula %d>" % len(self.strs)
        self.strs[rec.vid] = s
        return s

    # ---------------------------------------------------------------- identities of built objects
    def ident(self, obj):
        """Identity term of any formula: opaque, materialised or built by the code under test."""
        rec = self.rec(obj)
        if rec is not None:
            return rec.vid
        k = self.u.kind_of(obj)
        if k is None:
            raise Unsupported("cannot identify %s" % _type(obj).__name__)
        cids = [self.ident(c) for c in k.get(obj)]
        cname = None
        if k.shape == "named":
            pool = self.names.setdefault(k.key, [])
            nm = self.u.name_of(obj)
            if nm not in pool:
                pool.append(nm)
            cname = pool.index(nm)
        vid = self.new_vid(frozenset([k.idx]))
        self.structure(vid, k, cname, cids)
        rec = Rec(vid, frozenset([k.idx]), None, "real")
        rec.obj, rec.kind, rec.children = obj, k, list(k.get(obj))
        self.meta[id(obj)] = rec
        return vid

    # ---------------------------------------------------------------- oracle side
    def V(self, obj):
        return self.Vf(self.ident(obj))

    def same(self, a, b):
        if a is b:
            return z3.BoolVal(True)
        return self.ident(a) == self.ident(b)

    def is_kind(self, obj, keys):
        return self.in_kinds(self.ident(obj), self.u.keys(keys))

    def isa(self, obj, *keys):
        """Decide whether a formula has one of these kinds (forks)."""
        ks = self.u.keys([k for k in keys if k in self.u.by_key])
        if _type(obj) is Opaque:
            return self.kind_in(obj, ks)
        k = self.u.kind_of(obj)
        return k is not None and k.idx in ks

    def eq(self, a, b):
        """Decide whether two formulas are the same formula (forks)."""
        return self.branch(self.same(a, b))

    def kind(self, obj):
        """The kind of a formula (forks)."""
        self.materialise(obj)
        r = self.rec(obj)
        return r.kind if r is not None and r.kind else self.u.kind_of(obj)

    def kids(self, obj):
        k = self.kind(obj)
        return list(k.get(obj))

    def unmodified(self, obj):
        """An input formula still has the operands it was built with."""
        rec = self.rec(obj)
        if rec is None or rec.kind is None:
            return True
        if _type(obj) is not rec.kind.cls:
            return False
        got = list(rec.kind.get(obj))
        return len(got) == len(rec.children) and all(a is b for a, b in zip(got, rec.children))

    def interpretation(self, as_set):
        """A symbolic interpretation of the propositional atoms."""
        return (SymSet if as_set else SymDict)(self, as_set)

    def name_status(self, name, as_set):
        """Does the interpretation mention the name, and with which value?  (None: not mentioned)"""
        has, val = z3.Bool("has!" + name), z3.Bool("val!" + name)
        for r in list(self.meta.values()):
            if r.kind is not None and r.kind.key == "PL.Atomic" and r.obj.name == name:
                self.solver.add(self.Vf(r.vid) == (has if as_set else z3.And(has, val)))
        if not self.branch(has):
            return None
        return True if as_set else self.branch(val)

    def interpretation_unmodified(self, interp):
        return not interp.mutated

    @contextlib.contextmanager
    def earlier_content(self, interp, full):
        """The interpretation before it got its content: with all names true, or empty."""
        interp.fixed = full
        try:
            yield
        finally:
            interp.fixed = None

    # ---------------------------------------------------------------- counterexamples
    def record(self):
        """Concrete inputs from the model."""
        m = self.get_model()
        if m is None:
            return None
        ev = lambda t: m.eval(t, model_completion=True)
        by_val = {}
        recs = [r for r in self.meta.values() if r.kind is not None]
        done = {}
        fresh = [0]
        bools = {}

        def value(ast, v):
            """Give the leaves of an invented formula values that make it v."""
            k = self.u.by_key[ast[0]]
            if k.shape == "const":
                return
            if k.bool_op in ("And", "Or"):
                for c in ast[2]:
                    value(c, v)
            elif k.bool_op == "Not":
                value(ast[2][0], not v)
            elif k.bool_op in ("Implies", "Equivalence"):
                value(ast[2][0], True)
                value(ast[2][1], v)
            else:
                bools["v!" + kinds.ast_key(ast, self.u)] = v

        def fresh_ast(logic):
            fresh[0] += 1
            n = fresh[0]
            if logic in ("PL", "LTL", "PLTL"):
                return [logic + ".Atomic", "z%d" % n, []]
            if logic == "FOL":
                return ["FOL.Predicate", "Z%d" % n, []]
            if logic in ("TERM", "VAR"):
                return ["TERM.Variable", "z%d" % n, []]
            if logic == "RE":
                return ["RE.Prop", None, [fresh_ast("PL")]]
            if logic == "LDL":
                return ["LDL.Diamond", None, [fresh_ast("RE"), ["LDL.True", None, []]]]
            raise Unsupported("fresh " + logic)

        def of_value(val, depth=0):
            if depth > 60:
                raise Unsupported("cyclic model")
            if val in done:
                return done[val]
            for r in recs:
                if ev(r.vid).as_long() == val:
                    ast = [r.kind.key, r.cname if r.cname is not None else
                           (self.u.name_of(r.obj) if r.kind.shape == "named" else None),
                           [of_value(ev(self.ident(c)).as_long(), depth + 1) for c in r.children]]
                    done[val] = ast
                    if not r.kind.bool_op:
                        bools["v!" + kinds.ast_key(ast, self.u)] = z3.is_true(ev(self.Vf(z3.IntVal(val))))
                    return ast
            kind = self.u.kinds[ev(self.K(z3.IntVal(val))).as_long()]
            if kind.name == "Not":
                ast = [kind.key, None, [of_value(ev(self.N(z3.IntVal(val))).as_long(), depth + 1)]]
            elif kind.shape == "named" and kind.arities == (0,):
                ast = fresh_ast(kind.logic)
                ast[0] = kind.key
            elif kind.shape == "named":
                fresh[0] += 1
                ast = [kind.key, "Z%d" % fresh[0], [fresh_ast(kind.operand)] if kind.name == "Function" else []]
            else:
                n = 2 if kind.shape == "nary" else len(kind.children)
                ast = [kind.key, None, [fresh_ast(l) for l in kind.child_logics(n)]]
            done[val] = ast
            if kind.name != "Not":
                value(ast, z3.is_true(ev(self.Vf(z3.IntVal(val)))))
            return ast

        def of_obj(o, depth=0):
            if depth > 60:
                raise Unsupported("cyclic model")
            r = self.rec(o)
            if r is None or r.kind is None:
                return of_value(ev(self.ident(o)).as_long())
            ast = [r.kind.key, r.cname if r.cname is not None else
                   (self.u.name_of(r.obj) if r.kind.shape == "named" else None),
                   [of_obj(c, depth + 1) for c in r.children]]
            if not r.kind.bool_op:
                bools["v!" + kinds.ast_key(ast, self.u)] = z3.is_true(ev(self.Vf(r.vid)))
            return ast

        formulas = [of_obj(o) for o in self.inputs]
        bools.update({d.name(): z3.is_true(m[d]) for d in m.decls()
                      if d.arity() == 0 and d.range() == z3.BoolSort()})
        return {"formulas": formulas,
                "choices": [d for t, d in self.log if t == "choose"],
                "bools": bools,
                "ints": {d.name(): m[d].as_long() for d in m.decls()
                         if d.arity() == 0 and d.range() == z3.IntSort() and not d.name().startswith("f")}}

    def describe(self):
        """A satisfying instance of this path, for the evidence."""
        r = self.record()
        if r is None:
            return None
        return {"formulas": [kinds.show(a) for a in r["formulas"]], "choices": r["choices"]}


class _SymInterp:
    def _init(self, ctx, as_set):
        self.ctx, self.as_set, self.mutated, self.known = ctx, as_set, [], {}
        self.fixed = None  # all names (True) or none (False)

    def status(self, name):
        name = str(name)
        if self.fixed is not None:
            return True if self.fixed else None
        if name not in self.known:
            self.known[name] = self.ctx.name_status(name, self.as_set)
        return self.known[name]

    def names(self):
        return [n for n in list(self.ctx.names.get("PL.Atomic", [])) if self.status(n) is not None]

    def __contains__(self, name):
        return self.status(name) is not None

    def __iter__(self):
        return iter(self.names())

    def __len__(self):
        return len(self.names())

    def __bool__(self):
        return bool(self.names())

    def __hash__(self):
        raise TypeError("unhashable")

    def __reduce_ex__(self, p):
        raise Unsupported("serialising an interpretation")


class SymDict(_SymInterp, dict):
    def __init__(self, ctx, as_set):
        dict.__init__(self)
        self._init(ctx, as_set)

    def get(self, name, default=None):
        s = self.status(name)
        return default if s is None else s

    def __getitem__(self, name):
        s = self.status(name)
        if s is None:
            if hasattr(_type(self), "__missing__"):
                return self.__missing__(name)
            raise KeyError(name)
        return s

    def keys(self):
        return {n: None for n in self.names()}.keys()

    def items(self):
        return {n: self.status(n) for n in self.names()}.items()

    def values(self):
        return {n: self.status(n) for n in self.names()}.values()

    def copy(self):
        return dict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __or__(self, other):
        return self.copy() | other

    def __ror__(self, other):
        return other | self.copy()

    def __eq__(self, other):
        return self.copy() == other


class SymSet(_SymInterp, set):
    def __init__(self, ctx, as_set):
        set.__init__(self)
        self._init(ctx, as_set)

    def copy(self):
        return set(self.names())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, other):
        return self.copy() == other


def _mutator(n):
    def f(self, *a, **k):
        self.mutated.append(n)
        self.ctx.mutations = True
        return None

    return f


for _c, _ms in ((SymDict, ("__setitem__", "__delitem__", "setdefault", "pop", "popitem", "update", "clear",
                           "__ior__")),
                (SymSet, ("add", "remove", "discard", "pop", "clear", "update", "__ior__", "__iand__", "__isub__",
                          "__ixor__", "difference_update", "intersection_update",
                          "symmetric_difference_update"))):
    for _m in _ms:
        setattr(_c, _m, _mutator(_m))
for _m in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__", "__xor__",
           "issubset", "issuperset", "isdisjoint", "__le__", "__ge__", "__lt__", "__gt__"):
    def _op(self, *a, _m=_m):
        return getattr(self.copy(), _m)(*a)

    setattr(SymSet, _m, _op)


def _name_for(kind, i):
    if kind.key == "FOL.Predicate":
        return "P%d" % i
    if kind.logic == "TERM":
        return "x%d" % i  # a variable, a constant and a function may share their name
    return "a%d" % i


_ax_cache = {}
_vids = {}
_keep = []


def _cached(key, make):
    if key not in _ax_cache:
        _ax_cache[key] = make()
    return _ax_cache[key]


def _vid(n):
    if n not in _vids:
        _vids[n] = z3.Int("f%d" % n)
    return _vids[n]


def _uses_super(f):
    while f is not None:
        c = getattr(f, "__code__", None)
        if c is not None and "__class__" in c.co_freevars:
            return True
        f = getattr(f, "__wrapped__", None)
    return False


_impl_cache = {}


def _impl(cls, name):
    key = (cls, name)
    if key not in _impl_cache:
        for c in cls.__mro__:
            if name in c.__dict__:
                _impl_cache[key] = c.__dict__[name]
                break
        else:
            _impl_cache[key] = None
    return _impl_cache[key]


_tcache = {}
_ph = {}


def _placeholder(logic, i):
    key = (logic, i)
    if key not in _ph:
        u = kinds.universe()
        n = "vfh%d" % i
        if logic in ("PL", "LTL", "PLTL"):
            f = u.by_key[logic + ".Atomic"].make(n, [])
        elif logic == "FOL":
            f = u.fol.Predicate("Vfh%d" % i, [])
        elif logic in ("TERM", "VAR"):
            f = u.fol.Variable(n)
        elif logic == "RE":
            f = u.ldl.Prop(u.pl.Atomic(n))
        else:
            f = u.ldl.Diamond(u.ldl.Prop(u.pl.Atomic(n)), u.base.TrueFormula(logic=u.base.Logic.LDL))
        _ph[key] = f
    return _ph[key]


def _template(kind, n, name):
    """__dict__ of a real instance built by the public constructor, and its placeholder children."""
    key = (kind.idx, n, name)
    if key not in _tcache:
        phs = [_placeholder(l, i) for i, l in enumerate(kind.child_logics(n))]
        obj = kind.make(name, phs)
        if _type(obj) is not kind.cls:
            raise Unsupported("constructor of %s returned %s" % (kind.key, _type(obj).__name__))
        d = {k: v for k, v in obj.__dict__.items() if "hash" not in k}
        _tcache[key] = (d, phs)
    return _tcache[key]


def _has_attr(kind, name):
    n = {"nary": 2, "const": 0, "fixed": len(kind.children)}.get(kind.shape, (kind.arities or (0,))[-1])
    d, _ = _template(kind, n, _name_for(kind, 0) if kind.shape == "named" else None)
    return name in d or hasattr(kind.cls, name)


def _replace(v, phs, children):
    for p, c in zip(phs, children):
        if v is p:
            return c
    t = _type(v)
    if t is list:
        return [_replace(x, phs, children) for x in v]
    if t is tuple:
        return tuple(_replace(x, phs, children) for x in v)
    if t in (set, frozenset):
        return t(_replace(x, phs, children) for x in v)
    if t is dict:
        return {_replace(k, phs, children): _replace(x, phs, children) for k, x in v.items()}
    return v


# ------------------------------------------------------------------ concrete-shape contexts
class ConcreteApi:
    """Oracle operations on real formulas; truth values of atoms and temporal formulas are z3 variables."""

    def _init_concrete(self):
        self.u = kinds.universe()
        self.inputs = []
        self._snap = {}

    def key(self, obj):
        return kinds.ast_key(kinds.to_ast(obj, self.u), self.u)

    def V(self, obj):
        k = self.u.kind_of(obj)
        if k is None:
            raise Unsupported("no value for %r" % (obj,))
        if k.bool_op:
            return fold_value(k, [self.V(c) for c in k.get(obj)])
        return z3.Bool("v!" + self.key(obj))

    def same(self, a, b):
        return z3.BoolVal(self.key(a) == self.key(b))

    def is_kind(self, obj, keys):
        return z3.BoolVal(self.u.kind_of(obj).key in keys)

    def isa(self, obj, *keys):
        k = self.u.kind_of(obj)
        return k is not None and k.key in keys

    def eq(self, a, b):
        return self.key(a) == self.key(b)

    def kind(self, obj):
        return self.u.kind_of(obj)

    def kids(self, obj):
        return list(self.u.kind_of(obj).get(obj))

    def materialise(self, obj):
        return obj

    def atom_names(self):
        names = []

        def walk(ast):
            if ast[0] == "PL.Atomic" and ast[1] not in names:
                names.append(ast[1])
            for c in ast[2]:
                walk(c)

        for i in self.inputs:
            walk(i if _isinstance(i, list) else kinds.to_ast(i, self.u))
        return names

    def interpretation(self, as_set):
        d = {}
        for n in self.atom_names():
            has, val = self.interp_bits(n, as_set)
            key = "v!" + kinds.ast_key(["PL.Atomic", n, []], self.u)
            self.bind(key, has and (val or as_set))
            if has:
                d[n] = val
        r = set(d) if as_set else d
        self._interp = _copy.copy(r)
        return r

    @contextlib.contextmanager
    def earlier_content(self, interp, full):
        interp.clear()
        if full:
            interp.update(set(self.atom_names()) if _isinstance(interp, set) else {n: True for n in self.atom_names()})
        try:
            yield
        finally:
            interp.clear()
            interp.update(self._interp)

    def interpretation_unmodified(self, interp):
        return _type(interp) is _type(self._interp) and interp == self._interp

    def snapshot(self, obj):
        self._snap[id(obj)] = (obj, _type(obj), self.key(obj), tuple(map(id, self.u.kind_of(obj).get(obj))))

    def unmodified(self, obj):
        s = self._snap.get(id(obj))
        if s is None:
            return True
        try:
            return s[1] is _type(obj) and s[2] == self.key(obj) and s[3] == tuple(map(id, self.u.kind_of(obj).get(obj)))
        except Exception:
            return False


class EagerCtx(ConcreteApi, SymCtx):
    """Shapes of formulas decided by forks up to a depth; real objects throughout."""

    mode = "eager"

    def __init__(self, prefix, stats, depth=2, max_arity=2, max_names=2, **kw):
        SymCtx.__init__(self, prefix, stats)
        self._init_concrete()
        self.depth, self.max_arity, self.max_names = depth, max_arity, max_names
        self.arities = kw.get("arities", {})
        self.names = {}
        self.name_pool = kw.get("name_pool", {})
        self.names_by = kw.get("names_by", {})

    def formula(self, logic="PL", label=None, only=None, without=None, eqmode=None):
        dom = frozenset()
        for l in ([logic] if _isinstance(logic, str) else logic):
            dom |= self.u.of_logic(l)
        if only is not None:
            dom &= self.u.keys(only)
        if without is not None:
            dom -= self.u.keys(without)
        ast = self.shape(dom, self.depth)
        try:
            o = kinds.build(ast, self.u)
            ok = kinds.to_ast(o, self.u) == ast
        except Exception:
            ok = False
        if not ok:
            raise Infeasible()  # the constructors simplify this shape away
        self.inputs.append(ast)
        self.snapshot(o)
        return o

    def shape(self, dom, depth):
        ks = [self.u.kinds[k] for k in sorted(dom)]
        if depth <= 0:
            leaf = [k for k in ks if k.idx in self.u.leaf_kinds]
            ks = leaf or [k for k in ks if k.name in ("Prop", "Diamond")] or ks
        k = ks[self.choose_shape(len(ks))]
        if k.shape == "nary":
            mx = self.arities.get(k.name, self.max_arity)
            n = 2 + (self.choose_shape(mx - 1) if mx > 2 else 0)
        elif k.shape == "named":
            ar = self.arities.get(k.name, k.arities)
            n = ar[self.choose_shape(len(ar))] if len(ar) > 1 else ar[0]
        else:
            n = len(k.children)
        name = None
        if k.shape == "named":
            pool = self.names.setdefault(k.key, [])
            given = self.name_pool.get(k.key)
            c = self.choose_shape(min(len(pool) + 1, len(given) if given else self.names_by.get(k.name, self.max_names)))
            if c == len(pool):
                pool.append(given[c] if given else _name_for(k, c))
            name = pool[c]
        return [k.key, name, [self.shape(self.u.of_logic(l), depth - 1) for l in k.child_logics(n)]]

    def choose_shape(self, n):
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.alternatives.append(self.decisions + [k])
        self.decisions.append(d)
        return d

    def record(self):
        m = self.get_model()
        return {"formulas": list(self.inputs),
                "choices": [d for t, d in self.log if t == "choose"],
                "bools": {} if m is None else {d.name(): z3.is_true(m[d]) for d in m.decls()
                                               if d.arity() == 0 and d.range() == z3.BoolSort()},
                "ints": {} if m is None else {d.name(): m[d].as_long() for d in m.decls()
                                              if d.arity() == 0 and d.range() == z3.IntSort()}}

    def describe(self):
        return {"formulas": [kinds.show(a) for a in self.inputs],
                "choices": [d for t, d in self.log if t == "choose"]}


    def interp_bits(self, n, as_set):
        return self.branch(z3.Bool("has!" + n)), (as_set or self.branch(z3.Bool("val!" + n)))

    def bind(self, name, value):
        self.solver.add(z3.Bool(name) == value)


def _salted(ast, u, suffix):
    key, name, cs = ast
    if name is not None and not name.startswith('"'):
        name += suffix
    return [key, name, [_salted(c, u, suffix) for c in cs]]


class NativeReplayCtx(ConcreteApi, engine.ReplayCtx):
    """Native replay of a recorded counterexample on the real code, without any stand-in."""

    mode = "replay"

    def __init__(self, record):
        engine.ReplayCtx.__init__(self, record)
        self._init_concrete()
        self.fi = 0

    def prepare(self):
        """Build the inputs; equal inputs are not one object."""
        self.built = []
        for ast in self.record["formulas"]:
            self.u.base.reset_cache()
            if self.record.get("salt"):
                ast = _salted(ast, self.u, "_%d" % self.record["salt"])
            o = kinds.build(ast, self.u)
            if kinds.to_ast(o, self.u) != ast:
                raise Unsupported("the constructors do not build %s" % kinds.show(ast))
            self.built.append(o)
        self.u.base.reset_cache()

    def formula(self, logic="PL", label=None, only=None, without=None, eqmode=None):
        if self.fi >= len(self.built):
            raise Unsupported("replay ran out of formulas")
        o = self.built[self.fi]
        self.fi += 1
        self.inputs.append(o)
        self.snapshot(o)
        return o

    def interp_bits(self, n, as_set):
        b = self.record.get("bools", {})
        v = b.get("v!" + kinds.ast_key(["PL.Atomic", n, []], self.u), False)
        if "has!" + n in b:
            return b["has!" + n], as_set or b.get("val!" + n, v)
        return (v, True) if as_set else (True, v)

    def bind(self, name, value):
        self.bound[name] = value
