"""First-order truth in structures with two individuals, as z3 expressions.

The two individuals are False and True. Predicates, functions and constants are uninterpreted: a z3 model is a structure.
"""
import z3

from . import kinds
from .symform import fold_value

B, I = z3.BoolSort(), z3.IntSort()


def _pred(name, n):
    return z3.Function("pred!%s!%d" % (name, n), *([B] * (n + 1)))


def _fun(name, n):
    return z3.Function("fun!%s!%d" % (name, n), *([B] * (n + 1)))


def assignments(n):
    """All assignments to n variables, as tuples."""
    r = [()]
    for _ in range(n):
        r = [a + (b,) for a in r for b in (False, True)]
    return r


class Concrete:
    """Truth of formulas given as ASTs."""

    def __init__(self, asts):
        self.vars = []

        def walk(a):
            if a[0] == "TERM.Variable" and a[1] not in self.vars:
                self.vars.append(a[1])
            for c in a[2]:
                walk(c)

        for a in asts:
            walk(a)
        self.u = kinds.universe()

    def term(self, a, s):
        key, name, cs = a
        if key == "TERM.Variable":
            return s[name]
        if key == "TERM.Constant":
            return z3.Bool("const!" + name)
        return _fun(name, len(cs))(*[self.term(c, s) for c in cs])

    def truth(self, a, s):
        key, name, cs = a
        k = self.u.by_key[key]
        if k.bool_op:
            return fold_value(k, [self.truth(c, s) for c in cs])
        if k.name in ("ForAll", "Exists"):
            x = cs[0][1]
            parts = [self.truth(cs[1], dict(s, **{x: z3.BoolVal(b)})) for b in (False, True)]
            return (z3.And if k.name == "ForAll" else z3.Or)(*parts)
        if k.name == "Predicate":
            if not cs:
                return z3.Bool("prop!" + name)
            return _pred(name, len(cs))(*[self.term(c, s) for c in cs])
        raise ValueError("no first-order truth for " + key)

    def entails(self, premises, conclusion):
        out = []
        for a in assignments(len(self.vars)):
            s = {v: z3.BoolVal(b) for v, b in zip(self.vars, a)}
            out.append(z3.Implies(z3.And(*[self.truth(p, s) for p in premises]), self.truth(conclusion, s)))
        return z3.And(*out)


class Opaque:
    """Truth of formulas of a LazyCtx, as functions of their identities; arbitrary where nothing is known."""

    def __init__(self, ctx, nvars):
        self.ctx, self.n = ctx, nvars
        self.asg = assignments(nvars)
        self.T = [z3.Function("T!%d" % i, I, B) for i in range(len(self.asg))]
        self.index = {a: i for i, a in enumerate(self.asg)}

    def axioms(self):
        ctx, out = self.ctx, []
        u = ctx.u
        var = u.by_key["TERM.Variable"].idx
        seen = set()
        for vid, dom in ctx.idterms:
            if (vid.get_id(), dom) in seen:
                continue
            seen.add((vid.get_id(), dom))
            for k in (u.kinds[i] for i in dom):
                if k.bool_op in ("True", "False"):
                    for t in self.T:
                        out.append(z3.Implies(ctx.K(vid) == k.idx, t(vid) == (k.bool_op == "True")))
                elif k.bool_op == "Not":
                    for t in self.T:
                        out.append(z3.Implies(ctx.K(vid) == k.idx, t(ctx.N(vid)) == z3.Not(t(vid))))
                elif k.idx == var:
                    for j in range(self.n):
                        cond = z3.And(ctx.K(vid) == k.idx, ctx.NM(vid) == j)
                        for i, t in enumerate(self.T):
                            out.append(z3.Implies(cond, t(vid) == self.asg[i][j]))
        for vid, k, cname, cids in ctx.structured:
            name = ctx.names[k.key][cname] if cname is not None else None
            for i, t in enumerate(self.T):
                if k.bool_op:
                    out.append(t(vid) == fold_value(k, [t(c) for c in cids]))
                elif k.name == "Predicate":
                    out.append(t(vid) == (_pred(name, len(cids))(*[t(c) for c in cids]) if cids
                                          else z3.Bool("prop!" + name)))
                elif k.name == "Constant":
                    out.append(t(vid) == z3.Bool("const!" + name))
                elif k.name == "Function":
                    out.append(t(vid) == _fun(name, len(cids))(*[t(c) for c in cids]))
                elif k.name in ("ForAll", "Exists"):
                    x, body = cids
                    for j in range(self.n):
                        parts = []
                        for b in (False, True):
                            a = self.asg[i]
                            parts.append(self.T[self.index[a[:j] + (b,) + a[j + 1:]]](body))
                        out.append(z3.Implies(ctx.NM(x) == j, t(vid) == (z3.And if k.name == "ForAll" else z3.Or)(*parts)))
        return z3.And(*out) if out else z3.BoolVal(True)

    def entails(self, premises, conclusion):
        ps = [self.ctx.ident(p) for p in premises]
        c = self.ctx.ident(conclusion)
        return z3.And(*[z3.Implies(z3.And(*[t(p) for p in ps]), t(c)) for t in self.T])


def _open(ctx, obj):
    ctx.materialise(obj)
    for c in ctx.kids(obj):
        _open(ctx, c)


def require_entailed(ctx, premises, conclusion, msg, nvars=3):
    """Every structure and assignment that makes the premises true makes the conclusion true."""
    if ctx.mode != "lazy":
        asts = [kinds.to_ast(p, ctx.u) for p in premises + [conclusion]]
        return ctx.require(Concrete(asts).entails(asts[:-1], asts[-1]), msg)
    sem = Opaque(ctx, nvars)
    cond = sem.entails(premises, conclusion)
    ctx.solver.push()
    ctx.solver.add(sem.axioms())
    r = ctx._check(z3.Not(cond))
    ctx.solver.pop()
    if r == z3.unsat:
        ctx.requires += 1
        ctx.stats.add(obligations=1, discharged=1)
        return None
    for o in list(ctx.inputs):
        _open(ctx, o)
    ctx.solver.add(sem.axioms())
    return ctx.require(cond, msg)
