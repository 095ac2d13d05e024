"""C08: copying and pickling preserve formulas and drop memoised hashes."""
import base64
import copy
import io
import json
import os
import pickle
import subprocess
import sys

from checks.common import Lazy, attempt, base, describe
from vf import kinds, repo
from vf.engine import Unsupported

FUNCTIONS = ["helpers.cache_hash: Hashable, _getstate, _setstate, default_getstate, default_setstate",
             "syntax.base.Not.__new__ / __getnewargs__", "__eq__, __hash__ of every formula and term class"]
ASSUMPTIONS = [
    "operands of the copied formula are themselves copied to equal formulas (the induction hypothesis); pickling "
    "refers to them by persistent identifiers",
    "another interpreter is modelled by changing every hash value computed; counterexamples are replayed in a second "
    "Python process with another hash seed"]
ALL = ["PL", "LTL", "PLTL", "LDL", "RE", "FOL", "TERM"]
ARITIES = {"Predicate": (0, 1, 2), "Function": (1, 2)}


def bounds(tier):
    return "operators with at most %d operands, operands arbitrary; pickle protocols 0-%d; single formulas and " \
           "containers of formulas" % ((3 if tier == "quick" else 4), pickle.HIGHEST_PROTOCOL)


class _Pickler(pickle.Pickler):
    def __init__(self, buf, protocol, ctx, roots):
        super().__init__(buf, protocol)
        self.ctx, self.roots, self.table = ctx, roots, {}

    def persistent_id(self, obj):
        meta = getattr(self.ctx, "meta", None)
        if meta is None:
            return None
        rec = meta.get(id(obj))
        if rec is None or rec.obj is not obj or any(obj is r for r in self.roots):
            return None
        self.table["p%d" % id(obj)] = obj
        return "p%d" % id(obj)


class _Unpickler(pickle.Unpickler):
    def __init__(self, buf, table):
        super().__init__(buf)
        self.table = table

    def persistent_load(self, pid):
        return self.table[str(pid)]


def same_content(ctx, f, r, what):
    k = ctx.kind(f)
    ctx.require(type(r) is type(f), "%s: another class" % what)
    cs, e = attempt(lambda: list(k.get(r)))
    ctx.require(e is None, "%s: the operands are lost: %s" % (what, e and describe(e)))
    want = list(k.get(f))
    ctx.require(len(cs) == len(want), "%s: another number of operands" % what)
    for a, b in zip(cs, want):
        ctx.require(ctx.same(a, b), "%s: another operand" % what)
    if k.shape == "named":
        ctx.require(attempt(lambda: ctx.u.name_of(r))[0] == ctx.u.name_of(f), "%s: another name" % what)
    lg, e = attempt(lambda: r.logic)
    ctx.require(e is None and lg == f.logic, "%s: another formalism" % what)
    for a, b in ((f, r), (r, f)):
        eq, e = attempt(lambda: a == b)
        ctx.require(e is None and bool(eq), "%s: not equal to the original" % what)


def memo_free(ctx, f):
    """The state that goes into a pickle does not contain the memoised hash."""
    h = hash(f)
    for proto in (2, 4):
        red, e = attempt(f.__reduce_ex__, proto)
        ctx.require(e is None, "__reduce_ex__ raised %s" % (e and describe(e)))
        state = red[2] if isinstance(red, tuple) and len(red) > 2 else None
        todo, vals = [state], []
        while todo:
            v = todo.pop()
            if type(v) in (dict,):
                todo += list(v.values())
            elif type(v) in (list, tuple):
                todo += list(v)
            else:
                vals.append(v)
        ctx.require(not any(type(v) is int and v == h for v in vals), "the serialised state carries the memoised hash")


def copies(l):
    def h(ctx):
        f = ctx.formula(l, eqmode="real")
        ctx.kind(f)
        hashed = ctx.flag()
        if hashed:
            h0 = hash(f)
        how = ctx.choose(3)
        if how == 0:
            r, e = attempt(copy.copy, f)
        elif how == 1:
            r, e = attempt(copy.deepcopy, f)
        else:
            rs, e = attempt(copy.deepcopy, [f, f])
            r = rs and rs[1]
        what = ("copy", "deep copy", "deep copy of a list")[how]
        ctx.require(e is None, "%s raised %s" % (what, e and describe(e)))
        same_content(ctx, f, r, what)
        ctx.require(hash(r) == hash(f), "%s: another hash" % what)
        ctx.require(ctx.unmodified(f), "%s modified the original" % what)
        if hashed:
            ctx.require(hash(f) == h0, "%s changed the hash of the original" % what)
        if isinstance(f, base().Formula):
            memo_free(ctx, f)

    return h


CHILD = """
import sys, json, base64, pickle
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from vf import repo, kinds
repo.load()
d = json.loads(sys.stdin.read())
r = pickle.loads(base64.b64decode(d["data"]))
if d["container"] == 1:
    r = r[1]
if d["container"] == 2:
    r = [k for k in r if type(k).__name__ != "str"][0]
f = kinds.build(d["ast"])
print(json.dumps({"hash": hash(r) == hash(f), "eq": bool(r == f) and bool(f == r)}))
"""


def rebuild_same(ctx, f):
    """A freshly built formula equal to f."""
    k = ctx.kind(f)
    return k.make(ctx.u.name_of(f) if k.shape == "named" else None, list(k.get(f)))


def pickles(l):
    def h(ctx):
        f = ctx.formula(l, eqmode="real")
        ctx.kind(f)
        hashed = ctx.flag()
        if hashed:
            h0 = hash(f)
        proto = ctx.choose(pickle.HIGHEST_PROTOCOL + 1)
        cont = ctx.choose(3)
        obj = [f, [f, f], {f: 1}][cont]
        buf = io.BytesIO()
        p = _Pickler(buf, proto, ctx, [f])
        _, e = attempt(p.dump, obj)
        ctx.require(e is None, "pickling raised %s" % (e and describe(e)))
        data = buf.getvalue()
        ctx.require(ctx.unmodified(f), "pickling modified the original")
        if hashed:
            ctx.require(hash(f) == h0, "pickling changed the hash of the original")
        r, e = attempt(_Unpickler(io.BytesIO(data), p.table).load)
        ctx.require(e is None, "unpickling raised %s" % (e and describe(e)))
        r = r if cont == 0 else r[1] if cont == 1 else list(r)[0]
        same_content(ctx, f, r, "pickle")
        ctx.require(hash(r) == hash(f), "pickle: another hash")

        if ctx.mode == "lazy":
            def there():
                r, e = attempt(_Unpickler(io.BytesIO(data), p.table).load)
                ctx.require(e is None, "unpickling raised %s" % (e and describe(e)))
                r = r if cont == 0 else r[1] if cont == 1 else list(r)[0]
                ctx.require(hash(r) == hash(rebuild_same(ctx, f)),
                            "a formula restored by another interpreter does not hash like a freshly built one")

            ctx.other_interpreter(there)
        elif ctx.mode == "replay":
            ast = kinds.to_ast(f)
            env = dict(os.environ, PYTHONHASHSEED="4242", PYTHONDONTWRITEBYTECODE="1")
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            q = subprocess.run([sys.executable, "-c", CHILD % here], env=env, capture_output=True, text=True,
                               input=json.dumps({"data": base64.b64encode(data).decode(), "ast": ast,
                                                 "container": cont}), timeout=60)
            if q.returncode:
                ctx.require(False, "unpickling in another interpreter failed: " + q.stderr.strip()[-120:])
            d = json.loads(q.stdout)
            ctx.require(d["eq"], "a formula restored by another interpreter is not equal to a freshly built one")
            ctx.require(d["hash"], "a formula restored by another interpreter does not hash like a freshly built one")

    return h


def tasks(tier):
    deep = tier != "quick"
    out = []
    b = 900 if deep else 60
    g = {"patch_hash": "pool", "shims": ("type", "isinstance", "dir", "hash")}
    for l in ALL:
        lazy = {"max_arity": 4 if deep else 3, "max_names": 3, "hash_pool": "spread", "arities": ARITIES}
        fb = {"depth": 1, "budget": 20, "arities": ARITIES}
        out.append(Lazy("copy %s" % l, copies(l), b, lazy=lazy, guard=g, fallback=fb))
        out.append(Lazy("pickle %s" % l, pickles(l), b, lazy=lazy, guard=g, fallback=fb, validate=1))
    return out
