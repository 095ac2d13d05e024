"""Dynamic symbolic execution: the real Python code runs natively, decisions are made by z3.

A harness is a function `h(ctx)`.  It is executed once per feasible path: every time the code under
test (or the harness) needs the truth of a symbolic condition, `ctx.branch` asks the solver which
outcomes are feasible under the path condition, follows one and queues the other.  Assertions
(`ctx.require`) are decided by the solver for *all* values that satisfy the path condition.
"""
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import signal
import time
import traceback

import z3


class Infeasible(BaseException):
    """The current path is infeasible or outside the stated assumptions."""


class Unsupported(BaseException):
    """The symbolic stand-ins cannot represent what the code does with them."""


class Violated(BaseException):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.msg, self.data = msg, data


class Stats(dict):
    def add(self, **kw):
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


class BaseCtx:
    mode = "?"

    def pick(self, options, label=""):
        return options[self.choose(len(options), label)]

    def flag(self, label=""):
        return self.choose(2, label) == 1


class SymCtx(BaseCtx):
    """One symbolic path."""

    mode = "sym"

    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.nfresh = 0
        self.notes = {}
        self.log = []
        self.facts = []  # lazily flushed
        self.requires = 0
        self.cache = {}

    # -- symbols
    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool("%s!%d" % (name, self.nfresh))

    def fresh_int(self, name):
        self.nfresh += 1
        return z3.Int("%s!%d" % (name, self.nfresh))

    # -- solver
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.add(queries=1, solver_s=time.time() - t)
        if r == z3.unknown:
            self.stats.add(unknown=1)
        return r

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self.solver.add(cond)

    def assume_checked(self, cond):
        self.assume(cond)
        if self.replaying():
            return
        if self._check() == z3.unsat:
            raise Infeasible()

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def feasible(self, cond):
        return self._check(cond) != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self._check(cond) != z3.unsat
            f = self._check(z3.Not(cond)) != z3.unsat if t else True
            if t and f:
                d = 1
                self.alternatives.append(self.decisions + [0])
                self.stats.add(forks=1)
            else:
                d = 1 if t else 0
        self.decisions.append(d)
        self.solver.add(cond if d else z3.Not(cond))
        return bool(d)

    def fork(self, conds):
        """Multi-way branch over (exhaustive) conditions; returns the index taken."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ok = [k for k, c in enumerate(conds)
                  if (c is True) or (c is not False and self._check(c) != z3.unsat)]
            if not ok:
                raise Infeasible()
            d = ok[0]
            for k in ok[1:]:
                self.alternatives.append(self.decisions + [k])
            self.stats.add(forks=len(ok) - 1)
        self.decisions.append(d)
        if conds[d] is not True:
            self.solver.add(conds[d])
        return d

    def choose(self, n, label=""):
        """A symbolic input with n values, decided here."""
        i = len(self.decisions)
        if n == 1:
            d = 0
        else:
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                d = 0
                for k in range(1, n):
                    self.alternatives.append(self.decisions + [k])
                self.stats.add(forks=n - 1)
            self.decisions.append(d)
        self.log.append(("choose", d))
        return d

    def truth(self, obj):
        """The truth value of a formula, decided here (used to answer for a symbolic evaluator)."""
        return self.branch(self.V(obj))

    def require(self, cond, msg, data=None):
        """cond must hold for every value satisfying the path condition."""
        self.requires += 1
        self.stats.add(obligations=1)
        if isinstance(cond, bool):
            if cond:
                self.stats.add(discharged=1)
                return
            if self._check() == z3.unsat:
                raise Infeasible()
            self.model = self.solver.model()
            raise Violated(msg, data)
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.stats.add(discharged=1)
            return
        if r == z3.unknown:
            raise Unsupported("solver answered unknown for: " + msg)
        self.model = self.solver.model()
        raise Violated(msg, data)

    def get_model(self):
        m = getattr(self, "model", None)
        if m is None:
            if self._check() != z3.sat:
                return None
            m = self.solver.model()
        return m


class ReplayCtx(BaseCtx):
    """Native replay: real objects, recorded choices; only truth values of atoms stay symbolic."""

    mode = "replay"

    def __init__(self, record):
        self.record = record
        self.ci = 0
        self.notes = {}
        self.log = []
        self.nfresh = 0
        self.stats = Stats()
        self.bound = {}

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool("%s!%d" % (name, self.nfresh))

    def fresh_int(self, name):
        self.nfresh += 1
        return z3.Int("%s!%d" % (name, self.nfresh))

    def choose(self, n, label=""):
        cs = self.record["choices"]
        if self.ci >= len(cs):
            raise Unsupported("replay ran out of choices")
        d = cs[self.ci]
        self.ci += 1
        if not 0 <= d < n:
            raise Unsupported("replay choice out of range")
        return d

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        c = z3.simplify(cond)
        if z3.is_false(c):
            raise Infeasible()

    assume_checked = assume

    def branch(self, cond):
        """Oracle-level branches in replay are resolved by the recorded branch values."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.sexpr()
        vals = self.record.get("bools", {})
        m = []
        for n, v in vals.items():
            m.append((z3.Bool(n), z3.BoolVal(v)))
        for n, v in self.record.get("ints", {}).items():
            m.append((z3.Int(n), z3.IntVal(v)))
        c2 = z3.simplify(z3.substitute(c, *m))
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        raise Unsupported("replay cannot decide " + key)

    def truth(self, obj):
        c = z3.simplify(self.V(obj))
        todo, seen = [c], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                self.bound[n] = bool(self.record.get("bools", {}).get(n, False))
            todo.extend(t.children())
        r = z3.simplify(z3.substitute(c, *[(z3.Bool(n), z3.BoolVal(v)) for n, v in self.bound.items()]))
        return z3.is_true(r)

    def require(self, cond, msg, data=None):
        self.requires = getattr(self, "requires", 0) + 1
        if isinstance(cond, bool):
            if cond:
                return
            raise Violated(msg, data)
        s = z3.Solver()
        for n, v in self.record.get("ints", {}).items():
            s.add(z3.Int(n) == v)
        for n, v in self.bound.items():
            s.add(z3.Bool(n) == v)
        s.add(z3.Not(cond))
        r = s.check()
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Unsupported("unknown in replay")
        raise Violated(msg, data)


class TimedOut(BaseException):
    pass


def _alarm(*_):
    raise TimedOut()


def limited(seconds, f, *args):
    """Run f with a time limit (main thread of its process only)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ", ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:200], where)


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.unsupported = []
        self.spurious = []
        self.samples = []
        self.complete = True
        self.notes = {}
        self.work = []


class Task:
    """An exploration: harness, context factory, guard, and how to replay a record natively."""

    def __init__(self, name, harness, make_ctx, guard, make_replay=None, replay_guard=None,
                 path_limit=30, replay_limit=15, validate=40, salts=1):
        self.name, self.harness, self.make_ctx, self.guard = name, harness, make_ctx, guard
        self.make_replay, self.replay_guard = make_replay, replay_guard
        self.path_limit, self.replay_limit, self.validate = path_limit, replay_limit, validate
        self.salts = salts  # replays with other atom names, when hash values matter

    def replay(self, rec):
        """Native run of the harness on concrete inputs: (verdict, message)."""
        first = None
        for salt in ([rec["salt"]] if "salt" in rec else range(self.salts)):
            r = self._replay(dict(rec, salt=salt) if salt else rec)
            if r[0] == "violated":
                if salt:
                    rec["salt"] = salt
                return r
            first = first or r
        return first

    def _replay(self, rec):
        ctx = self.make_replay(rec)
        try:
            if hasattr(ctx, "prepare"):
                limited(self.replay_limit, ctx.prepare)
            with self.replay_guard(ctx):
                limited(self.replay_limit, self.harness, ctx)
            return "ok", "property holds on this input"
        except Violated as v:
            return "violated", v.msg
        except Infeasible:
            return "infeasible", "outside the stated assumptions"
        except Unsupported as u:
            return "unsupported", str(u)
        except TimedOut:
            return "violated", "no answer within %d s" % self.replay_limit
        except Exception as e:
            return "unsupported", _exc_text(e)


def run_path(task, prefix, stats):
    """Execute one path. Returns (ctx, outcome, info)."""
    ctx = task.make_ctx(prefix, stats)
    try:
        with task.guard(ctx):
            limited(task.path_limit, task.harness, ctx)
        return ctx, "ok", None
    except Infeasible:
        return ctx, "infeasible", None
    except Violated as v:
        return ctx, "violated", v.msg
    except Unsupported as u:
        return ctx, "unsupported", str(u)
    except TimedOut:
        return ctx, "timeout", "path exceeded %d s" % task.path_limit
    except Exception as e:  # trouble with the harness or a stand-in; harnesses catch the code's exceptions
        return ctx, "unsupported", _exc_text(e)


def _explore(task, prefixes, deadline, stop_worklist=None, slice_s=None):
    res = Result()
    slice_end = time.time() + slice_s if slice_s else None
    work = list(prefixes)
    st = res.stats
    while work:
        if time.time() > deadline:
            res.complete = False
            break
        if stop_worklist and len(work) >= stop_worklist:
            break
        if slice_end and time.time() > slice_end:
            break
        prefix = work.pop(0) if stop_worklist else work.pop()
        ctx, out, info = run_path(task, prefix, st)
        st.add(**{"paths": 1, "paths_" + out: 1, "decisions": len(ctx.decisions)})
        if out == "ok" and ctx.requires == 0:
            st.add(paths_vacuous=1)
        work.extend(ctx.alternatives)
        for k, v in ctx.notes.items():
            res.notes[k] = res.notes.get(k, 0) + v
        if out in ("violated", "timeout"):
            try:
                rec = ctx.record()
            except (Exception, Unsupported, Infeasible) as e:
                rec = None
                info += " / no concrete input: " + _exc_text(e)
            verdict, msg = ("none", "no model") if rec is None else task.replay(rec)
            if verdict == "violated":
                rec["msg"] = msg
                res.violations.append(rec)
                res.complete = False
                break
            st.add(spurious=1)
            if len(res.spurious) < 5:
                res.spurious.append({"claim": info, "replay": msg, "input": rec})
        elif out == "unsupported":
            if len(res.unsupported) < 5:
                res.unsupported.append(info)
        elif out == "ok" and ctx.requires and st.get("validated", 0) < task.validate and (
                st["paths"] < 20 or st["paths"] % 7 == 0):
            # the same path on concrete inputs, natively: checks the stand-ins, not the property
            try:
                rec = ctx.record()
            except (Exception, Unsupported, Infeasible):
                rec = None
            if rec is not None:
                verdict, msg = task.replay(rec)
                if verdict == "violated":
                    rec["msg"] = msg
                    res.violations.append(rec)
                    res.complete = False
                    break
                st.add(**{"validated": 1} if verdict == "ok" else {"not_validated": 1})
                if verdict != "ok" and len(res.unsupported) < 5:
                    res.notes["validation: " + msg] = 1
                if len(res.samples) < 3:
                    try:
                        res.samples.append(ctx.describe())
                    except Exception:
                        pass
    res.work = work
    return res


def _merge(res, r):
    res.stats.merge(r.stats)
    for k, v in r.notes.items():
        res.notes[k] = res.notes.get(k, 0) + v
    res.violations += r.violations
    res.unsupported += r.unsupported[: max(0, 8 - len(res.unsupported))]
    res.spurious += r.spurious[: max(0, 5 - len(res.spurious))]
    res.samples += r.samples[: max(0, 6 - len(res.samples))]
    res.complete = res.complete and r.complete


def _serve(conn, task, deadline):
    """Worker process: explore the prefixes that come in, send back results."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            chunk = conn.recv()
        except EOFError:
            return
        if chunk is None:
            return
        try:
            r = _explore(task, chunk, deadline, slice_s=0.7)  # validation quota is per slice
            if time.time() > deadline:
                r.complete = False
        except BaseException as e:  # report, never die silently
            r = "worker failed: " + _exc_text(e)
        try:
            conn.send(r)
        except Exception as e:
            conn.send("result could not be sent: " + _exc_text(e))


class _Workers:
    """Forked workers with one pipe each (no shared locks, so they can be killed at any time)."""

    def __init__(self, n, task, deadline):
        ctx = mp.get_context("fork")
        self.idle, self.busy, self.procs = [], {}, []
        for _ in range(n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=self._main, args=(a, b, task, deadline), daemon=True)
            p.start()
            b.close()
            self.procs.append((p, a))
            self.idle.append(a)

    @staticmethod
    def _main(a, b, task, deadline):
        a.close()
        _serve(b, task, deadline)
        os._exit(0)

    def give(self, chunk):
        c = self.idle.pop()
        c.send(chunk)
        self.busy[c] = chunk

    def results(self, timeout):
        for c in mp.connection.wait(list(self.busy), timeout):
            del self.busy[c]
            try:
                r = c.recv()
                self.idle.append(c)
            except (EOFError, OSError):
                r = "worker died"
            yield r

    def kill(self):
        for p, c in self.procs:
            p.kill()
        for p, c in self.procs:
            p.join()
            c.close()


def explore(task, budget_s=60, procs=None):
    """Explore all paths of a task, in parallel; stops at the first violation that replays."""
    procs = procs or int(os.environ.get("VF_PROCS", "8"))
    t0 = time.time()
    deadline = t0 + budget_s
    if procs == 1:
        return _explore(task, [[]], deadline)
    res = _explore(task, [[]], deadline, stop_worklist=procs * 4, slice_s=1.0)
    work = res.work
    if work and not res.violations and time.time() < deadline:
        ws = _Workers(procs, task, deadline)
        try:
            while (work or ws.busy) and time.time() < deadline + 20 and (ws.idle or ws.busy):
                while work and ws.idle and time.time() < deadline:
                    # split what is left evenly, so that subtrees of any size are shared
                    k = max(1, min(len(work), len(work) // (procs * 2)))
                    chunk, work = work[:k], work[k:]
                    ws.give(chunk)
                if not ws.busy:
                    break
                for r in ws.results(5):
                    if isinstance(r, str):
                        res.unsupported.append(r)
                        res.stats.add(paths_unsupported=1)
                        res.complete = False
                        continue
                    _merge(res, r)
                    work += r.work
                if res.violations:
                    break
            if res.violations or work or ws.busy:
                res.complete = False
        finally:
            ws.kill()
    elif work:
        res.complete = False
    res.work = []
    return res
