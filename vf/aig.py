"""Boolean circuits (hash-consed and/or), CNF, and the SAT solvers that decide them."""
import itertools
import os
import shutil
import subprocess
import tempfile
import time

TRUE, FALSE = 1, -1


class Circuit:
    """Literals are integers; 1 is true; a negative literal is the complement."""

    def __init__(self):
        self.n = 1
        self.gates = {}      # tuple of literals -> literal of their conjunction
        self.of = {}         # literal of a gate -> its operands

    def var(self):
        self.n += 1
        return self.n

    def conj(self, lits):
        s = set()
        for x in lits:
            if x == FALSE or -x in s:
                return FALSE
            if x != TRUE:
                s.add(x)
        if not s:
            return TRUE
        if len(s) == 1:
            return next(iter(s))
        k = tuple(sorted(s))
        g = self.gates.get(k)
        if g is None:
            g = self.gates[k] = self.var()
            self.of[g] = k
        return g

    def disj(self, lits):
        return -self.conj([-x for x in lits])

    def xor(self, a, b):
        if a == b:
            return FALSE
        if a == -b:
            return TRUE
        return self.disj([self.conj([a, -b]), self.conj([-a, b])])

    def one_of(self, lits):
        """Clauses stating that exactly one of the variables is true."""
        out = [list(lits)]
        out += [[-a, -b] for a, b in itertools.combinations(lits, 2)]
        return out

    def cnf(self, roots):
        """The gates below the roots as clauses, on renumbered variables; also the renumbering."""
        num, clauses, stack = {1: 1}, [[1]], [abs(r) for r in roots]

        def v(x):
            a = abs(x)
            if a not in num:
                num[a] = len(num) + 1
            return num[a] if x > 0 else -num[a]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            ops = self.of.get(x)
            v(x)
            if ops is None:
                continue
            g = v(x)
            for o in ops:
                clauses.append([-g, v(o)])
                stack.append(abs(o))
            clauses.append([g] + [-v(o) for o in ops])
        return num, clauses, v


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


class Unknown(Exception):
    pass


def binary():
    for b in ("cadical", "/app/lean4-4.33.0/build/release/stage1/bin/cadical", "kissat"):
        p = shutil.which(b)
        if p:
            return p
    return None


def solve(circuit, assumptions, clauses=(), timeout=600, stats=None):
    """A set of true variables when the assumptions (literals) can all hold, None when they cannot."""
    if FALSE in assumptions:
        return None
    num, cs, v = circuit.cnf(list(assumptions) + [x for c in clauses for x in c])
    for c in clauses:
        cs.append([v(x) for x in c])
    for a in assumptions:
        cs.append([v(a)])
    t0 = time.time()
    try:
        model = run(len(num), cs, timeout)
    finally:
        if stats is not None:
            stats.add(queries=1, solver_s=time.time() - t0)
    if model is None:
        return None
    back = {n: x for x, n in num.items()}
    return {back[x] for x in model if x > 0 and x in back}


def run(nvars, clauses, timeout):
    b = binary()
    if b is None:
        return run_z3(clauses, timeout)
    d = tempfile.mkdtemp(prefix="vf-sat-")
    path = os.path.join(d, "q.cnf")
    try:
        with open(path, "w") as f:
            f.write("p cnf %d %d\n" % (nvars, len(clauses)))
            f.write("\n".join(" ".join(map(str, c)) + " 0" for c in clauses))
            f.write("\n")
        try:
            p = subprocess.run([b, "-q", path], capture_output=True, text=True, timeout=timeout,
                               preexec_fn=_die_with_parent)
        except subprocess.TimeoutExpired:
            raise Unknown("time limit")
        if p.returncode == 20:
            return None
        if p.returncode != 10:
            raise Unknown("solver exit %d %s" % (p.returncode, p.stderr[:200]))
        out = set()
        for line in p.stdout.splitlines():
            if line.startswith("v"):
                out.update(int(x) for x in line[1:].split())
        out.discard(0)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_z3(clauses, timeout):
    import z3
    s = z3.SolverFor("QF_FD")
    s.set("timeout", int(timeout * 1000))
    vs = {}

    def lit(x):
        b = vs.setdefault(abs(x), z3.Bool("v%d" % abs(x)))
        return b if x > 0 else z3.Not(b)
    for c in clauses:
        s.add(z3.Or([lit(x) for x in c]))
    r = s.check()
    if r == z3.unknown:
        raise Unknown("z3")
    if r == z3.unsat:
        return None
    m = s.model()
    return {n for n, b in vs.items() if z3.is_true(m.eval(b))}


class Forest:
    """And-or graph of derivations: each node has alternatives (guards, children).

    `val(key)` is the literal saying that the node has a derivation, `used` tells which nodes take part in a
    derivation of the root.  Subclasses define `alts(key)`."""

    def __init__(self, circuit):
        self.c = circuit
        self.values = {}
        self.children = {}
        self.order = []

    def alts(self, key):
        raise NotImplementedError

    def val(self, key):
        v = self.values.get(key)
        if v is None:
            self.values[key] = FALSE  # a cycle derives nothing new
            kept = []
            for guards, kids in self.alts(key):
                lits = list(guards)
                if FALSE in lits:
                    continue
                for k in kids:
                    x = self.val(k)
                    if x == FALSE:
                        lits = None
                        break
                    lits.append(x)
                if lits is None:
                    continue
                a = self.c.conj(lits)
                if a != FALSE:
                    kept.append((a, kids))
            v = self.values[key] = self.c.disj([a for a, _ in kept])
            self.children[key] = kept
            self.order.append(key)
        return v

    def used(self, root, cond=TRUE):
        """For every node below the root, the literal saying that it is part of a derivation of the root."""
        v = self.val(root)
        acc = {root: [self.c.conj([cond, v])]}
        out = {}
        for key in reversed(self.order):
            if key not in acc:
                continue
            u = out[key] = self.c.disj(acc.pop(key))
            if u == FALSE:
                continue
            for a, kids in self.children[key]:
                if not kids:
                    continue
                x = self.c.conj([u, a])
                for k in kids:
                    acc.setdefault(k, []).append(x)
        return out
