"""The LALR automaton that lark compiled for a grammar of /repo, executed symbolically over token sequences.

A node of the forest says that the automaton, with state s on top of its stack and token i ahead, consumes the tokens
i..j-1 and then has pushed exactly the symbol X on s.  The tables are lark's own; the values that reductions build are
found by running lark's callbacks and /repo's transformer on opaque children (see `Actions`)."""
import lark

from . import aig, larks
from .engine import Unsupported

END = "$END"


class Tables:
    def __init__(self, which):
        self.which = which
        self.lark = lk = larks.lark_of(which)
        try:
            conf = lk.parser.parser
            pt = conf._parse_table
            self.states = pt.states
            (self.start_name, self.start), = pt.start_states.items()
            self.end = pt.end_states[self.start_name]
            self.callbacks = conf.parser.callbacks
        except Exception as e:
            raise Unsupported("no LALR table: %s" % e)
        self.rules = {}
        for s, row in self.states.items():
            for a in row.values():
                if not (isinstance(a, tuple) and len(a) == 2):
                    raise Unsupported("unknown action %r" % (a,))
        for r in lk.rules:
            self.rules.setdefault(r.origin.name, []).append(r)
            if not r.expansion:
                raise Unsupported("empty rule %s" % r)
        self.raw = set()   # symbols whose value is a bare tree, completed further up
        self.terminals = [t.name for t in lk.terminals]
        self.patterns = {t.name: t for t in lk.terminals}

    def action(self, s, name):
        """("shift", state), ("reduce", rule) or None"""
        a = self.states[s].get(name)
        if a is None:
            return None
        kind, arg = a
        return ("reduce", arg) if hasattr(arg, "expansion") else ("shift", arg)

    def goto(self, s, name):
        a = self.action(s, name)
        return a[1] if a and a[0] == "shift" else None

    def inline(self, name):
        return name in self.rules and (name.startswith("_") or name in self.raw)


class ImplForest(aig.Forest):
    """tok(m, terminal name) is the literal for the token at m; positions at or past the end hold $END."""

    def __init__(self, circuit, tables, tok, refused=None):
        super().__init__(circuit)
        self.t, self.tok = tables, tok
        self._red = {}
        self.refused = refused or (lambda *a: False)  # applications whose action always raises

    def reduces(self, s, rule, j):
        k = (s, id(rule), j)
        if k not in self._red:
            row = self.t.states[s]
            self._red[k] = self.c.disj([self.tok(j, n) for n in row if self.t.action(s, n) == ("reduce", rule)])
        return self._red[k]

    def root(self, n):
        return ("D", self.t.start, self.t.start_name, 0, n, 1)

    def alts(self, key):
        if key[0] == "D":      # ("D", state, symbol, i, j, composite count)
            _, s, x, i, j, c = key
            if x not in self.t.rules:
                if j == i + 1 and c == 1 and self.t.goto(s, x) is not None:
                    yield (self.tok(i, x),), []
                return
            if self.t.goto(s, x) is None:
                return
            for n, r in enumerate(self.t.rules[x]):
                if self.t.inline(x):
                    yield (), [("P", s, x, n, len(r.expansion), i, j, c), ]
                else:
                    for k in range(1, j - i + 1):
                        if self.refused(x, n, k):
                            continue
                        yield (), [("P", s, x, n, len(r.expansion), i, j, k)]
        else:                  # ("P", state, symbol, rule number, symbols pushed, i, j, composite children so far)
            _, s, x, n, k, i, j, c = key
            r = self.t.rules[x][n]
            path = [s]
            for sym in r.expansion[:k]:
                path.append(self.t.goto(path[-1], sym.name))
                if path[-1] is None:
                    return
            guards = (self.reduces(path[-1], r, j),) if k == len(r.expansion) else ()
            if guards and guards[0] == aig.FALSE:
                return
            y = r.expansion[k - 1].name
            at = path[k - 1]
            left = k - 1       # symbols before this one
            for m in ([i] if left == 0 else range(i + left, j)):
                for d in ([c] if left == 0 else range(left, c)):
                    if not self.t.inline(y) and (c if left == 0 else c - d) != 1:
                        continue
                    here = ("D", at, y, m, j, c if left == 0 else c - d)
                    yield guards, ([] if left == 0 else [("P", s, x, n, k - 1, i, m, d)]) + [here]

    def apps(self, used):
        """(symbol, rule number, composite count) -> [(i, j, literal)] for the applications of ordinary rules in use"""
        out = {}
        for key, u in used.items():
            if key[0] == "P" and u != aig.FALSE:
                _, s, x, n, k, i, j, c = key
                if k == len(self.t.rules[x][n].expansion) and not self.t.inline(x):
                    out.setdefault((x, n, c), []).append((i, j, u))
        return out
