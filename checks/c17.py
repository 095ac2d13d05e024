"""C17: text is split into the documented tokens."""
import multiprocessing
import os

from checks import parsing
from vf import aig, engine, lalr, lexing, refgram, rex
from vf.engine import Unsupported

TECHNIQUE = ("bounded model checking of the real lexers: lark's terminals (ordered regular expressions with look-ahead) as "
             "Boolean circuits over symbolic characters, compared with the documented tokens by a SAT solver; "
             "counterexamples are completed to whole texts and replayed with the real parser")
NOTE = ("Every text within the bound is decided in every lexer state that the parser can be in; induction over the tokens "
        "extends this to texts of any number of tokens. Trusts the SAT solver, the model of Python's matcher "
        "(cross-validated natively on solver-chosen texts) and the reference tokens in vf/lexing.py.")
FUNCTIONS = ["parsers/*.lark: the terminals, their priorities and the ignored ones, as compiled by lark into the lexer of "
             "each parser state", "parsers.base: AbstractParser.__call__", "parse_pl, parse_ltl, parse_pltl, parse_ldl"]
ASSUMPTIONS = [
    "lark's lexer takes at each position the first terminal, in its order, whose pattern matches there, as the real "
    "scanner objects are built",
    "each token is decided from the text that follows it; texts of many tokens by induction, since a lexer of a state "
    "sees only what follows (and one character before)",
    "where a reserved word cannot stand but a letter can (inside the propositional parts of LDL), and where an operator "
    "letter is followed by something other than whitespace, a bracket or a quote, nothing is claimed"]
SIZE = {"quick": 16, "thorough": 28}
LOOSE = {"ltl": ["end"], "pltl": ["first"], "pl": [], "ldl": []}
WORDS = ["zzq", "z-q", "z1", "_", "zQ", "z_"]
QUOTED = ['"zzq"', '"Z q"', '"1"', '"(!"']


def bounds(tier):
    return "tokens with what follows them up to %d characters, from all of Unicode's first three planes, in every lexer " \
        "state; any number of tokens by induction" % SIZE[tier]


def vocabulary(which):
    g = refgram.GRAMMARS[which]
    reserved, marks, letters, token_of = [], [], [], {"word": "SYM", "quoted": "SYM"}
    for t in refgram.tokens_of(g):
        if t == "SYM":
            continue
        for w in refgram.TOKENS[t]:
            token_of[w] = t
            (letters if t in refgram.LETTERS else reserved if w.isalpha() else marks).append(w)
    return reserved, marks, letters, token_of


def lex(which, text):
    """("tokens", list), "free" (nothing documented) or "none" (no token)."""
    reserved, marks, letters, token_of = vocabulary(which)
    import re
    word = re.compile(r"[a-z_](?:[a-zA-Z0-9_-]*[a-zA-Z0-9_])?")
    quoted = re.compile(r'"[ !#-~]+"')
    out, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = quoted.match(text, i) or word.match(text, i)
        if m:
            w = m.group()
            if w in LOOSE[which]:
                return "free"
            out.append((token_of[w] if w in reserved else "SYM", w))
            i = m.end()
            continue
        w = max((w for w in marks + letters if text.startswith(w, i)), key=len, default=None)
        if w is None:
            return "none"
        i += len(w)
        if w in letters and not (i < len(text) and (text[i] in '("' or text[i].isspace())):
            return "free"
        out.append((token_of[w], w))
    return ("tokens", out)


def judge_text(which, text):
    """("ok"|"violated"|"skip", message)"""
    from checks.common import attempt
    from vf import repo
    r = lex(which, text)
    if r == "free":
        return "skip", "not documented"
    if r == "none":
        got, err = attempt(getattr(repo.mod("parsers"), "parse_" + which), text)
        if err is None:
            return "violated", "parse_%s(%r) gives %s, but the text does not consist of documented tokens" % (
                which, text, parsing.show(got))
        return "ok", "rejected"
    if not r[1]:
        return "skip", "empty"
    return parsing.judge(which, r[1], text)


class Machine:
    """Concrete runs of the LALR table: prefixes that lead to a state, completions of a stack."""

    def __init__(self, which, tables, lexer_of):
        self.which, self.t, self.lexer_of = which, tables, lexer_of
        self.reserved, self.marks, self.letters, self.token_of = vocabulary(which)
        self.spellings = [("zzq", "zzq ")] + [(w, w + " ") for w in self.reserved + self.marks + self.letters]

    def feed(self, stack, name):
        """The stack after a terminal, "accept", or None."""
        t = self.t
        stack = list(stack)
        while True:
            a = t.action(stack[-1], name)
            if a is None:
                return None
            if a[0] == "shift":
                stack.append(a[1])
                if name == lalr.END or stack[-1] == t.end:
                    return "accept"
                return tuple(stack)
            r = a[1]
            del stack[len(stack) - len(r.expansion):]
            nxt = t.goto(stack[-1], r.origin.name)
            if nxt is None:
                return None
            stack.append(nxt)
            if nxt == t.end and name == lalr.END:
                return "accept"

    def moves(self, stack):
        lx = self.lexer_of(stack[-1])
        for w, text in self.spellings:
            r = lx.native(text)
            if r is None or r[1] != len(w):
                continue
            nxt = self.feed(stack, r[0])
            if nxt is not None and nxt != "accept":
                yield w, nxt

    def prefixes(self):
        """Top state -> (words, stack)"""
        start = (self.t.start,)
        out = {self.t.start: ([], start)}
        todo = [start]
        while todo:
            new = []
            for st in todo:
                for w, nxt in self.moves(st):
                    if nxt[-1] not in out:
                        out[nxt[-1]] = (out[st[-1]][0] + [w], nxt)
                        new.append(nxt)
            todo = new
        return out

    def complete(self, stack, limit=7):
        """Words that complete the stack to a sentence."""
        seen, todo = {stack}, [(stack, [])]
        while todo:
            new = []
            for st, ws in todo:
                if self.feed(st, lalr.END) == "accept":
                    return ws
                if len(ws) < limit:
                    for w, nxt in self.moves(st):
                        if nxt not in seen and len(nxt) <= len(stack) + 4:
                            seen.add(nxt)
                            new.append((nxt, ws + [w]))
            todo = new
        return None


class State:
    """All the texts that can follow in one lexer state."""

    def __init__(self, which, N, machine, lexer, places, before):
        self.which, self.N, self.m, self.lexer, self.places, self.before = which, N, machine, lexer, places, before

    def build(self):
        m = self.m
        c = self.c = aig.Circuit()
        sets = self.lexer.sets() + lexing.documented_sets(m.reserved, m.marks, m.letters)
        al = lexing.Alphabet(sets, prefer="zq7_- \t(")
        t = self.t = lexing.Text(c, al, self.N, self.before)
        self.real = self.lexer.step(t)
        d = self.d = lexing.Documented(t, m.reserved, m.marks, m.letters, LOOSE[self.which])
        names = {}      # documented token -> terminals that stand for it here
        for k, tok in m.token_of.items():
            texts = WORDS if k == "word" else QUOTED if k == "quoted" else [k]
            for x in texts:
                r = self.lexer.native(x + " ")
                if r is not None and r[1] == len(x) and r[0] not in self.lexer.ignored:
                    if tok in ("SYM",) or k not in m.reserved or not self.symbolic(r[0]):
                        names.setdefault(tok, set()).add(r[0])
        self.names = names
        self.bad = []   # (literal, description, class, end)
        ign = {j: l for (n, j), l in self.real.items() if n in self.lexer.ignored}
        ends = {}
        for (n, j), l in self.real.items():
            ends.setdefault(j, []).append(l)
        any_real = c.disj([l for ls in ends.values() for l in ls])
        for (k, j), l in d.tokens.items():
            tok = m.token_of[k]
            if tok in names:
                good = c.disj([self.real.get((n, j), aig.FALSE) for n in names[tok]])
                self.bad.append((c.conj([l, -good]), "%s is read otherwise" % tok, k, j))
            elif k in m.reserved and "SYM" in names:
                continue
            else:
                more = c.disj([x for e, ls in ends.items() if e >= j for x in ls])
                self.bad.append((c.conj([l, more]), "%s is read although it cannot stand here" % tok, k, j))
        self.bad.append((c.conj([d.none, any_real]), "something undocumented is read", None, 0))
        skipped = [c.conj([l] + [t.at(i, lexing.SPACE) for i in range(j)]) for j, l in ign.items()]
        self.bad.append((c.conj([d.space] + [-x for x in skipped]), "whitespace is not skipped", None, 0))

    def symbolic(self, name):
        return any((self.lexer.native(x + " ") or ("", 0))[0] == name for x in ("zzq", "z1"))

    def run(self, timeout, natives):
        st, viols, samples, notes, unsup = engine.Stats(), [], [], {}, []
        try:
            self.build()
            st.add(states=1, transitions=len(self.c.gates))
            self.decide(st, viols, notes, timeout)
            if not viols:
                self.natives(st, viols, samples, natives, timeout)
        except Unsupported as e:
            unsup.append(str(e))
            st.add(paths_unsupported=1)
        return st, viols, samples, notes, unsup

    def solve(self, goal, blocked, st, timeout):
        return aig.solve(self.c, goal, self.t.clauses + blocked, timeout=timeout, stats=st)

    def block(self, text):
        lits = []
        for i in range(self.N):
            if i < len(text):
                lits.append(-next(v for v, (rs, _) in zip(self.t.chars[i], self.t.al.classes)
                                  if any(a <= ord(text[i]) <= b for a, b in rs)))
            else:
                lits.append(-self.t.ends[i])
        return lits

    def decide(self, st, viols, notes, timeout):
        c, t = self.c, self.t
        st.add(obligations=1)
        everything = c.disj([b for b, *_ in self.bad])
        try:
            if self.solve([everything], [], st, timeout) is None:
                st.add(discharged=1)
                return
            for lit, what, k, j in self.bad:
                if lit == aig.FALSE or viols:
                    continue
                blank = c.conj([c.disj([t.ends[i], t.at(i, lexing.SPACE)]) for i in range(j, t.n)])
                for goal in ([lit, blank], [lit]):
                    blocked = []
                    for _ in range(4):
                        m = self.solve(goal, blocked, st, timeout)
                        if m is None:
                            break
                        text = t.decode(m)
                        for whole in self.wholes(text, k, j):
                            v, msg = judge_text(self.which, whole)
                            if v == "violated":
                                viols.append({"which": self.which, "text": whole, "msg": msg})
                                return
                        st.add(spurious=1)
                        notes["not confirmed by the real parser"] = "%s: %r" % (what, text)
                        blocked.append(self.block(text))
                    if not blocked:
                        continue
        except aig.Unknown as e:
            st.add(unknown=1)
            notes["unknown"] = str(e)

    def wholes(self, text, k, j):
        """Whole texts in which the text follows the prefix of this lexer state."""
        for words, stack in self.places:
            pre = " ".join(words) + (" " if words and self.before == " " else "")
            if self.before is None and words:
                continue
            options = []
            r = self.lexer.native(text)
            if k is not None:
                tok = self.m.token_of[k]
                for n in sorted(self.names.get(tok, ())):
                    options.append((text[:j], n))
                    options.append((text, n))
            if r is not None:
                options.append((text[:r[1]], r[0]))
                options.append((text, r[0]))
            seen = set()
            for here, n in options:
                if n in self.lexer.ignored:
                    ws = self.m.complete(stack)
                else:
                    nxt = self.m.feed(stack, n)
                    ws = self.m.complete(nxt) if nxt not in (None, "accept") else None
                for tail in ([ws] if ws is not None else []) + [[]]:
                    w = pre + here + (" " + " ".join(tail) if tail else "")
                    if w not in seen:
                        seen.add(w)
                        yield w

    def natives(self, st, viols, samples, quota, timeout):
        """Solver-chosen texts: the circuits against lark's lexer, and whole texts against the parser."""
        n = 0
        for (k, j), l in sorted(self.d.tokens.items(), key=lambda p: (p[0][1] * 7 % 5, p[0][0])):
            if n >= quota:
                break
            if k in ("word", "quoted") and j > 7:
                continue
            m = self.solve([l], [], st, timeout)
            if m is None:
                continue
            n += 1
            text = self.t.decode(m)
            here = (self.before or "") + text
            r = self.lexer.lx.match(here, len(self.before or ""))
            want = self.lexer.native(text) if r is None or self.before is None else None
            got = next((key for key, lit in self.real.items() if self.value(lit, m)), None)
            ok = (r is None) == (got is None) and (r is None or len(r[0]) == got[1])
            if not ok:
                st.add(not_validated=1)
                raise Unsupported("the model reads %r as %s, lark as %s" % (text, got, r or want))
            st.add(validated=1)
            for whole in list(self.wholes(text, k, j))[:3]:
                v, msg = judge_text(self.which, whole)
                if v == "violated":
                    viols.append({"which": self.which, "text": whole, "msg": msg})
                    return
            if len(samples) < 2:
                samples.append({"which": self.which, "text": text, "token": str(got)})

    def value(self, lit, model):
        memo = {}

        def ev(x):
            a = abs(x)
            if a == 1:
                r = True
            elif a in memo:
                r = memo[a]
            elif a in self.c.of:
                r = memo[a] = all(ev(o) for o in self.c.of[a])
            else:
                r = a in model
            return r if x > 0 else not r
        return ev(lit)


def _job(n):
    s, timeout, natives = _shared[n]
    return s.run(timeout, natives)


_shared = []


class Lexers:
    def __init__(self, which, tier):
        self.which, self.tier = which, tier
        self.name = "lexer states/" + which.upper()

    def replay(self, rec):
        if rec.get("before") is not None:
            judge_text(rec["which"], rec["before"])
        v, msg = judge_text(rec["which"], rec["text"])
        return ("violated" if v == "violated" else "ok"), msg

    def replay_task(self):
        t = type("T", (), {})()
        t.replay = self.replay
        return t

    def states(self):
        tables = lalr.Tables(self.which)
        by_state, root = lexing.lexers(tables.lark)
        wrapped = {}

        def lexer_of(s):
            lx = by_state[s] if by_state is not None else root
            if id(lx) not in wrapped:
                wrapped[id(lx)] = lexing.Lexer(lx)
            return wrapped[id(lx)]
        m = Machine(self.which, tables, lexer_of)
        groups = {}
        for s, (words, stack) in m.prefixes().items():
            groups.setdefault(id(lexer_of(s)), []).append((words, stack))
        out = []
        N = SIZE[self.tier]
        for places in groups.values():
            places.sort(key=lambda p: len(p[0]))
            lx = lexer_of(places[0][1][-1])
            befores = {" "} | {p[0][-1][-1] if p[0] else None for p in places}
            behind = any(mark in r.pattern for _, r in lx.terms for mark in ("(?<", "\\b", "\\B", "^"))
            for b in sorted(befores, key=str) if behind else [" "]:
                ps = [p for p in places if b in (" ", None) or p[0] and p[0][-1][-1] == b]
                out.append(State(self.which, N, m, lx, ps[:4], b))
        return m, out

    def run(self, tier):
        res = engine.Result()
        try:
            m, states = self.states()
        except Unsupported as e:
            res.unsupported.append(str(e))
            res.stats.add(paths_unsupported=1)
            res.complete = False
            return [(self.name, "lexer circuits", res)]
        _shared[:] = [(s, 120 if tier == "quick" else 1500, 12 if tier == "quick" else 60) for s in states]
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
            for st, viols, samples, notes, unsup in pool.imap_unordered(_job, range(len(states)), chunksize=1):
                res.stats.merge(st)
                res.samples += samples[: max(0, 6 - len(res.samples))]
                res.unsupported += unsup
                res.notes.update(notes)
                res.violations += viols
                if unsup or st.get("unknown") or st.get("spurious"):
                    res.complete = False
                if res.violations:
                    pool.terminate()
                    break
        return [(self.name, "lexer circuits", res)]


class Texts(Lexers):
    """Whole texts: sentences through every parser state with names and whitespace chosen by the solver (native)."""

    def __init__(self, which, tier):
        super().__init__(which, tier)
        self.name = "whole texts/" + which.upper()

    def chosen(self, pats, n, longest=9):
        import z3
        out = []
        for p in pats:
            S = z3.String("s")
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(z3.InRe(S, p), z3.Length(S) <= longest)
            for i in range(n):
                if s.check() != z3.sat:
                    break
                v = s.model().eval(S, model_completion=True)
                out.append(rex.decode(v))
                s.add(S != v)
        return out

    @staticmethod
    def pairs(names):
        """Texts that are easily taken for each other: a parser that remembers texts must not."""
        for n in names:
            for f in (str.lower, str.upper, lambda n: " ".join(n.split()), lambda n: n.replace(" ", ""),
                      lambda n: n.replace("-", "_"), lambda n: n.replace('"', "")):
                for c in ("%s", "(%s)"):
                    if f(n) != n and f(n):
                        yield c % n, c % f(n)

    def run(self, tier):
        import z3
        res = engine.Result()
        try:
            m, _ = self.states()
        except Unsupported as e:
            res.unsupported.append(str(e))
            res.complete = False
            return [(self.name, "solver-chosen", res)]
        R = rex.to_z3
        k = 2 if tier == "quick" else 6
        names = self.chosen([R(p) for p in ('"[a-z]+"', '"[^\\x00-\\x20"\\x7f-\\U0002FFFF]*  [^\\x00-\\x20"\\x7f-\\U0002FFFF]*"',
                                            '" [a-zA-Z]+ "', '"[A-Z]+ *[(][a-z]+[)]"',
                                            '"[|&<>~!-]+"', '"[A-Z]+"', "[a-z]+-+[a-z]+", "_[A-Z]+", "[a-z][A-Z0-9]+",
                                            '"(true|false|tt|ff|last|end)"', "(true|false|tt|ff|last|end|start)[a-z0-9_]",
                                            "(true|false|tt|ff|last|end|start)-+[a-z0-9_]", '"#[a-z]"', '"//[a-z]"',
                                            "[a-z]*(true|false|tt|ff|last|end)")], k)
        res.stats.add(queries=len(names))
        for ch in map(chr, range(33, 127)):
            if ch != '"':
                names += ['"%s%s"' % (ch, ch), '"%s %s "' % (ch, ch)]
        seps = self.chosen([R(p) for p in ("[ ]{2,3}", "\\t", "\\n", "\\r\\n", "[\\n\\t ]{3}", "[\\x0b\\x0c]", "[\\x1c-\\x1f]",
                                           "[\\u2000-\\u2009]", "[\\x85\\xa0]")], 1)
        res.stats.add(queries=len(seps))
        for a, b in self.pairs(names):
            for x, y in ((a, b), (b, a)):
                judge_text(self.which, x)
                res.stats.add(obligations=1, validated=2)
                v, msg = judge_text(self.which, y)
                if v == "violated":
                    res.violations.append({"which": self.which, "before": x, "text": y, "msg": "after %r, %s" % (x, msg)})
                    return [(self.name, "solver-chosen", res)]
                res.stats.add(discharged=1)
        sentences = []
        for words, stack in sorted(m.prefixes().values(), key=lambda p: len(p[0])):
            ws = m.complete(stack)
            if ws is not None and words + ws not in sentences:
                sentences.append(words + ws)
        n = 0
        for ws in sentences:
            for turn in range(12 if tier == "quick" else 60):
                here = []
                for w in ws:
                    if w == "zzq":
                        n += 1
                        w = names[(n * 5 + turn) % len(names)]
                    here.append(w)
                if turn == 0:
                    text = " ".join(here)
                else:
                    sep = [seps[(turn * 3 + i + n) % len(seps)] for i in range(len(here) + 1)]
                    text = (sep[-1] if turn % 2 else "") + "".join(w + s for w, s in zip(here, sep))
                res.stats.add(obligations=1, validated=1)
                v, msg = judge_text(self.which, text)
                if v == "violated":
                    res.violations.append({"which": self.which, "text": text, "msg": msg})
                    return [(self.name, "solver-chosen", res)]
                res.stats.add(discharged=1)
        return [(self.name, "solver-chosen", res)]


def tasks(tier):
    out = []
    for w in ("pl", "ltl", "pltl", "ldl"):
        c = parsing.Call(w)
        c.name = "entry point/" + w.upper()
        c.replay_task = Lexers(w, tier).replay_task
        out += [Lexers(w, tier), Texts(w, tier), c]
    return out
