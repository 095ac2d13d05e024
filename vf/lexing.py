"""The lexers that lark compiled for a grammar of /repo, executed symbolically over the characters of a text.

A text is a sequence of N characters, each a variable over the classes of characters that no pattern tells apart, ended
by END.  A regular expression is evaluated with the order of Python's backtracking matcher: `ends` lists its matches
from a position in the order in which the matcher would try them, each with the literal saying that it exists."""
import re
import re._constants as C
import re._parser as P

from . import aig, rex
from .engine import Unsupported

MAXCHAR = rex.MAXCHAR


class Alphabet:
    """Classes of characters that a list of sets does not tell apart; each with a representative."""

    def __init__(self, sets, prefer=()):
        cuts = {0, MAXCHAR + 1}
        for rs in sets:
            for a, b in rs:
                cuts |= {a, b + 1}
        cuts = sorted(c for c in cuts if c <= MAXCHAR + 1)
        by_sig = {}
        for a, b in zip(cuts, cuts[1:]):
            sig = tuple(any(x <= a <= y for x, y in rs) for rs in sets)
            by_sig.setdefault(sig, []).append((a, b - 1))
        self.classes = []
        for rs in by_sig.values():
            rep = next((ord(c) for c in prefer if any(a <= ord(c) <= b for a, b in rs)), None)
            if rep is None:
                rep = next((c for a, b in rs for c in (a, b) if not 0xD800 <= c < 0xE000), None)
            if rep is not None:
                self.classes.append((rs, chr(rep)))

    def of(self, rs):
        return [n for n, (own, _) in enumerate(self.classes) if any(a <= own[0][0] <= b for a, b in rs)]


class Text:
    def __init__(self, circuit, alphabet, n, before=" "):
        """before: the character in front of the text, None at the very beginning"""
        self.c, self.al, self.n, self.before = circuit, alphabet, n, before
        self.chars = [[circuit.var() for _ in alphabet.classes] for _ in range(n)]
        self.ends = [circuit.var() for _ in range(n)] + [aig.TRUE]
        self.clauses = []
        for i in range(n):
            self.clauses += circuit.one_of(self.chars[i] + [self.ends[i]])
            if i:
                self.clauses.append([-self.ends[i - 1], self.ends[i]])
        self._in = {}

    def at(self, i, rs):
        """The character at i is in the ranges."""
        if i >= self.n:
            return aig.FALSE
        if i < 0:
            if i < -1:
                raise Unsupported("looks far behind")
            return aig.TRUE if self.before and any(a <= ord(self.before) <= b for a, b in rs) else aig.FALSE
        k = (i, tuple(rs))
        if k not in self._in:
            self._in[k] = self.c.disj([self.chars[i][x] for x in self.al.of(rs)])
        return self._in[k]

    def decode(self, model):
        out = ""
        for i in range(self.n):
            for v, (_, ch) in zip(self.chars[i], self.al.classes):
                if v in model:
                    out += ch
        return out


def node_sets(items, flags, out):
    for op, av in items:
        cs = charset(op, av, flags)
        if cs is not None:
            out.append(cs)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            node_sets(av[2], flags, out)
        elif op is C.BRANCH:
            for b in av[1]:
                node_sets(b, flags, out)
        elif op is C.SUBPATTERN:
            node_sets(av[3], (flags | av[1]) & ~av[2], out)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            node_sets(av[1], flags, out)
        elif op is C.ATOMIC_GROUP:
            node_sets(av, flags, out)
        elif op is C.AT:
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                out.append(rex.category(C.CATEGORY_WORD))
        else:
            raise Unsupported("regular expression node %s" % op)


def charset(op, av, flags):
    if op is C.ANY and flags & re.DOTALL:
        return [(0, MAXCHAR)]
    cs = rex.charset(op, av)
    if cs is not None and flags & re.ASCII:
        raise Unsupported("ASCII flag")
    if cs is not None and flags & re.IGNORECASE:
        pts = {c for a, b in cs for c in range(a, min(b, 0x250) + 1)}
        pts |= {ord(x) for c in list(pts) for x in (chr(c).lower(), chr(c).upper()) if len(x) == 1}
        cs = sorted(cs + [(c, c) for c in pts])
    return cs


class Regex:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = P.parse(pattern, flags)
        self.flags = self.tree.state.flags
        if self.flags & (re.MULTILINE | re.LOCALE):
            raise Unsupported("regular expression flags")

    def sets(self):
        out = []
        node_sets(self.tree, self.flags, out)
        return out

    def ends(self, text, i):
        return _Match(text).seq(tuple(self.tree), i, self.flags)


class _Match:
    def __init__(self, text):
        self.t, self.c = text, text.c

    def norm(self, entries):
        """Of the later of two matches with the same end only what the earlier leaves."""
        out, seen = [], {}
        for c, j in entries:
            if c == aig.FALSE:
                continue
            if out and out[-1][1] == j:
                out[-1] = (self.c.disj([out[-1][0], c]), j)
                seen[j][-1] = out[-1][0]
                continue
            if j in seen:
                c = self.c.conj([c] + [-x for x in seen[j]])
                if c == aig.FALSE:
                    continue
            seen.setdefault(j, []).append(c)
            out.append((c, j))
        if len(out) > 4000:
            raise Unsupported("regular expression with too many matches")
        return out

    def then(self, first, f):
        return self.norm([(self.c.conj([a, b]), k) for a, j in first if a != aig.FALSE for b, k in f(j)])

    def seq(self, items, i, flags):
        if not items:
            return [(aig.TRUE, i)]
        return self.then(self.node(items[0], i, flags), lambda j: self.seq(items[1:], j, flags))

    def node(self, item, i, flags):
        op, av = item
        cs = charset(op, av, flags)
        if cs is not None:
            x = self.t.at(i, cs)
            return [] if x == aig.FALSE else [(x, i + 1)]
        if op is C.BRANCH:
            return self.norm([e for b in av[1] for e in self.seq(tuple(b), i, flags)])
        if op is C.SUBPATTERN:
            return self.seq(tuple(av[3]), i, (flags | av[1]) & ~av[2])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            return self.repeat(tuple(body), lo, None if hi is C.MAXREPEAT else hi, op is C.MAX_REPEAT, i, flags, 0)
        if op in (C.POSSESSIVE_REPEAT, C.ATOMIC_GROUP):
            if op is C.ATOMIC_GROUP:
                es = self.seq(tuple(av), i, flags)
            else:
                lo, hi, body = av
                es = self.repeat(tuple(body), lo, None if hi is C.MAXREPEAT else hi, True, i, flags, 0)
            out = []
            for n, (c, j) in enumerate(es):
                out.append((self.c.conj([c] + [-d for d, _ in es[:n]]), j))
            return self.norm(out)
        if op in (C.ASSERT, C.ASSERT_NOT):
            way, body = av
            if way < 0:
                lo, hi = body.getwidth()
                if lo != hi:
                    raise Unsupported("look-behind of variable width")
                if i - lo < -1:
                    raise Unsupported("looks far behind")
                x = self.c.disj([c for c, j in self.seq(tuple(body), i - lo, flags) if j == i])
            else:
                x = self.c.disj([c for c, _ in self.seq(tuple(body), i, flags)])
            x = x if op is C.ASSERT else -x
            return [] if x == aig.FALSE else [(x, i)]
        if op is C.AT:
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = rex.category(C.CATEGORY_WORD)
                x = self.c.xor(self.t.at(i - 1, w), self.t.at(i, w))
                x = x if av is C.AT_BOUNDARY else -x
            elif av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                x = aig.TRUE if i == 0 and self.t.before is None else aig.FALSE
            elif av is C.AT_END_STRING:
                x = self.t.ends[i] if i <= self.t.n else aig.FALSE
            elif av is C.AT_END:
                nl = self.t.at(i, [(10, 10)])
                x = self.c.disj([self.t.ends[i], self.c.conj([nl, self.t.ends[min(i + 1, self.t.n)]])])
            else:
                raise Unsupported("regular expression node %s" % av)
            return [] if x == aig.FALSE else [(x, i)]
        raise Unsupported("regular expression node %s" % op)

    def repeat(self, body, lo, hi, greedy, i, flags, count):
        if hi is not None and count >= hi:
            return [(aig.TRUE, i)]
        more = []
        for c, j in self.seq(body, i, flags):
            if j == i:
                if count < lo:
                    raise Unsupported("repetition of an empty match")
                continue
            n = count + 1 if (hi is not None or count < lo) else count
            more += [(self.c.conj([c, d]), k) for d, k in self.repeat(body, lo, hi, greedy, j, flags, n)]
        if count < lo:
            return self.norm(more)
        stop = [(aig.TRUE, i)]
        return self.norm(more + stop if greedy else stop + more)


class Lexer:
    """One of lark's lexers: ordered terminals, keyword callbacks, ignored terminals."""

    def __init__(self, lx):
        self.lx = lx
        try:
            sc = lx.scanner
            if sc.use_bytes or sc.match_whole or lx.user_callbacks:
                raise Unsupported("unusual lexer")
            flags = sc.g_regex_flags
            self.terms = [(t.name, Regex(t.pattern.to_regexp(), flags)) for t in sc.terminals]
            self.ignored = set(lx.ignore_types)
            self.unless = {}
            for name, cb in lx.callback.items():
                if type(cb).__name__ != "UnlessCallback":
                    raise Unsupported("token callback")
                sc2 = cb.scanner
                self.unless[name] = [(t.name, Regex(t.pattern.to_regexp(), flags)) for t in sc2.terminals]
        except AttributeError as e:
            raise Unsupported("unknown lexer: %s" % e)

    def sets(self):
        out = []
        for _, r in self.terms + [x for l in self.unless.values() for x in l]:
            out += r.sets()
        return out

    def step(self, text):
        """(terminal, end) -> literal: the token the lexer takes at the start of the text."""
        c = text.c
        out, earlier = {}, []
        for name, rx in self.terms:
            for cond, j in rx.ends(text, 0):
                if j == 0:
                    raise Unsupported("terminal that matches nothing")
                win = c.conj([cond] + [-x for x in earlier])
                earlier.append(cond)
                if win == aig.FALSE:
                    continue
                for other, rx2 in self.unless.get(name, ()):
                    whole = c.disj([d for d, k in rx2.ends(text, 0) if k == j])
                    out.setdefault((other, j), []).append(c.conj([win, whole]))
                    win = c.conj([win, -whole])
                out.setdefault((name, j), []).append(win)
        return {k: c.disj(v) for k, v in out.items() if c.disj(v) != aig.FALSE}

    def native(self, text):
        """(terminal, length) of the first token of a concrete text, or None."""
        from lark.lexer import Token
        m = self.lx.match(text, 0)
        if not m:
            return None
        value, name = m[0], m[1]
        if name in self.lx.callback and name not in self.ignored:
            t = self.lx.callback[name](Token(name, value))
            name = t.type
        return name, len(value)


def lexers(lk):
    """LALR state -> lark's lexer of that state."""
    lx = getattr(lk.parser, "lexer", None)
    if lx is None:
        raise Unsupported("no lexer")
    if getattr(lk.options, "postlex", None) is not None:
        raise Unsupported("postlex")
    if hasattr(lx, "lexer") and not hasattr(lx, "scanner") and not hasattr(lx, "lexers"):
        lx = lx.lexer
    if hasattr(lx, "lexers"):
        return dict(lx.lexers), lx
    if hasattr(lx, "scanner"):
        return None, lx
    raise Unsupported("unknown lexer %s" % type(lx).__name__)


# ------------------------------------------------------------------ the documented tokens
SPACE = rex.ranges([c for c in range(MAXCHAR + 1) if chr(c).isspace()])
FIRST = [(97, 122), (95, 95)]
WORD = [(97, 122), (65, 90), (48, 57), (95, 95)]
HYPHEN = [(45, 45)]
INSIDE = [(32, 33), (35, 126)]
QUOTE = [(34, 34)]
AFTER_LETTER = SPACE + [(40, 40), (34, 34)]


def one(ch):
    return [(ord(ch), ord(ch))]


class Documented:
    """The first documented token of a symbolic text.

    tokens: (class, end) -> literal, where the class is a spelling, "word" or "quoted"; `free` holds where the
    documentation leaves the text open (an operator letter followed by something else); `space` when it begins with
    whitespace."""

    def __init__(self, text, reserved, marks, letters, loose=()):
        c, t = text.c, text
        self.tokens = {}
        self.space = t.at(0, SPACE)
        body = WORD + HYPHEN
        words = {}
        for j in range(1, t.n + 1):
            words[j] = c.conj([t.at(0, FIRST)] + [t.at(i, body) for i in range(1, j - 1)]
                              + ([t.at(j - 1, WORD)] if j > 1 else []))
        free = []
        for j in range(1, t.n + 1):
            # ends at j and no longer word
            lit = c.conj([words[j]] + [-words[k] for k in range(j + 1, t.n + 1)])
            plain = [lit]
            for w in list(reserved) + list(loose):
                if len(w) == j:
                    same = c.conj([lit] + [t.at(i, one(ch)) for i, ch in enumerate(w)])
                    plain.append(-same)
                    if w in loose:
                        free.append(same)
                    else:
                        self.tokens[w, j] = same
            self.tokens["word", j] = c.conj(plain)
        for j in range(3, t.n + 1):
            self.tokens["quoted", j] = c.conj([t.at(0, QUOTE)] + [t.at(i, INSIDE) for i in range(1, j - 1)]
                                              + [t.at(j - 1, QUOTE)])
        for w in marks:
            if len(w) <= t.n:
                lit = c.conj([t.at(i, one(ch)) for i, ch in enumerate(w)])
                for v in marks:
                    if v != w and v.startswith(w) and len(v) <= t.n:
                        lit = c.conj([lit] + [-c.conj([t.at(i, one(ch)) for i, ch in enumerate(v)])])
                self.tokens[w, len(w)] = lit
        for w in letters:
            if len(w) > t.n:
                continue
            here = c.conj([t.at(i, one(ch)) for i, ch in enumerate(w)])
            good = c.conj([here, t.at(len(w), AFTER_LETTER)])
            for v in letters:
                if v != w and v.startswith(w) and len(v) <= t.n:
                    longer = c.conj([t.at(i, one(ch)) for i, ch in enumerate(v)])
                    good, here = c.conj([good, -longer]), c.conj([here, -longer])
            self.tokens[w, len(w)] = good
            free.append(c.conj([here, -good]))
        self.tokens = {k: v for k, v in self.tokens.items() if v != aig.FALSE}
        self.free = c.disj(free)
        self.none = c.conj([-self.space, -self.free] + [-v for v in self.tokens.values()])


def documented_sets(reserved, marks, letters):
    out = [SPACE, FIRST, WORD, HYPHEN, INSIDE, QUOTE, AFTER_LETTER]
    for w in list(reserved) + list(marks) + list(letters):
        out += [one(ch) for ch in w]
    return out
