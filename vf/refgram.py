"""The documented grammars, written independently of /repo's .lark files: as circuits and as a plain parser.

A grammar maps a nonterminal to a list of alternatives:
  ("is", X)                      the same as X
  ("chain", tok, X, op)          two or more X separated by the token: op over all of them
  ("seq", [symbols], op)         the symbols in order: op over the values of the nonterminals (op None: the one value)
Lower-case symbols of a sequence are nonterminals; tokens are upper-case names of TOKENS.
"""
from . import aig

# documented tokens and the ways to write them
TOKENS = {
    "IFF": ["<->"], "IMP": ["->", ">>"], "OR": ["|", "||"], "AND": ["&", "&&"], "NOT": ["!", "~"], "LP": ["("],
    "RP": [")"], "TRUE": ["true"], "FALSE": ["false"], "TT": ["tt"], "FF": ["ff"], "LAST": ["last"], "END": ["end"],
    "START": ["start"], "U": ["U"], "R": ["R"], "W": ["W"], "M": ["M"], "G": ["G"], "F": ["F"], "X": ["X[!]"],
    "WX": ["X"], "S": ["S"], "T": ["T"], "H": ["H"], "O": ["O"], "Y": ["Y"], "Z": ["Z"], "LB": ["["], "RB": ["]"],
    "LT": ["<"], "GT": [">"], "PLUS": ["+"], "SEMI": [";"], "STAR": ["*"], "QM": ["?"], "SYM": ["a", "b", "c", "d"]}

LETTERS = "U R W M G F X WX S T H O Y Z".split()


def binary(levels, last):
    g = {}
    for n, (tok, op) in enumerate(levels):
        nxt = "e%d" % (n + 1) if n + 1 < len(levels) else last
        g["e%d" % n] = [("is", nxt), ("chain", tok, nxt, op)]
    return g


BOOL = [("IFF", "Equivalence"), ("IMP", "Implies"), ("OR", "Or"), ("AND", "And")]


def flat(levels, prefixes, atoms):
    g = binary(levels, "u")
    g["u"] = [("seq", [t, "u"], op) for t, op in prefixes] + [("is", "w")]
    g["w"] = [("seq", [t], op) for t, op in atoms] + [("seq", ["LP", "e0", "RP"], None)]
    return g


PL = flat(BOOL, [("NOT", "Not")], [("SYM", "pl.atom"), ("TRUE", "pl.true"), ("FALSE", "pl.false")])
LTL = flat(BOOL + [("W", "ltl.WeakUntil"), ("U", "ltl.Until"), ("R", "ltl.Release"), ("M", "ltl.StrongRelease")],
           [("G", "ltl.Always"), ("F", "ltl.Eventually"), ("X", "ltl.Next"), ("WX", "ltl.WeakNext"), ("NOT", "Not")],
           [("SYM", "ltl.atom"), ("TRUE", "ltl.true"), ("FALSE", "ltl.false"), ("TT", "ltl.tt"), ("FF", "ltl.ff"),
            ("LAST", "ltl.last")])
PLTL = flat(BOOL + [("S", "pltl.Since"), ("T", "pltl.Triggers")],
            [("H", "pltl.Historically"), ("O", "pltl.Once"), ("Y", "pltl.Before"), ("Z", "pltl.WeakBefore"),
             ("NOT", "Not")],
            [("SYM", "pltl.atom"), ("TRUE", "pltl.true"), ("FALSE", "pltl.false"), ("TT", "pltl.tt"),
             ("FF", "pltl.ff"), ("START", "pltl.start")])


def _ldl():
    g = {"p" + k if k[0] == "e" else "p" + k: [tuple(_p(x) for x in a) for a in alts] for k, alts in PL.items()}
    g.update(binary(BOOL, "u"))
    g["u"] = [("seq", ["LB", "r", "RB", "u"], "ldl.Box"), ("seq", ["LT", "r", "GT", "u"], "ldl.Diamond"),
              ("seq", ["NOT", "u"], "Not"), ("is", "w")]
    g["w"] = [("seq", [t], op) for t, op in (("TT", "ldl.tt"), ("FF", "ldl.ff"), ("LAST", "ldl.last"), ("END", "ldl.end"))]
    g["w"] += [("seq", ["LP", "e0", "RP"], None)]
    g["r"] = [("is", "s"), ("chain", "PLUS", "s", "ldl.Union")]
    g["s"] = [("is", "t"), ("chain", "SEMI", "t", "ldl.Seq")]
    g["t"] = [("is", "q"), ("seq", ["q", "STAR"], "ldl.Star")]
    g["q"] = [("seq", ["e0", "QM"], "ldl.Test"), ("seq", ["pe0"], "ldl.Prop"), ("seq", ["LP", "r", "RP"], None)]
    return g


def _p(x):
    if isinstance(x, list):
        return [_p(y) for y in x]
    if isinstance(x, str) and x[0] in "euw" and x.islower() and len(x) <= 2:
        return "p" + x
    return x


LDL = _ldl()
GRAMMARS = {"pl": PL, "ltl": LTL, "pltl": PLTL, "ldl": LDL}


def tokens_of(g):
    out = []
    for alts in g.values():
        for a in alts:
            for s in ([a[1]] if a[0] == "chain" else a[1] if a[0] == "seq" else []):
                if s.isupper() and s not in out:
                    out.append(s)
    return sorted(out)


class RefForest(aig.Forest):
    """Derivations of the documented grammar over symbolic tokens; tok(m, name) is a literal."""

    def __init__(self, circuit, grammar, tok):
        super().__init__(circuit)
        self.g, self.tok = grammar, tok

    def alts(self, key):
        kind, x, i, j = key[:4]
        if kind == "E":
            for n, a in enumerate(self.g[x]):
                if a[0] == "is":
                    yield (), [("E", a[1], i, j)]
                else:
                    yield (), [("N", x, i, j, n)]
        elif kind == "N":
            a = self.g[x][key[4]]
            if a[0] == "chain":
                for m in range(i + 1, j - 1):
                    yield (), [("E", a[2], i, m), ("C", x, m, j, key[4])]
            else:
                yield (), [("S", x, i, j, key[4], 0)]
        elif kind == "C":
            _, tok, sub, _ = self.g[x][key[4]]
            t = self.tok(i, tok)
            yield (t,), [("E", sub, i + 1, j)]
            for m in range(i + 2, j - 1):
                yield (t,), [("E", sub, i + 1, m), ("C", x, m, j, key[4])]
        else:
            syms = self.g[x][key[4]][1]
            k = key[5]
            last = k == len(syms) - 1
            s = syms[k]
            if s.isupper():
                t = self.tok(i, s)
                if last:
                    if j == i + 1:
                        yield (t,), []
                elif j > i + 1:
                    yield (t,), [("S", x, i + 1, j, key[4], k + 1)]
            elif last:
                yield (), [("E", s, i, j)]
            else:
                for m in range(i + 1, j):
                    yield (), [("E", s, i, m), ("S", x, m, j, key[4], k + 1)]

    def labels(self, used):
        """(op, i, j) -> literal, from the nodes in use."""
        out = {}
        for key, u in used.items():
            if key[0] == "N":
                op = self.g[key[1]][key[4]][-1]
                if op is not None:
                    out.setdefault((op, key[2], key[3]), []).append(u)
        return {k: self.c.disj(v) for k, v in out.items()}


class Ambiguous(Exception):
    pass


def parse(g, toks, make, start="e0", hole=None):
    """The value of a concrete token list [(name, text)], or None when the grammar does not derive it.

    make(op, args, text) builds the value of a node.  A token ("#", n) stands for a sentence of each of the
    nonterminals hole(n)."""
    memo = {}

    def get(key):
        if key not in memo:
            memo[key] = None
            memo[key] = work(key)
        return memo[key]

    def uniq(vals):
        """vals: list of lists of children values; all equal or ambiguous"""
        vals = [v for v in vals if v is not None]
        if not vals:
            return None
        for v in vals[1:]:
            if v != vals[0]:
                raise Ambiguous()
        return vals[0]

    def name(i):
        return toks[i][0]

    def work(key):
        kind, x, i, j = key[:4]
        if kind == "E":
            out = []
            if j == i + 1 and name(i) == "#":
                return ("#", toks[i][1]) if x in hole(toks[i][1]) else None
            for n, a in enumerate(g[x]):
                if a[0] == "is":
                    out.append(get(("E", a[1], i, j)))
                    continue
                if a[0] == "chain":
                    vs = []
                    for m in range(i + 1, j - 1):
                        if name(m) == a[1] and get(("E", a[2], i, m)) is not None:
                            tail = get(("C", x, m, j, n))
                            if tail is not None:
                                vs.append([get(("E", a[2], i, m))] + tail)
                    args = uniq(vs)
                else:
                    args = get(("S", x, i, j, n, 0))
                if args is not None:
                    out.append(args[0] if a[-1] is None else make(a[-1], args, toks[i][1]))
            return uniq(out)
        if kind == "C":
            _, tok, sub, _ = g[x][key[4]]
            if name(i) != tok or i + 1 >= j:
                return None
            vs = []
            v = get(("E", sub, i + 1, j))
            if v is not None:
                vs.append([v])
            for m in range(i + 2, j - 1):
                if name(m) == tok:
                    v = get(("E", sub, i + 1, m))
                    rest = v is not None and get(("C", x, m, j, key[4]))
                    if rest:
                        vs.append([v] + rest)
            return uniq(vs)
        syms, k = g[x][key[4]][1], key[5]
        if k == len(syms):
            return [] if i == j else None
        if i >= j:
            return None
        s = syms[k]
        if s.isupper():
            return get(("S", x, i + 1, j, key[4], k + 1)) if name(i) == s else None
        vs = []
        for m in ([j] if k == len(syms) - 1 else range(i + 1, j)):
            v = get(("E", s, i, m))
            if v is not None:
                rest = get(("S", x, m, j, key[4], k + 1))
                if rest is not None:
                    vs.append([v] + rest)
        return uniq(vs)

    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    return get(("E", start, 0, len(toks))) if toks else None


def lex(g, text, marks=()):
    """Documented tokens of a text by longest match, or None; marks maps characters to holes."""
    import re
    spell = sorted(((lex, t) for t in tokens_of(g) if t != "SYM" for lex in TOKENS[t]), key=lambda p: -len(p[0]))
    word = re.compile(r'[a-z_](?:[a-zA-Z0-9_-]*[a-zA-Z0-9_])?|"[ !#-~]+"')
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
        elif c in marks:
            out.append(("#", marks[c]))
            i += 1
        else:
            m = word.match(text, i)
            if m:
                w = m.group()
                t = next((t for lex, t in spell if lex == w), "SYM")
                out.append((t, w))
                i = m.end()
                if w[0] != '"' and i < len(text) and (text[i].isalnum() or text[i] in marks):
                    return None
                continue
            for lex, t in spell:
                if text.startswith(lex, i):
                    i += len(lex)
                    if t in LETTERS and not (i < len(text) and (text[i] in '("' or text[i].isspace())):
                        return None
                    out.append((t, lex))
                    break
            else:
                return None
    return out


def text_of(toks):
    """Source text: tokens separated by blanks."""
    return " ".join(t for _, t in toks)
