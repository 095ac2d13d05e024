"""Python regular expressions as z3 regular expressions, and as sets of characters."""
import re
import re._constants as C
import re._parser as P

import z3

from .engine import Unsupported

MAXCHAR = 0x2FFFF  # the largest character of z3's strings

_cats = {}


def category(cat):
    if cat not in _cats:
        pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
               C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}.get(cat)
        if pat is None:
            raise Unsupported("category %s" % cat)
        r = re.compile(pat)
        _cats[cat] = ranges([c for c in range(MAXCHAR + 1) if r.match(chr(c))])
    return _cats[cat]


def ranges(cs):
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


def complement(rs):
    out, n = [], 0
    for a, b in sorted(rs):
        if a > n:
            out.append((n, a - 1))
        n = max(n, b + 1)
    if n <= MAXCHAR:
        out.append((n, MAXCHAR))
    return out


def charset(op, av):
    """Ranges of the characters a single-character node matches, or None."""
    if op is C.LITERAL:
        return [(av, av)]
    if op is C.NOT_LITERAL:
        return complement([(av, av)])
    if op is C.ANY:
        return complement([(10, 10)])
    if op is C.IN:
        rs, neg = [], False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                rs.append((a, a))
            elif o is C.RANGE:
                rs.append(tuple(a))
            elif o is C.CATEGORY:
                rs += category(a)
            else:
                raise Unsupported("character class with %s" % o)
        return complement(rs) if neg else sorted(rs)
    return None


def parse(pattern, flags=0):
    p = P.parse(pattern, flags)
    if p.state.flags & (re.IGNORECASE | re.VERBOSE & 0 | re.MULTILINE | re.ASCII | re.LOCALE):
        raise Unsupported("regular expression flags")
    return p, bool(p.state.flags & re.DOTALL)


def z3_char(rs):
    rs = [(a, min(b, MAXCHAR)) for a, b in rs if a <= MAXCHAR]
    parts = [z3.Re(z3.Unit(z3.CharVal(a))) if a == b else
             z3.Range(z3.Unit(z3.CharVal(a)), z3.Unit(z3.CharVal(b))) for a, b in rs]
    if not parts:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


EPS = lambda: z3.Re(z3.StringVal(""))


def concat(parts):
    parts = [p for p in parts if p is not None]
    if not parts:
        return EPS()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _seq(items, dotall, at_start, at_end):
    out = []
    items = list(items)
    for n, (op, av) in enumerate(items):
        first, final = at_start and not out, at_end and n == len(items) - 1
        if op is C.ANY and dotall:
            out.append(z3_char([(0, MAXCHAR)]))
            continue
        cs = charset(op, av)
        if cs is not None:
            out.append(z3_char(cs))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            b = _seq(body, dotall, False, False)
            if hi is C.MAXREPEAT:
                out.append(z3.Star(b) if lo == 0 else z3.Plus(b) if lo == 1 else z3.Concat(z3.Loop(b, lo, lo), z3.Star(b)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(b))
            else:
                out.append(z3.Loop(b, lo, hi))
        elif op is C.BRANCH:
            out.append(z3.Union(*[_seq(b, dotall, first, final) for b in av[1]]) if len(av[1]) > 1
                       else _seq(av[1][0], dotall, first, final))
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            out.append(_seq(av[3], dotall, first, final))
        elif op is C.AT and av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and first:
            continue
        elif op is C.AT and av is C.AT_END_STRING and final:
            continue
        else:
            raise Unsupported("regular expression node %s" % op)
    return concat(out)


def to_z3(pattern, flags=0):
    """The strings that the whole pattern matches (fullmatch)."""
    p, dotall = parse(pattern, flags)
    return _seq(p, dotall, True, True)


def any_string():
    return z3.Full(z3.ReSort(z3.StringSort()))


def decode(s):
    """A z3 string value as a Python string."""
    t = s.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t)
