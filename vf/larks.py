"""The compiled grammars of /repo: lark objects, their terminals and LALR tables."""
from . import repo
from .engine import Unsupported

PARSERS = ("pl", "ltl", "pltl", "ldl")


def parser_object(which):
    """The object that parses (text -> formula) and holds a Lark and a transformer."""
    m = repo.mod("parsers." + which)
    p = getattr(m, "__parser", None)
    if p is not None:
        return p
    for v in vars(m).values():
        if not isinstance(v, type) and callable(v) and _find(v, _is_lark) is not None:
            return v
    raise Unsupported("no parser object in parsers." + which)


def parse_function(which):
    return getattr(repo.mod("parsers"), "parse_" + which)


def _is_lark(v):
    import lark
    return isinstance(v, lark.Lark)


def _is_transformer(v):
    import lark
    return isinstance(v, lark.Transformer)


def _find(o, test):
    for v in list(getattr(o, "__dict__", {}).values()):
        if test(v):
            return v
    for c in type(o).__mro__:
        for v in list(vars(c).values()):
            if test(v):
                return v
    return None


def lark_of(which):
    v = _find(parser_object(which), _is_lark)
    if v is None:
        raise Unsupported("no Lark object")
    return v


def transformer_of(which):
    return _find(parser_object(which), _is_transformer)


def symbol_terminal(lk, which):
    """Patterns of the terminal that a plain word is read as."""
    text = "zzq" if which != "ldl" else "<zzq>tt"
    try:
        toks = list(lk.lex(text)) if which != "ldl" else [t for t in lk.lex(text) if str(t) == "zzq"]
        name = toks[0].type
    except Exception as e:
        name = "SYMBOL_NAME"
    pats = [t.pattern.to_regexp() for t in lk.terminals if t.name == name]
    if not pats:
        raise Unsupported("no symbol terminal")
    return pats
