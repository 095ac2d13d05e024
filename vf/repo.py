"""Import the library under verification from /repo's working tree (never from a copy)."""
import importlib
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
LARK_SITE = "/opt/venv/lib/python3.12/site-packages"
PKG = "pylogics_modalities"

_loaded = False


def load():
    """Make `pylogics_modalities` importable from REPO, with the lark of the project's own venv."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    if os.path.isdir(os.path.join(LARK_SITE, "lark")):
        sys.path.insert(0, LARK_SITE)
        try:
            import lark  # noqa: F401
            import lark.visitors  # noqa: F401
            import lark.parsers.lalr_parser  # noqa: F401
        finally:
            sys.path.remove(LARK_SITE)
    sys.path.insert(0, REPO)
    importlib.import_module(PKG)
    for m in ("syntax.base", "syntax.pl", "syntax.ltl", "syntax.pltl", "syntax.ldl", "syntax.fol",
              "parsers", "semantics.base", "semantics.pl", "utils.to_string", "deduction.fol",
              "helpers.misc", "helpers.cache_hash", "exceptions"):
        importlib.import_module(PKG + "." + m)
    mod = sys.modules[PKG]
    assert os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep), mod.__file__
    _loaded = True


def mod(name):
    load()
    return importlib.import_module(PKG + ("." + name if name else ""))


def modules():
    load()
    return [m for n, m in sorted(sys.modules.items()) if n == PKG or n.startswith(PKG + ".")]
