"""Whole valid translation units from the other checks' generators, for metamorphic and robustness properties."""
import importlib
from lib.engine import Src

NAMES = ["c01", "c02", "c03", "c04", "c06", "c07", "c08", "c11", "c12", "c13", "c05"]
_cache = {}


def _get(n):
    if n not in _cache:
        _cache[n] = importlib.import_module("checks." + n).CHECK
    return _cache[n]


def tu(src, nunits=None, names=NAMES):
    """(text, slimcc flags, class name)"""
    n = src.choice(names)
    c = _get(n)
    k = nunits if nunits is not None else src.range(1, 3)
    units = []
    for i in range(k):
        u = c.gen_unit(Src(src.bits(62)), i) if src.replay is None or True else None
        if u is not None:
            units.append((i, u))
    return c.program(units), list(c.slimcc_flags), n
