"""The JSON node helpers."""
from vlib import rel

RULE = ("Units: the helper traits for JSON nodes (keys, nodes by id, ids, type tests) and for strings. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, rel.JSON_TRAITS, rel.JSON_CORE)
    rel.conform(cx, u)
    cx.need("units", 20)
