"""Preferences keep what was stored under a key path and convert to and from JSON faithfully."""
from vlib import rel

RULE = ("Units: all functions of the preferences module. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, [], ["preferences::*", "<preferences::*"])
    rel.conform(cx, u)
    cx.need("units", 20)
