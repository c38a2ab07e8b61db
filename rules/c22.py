"""Vyper source printing."""
from vlib import rel

RULE = ("Units: every Vyper node printer and their factory, the printing visitor and printing helpers, and the low-level printer they write "
        "with. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, [("NodePrinter", "vyper::"), ("NodePrinterFactory", "vyper::")], rel.PRINT_CORE + ["ast::ASTTraverser::traverse", "vyper::operators::*"])
    rel.conform(cx, u)
    rel.conform_low(cx)
    cx.need("units", 180)
