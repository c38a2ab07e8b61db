"""The low-level printer: indentation, tokens and line wrapping."""
from vlib import rel

RULE = ("Units: the methods of the pretty printer down to the bytes handed to the stream, and the write_ helpers. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    rel.conform_low(cx)
    cx.need("units", 25)
