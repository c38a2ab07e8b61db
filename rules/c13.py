"""Which nodes an algorithm may mutate."""
from vlib import rel

RULE = ("Units: is_mutable_node of every mutator with the factory that configures it, and the operator tables. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = [x for x in rel.units(cx, [("Mutator", None)]) if x[0].endswith("::is_mutable_node")]
    u += rel.units(cx, [("MutatorFactory", None)] + rel.JSON_TRAITS, rel.JSON_CORE + ["operators::*", "vyper::operators::*"])
    rel.conform(cx, u)
    cx.need("units", 30)
