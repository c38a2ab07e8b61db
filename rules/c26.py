"""What each algorithm changes in the node it mutates."""
from vlib import rel

RULE = ("Units: mutate of every mutator with the factory that configures it, the JSON and operator helpers it uses. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = [x for x in rel.units(cx, [("Mutator", None)]) if x[0].endswith("::mutate")]
    u += rel.units(cx, [("MutatorFactory", None)] + rel.JSON_TRAITS,
                   rel.JSON_CORE + ["operators::*", "vyper::operators::*", "vyper::mutators::*", "solidity::mutators::*", "<vyper::mutators::ListLikeThing*"])
    rel.conform(cx, u)
    cx.need("units", 22)
