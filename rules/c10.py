"""A mutation's record says what was done."""
from vlib import rel, record

RULE = ("(1) Must-analysis of the record on every path of every mutator that returns Ok: the recorded algorithm is the one implements() returns, and when random numbers were drawn the record carries a hash that at least one of the choices went into. (2) Units: every mutator (implements, mutate and helper methods) the result type with its equality, and mutate_ast, which completes the record. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(record.check, cx)
    u = [x for x in rel.units(cx, [("Mutator", None)]) if not x[0].endswith("::is_mutable_node")]
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith("::mutate_ast")]
    u += rel.units(cx, rel.JSON_TRAITS, rel.JSON_CORE + ["mutator_result::*", "<mutator_result::*", "vyper::mutators::*", "solidity::mutators::*", "<vyper::mutators::ListLikeThing*", "vyper::operators::*"])
    rel.conform(cx, u)
    cx.need("units", 50)
