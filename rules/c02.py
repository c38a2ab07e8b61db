"""The algorithm registry is one table: names, listing, factories and mutators agree."""
from vlib import rel, tables

RULE = ("(1) Table agreement, from the terms the table functions return for each value of the algorithm type: every algorithm has one literal name, no two share one, parsing the name gives the algorithm back and no other spelling is accepted; the listed algorithms are all algorithms; for every language and algorithm the mutator made by the factory implements that algorithm. (2) Units: every mutator factory, every implements() of a mutator, the conversions between algorithm names and types, the listing of "
        "the mutations command and the selection of algorithms from names. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(tables.check, cx)
    u = rel.units(cx, [("MutatorFactory", None)], ["mutation::*", "<mutation::*", "mutagenyx::mutation_generator::get_mutation*", "mutagenyx::mutations_info::*"])
    u += [x for x in rel.units(cx, [("Mutator", None)]) if x[0].endswith("::implements")]
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith("::select_mutators_for_mutation_types")]
    rel.conform(cx, u)
    cx.need("units", 30)
