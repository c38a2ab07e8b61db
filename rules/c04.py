"""Counting and mutating agree on the candidates."""
from vlib import rel, visit

RULE = ("(1) Sibling agreement: the path conditions under which the counting and the mutating visitor ask the mutator about a node are the same boolean function of their atomic tests, and their other callbacks act alike (product of their event automata). (2) Units: the counting visitor, the mutating visitor, the traversals that drive them and the API functions that set them up. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(visit.counter_and_maker, cx)
    u = rel.units(cx, [("Visitor", "MutableNodesCounter"), ("VisitorMut", "MutationMaker")],
                  ["mutation_visitor::MutableNodesCounter*", "mutation_visitor::MutationMaker*", "mutation_visitor::has_permission*", "ast::ASTTraverser::*"])
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith(("::count_mutable_nodes", "::mutate_ast"))]
    rel.conform(cx, u)
    cx.need("units", 15)
