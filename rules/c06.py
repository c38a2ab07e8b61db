"""A mutant carries exactly one mutation, at the requested node."""
from vlib import rel, visit

RULE = ("(1) On every path of the mutating visitor's visit there is at most one call of mutate, on the visited node, and the result stops the traversal exactly then; the traversal obeys a stop at once and hands it on (callback protocol), so by induction over the tree a traversal makes at most one mutation. (2) Units: the mutating visitor, the mutable traversal and mutate_ast. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(visit.one_mutation, cx)
    cx.attempt(visit.traversals, cx)
    u = rel.units(cx, [("VisitorMut", "MutationMaker")], ["mutation_visitor::MutationMaker*", "ast::ASTTraverser::traverse_mut"])
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith("::mutate_ast")]
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if x[0].endswith("::get_node_id_maker")]
    rel.conform(cx, u)
    cx.need("units", 6)
