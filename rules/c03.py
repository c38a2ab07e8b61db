"""The restriction to named functions decides which nodes may be visited and mutated."""
from vlib import rel

RULE = ("Units: the permission lattice, the permitter and namers, the conversion of function names to permissions, the permission tests of "
        "the counting and mutating visitors and of the traversal. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, [("Permit", None), ("Namer", None), ("Visitor", "mutation_visitor"), ("VisitorMut", "mutation_visitor")],
                  ["permissions::*", "<permissions::*", "json_namer::*", "json_ast_permitter::*", "mutation_visitor::*", "ast::ASTTraverser::*",
                   "mutagenyx::mutation_generator::convert_function_names_to_permissions"])
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if x[0].endswith(("::get_namer", "::get_node_permitter"))]
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith(("::count_mutable_nodes", "::mutate_ast"))]
    rel.conform(cx, u)
    cx.need("units", 30)
