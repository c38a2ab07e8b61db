"""The traversal visits every node once, in order, with paired callbacks, and records paths."""
from vlib import rel, visit

RULE = ("(1) Callback protocol: on every path of both traversals the calls are enter, permission, visit, [start-children, children, end-children], exit, each for the node itself, with early exit exactly when the visitor or a child said stop. (2) Units: the two traversals, the visitor defaults, the path visitor, the JSON node's children and the node-id makers. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(visit.traversals, cx)
    u = rel.units(cx, [("Visitor", "PathVisitor"), ("SimpleAST", None), ("Id", None)], ["ast::*", "visitor::*", "mutation_visitor::PathVisitor*", "json_ast_id_maker::*"])
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith("::calculate_node_paths")]
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if x[0].endswith("::get_node_id_maker")]
    rel.conform(cx, u)
    cx.need("units", 15)
