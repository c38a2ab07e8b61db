"""The explanatory comment is placed in front of the mutated statement and nothing else moves."""
from vlib import rel, takeput

RULE = ("(1) Typestate of the commenters: on every path that reports success, a value taken out of a node under a key has been put back under that same key. (2) Units: every commenter and node finder, their factories, the comment helpers, the comment inserter and the delegates' "
        "insert_comment_by_path. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    cx.attempt(takeput.check, cx, lambda n: "ommenter" in n, 3)
    u = rel.units(cx, [("Commenter", None), ("CommenterFactory", None), ("NodeFinder", None), ("NodeFinderFactory", None)],
                  ["json_comment_inserter::*", "json_comment_helpers::*", "json_finder_helpers::*"])
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if x[0].endswith(("::insert_comment_by_path", "::get_node_id_maker"))]
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith("::mutate_ast")]
    u += [x for x in rel.units(cx, [("JSONMutate", None)]) if "get_node_with_id" in x[0]]
    rel.conform(cx, u)
    cx.need("units", 25)
