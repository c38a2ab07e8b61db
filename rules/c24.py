"""Every file is given to the language and reader it belongs to."""
from vlib import rel

RULE = ("Units: the recogniser, the registry of languages, the two delegates and the language-independent JSON interface. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, [], ["recognizer::*", "language_interface::*", "solidity::delegate::*", "vyper::delegate::*", "<language::*", "super_ast::*", "<super_ast::*",
                           "json_ast_language_interface::JSONLanguageInterface::*"])
    u += [x for x in rel.units(cx, [("MutableLanguage", None)]) if not x[0].endswith(("::mutate_ast", "::mutant_compiles"))]
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if not x[0].endswith(("::mutant_compiles", "::insert_comment_by_path"))]
    rel.conform(cx, u)
    cx.need("units", 20)
