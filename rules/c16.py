"""The external compilers are called with the user's settings."""
from vlib import rel

RULE = ("Units: the functions that collect compiler settings and build and run the compiler command lines, and the delegates' compile and "
        "convert functions. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


def run(cx):
    u = rel.units(cx, [], ["mutagenyx::compiler_settings::*", "utility::*", "solidity::language_interface::get_*", "vyper::language_interface::get_*"])
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)])
          if x[0].endswith(("::mutant_compiles", "::default_compiler_settings", "::convert_source_file_to_ast", "::file_is_language_source_file"))]
    rel.conform(cx, u)
    cx.need("units", 10)
