"""Configuration files mean the same when saved and when loaded."""
from vlib import rel, keys

RULE = ("(0) The loading function is also compared with the reviewed reference for files that have exactly one key, for each documented key. (1) Key agreement, from the terms written by the saving function and the terms found in the loaded settings: every key saved is read, every key read is saved, and the setting saved under a key is the one loaded from it. (2) Units: the functions of the configuration-file module and the conversion of the algorithm names found there. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


KEYS = ("", "language", "filenames", "compiler-details", "num-mutants", "seed", "mutations", "all-mutations", "functions", "validate-mutants", "output-directory", "print-original")


def run(cx):
    cx.attempt(keys.check, cx)
    u = rel.units(cx, [], ["config_file::*", "mutagenyx::mutation_generator::get_mutation*"])
    rel.conform(cx, u)
    cx.attempt(keys.per_key, cx, KEYS)
    cx.need("units", 6)
