"""Shapes of path terms."""
from .sim import *

SAME = ("to_str", "to_string_lossy", "to_path_buf", "as_path", "as_os_str", "to_os_string", "into_string", "display", "into_os_string", "as_ref",
        "to_owned", "to_string", "into_owned", "canonicalize", "as_str")
COMPONENT = ("file_name", "file_stem", "file_prefix", "extension")
SUBSTR = ("drain", "split_off", "trim", "trim_end", "trim_start", "trim_end_matches", "trim_start_matches", "strip_suffix", "strip_prefix", "split_at",
          "to_lowercase", "to_uppercase", "rsplit_once", "split_once", "rsplit", "split", "chars", "rsplitn", "splitn", "nth", "next", "remove", "index", "get")


def fname(t):
    """name of the function an opaque or pure call term comes from"""
    if t.op == "call":
        return t.args[0].rsplit("::", 1)[-1]
    if t.op == "x":
        return str(t.args[1]).rsplit("::", 1)[-1]
    return None


def fargs(t):
    return t.args[1] if t.op == "call" else t.args[2]


def strip(t):
    """drops conversions and the unwrapping of Option/Result payloads"""
    while True:
        if t.op == "p" and t.args[1][0] in "fv" and t.args[1][1] in ("0", "Some", "Ok", "Borrowed", "Owned"):
            t = t.args[0]
        elif fname(t) in SAME and fargs(t):
            t = fargs(t)[0]
        elif t.op == "&":
            t = t.args[0]
        elif t.op == "agg" and t.args[1] in ("Some", "Ok") and len(t.args[3]) == 1:
            t = t.args[3][0]
        else:
            return t


def single(t):
    """is t certainly (part of) one path component, i.e. free of separators?"""
    t = strip(t)
    if t.op == "s":
        return "/" not in t.args[0] and "\\" not in t.args[0] and t.args[0] != ".."
    if t.op in ("i", "ch"):
        return True
    n = fname(t)
    if n in COMPONENT or n == "get_extension_for_output_file":
        return True
    if t.op == "cat":
        return all(single(x) for x in t.args[0])
    if t.op == "disp":
        ty = t.args[1]
        if ty in ("usize", "u64", "u32", "i64", "i32", "u8", "u16", "u128", "isize"):
            return True
        return single(t.args[0])
    if n in SUBSTR:
        return single(fargs(t)[0])
    if t.op in ("collect", "slice", "substr", "sub", "drained", "lower", "upper"):
        return isinstance(t.args[0], T) and single(t.args[0])
    if t.op in ("hv", "phi", "x", "elem"):
        return False
    if t.op == "p":
        return single(t.args[0])
    return False


def in_dir(t, isdir):
    """is t a path directly inside a directory accepted by isdir?"""
    t = strip(t)
    n = fname(t)
    if n == "join":
        a = fargs(t)
        return isdir(strip(a[0])) and single(a[1])
    if n in ("with_extension", "with_file_name"):
        a = fargs(t)
        return in_dir(a[0], isdir) and single(a[1])
    if t.op == "cat" and len(t.args[0]) >= 3:
        a = t.args[0]
        if a[1].op == "s" and a[1].args[0].startswith("/"):
            return isdir(strip(a[0])) and all(single(x) for x in (S(a[1].args[0][1:]),) + tuple(a[2:]))
    return False


def is_dir(t, isdir):
    """is t the directory itself (or the parent of a path directly inside it)?"""
    t = strip(t)
    if isdir(t):
        return True
    if fname(t) == "parent":
        return in_dir(fargs(t)[0], isdir)
    return False
