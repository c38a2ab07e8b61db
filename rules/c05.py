"""Mutating works on a copy; the loaded AST stays as it was."""
import re

from vlib import rel
from vlib.order import callee

RULE = ("(1) Ownership: the loaded AST is only reachable through shared references (no function of the program has a mutable reference to the AST type, the API functions take it by shared reference), its types have no interior mutability, and the program nowhere goes around the borrow checker (no mutable raw pointer, transmute or pointer write), so no call can change it. (2) Units: the API functions that count, mutate and compute paths, and the conversions between a language AST and its JSON value. "
        + rel.CONFORM)
ASSUMPTIONS = rel.ASSUME


BYPASS = re.compile(r"core::mem::transmute|core::ptr::(mut_ptr|write|read|swap|replace|copy)|core::intrinsics::(transmute|copy|write)|from_raw|as_mut_ptr|cast_mut|UnsafeCell|get_unchecked_mut|addr_of_mut")
INTERIOR = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|Atomic[A-Z]\w*)\b")


def ownership(cx):
    prog = cx.prog
    ast = [n for n in prog.adts if n.endswith("super_ast::SuperAST")]
    todo, types = list(ast), set()
    while todo:
        t = todo.pop()
        if t in types:
            continue
        types.add(t)
        cx.count("ast_types")
        for v, fields in (prog.adts[t]["variants"] if t in prog.adts else ()):
            for f, ty in fields:
                if INTERIOR.search(ty):
                    cx.report("interior:" + t, "%s.%s has interior mutability (%s): a shared reference to the AST can change it" % (t, f, ty))
                todo += re.findall(r"[a-zA-Z_]\w*(?:::\w+)+", ty)
    for n, f in sorted(prog.fns.items()):
        if "mutagenyx" not in n or f.derived:
            continue
        cx.count("functions_examined")
        for l in f.locals:
            ty = str(l)
            if ty.startswith("*mut "):
                cx.report("raw:" + n, "%s uses a mutable raw pointer (%s)" % (n, ty[:80]), f.loc)
            if any(re.search(r"&(?:'\w+ )?mut %s\b" % re.escape(a), ty) for a in ast):
                cx.report("mutref:" + n, "%s holds a mutable reference to a loaded AST" % n, f.loc)
        for b in f.blocks:
            m, c = callee(b["t"])
            if m:
                cx.count("calls_examined")
                if BYPASS.search(m):
                    cx.report("bypass:" + n, "%s calls %s, which goes around the borrow checker" % (n, m), f.loc)
    for s, f in prog.impl_methods("MutableLanguage", "mutate_ast") + prog.impl_methods("MutableLanguage", "count_mutable_nodes") + prog.impl_methods("MutableLanguage", "calculate_node_paths"):
        cx.count("api_functions")
    cx.need("api_functions", 3)
    cx.need("ast_types", 1)


def run(cx):
    cx.attempt(ownership, cx)
    u = [x for x in rel.units(cx, [("MutableLanguage", None)]) if x[0].endswith(("::count_mutable_nodes", "::mutate_ast", "::calculate_node_paths"))]
    u += [x for x in rel.units(cx, [("JSONLanguageDelegate", None)]) if x[0].endswith(("::recover_ast", "::get_value_as_super_ast"))]
    rel.conform(cx, u)
    cx.need("units", 6)
