"""Event automaton of the mutant generator (binary crate inlined, library boundary opaque)."""
from .sim import *

LANG = "mutagenyx_lib::language_interface::MutableLanguage"


def short(name):
    return name.rsplit("::", 1)[-1]


def is_lib(n):
    return n.startswith("mutagenyx_lib") or n.startswith("<mutagenyx_lib")


def tag(n):
    return mk("tag", n)


def params_type(prog):
    for a in prog.adts:
        if a.endswith("::GeneratorParameters"):
            return a
    return None


def generator_entry(prog):
    """the function of the binary crate that runs the generator on one set of parameters: it takes the
    parameters object and reaches a call of MutableLanguage::mutate_ast; the outermost such function"""
    cg = prog.callgraph()
    cand = []
    for f in prog.fns.values():
        if not f.name.startswith("mutagenyx::") or f.argc < 1 or "{closure" in f.name:
            continue
        if any("GeneratorParameters" in f.locals[i] for i in range(1, f.argc + 1)):
            r = prog.reachable([f.name])
            if any("mutate_ast" == (c[0].get("method") or short(strip_generics(c[0]["fn"]))) for g in r if g in prog.fns for c in calls_of(prog.fns[g])):
                cand.append(f)
    outer = [f for f in cand if not any(f.name in prog.reachable([g.name]) for g in cand if g is not f)]
    return outer[0] if len(outer) == 1 else None


def args_entry(cx, ty):
    """the outermost function of the binary that takes the parsed command line arguments of type ty"""
    prog = cx.prog
    cand = [f for f in prog.fns.values() if f.name.startswith("mutagenyx::") and "{closure" not in f.name
            and any(strip_generics(f.locals[i]).lstrip("&").endswith("::" + ty) for i in range(1, f.argc + 1))]
    outer = [f for f in cand if not any(f.name in prog.reachable([g.name]) for g in cand if g is not f)]
    if len(outer) != 1:
        cx.report("anchor:" + ty, "expected one outermost function that takes %s, found %d" % (ty, len(outer)))
        return None
    return outer[0]


def pretty_flow(cx, **kw):
    """the pretty-print command"""
    e = args_entry(cx, "PrettyPrintCLArgs")
    if e is None:
        return None
    return Gen(cx, entry=e, ptype="PrettyPrintCLArgs", **kw)


def calls_of(f):
    out = []
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            out.append((t[1][1], b["l"]))
    return out


from .mir import strip_generics  # noqa: E402

LANG_CALLS = {"load_ast_from_file": "load", "select_mutators_for_mutation_types": "select", "count_mutable_nodes": "count",
              "mutate_ast": "mutate", "pretty_print_ast_to_file": "write_file", "pretty_print_ast_to_stream": "write_stream",
              "mutant_compiles": "validate", "calculate_node_paths": "paths", "convert_source_file_to_ast": "convert"}
FALLIBLE = {"load", "select", "count", "mutate", "write_file", "write_stream", "paths", "convert", "recognize", "langobj",
            "cfg_stream", "cfg_file", "mkdir", "cfg_load"}
FS = ("std::fs::", "std::os::", "std::process::", "std::net::", "std::env::set", "std::thread::")
FS_TYPES = ("std::fs::File", "std::fs::OpenOptions", "tempfile")


def generator_handler(extra=None, track=False):
    def on_call(sim, st, c, name, vals, loc):
        s = short(name)
        if extra:
            r = extra(sim, st, c, name, vals, loc)
            if r is not None:
                return r
        dv = lambda: tuple(sim.deref(st, v) for v in vals)
        kind = None
        if c.get("trait") == LANG or name.startswith(LANG) or (is_lib(name) and s in LANG_CALLS and "JSONLanguageInterface" in name):
            kind = LANG_CALLS.get(s)
        elif is_lib(name) and s == "recognize_file":
            kind = "recognize"
        elif is_lib(name) and s == "get_language_object_for_language":
            kind = "langobj"
        elif is_lib(name) and s == "write_to_stream_as_json":
            kind = "cfg_stream"
        elif is_lib(name) and s == "write_to_file_as_json":
            kind = "cfg_file"
        elif is_lib(name) and s == "new_from_file":
            kind = "cfg_load"
        elif name in ("std::fs::create_dir_all", "std::fs::create_dir"):
            kind = "mkdir"
        elif name.startswith(FS) or name.startswith(FS_TYPES):
            return ("event", [("fs", name, dv(), loc)])
        elif name.startswith("std::io::stdio::_print") or name.startswith("std::io::stdio::print"):
            return ("event", [("println", loc)])
        if kind is None:
            return None
        site = sim.site(st)
        a = dv()
        val = mk("x", site, kind, ())
        # &mut arguments: the language object is stateful but is not tracked; the rng stays the same object
        if kind == "validate":
            s1, s2 = st.copy(), st.copy()
            return [(s1, TRUE, [(kind, val, a, loc), ("validated", a[2] if len(a) > 2 else None, True)]),
                    (s2, FALSE, [(kind, val, a, loc), ("validated", a[2] if len(a) > 2 else None, False)])]
        if kind in FALLIBLE:
            s1, s2 = st.copy(), st.copy()
            if track and sim.with_facts and kind == "mutate" and "m" not in s1.aux:
                s1.aux = s1.aux + ("m",)
            if track and sim.with_facts and kind in ("write_file", "write_stream") and len(a) > 1 and mut_of(a[1]):
                s1.aux = s1.aux + ("w",)
            return [(s1, ok(val), [(kind, val, a, loc)]), (s2, err(mk("x", site, "E!" + kind, ())), [(kind, val, a, loc), ("failed", kind, loc)])]
        return [(st, val, [(kind, val, a, loc)])]
    return on_call


def generator(prog, entry, on_branch=None, extra=None, track=False, **kw):
    return Sim(prog, entry, stop=is_lib, on_call=generator_handler(extra, track), on_branch=on_branch, limit=120000, **kw)


PUSHES = ("push", "push_back", "push_front", "insert", "extend", "append", "replace")


def has(t, sub):
    return sub in subterms(t)


def mut_of(t):
    """mutate-call results occurring in a term"""
    return {x for x in subterms(t) if x.op == "x" and x.args[1] == "mutate"}


def loc_name(t):
    """the location a widened value stands for, e.g. the variable of a container"""
    while t.op in ("push", "removed", "sort", "insert"):
        t = t.args[0]
    return t.args[1] if t.op == "phi" else None


class Gen:
    """one exploration of the generator with all events the generator rules need"""

    def __init__(self, cx, on_back=None, entry=None, ptype="GeneratorParameters", **kw):
        self.cx = cx
        prog = cx.prog
        self.entry = entry or generator_entry(prog)
        if self.entry is None:
            cx.report("anchor:generator", "no unique function takes the generator parameters and reaches mutate_ast")
            self.res = None
            return
        self.param = [i for i in range(1, self.entry.argc + 1) if ptype in self.entry.locals[i]][0]
        self.P = mk("arg", self.param)
        self.back = []
        sim = generator(prog, self.entry, on_branch=self.on_branch, extra=self.extra, on_back=on_back, **kw)
        self.sim = sim
        self.res = sim.run()
        cx.analysed(self.entry, *self.res.inlined)
        cx.count("generator_states", len(self.res.edges))
        cx.count("generator_transitions", sum(len(e) for e in self.res.edges))
        for e in self.events("mutate"):
            cx.count("mutate_sites", 0)

    def events(self, *kinds):
        for es in self.res.edges:
            for evs, _ in es:
                for e in evs:
                    if e[0] in kinds:
                        yield e

    def base(self, t):
        return base_of(t)

    def pf(self, field):
        return proj(self.P, ("f", field))

    def on_branch(self, sim, st, c, val):
        while c.op == "not":
            c, val = c.args[0], not val
        if c.op == "p" and c.args[0] is self.P:
            return [("param", c.args[1][1], val)]
        if c.op == "contains":
            return [("seen", c.args[0], c.args[1], val)]
        if c.op in ("eq", "eqd"):
            ms = [(a, b) for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])) if isinstance(a, T) and isinstance(b, T) and a.op == "elem" and mut_of(b)]
            if ms:
                return [("cmp_elem", ms[0][0].args[0], ms[0][1], val)]
        if c.op == "cmp" and c.args[1] is not None and c.args[1].op == "len" and not val:
            return [("exhausted", c.args[1].args[0])]
        if c.op == "cmp" and c.args[1] is not None and c.args[1].op == "len" and c.args[2] == 0 and c.args[0] is not None and c.args[0].op in ("ind", "phi"):
            return [("iter", c.args[1].args[0])]
        if c.op == "cmp" and c.args[0] is None and c.args[1] is not None and c.args[1].op == "len" and c.args[2] == 0:
            return [("exhausted", c.args[1].args[0])] if not val else None
        if c.op == "eq" and c.args[0].op == "len" and c.args[1] is I(0) and val:
            return [("exhausted", c.args[0].args[0])]
        return None

    def extra(self, sim, st, c, name, vals, loc):
        s = short(name)
        if s in PUSHES and len(vals) >= 2 and (name.startswith("alloc::") or name.startswith("std::collections") or name.startswith("hashbrown")):
            item = sim.deref(st, vals[-1])
            if mut_of(item):
                return ("event", [("record", sim.deref(st, vals[0]), item, loc)])
            if s in ("push", "push_back"):
                return ("event", [("qpush", sim.deref(st, vals[0]), item, loc)])
        if s in ("remove", "pop_front", "pop", "pop_back", "drain", "clear", "truncate", "retain", "split_off", "swap_remove", "take") and vals and vals[0].op == "loc":
            cur = sim.deref(st, vals[0])
            return ("event", [("qremove", cur, s, loc)])
        return None


def base_of(t):
    while t.op in ("push", "removed", "sort"):
        t = t.args[0]
    return t


def same_container(a, b):
    a, b = base_of(a), base_of(b)
    if a is b:
        return True
    return a.op == "phi" and b.op == "phi" and a.args[1] == b.args[1]
