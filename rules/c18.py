"""Output goes where it was requested, and nowhere else."""
from vlib.sim import *
from vlib import gen, mon, paths
from vlib.mon import Bad

RULE = ("(1) Mutate and pretty-print commands, as event automata over all paths: a file is written only when standard output was not requested, its path is the "
        "requested output directory joined with a single path component, and the directory has been created before; with standard output requested every write goes to "
        "std::io::stdout() and there is no file-system effect; the original is printed iff requested, the configuration is saved iff requested. "
        "(2) Library: every call that creates, changes or removes files names either the path parameter of one of the two file-writing API functions or a path inside the "
        "system's temporary directory; the obligation is pushed to the callers while the path is a parameter.")
ASSUMPTIONS = ["external compilers write only where their -o argument says (checked by C16)"]

FSMUT = {"create", "create_new", "write", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "create_dir", "create_dir_all", "hard_link",
         "soft_link", "symlink", "set_permissions", "open", "truncate", "set_len"}
FSREAD = {"File::open", "read", "read_to_string", "metadata", "exists", "read_dir", "canonicalize"}


def fs_mutation(name):
    """does this std function change the file system? (None: no; else short name)"""
    s = gen.short(name)
    if name.startswith("std::fs::"):
        if "::OpenOptions::" in name:
            return s if s == "open" else None
        if name.startswith("std::fs::File::"):
            return s if s in ("create", "create_new", "set_len", "set_permissions") else None
        if s in FSMUT and s != "open":
            return s
    if name.startswith("std::os::") and s in FSMUT:
        return s
    return None


def flow(cx, g, outfield, stdfield, original=None, config=None, what=""):
    out = g.pf(outfield)
    isdir = lambda t: t is out
    n = {"w": 0}

    def step(s, e):
        std, made, orig, cfg, porig, pcfg = s
        k = e[0]
        if k == "param":
            if e[1] == stdfield:
                return (e[2], made, orig, cfg, porig, pcfg)
            if e[1] == original:
                return (std, made, orig, cfg, e[2], pcfg)
            if e[1] == config:
                return (std, made, orig, cfg, porig, e[2])
            return s
        if k == "failed":
            return None  # what happens after a failure is C19's business
        if k in ("write_file", "cfg_file", "mkdir", "fs"):
            if k == "fs" and fs_mutation(e[1]) is None and not e[1].startswith(("std::process", "std::net", "tempfile")):
                return s
            if std is not False:
                raise Bad("stdout-fs", "%s although standard output may have been requested" % k, e[-1])
        if k == "fs":
            raise Bad("fs", "unexpected file-system effect %s" % e[1], e[-1])
        if k == "mkdir":
            if not paths.is_dir(e[2][0], isdir):
                raise Bad("mkdir", "creates a directory other than the output directory: %s" % show(e[2][0])[:200], e[3])
            return (std, True, orig, cfg, porig, pcfg)
        if k in ("write_file", "cfg_file"):
            path = e[2][2] if k == "write_file" else e[2][1]
            n["w"] += 1
            if not paths.in_dir(path, isdir):
                raise Bad("path:" + k, "%s does not lie directly in the output directory: %s" % (k, show(path)[:300]), e[3])
            if k == "write_file" and not made:
                raise Bad("nodir", "a file is written before the output directory is created", e[3])
            if k == "cfg_file":
                cfg = True
            elif original and not gen.mut_of(e[2][1]):
                orig = True
        if k in ("write_stream", "cfg_stream"):
            st = e[2][2] if k == "write_stream" else e[2][1]
            n["w"] += 1
            if std is not True:
                raise Bad("stream", "writes to a stream although a file was requested", e[3])
            if not any(x.op == "x" and str(x.args[1]).endswith("stdio::stdout") for x in subterms(st)):
                raise Bad("notstdout", "the stream is not standard output: %s" % show(st)[:120], e[3])
            if k == "cfg_stream":
                cfg = True
            elif original and not gen.mut_of(e[2][1]):
                orig = True
        if original and orig and porig is not True and k.startswith(("write", "cfg")):
            raise Bad("orig-unasked", "the original is printed without being requested", e[3])
        if config and cfg and pcfg is not True and k.startswith(("write", "cfg")):
            raise Bad("cfg-unasked", "a configuration is saved without being requested", e[3])
        return (std, made, orig, cfg, porig, pcfg)

    def end(s, kind, value, fin):
        if kind != "return" or not (value.op == "agg" and value.args[1] == "Ok"):
            return
        if original and s[4] is not False and not s[2]:
            raise Bad("orig-missing", "a run ends well without printing the original although that was requested", g.entry.loc)
        if config and s[5] is not False and not s[3]:
            raise Bad("cfg-missing", "a run ends well without saving the configuration although that was requested", g.entry.loc)
    mon.apply(cx, g.res, (None, False, False, False, None, None), step, end, prefix=what)
    cx.count("write_events", n["w"])


API = {"pretty_print_ast_to_file": "MutableLanguage", "write_to_file_as_json": ""}


def library(cx):
    prog = cx.prog
    callers = {}
    for f in prog.fns.values():
        for c, _ in gen.calls_of(f):
            for t in {c.get("res"), c["fn"]}:
                if t:
                    callers.setdefault(gen.strip_generics(t), set()).add(f.name)
    hot = [f for f in prog.fns.values() if f.name.lstrip("<").startswith("mutagenyx_lib::")
           and any(fs_mutation(gen.strip_generics(c["fn"])) for c, _ in gen.calls_of(f))]
    work = [(f.name, f.name) for f in hot]
    seen = set()
    hotn = {f.name for f in hot}
    memo = {}

    def stop(n):
        """inline what leads to a file-system effect, and small helpers"""
        if n not in memo:
            r = prog.reachable([n]) if n in prog.fns else set()
            memo[n] = "preferences::" in n or (not (r & hotn) and len(r & set(prog.fns)) > 8)
        return memo[n]
    while work:
        name, origin = work.pop()
        if (name, origin) in seen:
            continue
        seen.add((name, origin))
        f = prog.fns[name]
        cx.analysed(f)
        found = []

        def on_call(sim, st, c, nm, vals, loc):
            k = fs_mutation(nm)
            if k:
                site = sim.site(st)
                found.append((k, nm, tuple(sim.deref(st, v) for v in vals), loc, st.stack[-1][0]))
                return [(st.copy(), ok(mk("x", site, k, ())), [("fs", k)]), (st, err(mk("x", site, "E", ())), [("fs", k)])]
            if gen.short(nm) == "shell_execute":
                site = sim.site(st)
                return [(st.copy(), ok(mk("x", site, "exec", ())), []), (st, err(mk("x", site, "E", ())), [])]
            return None
        root = name.split("::{closure")[0]
        Sim(prog, prog.fns.get(root, f), stop=lambda n: n != root and stop(n), on_call=on_call).run()
        for k, nm, vals, loc, where in found:
            if where != origin and gen.strip_generics(where) != gen.strip_generics(origin):
                continue
            cx.count("fs_sites")
            ps = [v for v in (vals[1:] if "OpenOptions" in nm else vals[:2] if k in ("rename", "copy", "hard_link", "soft_link", "symlink") else vals[:1])]
            for v in ps:
                t = paths.strip(v)
                if fnm(t) == "parent":
                    t = paths.strip(paths.fargs(t)[0])
                if paths.in_dir(t, lambda d: paths.fname(d) == "temp_dir"):
                    cx.count("temp_paths")
                    continue
                if t.op == "arg":
                    short = gen.short(root)
                    if short in API and k in ("create", "create_dir_all", "create_dir"):
                        cx.count("api_paths")
                        continue
                    cs = callers.get(gen.strip_generics(root), set())
                    if cs and not short in API:
                        for cname in cs:
                            work.append((cname, origin))
                        continue
                cx.report("lib:%s:%s" % (gen.short(origin), k), "%s on a path that is neither the requested file nor inside the temporary directory: %s" % (k, show(v)[:200]), loc)
    cx.need("fs_sites", 4)
    cx.need("api_paths", 2)


def fnm(t):
    return paths.fname(t)


def run(cx):
    g = gen.Gen(cx)
    if g.res is not None:
        flow(cx, g, "output_directory", "use_stdout", "print_original", "save_configuration_file", "mutate:")
    h = gen.pretty_flow(cx)
    if h is not None and h.res is not None:
        flow(cx, h, "output_directory", "stdout", what="pretty-print:")
    cx.attempt(library, cx)
    cx.need("write_events", 6)
