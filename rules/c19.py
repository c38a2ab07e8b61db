"""A failing step ends the run with its error; it is not swallowed."""
from vlib.sim import *
from vlib import swallow, gen, mon, drv
from vlib.mon import Bad

RULE = ("(1) Mutate command: on every path on which recognising, finding the language, loading, selecting, counting, computing paths, mutating, creating a directory, printing or "
        "saving a configuration fails, the generator has no further effect (no write, no mutation) and returns exactly that error; the driver returns the first error of any file and "
        "main prints it. (2) Pretty-print command: after a failure for one file something is printed and nothing of that file is written. "
        "(3) Library: mutate_ast hands on the error recorded by the mutation visitor and the visitor records every error of a mutator; every API function that returns a Result "
        "returns the error of each fallible step it takes.")
EFFECTS = ("write_file", "write_stream", "cfg_file", "cfg_stream", "mkdir", "mutate", "validate", "fs")


def returns_error(value, kind):
    return value.op == "agg" and value.args[1] == "Err" and any(x.op == "x" and x.args[1] == "E!" + kind for x in subterms(value))


def generator(cx):
    g = gen.Gen(cx)
    if g.res is None:
        return

    def step(s, e):
        if e[0] == "failed":
            cx.count("failure_points")
            return e[1]
        if s and e[0] in EFFECTS:
            raise Bad("after:" + s, "%s happens after the failure of %s" % (e[0], s), e[-1])
        if s and e[0] == "panic":
            raise Bad("panic:" + s, "panics after the failure of %s instead of reporting it" % s)
        return s

    def end(s, kind, value, fin):
        if kind == "return" and s and not returns_error(value, s):
            raise Bad("swallowed:" + s, "the failure of %s is not returned: %s" % (s, show(value)[:100]), g.entry.loc)
    mon.apply(cx, g.res, "", step, end, prefix="generator:")
    cx.need("failure_points", 10)


def driver(cx):
    """the driver of the mutate command and main"""
    prog = cx.prog
    d = drv.Driver(cx)
    res = d.run()
    if res is None:
        return
    e, inner = d.entry, d.inner

    def step(s, ev_):
        if ev_[0] == "failed":
            cx.count("driver_failures")
            return ev_[1]
        if s and ev_[0] in ("run",) + EFFECTS:
            raise Bad("after:" + s, "%s happens after the failure of %s" % (ev_[0], s), ev_[-1])
        return s

    def end(s, kind, value, fin):
        if kind == "return" and s and not returns_error(value, s):
            raise Bad("swallowed:" + s, "the failure of %s is not returned: %s" % (s, show(value)[:100]), e.loc)
    mon.apply(cx, res, "", step, end, prefix="driver:")
    cx.need("driver_failures", 3)
    # main reports it
    m = prog.fns.get("mutagenyx::main")
    if m is None:
        cx.report("anchor:main", "no main function")
        return

    def on_call(sim, st, c, name, vals, loc):
        if name == e.name:
            site = sim.site(st)
            return [(st.copy(), ok(UNIT), []), (st, err(mk("x", site, "E!run", ())), [("failed", "run", loc)])]
        if name.startswith("std::io::stdio::_") or name.startswith("std::process::exit"):
            return ("event", [("said", tuple(sim.deref(st, v) for v in vals), loc)])
        return None
    res = Sim(prog, m, stop=lambda n: n != m.name and not n.startswith("mutagenyx::main"), on_call=on_call).run()

    def step(s, ev_):
        if ev_[0] == "failed":
            cx.count("main_failures")
            return "failed"
        if s == "failed" and ev_[0] == "said" and any(x.op == "x" and x.args[1] == "E!run" for a in ev_[1] for x in subterms(a)):
            return "said"
        return s

    def end(s, kind, value, fin):
        if kind == "return" and s == "failed":
            raise Bad("silent", "main ends without printing the error of a failed run", m.loc)
    mon.apply(cx, res, "", step, end, prefix="main:")
    cx.need("main_failures", 1)


def pretty(cx):
    g = gen.pretty_flow(cx)
    if g is None or g.res is None:
        return

    def step(s, e):
        k = e[0]
        if k == "failed":
            cx.count("pretty_failures")
            return e[1]
        if k == "println":
            return None if False else (s if s is None else "said")
        if k == "recognize":
            if s not in (None, "said"):
                raise Bad("silent:" + s, "the failure of %s for one file is not reported before the next file" % s, e[3])
            return None if s is None else "start"
        if s not in (None, "said", "start") and k in EFFECTS:
            raise Bad("after:" + s, "%s happens after the failure of %s" % (k, s), e[-1])
        return s if s != "start" else "start"

    def step2(s, e):
        r = step(s[0], e)
        return (None if r == "start" else r,)

    def end(s, kind, value, fin):
        if kind == "return" and s[0] not in (None, "said"):
            raise Bad("silent:" + s[0], "the failure of %s is not reported" % s[0], g.entry.loc)
    mon.apply(cx, g.res, (None,), step2, end, prefix="pretty-print:")
    cx.need("pretty_failures", 5)


def library(cx):
    prog = cx.prog
    # mutation visitor: every error of a mutator is recorded and stops the traversal
    for _, f in prog.impl_methods("VisitorMut", "visit_mut"):
        if not any("mutate" == (c.get("method") or gen.short(gen.strip_generics(c["fn"]))) and (c.get("trait") or "").endswith("::Mutator") for c, _ in gen.calls_of(f)):
            # the call may sit in a helper
            r = prog.reachable([f.name])
            if not any((c.get("trait") or "").endswith("::Mutator") and (c.get("method") or "") == "mutate" for n in r if n in prog.fns for c, _ in gen.calls_of(prog.fns[n])):
                continue
        cx.analysed(f)
        cx.count("mutation_visitors")

        def on_call(sim, st, c, name, vals, loc):
            if (c.get("trait") or "").endswith("::Mutator") and gen.short(name) == "mutate":
                site = sim.site(st)
                return [(st.copy(), ok(mk("x", site, "result", ())), []), (st, err(mk("x", site, "E!mutate", ())), [("failed", "mutate", loc)])]
            return None

        def on_store(sim, st, root, path, val, loc):
            if path and path[-1] == ("f", "error") and any(x.op == "x" and x.args[1] == "E!mutate" for x in subterms(val)):
                return [("recorded",)]
            return None
        res = Sim(prog, f, on_call=on_call, on_store=on_store, devirt=False, stop=lambda n: not gen.is_lib(n) or "permission" in n.lower()).run()

        def step(s, e):
            if e[0] == "failed":
                cx.count("mutator_failures")
                return "failed"
            if e[0] == "recorded" and s:
                return "recorded"
            return s

        def end(s, kind, value, fin):
            if kind != "return":
                return
            if s == "failed":
                raise Bad("unrecorded", "the mutation visitor drops the error of a mutator", f.loc)
            if s == "recorded" and value is not TRUE:
                raise Bad("goon", "the traversal goes on after a mutator failed", f.loc)
        mon.apply(cx, res, "", step, end, prefix="visitor:")
    cx.need("mutation_visitors", 1)
    cx.need("mutator_failures", 1)
    # API functions of the library
    for i in prog.impls:
        if not i["trait"].endswith("::MutableLanguage"):
            continue
        for m, p in i["methods"]:
            f = prog.fns[p]
            if "core::result::Result" not in f.locals[0]:
                continue
            cx.analysed(f)
            cx.count("api_functions")

            def on_call(sim, st, c, name, vals, loc):
                s = gen.short(name)
                if name.startswith("std::fs::File::create") or (c.get("trait") or "").endswith("JSONLanguageDelegate") and s in (
                        "recover_ast", "get_value_as_super_ast", "convert_source_file_to_ast") or s == "load_json_from_file_with_name":
                    site = sim.site(st)
                    return [(st.copy(), ok(mk("x", site, s, ())), []), (st, err(mk("x", site, "E!" + s, ())), [("failed", s, loc)])]
                return None
            res = Sim(prog, f, on_call=on_call, devirt=False, stop=lambda n: n != f.name and ("traverse" in n or "Visitor" in n or "insert_comment" in n)).run()

            def step(s, e):
                if e[0] == "failed":
                    cx.count("api_failures")
                    return e[1]
                return s

            def end(s, kind, value, fin):
                if kind == "return" and s and not returns_error(value, s):
                    raise Bad("api:%s:%s" % (m, s), "%s does not return the failure of %s: %s" % (m, s, show(value)[:100]), f.loc)
            mon.apply(cx, res, "", step, end, prefix="library:")
            if m == "mutate_ast":
                # the error recorded by the visitor is what is returned
                n = 0
                for fin in res.finals.values():
                    if fin[0] == "return" and fin[1].op == "agg" and fin[1].args[1] == "Err" and "error" in show(fin[1]):
                        n += 1
                cx.count("visitor_error_returns", n)
    cx.need("api_functions", 6)
    cx.need("api_failures", 5)
    cx.need("visitor_error_returns", 1)


def run(cx):
    cx.attempt(generator, cx)
    cx.attempt(driver, cx)
    cx.attempt(pretty, cx)
    cx.attempt(library, cx)
    cx.attempt(swallow.check, cx)
