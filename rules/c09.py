"""With validation on, only mutants the compiler accepted are written."""
from vlib.sim import *
from vlib import gen, mon, comp
from vlib.mon import Bad

RULE = ("(1) Generator automaton: on every path on which validation is requested, the write of a mutant is preceded by a positive verdict of "
        "the compile check on that same AST, and a negative verdict leads to no write; without the request no verdict is needed. "
        "(2) The language-independent compile check hands the language's compile check the very file it has just printed the given AST to, and returns its verdict "
        "(false when printing failed). (3) Each language's compile check returns true only on paths where a compiler process that was given the "
        "file's name was started and its exit status was tested successful, and returns true when it was.")


def generator_part(cx):
    g = gen.Gen(cx)
    if g.res is None:
        return

    def step(s, e):
        R, flag, verdict = s
        k = e[0]
        if k == "mutate":
            return (e[1], None, None)
        if k == "param" and e[1] == "verify_mutant_viability":
            return (R, e[2], verdict)
        if k == "validated" and R is not None:
            if gen.mut_of(e[1]) == {R}:
                return (R, flag, (e[1], e[2]))
            return s
        if k == "validate":
            a = e[2]
            if not (len(a) > 1 and a[1] is g.pf("file_name")):
                raise Bad("validate-name", "the compile check is not told the name of the input file", e[3])
            return s
        if k in ("write_file", "write_stream"):
            ast = e[2][1]
            if not gen.mut_of(ast):
                return s
            if flag is False:
                return s
            if verdict is None:
                raise Bad("unvalidated", "a mutant is written without a compile check although validation may have been requested", e[3])
            if verdict[1] is not True:
                raise Bad("rejected-written", "a mutant rejected by the compile check is written", e[3])
            if verdict[0] is not ast:
                raise Bad("other-ast", "the AST written is not the AST that was validated", e[3])
            return s
        return s
    mon.apply(cx, g.res, (None, None, None), step)
    # both outcomes of the flag lead to writes, and accepted mutants are written
    n = 0
    for e in g.events("validate"):
        n += 1
        break
    cx.count("validate_calls", n)
    cx.need("validate_calls", 1, hard=True)

    # accepted mutants are not dropped: after a positive verdict the next event of interest is the write
    def step2(s, e):
        k = e[0]
        if k == "mutate":
            if s == "accepted":
                raise Bad("accepted-dropped", "a mutant accepted by the compile check is not written", e[3])
            return None if s is None else "start"
        if k == "validated":
            return "accepted" if e[2] else "start"
        if k in ("write_file", "write_stream") and gen.mut_of(e[2][1]):
            return "start"
        return s
    mon.apply(cx, g.res, "start", step2)


def library_part(cx):
    prog = cx.prog
    impls = [(i, p) for i in prog.impls if i["trait"].endswith("::MutableLanguage") for m, p in i["methods"] if m == "mutant_compiles"]
    for i, p in impls:
        f = prog.fns[p]
        cx.analysed(f)
        cx.count("language_compile_checks")

        def on_call(sim, st, c, name, vals, loc):
            s = gen.short(name)
            dv = tuple(sim.deref(st, v) for v in vals)
            site = sim.site(st)
            if s == "pretty_print_ast_to_file":
                s1, s2 = st.copy(), st.copy()
                return [(s1, ok(UNIT), [("print", dv, True, loc)]), (s2, err(mk("x", site, "E", ())), [("print", dv, False, loc)])]
            if s == "mutant_compiles" and c.get("trait", "").endswith("JSONLanguageDelegate"):
                v = mk("x", site, "verdict", ())
                return [(st, v, [("check", dv, v, loc)])]
            if name.startswith("std::fs::"):
                s1, s2 = st.copy(), st.copy()
                return [(s1, ok(UNIT), [("fs", s, dv, loc)]), (s2, err(mk("x", site, "E", ())), [("fs", s, dv, loc)])]
            return None
        res = Sim(prog, f, stop=lambda n: n.startswith(("mutagenyx_lib::pretty", "<mutagenyx_lib::pretty")), on_call=on_call).run()
        A = mk("arg", 3)

        def step(s, e):
            pr, chk = s
            if e[0] == "print":
                if e[1][1] is not A:
                    raise Bad("print-other", "the compile check prints something else than the mutant", e[3])
                return ((e[1][2], e[2]), chk)
            if e[0] == "fs" and chk is None and pr is not None and e[1] in ("remove_file", "rename", "write", "remove_dir_all"):
                raise Bad("gone", "the printed mutant is removed before it is compiled", e[3])
            if e[0] == "check":
                if pr is None or pr[1] is not True:
                    raise Bad("not-printed", "the compiler is run although the mutant has not been printed", e[3])
                if e[1][1] is not pr[0]:
                    raise Bad("other-file", "the file compiled is not the file the mutant was printed to", e[3])
                if e[1][2] is not mk("arg", 4):
                    raise Bad("prefs", "the compile check does not get the user's preferences", e[3])
                return (pr, e[2])
            return s

        def end(s, kind, value, fin):
            if kind != "return":
                return
            if s[1] is None:
                if value is not FALSE:
                    raise Bad("unchecked", "a mutant counts as compiling although no compiler was run: returns %s" % show(value)[:80], f.loc)
            elif value is not s[1]:
                raise Bad("verdict", "the verdict of the compiler is not what is returned: %s" % show(value)[:80], f.loc)
        mon.apply(cx, res, (None, None), step, end, prefix="library:")
    cx.need("language_compile_checks", 1, hard=True)


def delegate_part(cx):
    prog = cx.prog
    impls = [(i, p) for i in prog.impls if i["trait"].endswith("::JSONLanguageDelegate") for m, p in i["methods"] if m == "mutant_compiles"]
    for i, p in impls:
        f = prog.fns[p]
        cx.analysed(f)
        cx.count("delegate_compile_checks")
        lang = i["self"].split("::")[-2] if "::" in i["self"] else i["self"]
        sim = Sim(prog, f, stop=lambda n: "preferences::" in n, on_call=comp.handler())
        res = sim.run()
        cx.analysed(*res.inlined)
        F = mk("arg", 2)

        def step(s, e):
            cur, okk = s
            if e[0] == "exec":
                cx.count("compiler_invocations")
                if not comp.has_elem(e[3], F):
                    return (e[1], okk)
                return (e[1], okk)
            if e[0] == "status":
                if cur is not None and cur in subterms(e[1]) and e[2]:
                    return (cur, True)
                return s
            return s
        good = {e[1] for es in res.edges for evs, _ in es for e in evs if e[0] == "exec" and comp.has_elem(e[3], F)}
        every = {e[1] for es in res.edges for evs, _ in es for e in evs if e[0] == "exec"}
        for e in every - good:
            cx.report("%s:no-file" % lang, "a compiler run does not name the mutant's file", f.loc)

        def end(s, kind, value, fin):
            if kind != "return":
                return
            cx.count("verdict_paths")
            if value is TRUE and not s[1]:
                raise Bad("%s:true" % lang, "a mutant is accepted although no compiler run on it succeeded", f.loc)
            if value is FALSE and s[1]:
                raise Bad("%s:false" % lang, "a mutant the compiler accepted is rejected", f.loc)
            if value not in (TRUE, FALSE):
                raise Bad("%s:value" % lang, "the verdict is not the compiler's exit status: %s" % show(value)[:80], f.loc)
        mon.apply(cx, res, (None, False), step, end)
    cx.need("delegate_compile_checks", 2)
    cx.need("compiler_invocations", 4)
    cx.need("verdict_paths", 4)


def run(cx):
    cx.attempt(generator_part, cx)
    cx.attempt(library_part, cx)
    cx.attempt(delegate_part, cx)
