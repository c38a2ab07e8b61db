"""Effective settings of every file: command line, overridden by its own configuration file."""
from vlib.sim import *
from vlib import gen, drv, paths

RULE = ("At every point where the driver plans a generator run, each setting of the plan is the term the precedence rules prescribe under the branch facts of that path: "
        "for a file named on the command line the command-line value; for a file listed in a configuration file the value of that configuration (where given) and the "
        "command-line value otherwise; the generator's rng is freshly seeded with the plan's recorded seed; nothing of one file's configuration reaches another file's plan "
        "(a loop-carried setting is a violation).")


def run(cx):
    checks = {"n": 0}
    seen_kinds = set()

    def at_plan(sim, st, v, loc):
        checks["n"] += 1
        f = dict(zip(v.args[2], v.args[3]))
        A = d.af
        facts = st.facts
        cfgs = {x for t in v.args[3] for x in subterms(t) if x.op == "x" and x.args[1] == drv.CFG}
        # which kind of input led here?
        recs = {k.args[0] for k in facts if k.op == "discr"} | {x for k in facts for x in subterms(k)}
        rec = [x for x in recs if x.op == "p" and x.args[1] == ("f", "file_type")]
        is_cfg = None
        for r in rec:
            is_cfg = variant(facts, r, "Config")
            if is_cfg is not None:
                R = r.args[0]
                break
        if is_cfg is None:
            cx.report("kind", "a run is planned without knowing whether the file is a configuration file", loc)
            return
        if not is_cfg and cfgs:
            cx.report("foreign", "the plan of a file given on the command line uses a configuration file: %s" % show(v)[:200], loc)
            return
        seen_kinds.add(is_cfg)

        def want(field, *terms):
            got = paths.strip(f[field]) if field in ("file_name", "output_directory") else f[field]
            cx.count("settings_checked")
            if field == "file_name" and got.op == "elem" and got.args[0].op in ("phi", "hv", "push"):
                cx.notes.append("undecided: file names are collected into another container first")
                return
            if not any(got is t or (callable(t) and t(got)) for t in terms):
                cx.report("%s:%s" % ("config" if is_cfg else "cli", field), "setting %s of a planned run is %s" % (field, show(f[field])[:160]), loc)

        def cli_seed(t):
            neg = ev(facts, mk("cmp", A("rng_seed"), None, 0))
            if t is mk("cast", A("rng_seed"), "u64"):
                return neg is not True
            if neg is False:
                return False
            return t is I(0) or any(x.op == "x" and "SystemTime" in str(x.args[1]) for x in subterms(t))

        def cli_mut(t):
            al = ev(facts, A("all_mutations"))
            if t.op == "call" and t.args[0].endswith("get_all_mutation_algorithms"):
                return al is not False
            return al is not True and from_strings(sim, t, A("mutation"))

        def seeded(t, pred):
            x = t
            if x.op == "x" and str(x.args[1]).endswith("seed_from_u64") and len(x.args[2]) == 1:
                return pred(x.args[2][0])
            return False
        P = [x for x in subterms(f["preferences"]) if x.op == "cliprefs"]
        if not is_cfg:
            cx.count("cli_plans")
            want("file_name", lambda t: t.op == "elem" and t.args[0] is A("file"))
            want("number_of_mutants", A("num_mutants"))
            want("rng_seed", cli_seed)
            want("rng", lambda t: seeded(t, lambda s: s is f["rng_seed"]))
            want("output_directory", A("output_directory"))
            want("use_stdout", A("stdout"))
            want("mutations", cli_mut)
            want("verify_mutant_viability", A("validate_mutants"))
            want("print_original", A("print_original"))
            want("save_configuration_file", A("save_config_files"))
            want("functions", A("function"))
            want("preferences", lambda t: t.op == "cliprefs")
            return
        cx.count("config_plans")
        if len({c for c in cfgs}) != 1:
            cx.report("config:source", "the plan of a configuration file mixes %d configurations" % len(cfgs), loc)
            return
        C = list(cfgs)[0]
        c = lambda n: proj(C, ("f", n))
        want("file_name", lambda t: t.op == "elem" and t.args[0] is c("filenames"))
        want("number_of_mutants", mk("cast", c("number_of_mutants"), "usize"), c("number_of_mutants"))
        sd = variant(facts, c("seed"), "Some")
        sval = proj(proj(c("seed"), ("v", "Some")), ("f", "0"))
        want("rng_seed", *([sval] if sd is True else [cli_seed] if sd is False else [sval, cli_seed]))
        want("rng", lambda t: seeded(t, lambda s: s is f["rng_seed"]))
        al = ev(facts, c("all_mutations"))
        empty = ev(facts, mk("eq", t_len(c("mutations")), I(0)))
        if al is True:
            want("mutations", lambda t: t.op == "call" and t.args[0].endswith("get_all_mutation_algorithms"))
        elif al is False and empty is False:
            want("mutations", c("mutations"))
        elif al is False and empty is True:
            want("mutations", cli_mut)
        else:
            cx.report("config:mutations", "the algorithms of a configuration are chosen without looking at all-mutations and mutations", loc)
        fe = ev(facts, mk("eq", t_len(c("functions")), I(0)))
        if fe is None:
            want("functions", lambda t: False)
        else:
            want("functions", A("function") if fe else c("functions"))
        want("verify_mutant_viability", c("verify_mutants"))
        want("print_original", c("print_original"))
        want("save_configuration_file", A("save_config_files"))
        od = variant(facts, c("output_directory"), "Some")
        oval = proj(proj(c("output_directory"), ("v", "Some")), ("f", "0"))
        if f["use_stdout"] is TRUE:
            if od is not True or not says_stdout(facts, oval):
                cx.report("config:use_stdout", "standard output is chosen although the configuration does not say stdout", loc)
        else:
            want("use_stdout", A("stdout"))
            if od is True:
                want("output_directory", paths.strip(oval))
            elif od is False:
                want("output_directory", A("output_directory"))
            else:
                want("output_directory", lambda t: False)
        cd = variant(facts, c("compiler_details"), "Some")
        cval = proj(proj(c("compiler_details"), ("v", "Some")), ("f", "0"))
        lang = mk("disp", proj(R, ("f", "language")), "mutagenyx_lib::language::Language")

        def newprefs(t):
            if t.op != "setpref" or t.args[0].op != "cliprefs":
                return False
            base, k, inner = t.args
            if not (k.op == "disp" and k.args[0] is proj(R, ("f", "language"))):
                return False
            g = proj(proj(drv.getpref(base, k), ("v", "Some")), ("f", "0"))
            return inner.op == "setpref" and inner.args[0] is g and inner.args[2] is cval and inner.args[1] is S("compiler")
        if cd is True:
            # the language's own preferences exist in every command-line preferences object (C16)
            has = [k for k in facts if k.op == "discr" and k.args[0].op == "getpref"]
            absent = any(variant(facts, k.args[0], "Some") is False for k in has)
            want("preferences", newprefs) if not absent else None
        else:
            want("preferences", lambda t: t.op == "cliprefs")

    d = drv.Driver(cx, at_plan)
    if d.run() is None:
        return
    cx.need("cli_plans", 1)
    cx.need("config_plans", 1)
    cx.need("settings_checked", 24)


def variant(facts, t, v):
    from vlib.std import U_OPT
    c = mk("isv", discr(t), v)
    return ev(facts, c)


def says_stdout(facts, oval):
    """a positive comparison of the configured directory with the constant for standard output"""
    for k, f in facts.items():
        if oval in subterms(k) and k.op in ("eq", "eqd") and ev(facts, k) is True and S("stdout") in subterms(k):
            return True
        if f[0] == "E" and oval in subterms(k) and "stdout" in str(f[1]):
            return True
    return False


def from_strings(sim, t, src):
    """the algorithms named on the command line: built by converting the elements of src"""
    if src in subterms(t):
        return True
    return t.op in ("phi", "arr")
