"""Simulations of the code that talks to the external compilers."""
from .sim import *
from .mir import strip_generics
from .gen import short


def prefs_model(sim, st, c, name, vals):
    """Preferences lookups as terms pref(path...): Option values that are either present or absent"""
    return None


def handler(extra=None):
    def on_call(sim, st, c, name, vals, loc):
        s = short(name)
        if extra:
            r = extra(sim, st, c, name, vals, loc)
            if r is not None:
                return r
        dv = lambda: tuple(sim.deref(st, v) for v in vals)
        if s == "shell_execute" and "mutagenyx_lib" in name:
            a = dv()
            site = sim.site(st)
            out = mk("x", site, "exec", ())
            s1, s2 = st.copy(), st.copy()
            return [(s1, ok(out), [("exec", out, a[0], a[1], loc)]), (s2, err(mk("x", site, "E!exec", ())), [("exec", out, a[0], a[1], loc), ("failed", "exec", loc)])]
        if name.endswith("ExitStatus::success"):
            o = sim.deref(st, vals[0])
            t = mk("success", o)
            s1, s2 = st.copy(), st.copy()
            r = []
            for sx, v in ((s1, True), (s2, False)):
                if sim.with_facts and not assume(sx.facts, t, v):
                    continue
                r.append((sx, B(v), [("status", o, v, loc)]))
            sim.tests.setdefault(sim.cur, set()).update(fact_subjects(t))
            return r
        if name.startswith("std::process::Command"):
            return ("event", [("command", s, dv(), loc)])
        return None
    return on_call


def stop(n):
    return False


def has_elem(args, x):
    """does the argument list certainly contain x?"""
    if args.op == "arr":
        return x in args.args[0]
    if args.op == "push":
        return args.args[1] is x or has_elem(args.args[0], x)
    if args.op in ("append", "extend"):
        return any(has_elem(a, x) for a in args.args if isinstance(a, T))
    return False
