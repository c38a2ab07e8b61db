"""Event automaton of the driver of the mutate command (one plan per input file, then one generator run per plan)."""
from .sim import *
from . import gen

CFG = "cfg_load"


def setpref(old, k, v):
    return mk("setpref", old, k, v)


def getpref(o, k):
    return mk("getpref", o, k)


def iteration(c, val):
    """('iter'|'exhausted', container) for the test of a loop over a container"""
    while c.op == "not":
        c, val = c.args[0], not val
    if c.op == "cmp" and c.args[1] is not None and c.args[1].op == "len" and c.args[2] == 0 and c.args[0] is not None and c.args[0].op in ("ind", "phi"):
        return ("iter" if val else "exhausted", c.args[1].args[0])
    return None


class Driver:
    def __init__(self, cx, at_plan=None):
        prog = cx.prog
        self.cx = cx
        self.res = None
        self.entry = gen.args_entry(cx, "MutateCLArgs")
        self.inner = gen.generator_entry(prog)
        if self.entry is None or self.inner is None:
            if self.inner is None:
                cx.report("anchor:generator", "no unique generator function")
            return
        self.A = mk("arg", [i for i in range(1, self.entry.argc + 1) if "MutateCLArgs" in self.entry.locals[i]][0])
        self.at_plan = at_plan
        stop = lambda n: gen.is_lib(n) or n == self.inner.name or gen.short(n) == "to_preferences"
        self.sim = Sim(prog, self.entry, stop=stop, on_call=gen.generator_handler(self.extra), on_branch=self.branch, limit=600000,
                       keep_term=lambda t: any(x is self.A or x.op == "x" for x in subterms(t)))

    def run(self):
        if self.entry is None or self.inner is None:
            return None
        self.res = self.sim.run()
        self.cx.analysed(self.entry, *self.res.inlined)
        self.cx.count("driver_states", len(self.res.edges))
        return self.res

    def af(self, f):
        return proj(self.A, ("f", f))

    def branch(self, sim, st, c, val):
        it = iteration(c, val)
        return [it] if it else None

    def extra(self, sim, st, c, name, vals, loc):
        s = gen.short(name)
        if name == self.inner.name:
            a = sim.deref(st, vals[0])
            site = sim.site(st)
            return [(st.copy(), ok(UNIT), [("run", a, loc)]), (st, err(mk("x", site, "E!run", ())), [("run", a, loc), ("failed", "run", loc)])]
        if s in ("push", "push_back", "insert", "extend_one") and len(vals) >= 2:
            v = sim.deref(st, vals[-1])
            if v.op == "agg" and v.args[0].endswith("::GeneratorParameters"):
                if sim.with_facts and self.at_plan:
                    self.at_plan(sim, st, v, loc)
                return ("event", [("plan", sim.deref(st, vals[0]), v, loc) + ((sim.deref(st, vals[1]),) if s == "insert" and len(vals) > 2 else ())])
        if s in ("remove", "pop", "drain", "clear", "truncate", "retain", "split_off", "swap_remove", "dedup", "dedup_by", "dedup_by_key", "reverse", "sort", "take", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
                 "sort_unstable_by_key", "sort_by_cached_key", "swap", "rotate_left", "rotate_right", "shuffle", "partial_shuffle", "select_nth_unstable") and vals:
            v = sim.deref(st, vals[0])
            return ("event", [("qremove", v, s, loc)])
        if s == "to_preferences" and not gen.is_lib(name):
            return [(st, mk("cliprefs", sim.deref(st, vals[0])), [])]
        if gen.is_lib(name):
            if name.endswith("Recognizer::new"):
                return [(st, agg("recognizer", "R", ("0",), (vals[0],)), [])]
            if s == "set_preferences_for_key" and "Preferences" in name:
                old = sim.deref(st, vals[0])
                sim.write_ptr(st, vals[0], setpref(old, sim.deref(st, vals[1]), sim.deref(st, vals[2])))
                return [(st, UNIT, [])]
            if s == "get_preferences_for_key" and "Preferences" in name:
                g = getpref(sim.deref(st, vals[0]), sim.deref(st, vals[1]))
                return [(st, g, [])]
        return None
