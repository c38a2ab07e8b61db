"""Typestate: what is taken out of a node under a key is put back under that key before the function reports success."""
from .sim import *
from . import mon, rel, visit
from .mon import Bad


def check(cx, pick, need=1):
    prog = cx.prog
    for name in sorted(prog.fns):
        f = prog.fns[name]
        if not pick(name) or "{closure" in name or f.derived or not visit.calls(prog, f, "take_value_for_key"):
            continue
        cx.analysed(f)
        cx.count("taking_functions")
        ret = str(f.locals[0])

        def hook(sim, st, c, n, vals, loc):
            m = n.rsplit("::", 1)[-1]
            if m == "take_value_for_key" and len(vals) == 2:
                k = sim.deref(st, vals[1])
                s1, s2 = st.copy(), st.copy()
                return [(s1, some(mk("x", sim.site(st), "taken", (k,))), [("take", vals[0], k, loc)]), (s2, NONE, [])]
            if m.startswith("set_") and m.endswith("_for_key") and len(vals) > 1:
                return [(st, UNIT, [("put", vals[0], sim.deref(st, vals[1]), loc)])]
            return None
        try:
            res = rel.RelSim(prog, name, lambda x: rel.is_stop(x, name), extra=hook, peel=0).run()
        except Limit:
            cx.notes.append("%s has too many states for the take/put rule" % name)
            continue

        def step(s, e):
            if e[0] == "take":
                return s | {(e[2], e[3])}
            if e[0] == "put":
                return frozenset(x for x in s if x[0] is not e[2])
            return s

        def end(s, kind, value, fin):
            if kind != "return" or not s:
                return
            good = value.op == "agg" and value.args[1] == "Ok" if "Result<" in ret else value is TRUE if ret == "bool" else True
            if not good:
                return
            for key, loc in sorted(s, key=lambda x: show(x[0])):
                raise Bad("lost:" + show(key)[:40], "%s takes the value of key %s out of the node and reports success without putting a value back" % (name, show(key)[:60]), loc)
        mon.apply(cx, res, frozenset(), step, end, prefix=name + ":")
    cx.need("taking_functions", need)
