"""Same seed, same inputs: same mutants."""
import re
from vlib.sim import *
from vlib import gen, drv, order
from vlib.order import callee

RULE = ("(1) No function reachable from the commands calls a source of nondeterminism (clock, entropy, thread scheduling, process id, directory order, file times, pointer addresses); the clock may be read in the driver, and at "
        "every planned run (path-sensitive terms of the driver) the random generator depends on the clock only where the seed given by the user is negative, i.e. absent. (2) Iteration order of hash maps and sets does not leak: in every "
        "function that iterates one (or a sequence filled from one and not yet sorted), no random number is drawn and no output is produced inside the iteration, no element is picked by position, no value of a single "
        "element leaves the loop, and sequences filled from it are sorted before any order-sensitive use.")
ASSUMPTIONS = ["rand_pcg and rand are deterministic functions of the seed", "serde_json's Map is ordered by key (feature preserve_order off or on, both deterministic)",
               "the external compiler is deterministic"]
NONDET = re.compile(r"std::time::(SystemTime|Instant)::now|chrono::.*::now|thread_rng|rand::rngs::(thread|std|os)|rand::random|from_entropy|from_os_rng|OsRng|getrandom|"
                    r"std::process::id|std::thread::|std::fs::(read_dir|metadata)|std::path::Path::(read_dir|metadata)|Metadata::(modified|created|accessed)|RandomState::new|"
                    r"std::hash::random|BuildHasher|core::fmt::Pointer|new_pointer")


def run(cx):
    prog = cx.prog
    roots = []
    for ty in ("MutateCLArgs", "PrettyPrintCLArgs", "AlgorithmsCLArgs"):
        e = gen.args_entry(cx, ty)
        if e is None:
            return
        roots.append(e.name)
    reach = prog.reachable(roots)
    fns = [prog.fns[n] for n in sorted(reach) if n in prog.fns and "mutagenyx" in n and not prog.fns[n].derived]
    clock = set()

    def at_plan(sim, st, v, loc):
        cx.count("planned_runs")
        f = dict(zip(v.args[2], v.args[3]))
        absent = ev(st.facts, mk("cmp", d.af("rng_seed"), None, 0))
        for name in ("rng", "rng_seed"):
            for x in subterms(f[name]) if name in f else ():
                if x.op == "x" and NONDET.search(str(x.args[1])) and absent is not True:
                    cx.report("seed-clock:" + name, "the random generator of a run depends on the clock although a seed was given", loc)
                if x.op == "x" and NONDET.search(str(x.args[1])) and "SystemTime" not in str(x.args[1]):
                    cx.report("seed-source:" + name, "the random generator of a run depends on %s" % x.args[1], loc)

    d = drv.Driver(cx, at_plan)
    res = d.run()
    if res is None:
        return
    driver = set(res.inlined) | {d.entry.name}
    for f in fns:
        cx.analysed(f)
        for bi, b in enumerate(f.blocks):
            if b["cl"]:
                continue
            n, c = callee(b["t"])
            if n:
                cx.count("calls_examined")
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                    cx.report("address:" + f.name, "%s uses the address of an object as a number" % f.name, s[3] if len(s) > 3 else f.loc)
            if not n:
                continue
            src = NONDET.search(n) or NONDET.search(c.get("fn") or "")
            if not src:
                continue
            cx.count("nondeterministic_sources")
            if "SystemTime::now" in n and f.name in driver:
                continue
            cx.report("source:%s:%s" % (f.name, src.group(0)), "%s calls %s" % (f.name, n), f.loc)

    def rep(f, kind, msg, loc):
        cx.report("order:%s:%s" % (f.name, kind), "%s: %s" % (f.name, msg), loc)
    order.Order(prog, rep, cx.count).run(fns)
    cx.need("planned_runs", 2)
    cx.need("calls_examined", 2000)
    cx.need("hash_order_loops", 1)
