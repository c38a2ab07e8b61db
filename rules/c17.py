"""Every input file is processed, in order, exactly once."""
from vlib.sim import *
from vlib import gen, drv, mon, paths
from vlib.mon import Bad

RULE = ("(1) Mutate command, driver as an event automaton over all paths: between two command-line files, and before the run phase, the file just taken has been recognised and has either "
        "produced exactly one planned run (source or AST file) or, being a configuration file, exactly one planned run per entry of its file list; plans are only appended; the command returns Ok "
        "only after the list of plans is exhausted, running each plan once, front to back, and never before all command-line files have been taken. "
        "(2) Pretty-print command: the command returns Ok only after the list of files is exhausted, and every file taken is either written or a message is printed before the next one. "
        "(3) Nothing between the arguments and the loop reorders, deduplicates or truncates the list of files.")


def run(cx):
    d = drv.Driver(cx)
    if d.run() is not None:
        cx.attempt(driver, cx, d)
    cx.attempt(pretty, cx)


def driver(cx, d):
    files = d.af("file")

    def isrec(t):
        return [x for x in subterms(t) if x.op == "x" and x.args[1] == "recognize"]

    boxes = {loc_of(e[1]) for es in d.res.edges for evs, _ in es for e in evs if e[0] == "plan"} - {None}
    cx.count("plan_lists", len(boxes))

    def relayed(t):
        t = paths.strip(t)
        return t.op == "elem" and t.args[0].op in ("phi", "hv", "push")
    indirect = any(relayed(dict(zip(e[2].args[2], e[2].args[3])).get("file_name", UNIT)) for es in d.res.edges for evs, _ in es for e in evs if e[0] == "plan")
    if indirect:
        cx.notes.append("undecided: file names are collected into another container before runs are planned; configuration files are not followed")

    # state: (phase, plans since the file/entry was taken, "cli"/"cfg"/None, runs since plan taken, container of plans)
    def step(s, e):
        ph, n, kind, box = s
        k = e[0]
        if k == "failed" or indirect and k in ("iter", "exhausted") and drv_cfg(e[1]):
            return None
        if k == "iter":
            if e[1] is files:
                done(ph, n, kind, e)
                cx.count("cli_files")
                return ("file", 0, None, box)
            if drv_cfg(e[1]):
                if ph not in ("file", "entry"):
                    raise Bad("order", "entries of a configuration file are taken in phase %s" % ph)
                if ph == "entry" and n != 1:
                    raise Bad("entry", "an entry of a configuration file produces %d planned runs" % n)
                if ph == "file" and n:
                    raise Bad("both", "a configuration file itself is planned for mutation")
                cx.count("cfg_files")
                return ("entry", 0, "cfg", box)
            if ph == "run":
                if n == 0 and kind == "taken":
                    raise Bad("norun", "a planned run is skipped")
                return ("run", 0, "taken", box)
            if is_plans(e[1], boxes):
                return ("run", 0, "taken", box)
            return s
        if k == "exhausted":
            if e[1] is files:
                done(ph, n, kind, e)
                return ("all", 0, None, box)
            if drv_cfg(e[1]):
                if ph == "entry" and n != 1:
                    raise Bad("entry", "an entry of a configuration file produces %d planned runs" % n)
                return ("cfgdone", 0, None, box)
            if is_plans(e[1], boxes) or ph == "run":
                if ph == "run" and kind == "taken" and n == 0:
                    raise Bad("norun", "a planned run is skipped")
                if ph in ("all", "run"):
                    return ("end", 0, None, box)
            return s
        if k == "plan":
            cx.count("plan_sites")
            if ph not in ("file", "entry"):
                raise Bad("stray", "a run is planned in phase %s" % ph, e[3])
            if n:
                raise Bad("twice", "a file is planned more than once", e[3])
            return (ph, 1, kind, loc_of(e[1]))
        if k == "run":
            if ph in ("all", "run"):
                if kind == "taken" and n:
                    raise Bad("rerun", "a planned run is carried out more than once", e[2])
                el = e[1]
                if not any(x.op == "elem" for x in subterms(el)) and el.op not in ("phi", "hv", "elem"):
                    raise Bad("other", "the run is not one of the planned ones: %s" % show(el)[:100], e[2])
                return ("run", 1, "taken", box)
            raise Bad("early", "a run starts before every file has been planned (phase %s)" % ph, e[2])
        if k == "qremove" and is_plans(e[1], boxes):
            raise Bad("removed", "planned runs are removed or reordered by %s" % e[2], e[3])
        return s

    def done(ph, n, kind, e):
        if ph == "file" and n != 1:
            raise Bad("unplanned", "a command-line file is passed over without planning a run")
        if ph == "entry":
            raise Bad("cut", "the file list of a configuration is left before its end")

    def end(s, kind, value, fin):
        if kind != "return" or not (value.op == "agg" and value.args[1] == "Ok"):
            return
        if s[0] not in ("end",):
            raise Bad("early-return", "the command returns Ok in phase %s, before every file has been mutated" % s[0], d.entry.loc)

    mon.apply(cx, d.res, ("start", 0, None, None), step, end, prefix="mutate:")
    cx.attempt(order, cx, d, files)
    cx.need("cli_files", 1)
    cx.need("cfg_files", 1)
    cx.need("plan_sites", 2)


def order(cx, d, files):
    """The order of the runs: reversals of the iteration over command-line files, over a configuration's entries and over the planned runs, and plans put in
    front of the earlier ones, must cancel out."""
    runs, cli, cfg, front = set(), set(), set(), set()
    at = {}

    def flips(t, of):
        return {sum(1 for y in chain(x.args[0]) if y.op == "rev") % 2 for x in subterms(t) if x.op == "elem" and any(of(y) for y in chain(x.args[0]))}

    for es in d.res.edges:
        for evs, _ in es:
            for e in evs:
                if e[0] == "plan":
                    name = dict(zip(e[2].args[2], e[2].args[3])).get("file_name", UNIT)
                    c, g = flips(name, lambda y: y is files), flips(name, drv_cfg)
                    cli |= c if not g else set()
                    cfg |= g
                    i = e[4] if len(e) > 4 else None
                    front.add(None if i is not None and i.op != "i" else i is not None)
                    at.setdefault("plan", e[3])
                elif e[0] == "run":
                    runs |= {sum(1 for y in chain(x.args[0]) if y.op == "rev") % 2 for x in subterms(e[1]) if x.op == "elem"}
                    at.setdefault("run", e[2])
    cx.count("order_sources", len(runs) + len(cli) + len(cfg))
    if front == {True, False}:
        return cx.report("mutate:order", "some runs are put in front of the runs planned before, others are appended: the files are not mutated in the order given", at.get("plan"))
    if len(runs) > 1 or len(front) != 1 or None in front or len(cli) > 1 or len(cfg) > 1:
        cx.notes.append("undecided: order of planned runs (%s %s %s %s)" % (runs, front, cli, cfg))
        return
    r, f = (runs or {0}).pop(), int(front.pop())
    for what, s in (("command-line files", cli), ("entries of a configuration's file list", cfg)):
        if s and (r + f + s.copy().pop()) % 2:
            cx.report("mutate:order", "the %s are mutated in reverse order" % what, at.get("run") or at.get("plan"))


def chain(t):
    while True:
        yield t
        n = [a for a in t.args if isinstance(a, T)] if t.op in ("rev", "p", "own", "map", "enumerate", "copied") else []
        if not n:
            return
        t = n[0]


def drv_cfg(t):
    return t.op == "p" and t.args[1] == ("f", "filenames") and t.args[0].op == "x" and t.args[0].args[1] == drv.CFG


def loc_of(t):
    return gen.loc_name(t)


def is_plans(t, boxes):
    b = gen.base_of(t)
    return b.op == "phi" and b.args[1] in boxes


def pretty(cx):
    g = gen.pretty_flow(cx)
    if g is None or g.res is None:
        return
    files = g.pf("file")

    def step(s, e):
        k = e[0]
        if k == "iter" or k == "exhausted":
            if e[1] is not files and g.base(e[1]) is not files:
                return s
            if s == "file":
                raise Bad("skipped", "a file is neither printed nor reported")
            cx.count("pretty_files")
            return "file" if k == "iter" else "end"
        if k in ("write_file", "write_stream", "println") and s == "file":
            return "said"
        return s

    def end(s, kind, value, fin):
        if kind == "return" and s != "end" and not (value.op == "agg" and value.args[1] == "Err"):
            raise Bad("early-return", "the command returns before every file has been printed (%s)" % s, g.entry.loc)
    mon.apply(cx, g.res, "start", step, end, prefix="pretty-print:")
    cx.need("pretty_files", 2)
