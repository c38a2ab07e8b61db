"""Failures of file, stream and process operations that a function answers with success."""
import re
from .sim import *
from . import rel, gen

IO = re.compile(r"^(std::fs::|std::process::Command::(output|spawn|status)|std::process::Child::)")
IOTRAIT = re.compile(r"^(std|core|alloc)::io(::\w+)*::(Write|Read|BufRead|Seek)$")


def io_name(c, name):
    if IO.match(name):
        return name
    tr = strip(c.get("trait") or "")
    m = re.match(r"^<.* as ([\w:]+)>::(\w+)$", name)
    if not tr and m:
        tr = m.group(1)
    if IOTRAIT.match(tr):
        return tr.rsplit("::", 1)[-1] + "::" + gen.short(name)
    return None


def strip(t):
    i = t.find("<")
    return t[:i] if i > 0 else t


def fallible(prog):
    """workspace functions with a Result that call, directly or not, an operation of the outside world"""
    out = []
    for n, f in sorted(prog.fns.items()):
        if not n.startswith(("mutagenyx", "<mutagenyx")) or "{closure" in n or f.derived or "core::result::Result" not in str(f.locals[0])[:24]:
            continue
        hit = False
        for g in prog.reachable([n]):
            h = prog.fns.get(g)
            if h is not None and any(io_name(c, gen.strip_generics(c["fn"])) for c, _ in gen.calls_of(h)):
                hit = True
                break
        if hit:
            out.append(n)
    return out


def swallowed(prog, n, count):
    """{operation} whose failure may be followed by success of n"""
    out = {}

    def on_call(sim, st, c, name, vals, loc):
        op = io_name(c, name)
        if op is None or op.endswith(("::by_ref", "::lines", "::bytes", "::stdin", "::stdout", "::args", "::arg", "::exists", "::is_file", "::is_dir", "::metadata", "::len")):
            return None
        dest = str(c.get("ret") or "")
        site = sim.site(st)
        return [(st.copy(), ok(mk("x", site, gen.short(name), ())), []), (st, err(mk("x", site, "E!" + gen.short(name), ())), [("failed", op, loc)])]
    res = Sim(prog, n, on_call=on_call, stop=lambda m: rel.is_stop(m, n) or "serde_json" in m, limit=8000).run()
    seen = {(0, None)}
    work = [(0, None)]
    while work:
        node, s = work.pop()
        if node in res.finals:
            kind, v = res.finals[node][:2]
            if kind == "return" and s and v.op == "agg" and v.args[1] == "Ok":
                out.setdefault(s[0], s[1])
        for evs, d in res.edges[node]:
            t = s
            for e in evs:
                if e[0] == "failed" and t is None:
                    t = (e[1], e[2])
                    count("io_failures")
            if (d, t) not in seen:
                seen.add((d, t))
                work.append((d, t))
    return out


def check(cx):
    prog, ref = cx.prog, rel.reference(cx.prog)
    fr = set(fallible(ref))
    for n in fallible(prog):
        if n not in fr:
            continue
        try:
            b = swallowed(prog, n, cx.count)
            if not b:
                cx.count("fallible_functions")
                cx.analysed(n)
                continue
            a = swallowed(ref, n, lambda *_: None)
        except Limit:
            cx.count("fallible_functions_undecided")
            cx.notes.append("undecided: failures in %s: too many states" % n)
            continue
        cx.count("fallible_functions")
        cx.analysed(n)
        for op in sorted(b):
            if op in a:
                cx.count("reviewed_ignored_failures")
                cx.notes.append("reviewed: %s succeeds although %s failed" % (n, op))
                continue
            cx.report("swallowed:%s:%s" % (n.replace("mutagenyx_lib::", ""), op), "%s reports success although %s failed" % (n, op), b[op])
