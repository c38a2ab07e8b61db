"""Agreement of the tables of mutation algorithms: name <-> type, description list, factory, implements()."""
from .sim import *


def algorithms(prog):
    """every value of MutationType: [(label, term)]"""
    top = next((a for n, a in prog.adts.items() if n.endswith("mutation::MutationType")), None)
    out = []
    for v, fields in top["variants"] if top else ():
        sub = prog.adts.get(fields[0][1]) if len(fields) == 1 else None
        if not fields:
            out.append((v, agg(top["name"], v, (), ())))
        elif sub and sub["enum"] and all(not fs for _, fs in sub["variants"]):
            for w, _ in sub["variants"]:
                out.append((w, agg(top["name"], v, (fields[0][0],), (agg(sub["name"], w, (), ()),))))
    return out


def names_of(prog, value, fmt):
    """the texts Display writes for a value"""
    texts = set()

    def on_call(sim, st, c, n, vals, loc):
        s = n.rsplit("::", 1)[-1]
        if s in ("write_str", "pad", "write_fmt") and len(vals) == 2:
            texts.add(sim.deref(st, vals[1]))
            return [(st, ok(UNIT), [])]
        return None
    Sim(prog, fmt, args={1: value}, on_call=on_call).run()
    return texts


def returns(prog, f, args):
    return [x[1] for x in Sim(prog, f, args=args).run().finals.values() if x[0] == "return"]


def check(cx):
    prog = cx.prog
    algs = algorithms(prog)
    cx.count("algorithms", len(algs))
    fmt = next((f for s, f in prog.impl_methods("Display", "fmt") if s.endswith("mutation::MutationType")), None)
    parse = next((f for s, f in prog.impl_methods("FromStr", "from_str") if s.endswith("mutation::MutationType")), None)
    if fmt is None or parse is None or not algs:
        cx.notes.append("the name conversions of MutationType were not found; the name table is not checked")
        return
    cx.analysed(fmt, parse)
    names = {}
    for label, v in algs:
        texts = names_of(prog, v, fmt)
        lits = [t.args[0] for t in texts if t.op == "s"]
        if len(texts) != 1 or len(lits) != 1:
            cx.notes.append("the name of %s is not a literal (%s)" % (label, [show(t)[:40] for t in texts]))
            continue
        name = lits[0]
        cx.count("names")
        if name in names:
            cx.report("same-name:" + label, "the algorithms %s and %s have the same name %r" % (names[name], label, name), fmt.loc)
        names[name] = label
        back = returns(prog, parse, {1: S(name)})
        cx.count("names_parsed")
        if not any(b is ok(v) for b in back):
            cx.report("parse:" + label, "the name %r of algorithm %s is not parsed back to it but to %s" % (name, label, ", ".join(show(b)[:60] for b in back)), parse.loc)
    r = Sim(prog, parse).run()
    for kind, val, facts, _, _ in r.finals.values():
        if kind == "return" and val.op == "agg" and val.args[1] == "Ok":
            t = facts.get(mk("arg", 1))
            if t and t[0] == "E" and isinstance(t[1], T) and t[1].op == "s":
                cx.count("spellings")
                if len(names) == len(algs) and t[1].args[0] not in names:
                    cx.report("alias:" + t[1].args[0], "the spelling %r is accepted although no algorithm has that name" % t[1].args[0], parse.loc)
            else:
                cx.notes.append("an accepting path of from_str is not tied to one spelling")
    for n, f in sorted(prog.fns.items()):
        if n.endswith("mutation::all_algorithm_descriptions"):
            cx.analysed(f)
            for m in returns(prog, f, None):
                keys, dup = [], False
                while m.op == "mput":
                    keys.append(m.args[1])
                    m = m.args[0]
                if m.op != "map0":
                    cx.notes.append("the description table is not built from literal entries")
                    continue
                cx.count("descriptions", len(keys))
                for label, v in algs:
                    if v not in keys:
                        cx.report("undescribed:" + label, "algorithm %s is missing from the listed algorithms, so all-mutations leaves it out" % label, f.loc)
    for self_ty, f in prog.impl_methods("MutatorFactory", "mutator_for"):
        cx.analysed(f)
        for label, v in algs:
            for m in returns(prog, f, {2: v}):
                if m is NONE:
                    continue
                t = m.args[3][0] if m.op == "agg" and m.args[1] == "Some" else None
                while t is not None and t.op in ("&", "box"):
                    t = t.args[0]
                if t is None or t.op != "agg":
                    cx.notes.append("the mutator made for %s is not known: %s" % (label, show(m)[:60]))
                    continue
                g = next((g for s, g in prog.impl_methods("Mutator", "implements") if s.split("<")[0] == t.args[0].split("<")[0]), None)
                if g is None:
                    cx.notes.append("no implements() for %s" % t.args[0])
                    continue
                cx.count("factory_entries")
                for w in returns(prog, g, {1: t}):
                    if w is not v and w.op == "agg":
                        cx.report("factory:%s:%s" % (self_ty.rsplit("::", 1)[-1], label), "asked for %s, the factory makes a %s that implements %s" % (label, t.args[0].rsplit("::", 1)[-1], show(w)), f.loc)
