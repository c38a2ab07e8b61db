"""No duplicate mutants: a mutant is written only after its result was found absent from everything written before."""
from vlib.sim import *
from vlib import gen, mon
from vlib.mon import Bad

RULE = ("Every path of the generator to the write of a mutant passes the negative outcome of a membership test of that mutant's "
        "result in the container of earlier results; every written mutant is recorded in that container before the next mutant is "
        "produced; the container only grows; the equality of results compares the algorithm, the node and the random choices. "
        "Decided on the event automaton of the generator (MIR, callees of the binary crate inlined, path facts tracked).")


def eq_rule(cx):
    prog = cx.prog
    adt = [a for a in prog.adts if a.endswith("::MutatorResult")]
    if len(adt) != 1:
        cx.report("anchor:MutatorResult", "type of mutation results not found")
        return
    adt = adt[0]
    fields = [f for f, _ in prog.adts[adt]["variants"][0][1]]
    eqs = [m for i in prog.impls if i["trait"].endswith("cmp::PartialEq") and gen.strip_generics(i["self"]) == adt for m in i["methods"] if m[0] == "eq"]
    if len(eqs) != 1:
        cx.report("anchor:MutatorResult::eq", "no equality for mutation results")
        return
    f = prog.fns[eqs[0][1]]
    cx.analysed(f)
    need = [x for x in fields if x != "index"]
    a1, a2 = mk("arg", 1), mk("arg", 2)

    def pairs(conds, val_wanted):
        got = set()
        for c in conds:
            for x in fields:
                if c is t_eq(proj(a1, ("f", x)), proj(a2, ("f", x))):
                    got.add(x)
        return got

    def conj(t):
        if t.op == "and":
            return conj(t.args[0]) + conj(t.args[1])
        return [t]
    sim = Sim(prog, f, keep_all=True)
    res = sim.run()
    for kind, v, facts, store, aux in res.finals.values():
        if kind != "return":
            continue
        cx.count("equality_paths")
        true_eqs = set()
        for c, ff in facts.items():
            if ff == ("B", True):
                true_eqs |= pairs([c], True)
        if v is FALSE:
            continue
        rest = conj(v) if v is not TRUE else []
        known = true_eqs | pairs(rest, True)
        other = [r for r in rest if not pairs([r], True)]
        miss = [x for x in need if x not in known]
        if miss:
            cx.report("eq:ignores:" + ",".join(miss), "two results compare equal although they differ in %s" % ", ".join(miss), f.loc)
        if other:
            cx.report("eq:extra", "equality of results depends on something else: %s" % "; ".join(show(o)[:120] for o in other), f.loc)
    # equal results must be recognised: with every field pair equal the function returns true
    facts = [(t_eq(proj(a1, ("f", x)), proj(a2, ("f", x))), True) for x in fields]
    for kind, v, ff, store, aux in Sim(prog, f, keep_all=True, facts=facts).run().finals.values():
        if kind == "return" and ev(ff, v) is not True:
            cx.report("eq:irreflexive", "results with equal fields may compare unequal", f.loc)
    cx.need("equality_paths", 1)


def run(cx):
    moves = []

    def on_back(sim, st, key, hs):
        for k in set(hs.env) & set(st.env):
            a, b = hs.env[k], st.env[k]
            moves.append((k, key, a, b))
    g = gen.Gen(cx, on_back=on_back)
    if g.res is None:
        return
    containers = set()
    muts = set()

    def result_of(t, R):
        # the term contains R's mutator_result (or a part of it / the whole result)
        return any(x is R or (x.op == "p" and x.args[0] is R) for x in subterms(t))

    def step(s, e):
        # s = (current R or None, container it was found absent from or None, written?, recorded?)
        R, V, w, rec = s
        k = e[0]
        if k == "mutate":
            if w and not rec:
                raise Bad("unrecorded", "a written mutant's result is not recorded before the next mutant is produced", e[3])
            return (e[1], None, False, False)
        if R is None:
            return s
        if k == "seen" and result_of(e[2], R):
            containers.add(e[1])
            return (R, e[1] if not e[3] else "dup", w, rec)
        if k == "cmp_elem" and result_of(e[2], R) and e[3]:
            return (R, "dup", w, rec)
        if k == "exhausted" and V is None:
            return (R, V, w, rec)
        if k == "cmp_elem" and result_of(e[2], R):
            containers.add(e[1])
            return (R, ("scan", e[1]), w, rec)
        if k == "record" and result_of(e[2], R):
            if V is None or V == "dup" or isinstance(V, tuple):
                return s
            if not gen.same_container(e[1], V):
                return s
            return (R, V, w, True)
        if k in ("write_file", "write_stream"):
            ast = e[2][1] if len(e[2]) > 1 else None
            ms = gen.mut_of(ast) if ast is not None else set()
            if not ms:
                return s
            muts.add(ast)
            if ms != {R}:
                raise Bad("stale", "the AST written is not the one most recently mutated", e[3])
            if V == "dup":
                raise Bad("dup-written", "a mutant whose result was already observed is written", e[3])
            if V is None or isinstance(V, tuple):
                raise Bad("unchecked", "a mutant is written without testing its result against the results already observed", e[3])
            return (R, V, True, rec)
        if k == "failed" and e[1] in ("write_file", "write_stream"):
            return None
        return s

    # membership by explicit scan: absence is established when the container is exhausted without a match
    def step2(s, e):
        R, V, w, rec = s
        if e[0] == "exhausted" and R is not None and (V is None or isinstance(V, tuple)) and e[1] in scanned:
            return (R, e[1], w, rec)
        return step(s, e)
    scanned = {e[1] for e in g.events("cmp_elem")}
    mon.apply(cx, g.res, (None, None, False, False), step2)
    for ast in muts:
        cx.count("mutant_write_terms")
        cx.sample("mutant written: " + show(ast)[:120])
    cx.count("result_containers", len({gen.loc_name(c) or c for c in containers}))
    cx.need("mutant_write_terms", 1)
    cx.need("result_containers", 1, hard=True)
    names = {gen.loc_name(c) for c in containers}
    for k, key, a, b in moves:
        nm = str((("L",) + k, ()))
        if nm in names:
            cx.count("container_back_edges")
            t = b
            while t.op in ("push", "mput") or (t.op == "x" and False):
                t = t.args[0]
            if t is a or (t.op == "phi" and t.args[1] == nm) or (a.op == "phi" and t is a):
                continue
            if t.op == "arr" and a.op == "arr" and b.op == "push":
                continue
            if b.op == "arr" and a.op == "arr" and b.args[0][:len(a.args[0])] == a.args[0]:
                continue
            cx.report("shrinks", "the container of observed results does not keep everything recorded (becomes %s)" % show(b)[:120], g.entry.loc)
    cx.need("container_back_edges", 1)
    eq_rule(cx)
