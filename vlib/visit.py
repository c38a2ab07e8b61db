"""Protocol rules for traversals and visitors: event automata of the traversal functions and of the visitors' methods."""
import itertools
import re

from .sim import *
from .mir import strip_generics
from . import mon, rel, order
from .mon import Bad

CALLBACKS = ("on_enter", "have_permission_to_visit", "visit", "visit_mut", "visit_children", "on_start_visit_children", "on_end_visit_children", "on_exit")
ASKS = ("have_permission_to_visit", "visit", "visit_mut", "visit_children", "child")
NEXT = {  # (state, event, answer) -> state; the last letter of a final state is the value returned
    ("start", "on_enter", None): "entered",
    ("entered", "have_permission_to_visit", True): "permitted", ("entered", "have_permission_to_visit", False): "leave-F",
    ("permitted", "visit", True): "leave-T", ("permitted", "visit", False): "visited",
    ("visited", "visit_children", True): "descend", ("visited", "visit_children", False): "leave-F",
    ("descend", "on_start_visit_children", None): "children",
    ("children", "child", False): "children", ("children", "child", True): "stopped",
    ("children", "on_end_visit_children", None): "leave-F", ("stopped", "on_end_visit_children", None): "leave-T",
    ("leave-F", "on_exit", None): "done-F", ("leave-T", "on_exit", None): "done-T"}


def from_node(t, children=False):
    """is t the node (or one of the children) of the traversal's first argument"""
    names = [str(x.args[1] if x.op == "x" else x.args[0]) for x in subterms(t) if x.op in ("x", "call")]
    kids = any(n.rsplit("::", 1)[-1].startswith("get_children") for n in names)
    return kids if children else not kids and any(n.rsplit("::", 1)[-1].startswith("get_node") for n in names)


def traversals(cx):
    """every traversal keeps the callback protocol: enter, permission, visit, children in between their two callbacks, exit; a visitor that
    says stop is obeyed at once and the stop is handed on"""
    prog = cx.prog
    for name in sorted(prog.fns):
        f = prog.fns[name]
        if not name.rsplit("::", 2)[-2:][0] == "ASTTraverser" or not name.endswith(("::traverse", "::traverse_mut")):
            continue
        cx.analysed(f)
        cx.count("traversals")

        def on_call(sim, st, c, n, vals, loc):
            s = n.rsplit("::", 1)[-1]
            if n == name:
                s, k = "child", 0
            elif s in CALLBACKS and "visitor::Visitor" in n:
                k = 1
            else:
                return None
            node = sim.deref(st, vals[k]) if len(vals) > k else UNIT
            s = "visit" if s == "visit_mut" else s
            if s in ASKS:
                return [(st.copy(), TRUE, [(s, True, node, loc)]), (st.copy(), FALSE, [(s, False, node, loc)])]
            return [(st, UNIT, [(s, None, node, loc)])]

        res = Sim(prog, name, on_call=on_call).run()

        def step(s, e):
            n = NEXT.get((s, e[0], e[1]))
            if n is None:
                raise Bad("order:%s:%s" % (s, e[0]), "%s: %s in state '%s' of the callback protocol" % (name, e[0], s), e[3])
            if not from_node(e[2], e[0] == "child"):
                raise Bad("node:" + e[0], "%s: %s is not called for %s" % (name, e[0], "a child" if e[0] == "child" else "the node itself"), e[3])
            return n

        def end(s, kind, value, fin):
            if kind == "return":
                if not s.startswith("done"):
                    raise Bad("end:" + s, "%s returns in state '%s' of the callback protocol" % (name, s), f.loc)
                if value is not (TRUE if s == "done-T" else FALSE):
                    raise Bad("result:" + s, "%s returns %s although the visitor asked to %s" % (name, show(value)[:60], "stop" if s == "done-T" else "go on"), f.loc)
        mon.apply(cx, res, "start", step, end, prefix=name.rsplit("::", 1)[-1] + ":")
    cx.need("traversals", 2)


def impls(prog, trait, method):
    return [(s, f) for s, f in prog.impl_methods(trait, method) if "::tests::" not in s]


def one_mutation(cx):
    """a visitor that mutates does so at most once per visited node, on that node, and then stops the traversal; otherwise it lets it go on"""
    prog = cx.prog
    for self_ty, f in impls(prog, "VisitorMut", "visit_mut"):
        cx.analysed(f)
        cx.count("mutating_visitors")

        def on_call(sim, st, c, n, vals, loc):
            if n.rsplit("::", 1)[-1] == "mutate" and (c.get("trait") or n).endswith(("::Mutator", "Mutator::mutate")):
                site = sim.site(st)
                node = vals[1] if vals[1].op not in ("loc", "&") else sim.deref(st, vals[1])
                return [(st.copy(), ok(mk("x", site, "result", ())), [("mutate", node, loc)]), (st.copy(), err(mk("x", site, "E", ())), [("mutate", node, loc)])]
            return None
        res = Sim(prog, f, on_call=on_call).run()
        node = mk("arg", 2)

        def step(s, e):
            if e[0] != "mutate":
                return s
            if s:
                raise Bad("twice", "%s mutates twice in one visit" % f.name, e[2])
            if node not in subterms(e[1]) and not any(x.op == "hv" for x in subterms(e[1])):
                raise Bad("other", "%s mutates something else than the visited node: %s" % (f.name, show(e[1])[:80]), e[2])
            return 1

        def end(s, kind, value, fin):
            if kind == "return" and s and value is not TRUE:
                raise Bad("goes-on", "%s lets the traversal go on after a mutation (returns %s)" % (f.name, show(value)[:60]), f.loc)
            if kind == "return" and not s and value is not FALSE:
                raise Bad("stops", "%s stops the traversal without a mutation (returns %s)" % (f.name, show(value)[:60]), f.loc)
        mon.apply(cx, res, 0, step, end, prefix="visit_mut:")
    cx.need("mutating_visitors", 1)


def admission(cx, self_ty, f):
    """the condition under which a visitor asks the mutator about the node, as a set of sets of literals"""
    def on_call(sim, st, c, n, vals, loc):
        if n.rsplit("::", 1)[-1] == "is_mutable_node":
            return [(st.copy(), TRUE, [("ask", loc)]), (st.copy(), FALSE, [("ask", loc)])]
        if n.rsplit("::", 1)[-1] == "mutate":
            site = sim.site(st)
            return [(st.copy(), ok(mk("x", site, "result", ())), []), (st.copy(), err(mk("x", site, "E", ())), [])]
        return None
    names = fields_by_type(cx.prog, self_ty)
    res = Sim(cx.prog, f, on_call=on_call, on_branch=lambda sim, st, c, v: [("if", c, v)]).run()
    cx.analysed(f)
    out, seen, work = set(), set(), [(0, frozenset())]
    while work:
        cur = work.pop()
        if cur in seen or len(seen) > 20000:
            continue
        seen.add(cur)
        n, lits = cur
        for evs, d in res.edges[n]:
            l2, asked = set(lits), False
            for e in evs:
                if e[0] == "ask":
                    asked = True
                    break
                if e[0] == "if":
                    a = strip(show(e[1]), names)
                    if "mutator_map" not in a:
                        l2.add((a, e[2]))
            if asked:
                out.add(frozenset(l2))
            else:
                work.append((d, frozenset(l2)))
    cx.count("admission_paths", len(out))
    return out


def fields_by_type(prog, self_ty):
    """field name -> its type, for the fields whose type is unique in the struct (so that a renamed field is still recognised)"""
    adt = prog.adts.get(strip_generics(self_ty)) or next((a for n, a in prog.adts.items() if strip_generics(n) == strip_generics(self_ty)), None)
    if not adt or len(adt["variants"]) != 1:
        return {}
    fs = adt["variants"][0][1]
    tys = [t for _, t in fs]
    return {f: t for f, t in fs if tys.count(t) == 1}


def strip(s, names):
    s = re.sub(r"@[A-Za-z_]+:\d+", "", s)
    return re.sub(r"\barg1\.([a-z_0-9]+)", lambda m: "arg1.<%s>" % names.get(m.group(1), m.group(1)), s)


def counter_and_maker(cx):
    """the visitor that counts candidates and the one that mutates the i-th candidate apply the same admission condition, have the same
    permissions and keep the same state around children"""
    prog = cx.prog
    cs = [(s, f) for s, f in impls(prog, "Visitor", "visit") if calls(prog, f, "is_mutable_node")]
    ms = [(s, f) for s, f in impls(prog, "VisitorMut", "visit_mut") if calls(prog, f, "is_mutable_node")]
    cx.count("counting_visitors", len(cs))
    cx.count("mutating_visitors", len(ms))
    for s1, f1 in cs:
        for s2, f2 in ms:
            a, b = admission(cx, s1, f1), admission(cx, s2, f2)
            r = same_condition(a, b)
            cx.count("conditions_compared")
            if r is None:
                cx.notes.append("too many conditions in %s / %s" % (f1.name, f2.name))
            elif r is not True:
                cx.report("admission", "counting (%s) and mutating (%s) consider different nodes: they differ when %s" % (
                    f1.name, f2.name, "; ".join("%s is %s" % (k[:120], v) for k, v in sorted(r.items()))), f2.loc)
            t1, t2 = fields_by_type(prog, s1), fields_by_type(prog, s2)
            if any(t1.get(k) != t2.get(k) for k in set(t1) & set(t2)) or not {k for k, t in t1.items() if t in t2.values()} <= set(t2):
                cx.notes.append("the two visitors name their fields differently; their callbacks are not compared")
                continue
            for m in ("have_permission_to_visit", "visit_children", "on_start_visit_children", "on_end_visit_children"):
                g1 = dict(impls(prog, "Visitor", m)).get(s1)
                g2 = dict(impls(prog, "VisitorMut", m)).get(s2)
                if g1 is None or g2 is None:
                    cx.notes.append("%s is defaulted in one of the visitors" % m)
                    continue
                cx.count("callbacks_compared")
                c = rel.agree(prog, g1.name, g2.name, peel=1)
                for k, (kind, msg, loc, tr) in sorted(c.problems.items()):
                    cx.report("callback:" + m, "%s of the counting and the mutating visitor differ: %s" % (m, msg.replace("the reference", "the counting visitor")), loc or g2.loc, tr)
    cx.need("conditions_compared", 1)


def calls(prog, f, short):
    """does f, or a function or closure it calls in the workspace, call a method of that name"""
    todo, seen = [f.name], set()
    while todo:
        n = todo.pop()
        if n in seen or n not in prog.fns:
            continue
        seen.add(n)
        for b in prog.fns[n].blocks:
            t = b["t"]
            if t and t[0] == "call":
                nm = order.callee(t)[0] or ""
                if nm.rsplit("::", 1)[-1] == short:
                    return True
                if "mutagenyx" in nm:
                    todo.append(nm)
    return any(calls(prog, prog.fns[n], short) for n in prog.fns if n.startswith(f.name + "::{closure") and n not in seen)


def same_condition(a, b):
    """are two disjunctions of conjunctions the same boolean function of their atoms; None when there are too many atoms"""
    atoms = sorted({x for d in (a, b) for c in d for x, _ in c})
    if len(atoms) > 14:
        return None

    def val(d, asg):
        return any(all(asg[x] == v for x, v in c) for c in d)
    for bits in itertools.product((False, True), repeat=len(atoms)):
        asg = dict(zip(atoms, bits))
        if val(a, asg) != val(b, asg):
            return asg
    return True
