"""Transfer functions for standard-library, serde_json and other external calls (used by vlib/sim.py)."""
import json
import re

from .sim import (T, mk, entries, mlookup, map_put, subterms, subst, S, I, B, TRUE, FALSE, UNIT, NONE, some, ok, err, tup, agg, OPT, RES, proj, projs, elem, discr, DTAB,
                  t_eq, t_not, t_lt, t_add, t_sub, t_len, cat, isconst, addc, assume, ev, fact_subjects)

IO_PREFIX = ("std::fs", "std::process", "std::env", "std::time", "std::io", "chrono::", "termsize", "clap", "rand", "core::io",
             "openssl", "alloc::io", "std::thread", "std::net", "getrandom", "env_logger", "log::")
NONDET = ("std::fs", "std::process", "std::env", "std::time", "std::io", "chrono::", "termsize")


def impure(name):
    n = name[1:] if name.startswith("<") else name
    return n.startswith(IO_PREFIX) and not n.startswith("std::process::ExitStatus::")


# ---------------------------------------------------------------- helpers
def one(st, v, ev_=()):
    return [(st, v, ev_)]


def fork(sim, st, cond, tv, fv):
    """two outcomes on a condition; tv / fv are values or None (infeasible) or callables(state)->value"""
    if cond.op == "b":
        v = tv if cond.args[0] else fv
        return one(st, v(st) if callable(v) else v)
    sim.tests.setdefault(sim.cur, set()).update(fact_subjects(cond))
    out = []
    for val, v in ((True, tv), (False, fv)):
        s2 = st.copy()
        if sim.with_facts and not assume(s2.facts, cond, val):
            continue
        e = sim.on_branch(sim, s2, cond, val) if sim.on_branch else None
        out.append((s2, v(s2) if callable(v) else v, tuple(e) if isinstance(e, list) else ()))
    return out


def assumed(sim, st, cond):
    """the path goes on only where cond holds (it panics elsewhere)"""
    if cond.op == "b" or not sim.with_facts or ev(st.facts, cond) is not None:
        return ()
    sim.tests.setdefault(sim.cur, set()).update(fact_subjects(cond))
    assume(st.facts, cond, True)
    e = sim.on_branch(sim, st, cond, True) if sim.on_branch else None
    return tuple(e) if isinstance(e, list) else ()


def isv(sim, v, variant, univ):
    d = discr(v)
    if d.op == "discr":
        DTAB.setdefault(d, univ)
    if d.op == "s":
        return B(d.args[0] == variant)
    return mk("isv", d, variant)


U_OPT = {0: "None", 1: "Some"}
U_RES = {0: "Ok", 1: "Err"}
U_VAL = {0: "Null", 1: "Bool", 2: "Number", 3: "String", 4: "Array", 5: "Object"}


def pay(v, variant):
    return proj(proj(v, ("v", variant)), ("f", "0"))


def ident(sim, st, c, vals, atys):
    return one(st, vals[0])


def clone(sim, st, c, vals, atys):
    v = sim.deref(st, vals[0])
    if atys and atys[0].endswith(VAL):
        v = own(sim, st, v)
    return one(st, v)


OPAQUE = {"key", "arg", "elem", "p", "phi", "x", "call", "get", "own", "hv", "elem?", "upd"}


def own(sim, st, v):
    """the present contents of the JSON location v as a value of its own: later changes of the location do not show in it"""
    if v.op not in OPAQUE:
        return v
    t = mk("own", v, sim.site(st))
    for r, val in list(st.store.items()):
        if r is not v and v in subterms(r):
            st.store[subst(r, v, t)] = val
    for k, f in list(st.facts.items()):
        if v in subterms(k):
            st.facts[subst(k, v, t)] = f
    return t


# ---------------------------------------------------------------- Try
def try_branch(sim, st, c, vals, atys):
    v = vals[0]
    CF = "core::ops::control_flow::ControlFlow"
    isopt = "Option" in (c.get("ga") or [""])[0][:30] or (v.op == "agg" and v.args[0] == OPT)
    if isopt:
        return fork(sim, st, isv(sim, v, "Some", U_OPT), agg(CF, "Continue", ("0",), (pay(v, "Some"),)),
                    agg(CF, "Break", ("0",), (NONE,)))
    return fork(sim, st, isv(sim, v, "Ok", U_RES), agg(CF, "Continue", ("0",), (pay(v, "Ok"),)),
                agg(CF, "Break", ("0",), (err(pay(v, "Err")),)))


def from_residual(sim, st, c, vals, atys):
    v = vals[0]
    if v.op == "agg" and v.args[0] == OPT:
        return one(st, NONE)
    # `?` converts the error with From
    ga = c.get("ga") or []
    if len(ga) == 2 and "models::Result_map_err" in sim.p.fns and ga[0].endswith(">") and ga[1].endswith(">"):
        to, frm = ga[0][:-1].rsplit(", ", 1)[-1], ga[1][:-1].split(", ", 1)[-1]
        n = "<%s as core::convert::From<%s>>::from" % (to, frm)
        if to != frm and n in sim.p.fns:
            return ("inline", "models::Result_map_err", [err(pay(v, "Err")), mk("fn", n)])
    return one(st, err(pay(v, "Err")))


# ---------------------------------------------------------------- comparisons
def p_eq(sim, st, c, vals, atys):
    a, b = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    t = t_eq(a, b)
    if t.op != "eq":
        return one(st, t)
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and y.args[1] == "Some" and len(y.args[3]) == 1 and x.op != "agg":
            # equal to Some(v): present, and the payload equal to v
            inner = sim.deref(st, y.args[3][0])
            return fork(sim, st, isv(sim, x, "Some", U_OPT),
                        lambda s, x=x, inner=inner: t_eq(sim.deref(s, pay(x, "Some")), inner), FALSE)
    ga = (c.get("ga") or [""])[0].lstrip("& ")
    adt = sim.p.adts.get(ga)
    if adt and adt["enum"] and 1 < len(adt["variants"]) <= 4 and all(not v[1] for v in adt["variants"]):
        # a small enum without payloads: equality is equality of the variants, decided by cases like a match
        vs = [v[0] for v in adt["variants"]]
        univ = dict(enumerate(vs))
        out, todo = [], [(st, ())]
        isv(sim, b, vs[0], univ)
        for i, v in enumerate(vs):
            nxt = []
            for s, e in todo:
                if i == len(vs) - 1:
                    out.append((s, isv(sim, b, v, univ), e))
                    continue
                for s2, val, e2 in fork(sim, s, isv(sim, a, v, univ), TRUE, FALSE):
                    if val is TRUE:
                        out.append((s2, isv(sim, b, v, univ), e + e2))
                    else:
                        nxt.append((s2, e + e2))
            todo = nxt
        return out
    return one(st, t)


def p_ne(sim, st, c, vals, atys):
    return [(s, t_not(v), e) for s, v, e in p_eq(sim, st, c, vals, atys)]


def p_cmp(op):
    def h(sim, st, c, vals, atys):
        ga = " ".join(c.get("ga") or [])
        if "log::Level" in ga:
            return one(st, FALSE)
        return one(st, sim.binop(st, op, sim.deref(st, vals[0]), sim.deref(st, vals[1])))
    return h


def p_minmax(which):
    def h(sim, st, c, vals, atys):
        ga = (c.get("ga") or [""])[0]
        if ga not in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize"):
            return None
        a, b = vals
        return fork(sim, st, t_lt(b, a), b if which == "min" else a, a if which == "min" else b)
    return h


def changing(f):
    """functions that change a text: computed on constants only"""
    def h(sim, st, c, vals, atys):
        a = [sim.deref(st, v) for v in vals]
        if len(a) == 1 and a[0].op == "s":
            return one(st, S(f(a[0].args[0])))
        return None
    return h


def eq_nocase(sim, st, c, vals, atys):
    a, b = [sim.deref(st, v) for v in vals]
    if a is b:
        return one(st, TRUE)
    n = "alloc::str::<impl str>::to_ascii_lowercase"
    x, y = [S(v.args[0].lower()) if v.op == "s" and v.args[0].isascii() else mk("call", n, (v,)) for v in (a, b)]
    return one(st, t_eq(x, y))


# ---------------------------------------------------------------- strings / formatting
STRTY = ("str", "alloc::string::String", "&str", "&&str", "&alloc::string::String", "char", "&&&str", "&mut alloc::string::String",
         "std::path::Display<'_>", "&std::path::Display<'_>", "&char", "alloc::borrow::Cow<'_, str>")


def display(sim, st, v, ty):
    v = sim.deref(st, v)
    if ty.replace("'_ ", "") in STRTY or v.op in ("s", "cat", "ch", "disp"):
        return v
    if v.op == "i":
        return S(str(v.args[0]))
    if v.op == "b":
        return S("true" if v.args[0] else "false")
    return mk("disp", v, ty)


def fmt_arg(kind):
    def h(sim, st, c, vals, atys):
        ga = [x for x in (c.get("ga") or []) if not x.startswith("'")]
        ty = ga[0] if ga else "?"
        v = sim.deref(st, vals[0])
        if kind == "display":
            return one(st, mk("fmtarg", display(sim, st, v, ty)))
        return one(st, mk("fmtarg", mk(kind, v)))
    return h


def parse_template(bs):
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode("utf8", "replace"))
            i += ln
        else:
            opt = []
            if b & 1:
                opt.append(("flags", bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24))
                i += 4
            if b & 2:
                opt.append(("w", bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 4:
                opt.append(("p", bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append((n, tuple(opt)))
            n += 1
    return out


def args_new(sim, st, c, vals, atys):
    tpl, av = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    bs = None
    if tpl.op == "arr" and all(x.op == "i" for x in tpl.args[0]):
        bs = [x.args[0] for x in tpl.args[0]]
    elif tpl.op == "s":
        bs = list(tpl.args[0].encode("latin1", "replace"))
    if bs is None or av.op != "arr":
        return one(st, mk("call", "fmt", (tpl, av)))
    parts = []
    for x in parse_template(bs):
        if isinstance(x, str):
            parts.append(S(x))
        else:
            a = av.args[0][x[0]]
            a = a.args[0] if a.op == "fmtarg" else a
            parts.append(mk("fmtopt", a, str(x[1])) if x[1] else a)
    return one(st, cat(*parts))


def to_string(sim, st, c, vals, atys):
    ga = [x for x in (c.get("ga") or []) if not x.startswith("'")]
    return one(st, display(sim, st, vals[0], ga[0] if ga else "?"))


def push_str(sim, st, c, vals, atys):
    cur = sim.deref(st, vals[0])
    sim.write_ptr(st, vals[0], cat(cur, sim.deref(st, vals[1])))
    return one(st, UNIT)


def str_add(sim, st, c, vals, atys):
    return one(st, cat(sim.deref(st, vals[0]), sim.deref(st, vals[1])))


def length(sim, st, c, vals, atys):
    return one(st, t_len(sim.deref(st, vals[0])))


def is_empty(sim, st, c, vals, atys):
    return one(st, t_eq(t_len(sim.deref(st, vals[0])), I(0)))


def pred(op):
    def h(sim, st, c, vals, atys):
        a = [sim.deref(st, v) for v in vals]
        if all(x.op in ("s", "ch") for x in a) and len(a) == 2:
            x, y = [(z.args[0] if z.op == "s" else chr(z.args[0])) for z in a]
            if op == "starts_with":
                return one(st, B(x.startswith(y)))
            if op == "ends_with":
                return one(st, B(x.endswith(y)))
            if op == "strcontains":
                return one(st, B(y in x))
        a = [a[0]] + [pattern(x) for x in a[1:]]
        if op == "strcontains" and len(a) == 2:
            f = found(*a)
            return one(st, FALSE if f is NONE else isv(sim, f, "Some", U_OPT))
        return one(st, mk(op, *a))
    return h


def pattern(x):
    return S(chr(x.args[0])) if x.op == "ch" else x


FIND, REPLACE = "core::str::<impl str>::find", "alloc::str::<impl str>::replace"


def cleared(t, a):
    """was every occurrence of the text a replaced in t by something that does not bring it back"""
    return t.op == "call" and t.args[0] == REPLACE and t.args[1][1] is a and a.op == "s" and t.args[1][2].op == "s" and len(a.args[0]) == 1 and a.args[0] not in t.args[1][2].args[0]


def found(t, a):
    return NONE if cleared(t, a) else mk("call", FIND, (t, a))


def str_find(sim, st, c, vals, atys):
    t, a = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if a.op not in ("s", "ch") or t.op == "s":
        return None
    return one(st, found(t, pattern(a)))


def str_replace(sim, st, c, vals, atys):
    t, a, b = (sim.deref(st, v) for v in vals)
    if a.op not in ("s", "ch") or b.op != "s" or t.op == "s":
        return None
    a = pattern(a)
    if cleared(t, a):
        return one(st, t)
    return fork(sim, st, isv(sim, found(t, a), "Some", U_OPT), mk("call", REPLACE, (t, a, b)), t)


# ---------------------------------------------------------------- Vec / slice
def vec_new(sim, st, c, vals, atys):
    return one(st, mk("arr", ()))


def vec_push(sim, st, c, vals, atys):
    cur = sim.deref(st, vals[0])
    v = vals[1]
    new = mk("arr", cur.args[0] + (v,)) if cur.op == "arr" else mk("push", cur, v)
    sim.write_ptr(st, vals[0], new)
    return one(st, UNIT)


def known_lt(st, a, b):
    if ev(st.facts, t_lt(a, b)) is True:
        return True
    return ev(st.facts, t_lt(b, a)) is False and ev(st.facts, t_eq(a, b)) is False


def vec_get(st, v, i):
    """v[i], seen through the removals whose position relative to i is known"""
    while v.op == "remove" and known_lt(st, i, v.args[1]):
        v = v.args[0]
    return elem(v, i)


def swapped(v, a, b):
    return mk("swap", v, *sorted((a, b), key=lambda t: t.n))


def as_swap(st, cur, i, x):
    """insert(i, x) that completes remove(b), remove(a), insert(a, v[b]), insert(b, v[a]) with a < b"""
    if cur.op == "insert" and cur.args[0].op == "remove" and cur.args[0].args[0].op == "remove":
        ins, a1, y = cur.args
        rem2, a = ins.args
        v, b = rem2.args
        if a1 is a and i is b and y is elem(v, b) and x is elem(v, a) and known_lt(st, a, b):
            return swapped(v, a, b)
    return None


def vec_op(op, ret="unit"):
    """functional update: v := op(v, args)"""
    def h(sim, st, c, vals, atys):
        cur = sim.deref(st, vals[0])
        rest = tuple(sim.deref(st, v) if v.op in ("loc", "&") else v for v in vals[1:])
        if cur.op == "arr" and op == "append" and len(rest) == 1 and rest[0].op == "arr":
            new = mk("arr", cur.args[0] + rest[0].args[0])
        elif op == "clear":
            new = mk("arr", ())
        elif op == "reverse" and cur.op == "arr":
            new = mk("arr", tuple(reversed(cur.args[0])))
        elif op == "reverse":
            new = cur.args[0] if cur.op == "rev" else mk("rev", cur)
        elif op == "insert" and cur.op == "arr" and rest[0].op == "i" and rest[0].args[0] <= len(cur.args[0]):
            i = rest[0].args[0]
            new = mk("arr", cur.args[0][:i] + (rest[1],) + cur.args[0][i:])
        elif op == "swap" and len(rest) == 2:
            new = swapped(cur, *rest)
        else:
            new = (as_swap(st, cur, *rest) if op == "insert" and len(rest) == 2 else None) or mk(op, cur, *rest)
        r = UNIT
        if ret == "elem":
            r = vec_get(st, cur, rest[0])
        elif ret == "swapped":
            r = mk("x", sim.site(st), op, (cur,) + rest)
        sim.write_ptr(st, vals[0], new)
        return one(st, r)
    return h


def vec_pop(sim, st, c, vals, atys):
    cur = sim.deref(st, vals[0])
    if cur.op == "arr":
        if not cur.args[0]:
            return one(st, NONE)
        sim.write_ptr(st, vals[0], mk("arr", cur.args[0][:-1]))
        return one(st, some(cur.args[0][-1]))
    if cur.op == "push":
        sim.write_ptr(st, vals[0], cur.args[0])
        return one(st, some(cur.args[1]))

    def t(s2):
        sim.write_ptr(s2, vals[0], mk("popped", cur))
        return some(mk("last", cur))
    return fork(sim, st, t_not(t_eq(t_len(cur), I(0))), t, NONE)


def deq_remove(sim, st, c, vals, atys):
    """VecDeque::remove / pop_front: Option of the removed element"""
    idx = vals[1] if len(vals) > 1 else I(0)
    cur = sim.deref(st, vals[0])

    def t(s2):
        if cur.op == "arr" and idx.op == "i":
            i = idx.args[0]
            sim.write_ptr(s2, vals[0], mk("arr", cur.args[0][:i] + cur.args[0][i + 1:]))
        else:
            sim.write_ptr(s2, vals[0], mk("removed", cur, idx))
        return some(elem(cur, idx))
    return fork(sim, st, t_lt(idx, t_len(cur)), t, NONE)


def contains(sim, st, c, vals, atys):
    lst, x = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if lst.op == "arr":
        el = lst.args[0]
        if all(isconst(e) for e in el):
            if isconst(x):
                return one(st, B(x in el))
            return one(st, mk("in", x, frozenset(el)) if el else FALSE)
        if all(e.op == "agg" and not e.args[3] for e in el) and x.op == "agg":
            return one(st, B(x in el))
    if lst.op == "agg" and lst.args[0].endswith("Range"):
        a, b = lst.args[3][:2]
        x2 = I(x.args[0]) if x.op == "ch" else x
        c1, c2 = t_not(t_lt(x2, a)), t_lt(x2, b)
        if c1.op == "b":
            return one(st, c2 if c1.args[0] else FALSE)
        if c2.op == "b":
            return one(st, c1 if c2.args[0] else FALSE)
        return one(st, mk("and", c1, c2))
    return one(st, mk("contains", lst, x))


def slice_get(sim, st, c, vals, atys):
    ptr, idx = vals[0], vals[1]
    src = sim.deref(st, ptr)
    if idx.op in ("i", "ind", "phi", "add", "len", "p", "x", "call", "elem", "arg", "bin", "cast", "sub", "sum") or True:
        if idx.op == "agg":
            return one(st, mk("call", "getrange", (src, idx)))
        if ptr.op == "loc":
            v = some(mk("loc", ptr.args[0], ptr.args[1] + (("i", idx),)))
        else:
            v = some(elem(src, idx))
        return fork(sim, st, t_lt(idx, t_len(src)), v, NONE)


def first_(sim, st, c, vals, atys):
    return slice_get(sim, st, c, [vals[0], I(0)], atys)


def last_(sim, st, c, vals, atys):
    src = sim.deref(st, vals[0])
    n = t_len(src)
    return slice_get(sim, st, c, [vals[0], addc(n, -1)], atys) if n.op == "i" and n.args[0] > 0 else \
        fork(sim, st, t_not(t_eq(n, I(0))), some(elem(src, addc(n, -1)) if vals[0].op != "loc" else mk("loc", vals[0].args[0], vals[0].args[1] + (("i", addc(n, -1)),))), NONE)


def index(sim, st, c, vals, atys):
    ptr, idx = vals[0], sim.deref(st, vals[1])
    src = sim.deref(st, ptr)
    ga = " ".join(c.get("ga") or []) + c["fn"] + (c.get("res") or "")
    if idx.op == "agg" and "Range" in idx.args[0]:
        if idx.args[0].endswith("RangeFull"):
            return one(st, ptr)
        return one(st, mk("slice", src, idx))
    if idx.op == "s" or "HashMap" in ga or "&str" in atys[1]:
        if "serde_json" in (c.get("res") or ""):
            return one(st, mk("key", src, idx))
        return map_index(sim, st, c, vals, atys)
    if "serde_json" in (c.get("res") or ""):
        return one(st, mk("key", src, idx))
    if ptr.op == "loc":
        return one(st, mk("loc", ptr.args[0], ptr.args[1] + (("i", idx),)))
    if "usize" in atys[1] or idx.op in ("i", "ind"):
        out = []
        cnd = t_lt(idx, t_len(src))
        r = ev(st.facts, cnd)
        if sim.panics and r is not True:
            s2 = st.copy()
            out.append((s2, None, (("panic", "index", cnd, sim.site(st), ""),)))
        e = assumed(sim, st, cnd)
        return out + one(st, elem(src, idx), e)
    return one(st, elem(src, idx))


# ---------------------------------------------------------------- maps
def map_new(sim, st, c, vals, atys):
    return one(st, mk("map0"))


def map_insert(sim, st, c, vals, atys):
    cur, k, v = sim.deref(st, vals[0]), vals[1], vals[2]
    if cur.op == "obj":  # map behind a JSON object
        e = ()
        tgt = mk("key", cur.args[0], k)
        if sim.on_store:
            e = tuple(sim.on_store(sim, st, ("T", tgt), (), v, "") or ())
        st.store[tgt] = v
        return one(st, mk("call", "oldvalue", (tgt,)), e)
    sim.write_ptr(st, vals[0], map_put(cur, k, v))
    return one(st, mk("mget", cur, k))


def map_get(sim, st, c, vals, atys):
    m, k = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if m.op == "obj":
        return json_get(sim, st, c, [m.args[0], k], atys)
    v, dec = mlookup(m, k)
    if dec is True:
        return one(st, NONE if v is None else some(v))
    base = m
    while base.op == "mput" and dec is None:
        base = base.args[0]
    g = mk("mget", base, k)
    cond = isv(sim, g, "Some", U_OPT)
    return fork(sim, st, cond, some(mk("mval", base, k)), NONE)


def map_get_mut(sim, st, c, vals, atys):
    m, k = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if m.op == "obj":
        return json_get(sim, st, c, [m.args[0], k], atys)
    root, path = sim.ptr_cell(vals[0])
    at = mk("loc", root, path + (("mk", k),))
    v, dec = mlookup(m, k)
    if dec is True:
        return one(st, NONE if v is None else some(at))
    base = m
    while base.op == "mput" and dec is None:
        base = base.args[0]
    return fork(sim, st, isv(sim, mk("mget", base, k), "Some", U_OPT), some(at), NONE)


def map_entry(sim, st, c, vals, atys):
    k = sim.deref(st, vals[1])
    if sim.deref(st, vals[0]).op == "obj":
        return one(st, mk("call", c["fn"], (sim.deref(st, vals[0]), k)))
    return one(st, agg("mapentry", "E", ("m", "k"), (vals[0], k)))


def entry_or_insert(default=False):
    def h(sim, st, c, vals, atys):
        e = vals[0]
        if e.op != "agg" or e.args[0] != "mapentry":
            return one(st, mk("call", c["fn"], tuple(sim.deref(st, v) for v in vals)))
        ptr, k = e.args[3]
        v = vals[1] if not default else default_of(([g for g in c.get("ga") or () if not g.startswith("'")] + ["", ""])[1])
        m = sim.deref(st, ptr)
        root, path = sim.ptr_cell(ptr)
        at = mk("loc", root, path + (("mk", k),))

        def vacant(s2):
            sim.write_ptr(s2, ptr, map_put(sim.deref(s2, ptr), k, v))
            return at
        x, dec = mlookup(m, k)
        if dec is True:
            return one(st, at if x is not None else vacant(st))
        base = m
        while base.op == "mput" and dec is None:
            base = base.args[0]
        return fork(sim, st, isv(sim, mk("mget", base, k), "Some", U_OPT), at, vacant)
    return h


def default_of(ty):
    if ty in ("usize", "u64", "i32", "i64", "u32", "u8", "isize", "i8", "u16", "i16", "u128", "i128"):
        return I(0)
    if ty == "bool":
        return FALSE
    if ty == "alloc::string::String" or re.match(r"&('\w+ )?str$", ty):
        return S("")
    if ty == "()":
        return UNIT
    if ty.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<")):
        return mk("arr", ())
    if ty.startswith(("std::collections::hash::map::HashMap<", "alloc::collections::btree::map::BTreeMap<", "serde_json::map::Map<")):
        return mk("map0")
    if ty.startswith("core::option::Option<"):
        return NONE
    return mk("default", ty)


def unwrap_or_default(variant, univ):
    def h(sim, st, c, vals, atys):
        d = default_of((c.get("ga") or ["?"])[0])
        if d.op == "default":
            return None
        return fork(sim, st, isv(sim, vals[0], variant, univ), pay(vals[0], variant), d)
    return h


def map_index(sim, st, c, vals, atys):
    m, k = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    v, dec = mlookup(m, k)
    if dec is True and v is not None:
        return one(st, v)
    base = m
    while base.op == "mput" and dec is None:
        base = base.args[0]
    g = mk("mget", base, k)
    cond = isv(sim, g, "Some", U_OPT)
    out = []
    if sim.panics and ev(st.facts, cond) is not True:
        s2 = st.copy()
        out.append((s2, None, (("panic", "mapindex", cond, sim.site(st), ""),)))
    e = assumed(sim, st, cond)
    return out + one(st, mk("mval", base, k), e)


def map_contains(sim, st, c, vals, atys):
    m, k = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if m.op == "obj":
        return fork(sim, st, isv(sim, mk("get", m.args[0], k), "Some", U_OPT), TRUE, FALSE)
    v, dec = mlookup(m, k)
    if dec is True:
        return one(st, B(v is not None))
    base = m
    while base.op == "mput" and dec is None:
        base = base.args[0]
    return one(st, isv(sim, mk("mget", base, k), "Some", U_OPT))


# ---------------------------------------------------------------- JSON values
VAL = "serde_json::value::Value"


def json_get(sim, st, c, vals, atys):
    node, k = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    ty = atys[1] if len(atys) > 1 else ""
    if "usize" in ty or k.op in ("i", "ind"):
        return slice_get(sim, st, c, [proj(proj(node, ("v", "Array")), ("f", "0")), k], atys)
    if node.op == "agg" and node.args[0] == VAL and node.args[1] != "Object":
        return one(st, NONE)
    tgt = mk("key", node, k)
    if tgt in st.store:
        return one(st, some(tgt))
    g = mk("get", node, k)
    return fork(sim, st, isv(sim, g, "Some", U_OPT), some(tgt), NONE)


def unpath(p):
    """'/a/b' -> [a, b]"""
    if p.op == "s" and p.args[0].startswith("/"):
        return [S(x) for x in p.args[0][1:].split("/")]
    if p.op == "cat" and p.args[0][0].op == "s" and p.args[0][0].args[0] == "/":
        return [cat(*p.args[0][1:])]
    return None


def json_pointer(sim, st, c, vals, atys):
    node, p = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    ks = unpath(p)
    if ks is None:
        g = mk("jptr", node, p)
        return fork(sim, st, isv(sim, g, "Some", U_OPT), some(pay(g, "Some")), NONE)
    if p.op == "s" and p.args[0] == "":
        return one(st, some(vals[0]))
    cur = [(st, node, ())]
    done = []
    for k in ks:
        nxt = []
        for s2, n, e0 in cur:
            for s3, v, e in json_get(sim, s2, c, [n, k], ["", "&str"]):
                if v is NONE:
                    done.append((s3, NONE, e0 + tuple(e)))
                else:
                    nxt.append((s3, pay(v, "Some"), e0 + tuple(e)))
        cur = nxt
    return done + [(s2, some(n), e0) for s2, n, e0 in cur]


def json_as(variant):
    def h(sim, st, c, vals, atys):
        v = sim.deref(st, vals[0])
        ptr = vals[0]
        isc = isv(sim, v, variant, U_VAL)
        p0 = pay(v, variant)
        if variant == "Object":
            p0 = mk("obj", v if ptr.op == "loc" else ptr)
        elif ptr.op == "loc" and "_mut" in (c.get("method") or c["fn"]):
            p0 = mk("loc", ptr.args[0], ptr.args[1] + (("v", variant), ("f", "0")))
        return fork(sim, st, isc, some(p0), NONE)
    return h


def json_num(kind):
    def h(sim, st, c, vals, atys):
        v = sim.deref(st, vals[0])
        g = mk("num", v, kind)
        return fork(sim, st, isv(sim, g, "Some", U_OPT), some(pay(g, "Some")), NONE)
    return h


def json_is(variant):
    def h(sim, st, c, vals, atys):
        return one(st, isv(sim, sim.deref(st, vals[0]), variant, U_VAL))
    return h


def json_take(sim, st, c, vals, atys):
    v = sim.deref(st, vals[0])
    null = agg(VAL, "Null")
    e = ()
    v = own(sim, st, v)
    if sim.on_store:
        root, path = sim.ptr_cell(vals[0])
        e = tuple(sim.on_store(sim, st, root, path, null, "") or ())
    sim.write_ptr(st, vals[0], null)
    return one(st, v, e)


def json_from_str(variant):
    def h(sim, st, c, vals, atys):
        return one(st, agg(VAL, variant, ("0",), (sim.deref(st, vals[0]),)))
    return h


def json_term(x):
    if isinstance(x, str):
        return agg(VAL, "String", ("0",), (S(x),))
    if isinstance(x, bool):
        return agg(VAL, "Bool", ("0",), (B(x),))
    if x is None:
        return agg(VAL, "Null", (), ())
    if isinstance(x, list):
        return agg(VAL, "Array", ("0",), (mk("arr", tuple(json_term(y) for y in x)),))
    if isinstance(x, dict):
        m = mk("map0")
        for k, y in x.items():
            m = map_put(m, S(k), json_term(y))
        return agg(VAL, "Object", ("0",), (m,))
    raise ValueError("number")


def json_parse(sim, st, c, vals, atys):
    """a JSON text that is a constant (without numbers) is the value it denotes"""
    v = sim.deref(st, vals[0])
    if v.op != "s" or not any(g == VAL for g in c.get("ga") or ()):
        return None
    try:
        return one(st, ok(json_term(json.loads(v.args[0]))))
    except ValueError:
        return None


def to_value(sim, st, c, vals, atys):
    v = sim.deref(st, vals[0])
    ga = [x for x in (c.get("ga") or []) if not x.startswith("'")]
    ty = (ga[0] if ga else "?").replace("'_ ", "").lstrip("&")
    if v.op in ("s", "cat") or ty in ("str", "alloc::string::String"):
        return one(st, ok(agg(VAL, "String", ("0",), (v,))))
    if v.op == "b" or ty == "bool":
        return one(st, ok(agg(VAL, "Bool", ("0",), (v,))))
    if ty == VAL:
        return one(st, ok(v))
    return one(st, ok(mk("tojson", v)))


# ---------------------------------------------------------------- paths
def path_set(fn):
    def h(sim, st, c, vals, atys):
        old = sim.deref(st, vals[0])
        x = sim.deref(st, vals[1])
        new = x if old is S("") and fn.endswith("::join") else mk("call", fn, (old, x))
        sim.write_ptr(st, vals[0], new)
        return one(st, TRUE if fn.endswith("extension") else UNIT)
    return h


def path_pop(sim, st, c, vals, atys):
    old = sim.deref(st, vals[0])
    sim.write_ptr(st, vals[0], pay(mk("call", "std::path::Path::parent", (old,)), "Some"))
    return one(st, mk("call", "path_has_parent", (old,)))


# ---------------------------------------------------------------- mem
def mem_replace(sim, st, c, vals, atys):
    old = sim.deref(st, vals[0])
    if atys and atys[0].endswith(VAL):
        old = own(sim, st, old)
    e = ()
    if sim.on_store:
        root, path = sim.ptr_cell(vals[0])
        e = tuple(sim.on_store(sim, st, root, path, vals[1], "") or ())
    sim.write_ptr(st, vals[0], vals[1])
    return one(st, old, e)


def mem_take(sim, st, c, vals, atys):
    old = sim.deref(st, vals[0])
    ty = (c.get("ga") or ["?"])[0]
    new = NONE if ty.startswith(OPT) else mk("arr", ()) if "Vec<" in ty else S("") if ty.endswith("String") else mk("default", ty)
    sim.write_ptr(st, vals[0], new)
    return one(st, old)


def mem_swap(sim, st, c, vals, atys):
    a, b = sim.deref(st, vals[0]), sim.deref(st, vals[1])
    if atys and atys[0].endswith(VAL):
        a, b = own(sim, st, a), own(sim, st, b)
    sim.write_ptr(st, vals[0], b)
    sim.write_ptr(st, vals[1], a)
    return one(st, UNIT)


def default(sim, st, c, vals, atys):
    ty = (c.get("ga") or ["?"])[0]
    if ty.startswith(OPT):
        return one(st, NONE)
    if "Vec<" in ty[:20]:
        return one(st, mk("arr", ()))
    if ty.endswith("string::String"):
        return one(st, S(""))
    if ty == "bool":
        return one(st, FALSE)
    if ty in ("usize", "u64", "i64", "u32", "i32", "u8"):
        return one(st, I(0))
    d = default_of(ty)
    return one(st, d) if d.op != "default" else None


# ---------------------------------------------------------------- iterators
def mkiter(src):
    return agg("iter", "", ("src", "pos"), (src, I(0)))


ITERTY = ("core::iter::", "core::slice::iter::", "alloc::vec::into_iter", "std::collections::hash::map::I", "std::collections::hash::map::K",
          "std::collections::hash::map::V", "core::ops::range", "core::str::iter", "serde_json::map::I", "serde_json::map::V", "serde_json::map::K", "core::option::I")


def is_iter(v):
    return v.op == "agg" and (v.args[0] == "iter" or v.args[0].startswith("models::") or v.args[0].endswith("ops::range::Range") or v.args[0].startswith("core::iter"))


def into_iter(sim, st, c, vals, atys):
    v = vals[0]
    d = sim.deref(st, v)
    if is_iter(v) or (v.op != "loc" and is_iter(d)):
        return one(st, v)
    ty = (c.get("ga") or ["?"])[0]
    t0 = ty.lstrip("&").replace("'_ ", "").replace("mut ", "")
    if t0.startswith(ITERTY) or v.op == "iterx":
        return one(st, v)
    if "HashMap" in ty[:60] or "serde_json::map::Map" in ty[:60] or "BTreeMap" in ty[:60]:
        return one(st, mkiter(entries(d)))
    if ty.startswith(OPT):
        return one(st, mkiter(mk("optiter", d)))
    if v.op == "loc" and ty.startswith("&mut "):
        return one(st, mkiter(v))
    return one(st, mkiter(d))


def slice_iter(sim, st, c, vals, atys):
    return one(st, mkiter(sim.deref(st, vals[0])))


def slice_iter_mut(sim, st, c, vals, atys):
    v = vals[0]
    if "HashMap" in c["fn"] or "Map" in c["fn"]:
        return one(st, mkiter(entries(sim.deref(st, v))))
    return one(st, mkiter(v if v.op == "loc" else sim.deref(st, v)))


def map_iter(kind):
    def h(sim, st, c, vals, atys):
        m = sim.deref(st, vals[0])
        e = entries(m)
        if kind == "entries":
            return one(st, mkiter(e))
        if e.op == "arr":
            return one(st, mkiter(mk("arr", tuple(proj(x, ("f", "0" if kind == "mapkeys" else "1")) for x in e.args[0]))))
        return one(st, mkiter(mk(kind, m)))
    return h


def chars(sim, st, c, vals, atys):
    s = sim.deref(st, vals[0])
    if s.op == "s":
        return one(st, mkiter(mk("arr", tuple(mk("ch", ord(x)) for x in s.args[0]))))
    return one(st, mkiter(mk("chars", s)))


def rev(sim, st, c, vals, atys):
    v = vals[0]
    if v.op == "agg" and v.args[0] == "iter" and v.args[3][1] is I(0):
        s = v.args[3][0]
        return one(st, mkiter(s.args[0] if s.op == "rev" else mk("rev", s)))
    return one(st, mk("revit", v))


def cloned(sim, st, c, vals, atys):
    return one(st, vals[0])


def nxt(sim, st, c, vals, atys):
    ptr = vals[0]
    it = sim.deref(st, ptr)
    root, path = sim.ptr_cell(ptr)
    if it.op == "agg" and it.args[0] == "iter":
        src, pos = it.args[3]
        if src.op == "loc":
            n = t_len(sim.deref(st, src))
            el = mk("loc", src.args[0], src.args[1] + (("i", pos),))
        elif src.op == "rev" and src.args[0].op == "loc":
            n = t_len(sim.deref(st, src.args[0]))
            el = mk("elem", src, pos)
        else:
            n = t_len(src)
            el = elem(src, pos)

        def adv(s2):
            sim.write_cell(s2, root, path + (("f", "pos"),), addc(pos, 1))
            return some(el)
        return fork(sim, st, t_lt(pos, n), adv, NONE)
    if it.op == "agg" and it.args[0].endswith("ops::range::Range"):
        a, b = it.args[3][:2]

        def adv2(s2):
            sim.write_cell(s2, root, path + (("f", it.args[2][0]),), addc(a, 1))
            return some(a)
        return fork(sim, st, t_lt(a, b), adv2, NONE)
    if it.op == "agg" and it.args[0].startswith("models::"):
        for i in sim.p.impls:
            if i["trait"].endswith("Iterator") and i["self"].split("<")[0] == it.args[0]:
                return ("inline", dict(i["methods"])["next"], [ptr])
    x = mk("x", sim.site(st), "next", (it,))
    d = isv(sim, x, "Some", U_OPT)
    # fresh at every evaluation: no fact survives
    s2 = st.copy()
    s2.facts.pop(discr(x), None)
    st.facts.pop(discr(x), None)
    sim.tests.setdefault(sim.cur, set()).update(fact_subjects(d))
    b = lambda s, v: tuple((sim.on_branch(sim, s, d, v) if sim.on_branch else None) or ())
    return [(st, some(pay(x, "Some")), b(st, True)), (s2, NONE, b(s2, False))]


def has_closure(v):
    return v.op == "agg" and v.args[0].startswith("models::") and (any(x.op == "clo" for x in v.args[3]) or any(has_closure(x) for x in v.args[3]))


COLLECT = (("core::result::Result<alloc::vec::Vec<", "result"), ("core::option::Option<alloc::vec::Vec<", "option"),
           ("std::collections::hash::map::HashMap<", "map"), ("serde_json::map::Map<", "map"), ("alloc::collections::btree::map::BTreeMap<", "map"))


def collect(sim, st, c, vals, atys):
    v = vals[0]
    into = (c.get("ga") or [""])[-1]
    if v.op == "agg" and (v.args[0].startswith("models::") or v.args[0] == "iter"):
        for pre, m in COLLECT:
            if into.startswith(pre):
                return ("inline", "models::Iter_collect_" + m, [v])
    if v.op == "agg" and v.args[0] == "iter" and v.args[3][1] is I(0) and v.args[3][0].op in ("arr", "p", "key", "arg", "call", "elem"):
        return one(st, v.args[3][0])
    if (v.op == "agg" and (v.args[0].startswith("models::") or v.args[0] == "iter")) and "Vec" in " ".join(c.get("ga") or []):
        return ("inline", "models::Iter_collect_vec", [v])
    return one(st, mk("collect", v))


def count(sim, st, c, vals, atys):
    v = vals[0]
    if v.op == "agg" and v.args[0] == "iter" and v.args[3][1] is I(0):
        return one(st, t_len(v.args[3][0]))
    return one(st, mk("count", v))


def membership(want):
    """any(|o| *o == x) and all(|o| *o != x) over a list the domain does not enumerate: contains(list, x)"""
    def h(sim, st, c, vals, atys):
        from .sim import Sim, Limit
        it, fv = sim.deref(st, vals[0]), vals[1]
        go = ("inline", "models::Iter_any" if want else "models::Iter_all", vals)
        if it.op != "agg" or it.args[0] != "iter" or it.args[3][1] is not I(0) or fv.op != "clo" or fv.args[0] not in sim.p.fns:
            return go
        lst = it.args[3][0]
        lst = sim.deref(st, lst) if lst.op == "loc" else lst
        while lst.op in ("rev", "own"):
            lst = lst.args[0]
        if lst.op == "arr" or lst.locs:
            return go
        caps = [sim.deref(st, v) for v in fv.args[1]]
        caps = [sim.deref(st, v) if v.op == "loc" else v for v in caps]
        if any(v.locs for v in caps):
            return go
        e = mk("arg", "$member")
        try:
            r = Sim(sim.p, fv.args[0], args={1: mk("clo", fv.args[0], tuple(caps)), 2: e}, limit=300).run()
        except Limit:
            return go
        if r.opaque or len(r.finals) != 1:
            return go
        (kind, val, *_), = r.finals.values()
        if not want and val is not None:
            val = t_not(val)
        if kind != "return" or val is None or val.op != "eq" or (val.args[0] is e) == (val.args[1] is e):
            return go
        x = val.args[1] if val.args[0] is e else val.args[0]
        if any(y is e for y in subterms(x)):
            return go
        if vals[0].op == "loc":
            sim.write_ptr(st, vals[0], mk("spent", it))
        v = mk("contains", lst, x)
        return one(st, v if want else t_not(v))
    return h


# ---------------------------------------------------------------- panics
def panic(sim, st, c, vals, atys):
    loc = ""
    return [(st, None, (("panic", "explicit", None, sim.site(st), loc),))]


def new_uninit(sim, st, c, vals, atys):
    return one(st, mk("uninit", sim.site(st)[1:]))


def into_vec(sim, st, c, vals, atys):
    return one(st, projs(sim.deref(st, vals[0]), (("f", "value"), ("f", "value"))))


def from_path(sim, st, c, vals, atys):
    return one(st, ok(sim.deref(st, vals[0])))


def unit(sim, st, c, vals, atys):
    return one(st, UNIT)


def conv(sim, st, c, vals, atys):
    """From / Into: transparent for standard conversions, left to the workspace impl otherwise"""
    full = c.get("res") or c["fn"]
    if full in sim.p.fns:
        return None
    ga = c.get("ga") or []
    v = sim.deref(st, vals[0])
    g = " ".join(ga) + full
    if "String" in g or "PathBuf" in g or "Cow" in g or "OsString" in g or "Vec" in g or "Box" in g:
        if ga and "serde_json::value::Value" in ga[0] and ("str" in full or "String" in full):
            return one(st, agg(VAL, "String", ("0",), (v,)))
        return one(st, v)
    if len(ga) == 2 and ga[0] == ga[1]:
        return one(st, v)
    if ga and ga[0] == VAL and "bool" in full:
        return one(st, agg(VAL, "Bool", ("0",), (v,)))
    if ga and ga[0] == VAL:
        return one(st, mk("tojson", v))
    return one(st, mk("conv", v, ga[0] if ga else "?"))


def into(sim, st, c, vals, atys):
    full = c.get("res") or c["fn"]
    ga = c.get("ga") or []
    if len(ga) == 2:
        # <T as Into<U>>::into -> <U as From<T>>::from
        for i in sim.p.impls:
            if i["trait"].endswith("convert::From") and i["self"] == ga[1]:
                for m, pth in i["methods"]:
                    if "From<%s>" % ga[0] in pth and pth in sim.p.fns:
                        return ("inline", pth, [vals[0]])
    return conv(sim, st, {"fn": "From", "ga": list(reversed(ga))}, vals, atys)


D = "core::ops::deref::"
def extend(sim, st, c, vals, atys):
    full = str(c.get("res") or "") + " " + str(c.get("fn")) + " " + str(c.get("ga"))
    t = str(atys[0]) if atys else full
    byref = "Extend<&" in full
    n = None
    if "vec::Vec<" in t:
        n = "Vec_extend_ref" if byref else "Vec_extend"
    elif "VecDeque<" in t and not byref:
        n = "Deque_extend"
    elif "HashMap<" in t or "BTreeMap<" in t:
        n = "Map_extend" if not byref else None
    elif "string::String" in t:
        n = "String_extend" if "str" in full.split("Extend", 1)[-1] else None
    if n and "models::" + n in sim.p.fns:
        return ("inline", "models::" + n, vals)
    return None


TM = {
    ("core::iter::traits::collect::Extend", "extend"): extend,
    (D + "Deref", "deref"): ident, (D + "DerefMut", "deref_mut"): ident,
    ("core::convert::AsRef", "as_ref"): ident, ("core::convert::AsMut", "as_mut"): ident,
    ("core::borrow::Borrow", "borrow"): ident, ("core::borrow::BorrowMut", "borrow_mut"): ident,
    ("core::clone::Clone", "clone"): clone, ("alloc::borrow::ToOwned", "to_owned"): clone,
    ("alloc::string::ToString", "to_string"): to_string,
    ("core::convert::From", "from"): conv, ("core::convert::Into", "into"): into,
    ("core::ops::try_trait::Try", "branch"): try_branch, ("core::ops::try_trait::FromResidual", "from_residual"): from_residual,
    ("core::cmp::PartialEq", "eq"): p_eq, ("core::cmp::PartialEq", "ne"): p_ne,
    ("core::cmp::Ord", "min"): p_minmax("min"), ("core::cmp::Ord", "max"): p_minmax("max"),
    ("core::cmp::PartialOrd", "lt"): p_cmp("Lt"), ("core::cmp::PartialOrd", "le"): p_cmp("Le"),
    ("core::cmp::PartialOrd", "gt"): p_cmp("Gt"), ("core::cmp::PartialOrd", "ge"): p_cmp("Ge"),
    ("core::ops::arith::Add", "add"): None, ("core::ops::arith::AddAssign", "add_assign"): None,
    ("core::ops::index::Index", "index"): index, ("core::ops::index::IndexMut", "index_mut"): index,
    ("core::iter::traits::collect::IntoIterator", "into_iter"): into_iter,
    ("core::iter::traits::iterator::Iterator", "next"): nxt,
    ("core::default::Default", "default"): default,
}
ITT = "core::iter::traits::iterator::Iterator"
IT_NATIVE = {"rev": rev, "cloned": cloned, "copied": cloned, "by_ref": ident, "collect": collect, "count": count, "peekable": None, "any": membership(True), "all": membership(False)}


def _add(sim, st, c, vals, atys):
    if "String" in (c.get("res") or c["fn"]):
        return str_add(sim, st, c, vals, atys)
    if "usize" in str(c.get("ga")) or "i" in str(c.get("ga"))[:3]:
        return one(st, t_add(sim.deref(st, vals[0]), sim.deref(st, vals[1])))
    return None


def _add_assign(sim, st, c, vals, atys):
    if "String" in (c.get("res") or c["fn"]):
        return push_str(sim, st, c, vals, atys)
    return None


TM[("core::ops::arith::Add", "add")] = _add
TM[("core::ops::arith::AddAssign", "add_assign")] = _add_assign

J = "serde_json::value::Value::"
NM = {
    "alloc::boxed::Box::new": ident, "core::hint::must_use": ident, "alloc::boxed::Box::new_uninit": new_uninit,
    "alloc::boxed::box_assume_init_into_vec_unsafe": into_vec, "alloc::boxed::Box::pin": ident,
    "alloc::rc::Rc::new": ident, "alloc::sync::Arc::new": ident, "core::cell::RefCell::new": ident,
    "alloc::string::String::as_str": ident, "alloc::string::String::new": lambda s, st, c, v, a: one(st, S("")),
    "alloc::string::String::with_capacity": lambda s, st, c, v, a: one(st, S("")),
    "alloc::string::String::push_str": push_str, "alloc::string::String::push": push_str,
    "alloc::string::String::len": length, "core::str::<impl str>::len": length, "alloc::string::String::is_empty": is_empty,
    "core::str::<impl str>::is_empty": is_empty, "alloc::vec::Vec::len": length, "alloc::vec::Vec::is_empty": is_empty,
    "core::slice::<impl [T]>::len": length, "core::slice::<impl [T]>::is_empty": is_empty,
    "alloc::collections::vec_deque::VecDeque::len": length, "alloc::collections::vec_deque::VecDeque::is_empty": is_empty,
    "std::collections::hash::map::HashMap::len": length, "std::collections::hash::map::HashMap::is_empty": is_empty,
    "serde_json::map::Map::len": length, "serde_json::map::Map::is_empty": is_empty,
    "core::str::<impl str>::to_string": ident, "alloc::str::<impl str>::to_owned": ident,
    "alloc::string::String::into_bytes": ident, "alloc::string::String::as_bytes": ident, "core::str::<impl str>::as_bytes": ident,
    "core::str::<impl str>::as_ref": ident, "alloc::slice::<impl [T]>::to_vec": clone, "alloc::vec::Vec::as_slice": ident,
    "alloc::slice::<impl [T]>::into_vec": ident, "alloc::vec::Vec::as_mut_slice": ident, "alloc::string::String::as_mut_str": ident,
    "alloc::vec::Vec::into_boxed_slice": ident, "alloc::string::String::into_boxed_str": ident,
    FIND: str_find, REPLACE: str_replace,
    "core::str::<impl str>::starts_with": pred("starts_with"), "core::str::<impl str>::ends_with": pred("ends_with"),
    "core::str::<impl str>::contains": pred("strcontains"), "core::str::<impl str>::eq_ignore_ascii_case": eq_nocase,
    "core::str::<impl str>::trim": changing(str.strip), "alloc::str::<impl str>::to_lowercase": changing(str.lower),
    "alloc::str::<impl str>::to_uppercase": changing(str.upper), "alloc::str::<impl str>::to_ascii_lowercase": changing(str.lower),
    "alloc::str::<impl str>::to_ascii_uppercase": changing(str.upper),
    "core::str::<impl str>::chars": chars,
    "alloc::vec::Vec::new": vec_new, "alloc::vec::Vec::with_capacity": vec_new, "alloc::vec::Vec::push": vec_push,
    "alloc::collections::vec_deque::VecDeque::remove": deq_remove, "alloc::collections::vec_deque::VecDeque::pop_front": deq_remove,
    "alloc::collections::vec_deque::VecDeque::get": slice_get, "alloc::collections::vec_deque::VecDeque::front": first_,
    "alloc::collections::vec_deque::VecDeque::back": last_, "alloc::collections::vec_deque::VecDeque::with_capacity": vec_new,
    "alloc::collections::vec_deque::VecDeque::contains": contains, "alloc::collections::vec_deque::VecDeque::clear": vec_op("clear"),
    "alloc::collections::vec_deque::VecDeque::new": vec_new, "alloc::collections::vec_deque::VecDeque::push_back": vec_push,
    "alloc::vec::Vec::append": vec_op("append"), "alloc::vec::Vec::extend_from_slice": vec_op("append"),
    "alloc::vec::Vec::insert": vec_op("insert"), "alloc::vec::Vec::remove": vec_op("remove", "elem"),
    "alloc::vec::Vec::swap_remove": vec_op("swap_remove", "elem"),
    "alloc::vec::Vec::clear": vec_op("clear"), "alloc::vec::Vec::truncate": vec_op("truncate"), "alloc::vec::Vec::pop": vec_pop,
    "alloc::vec::Vec::dedup": vec_op("dedup"),
    "alloc::slice::<impl [T]>::sort": vec_op("sort"), "core::slice::<impl [T]>::sort_unstable": vec_op("sort"),
    "core::slice::<impl [T]>::sort_unstable_by": vec_op("sort"), "alloc::slice::<impl [T]>::sort_by": vec_op("sort"),
    "alloc::slice::<impl [T]>::sort_by_key": vec_op("sort"), "core::slice::<impl [T]>::sort_unstable_by_key": vec_op("sort"),
    "core::slice::<impl [T]>::reverse": vec_op("reverse"), "core::slice::<impl [T]>::swap": vec_op("swap"),
    "core::slice::<impl [T]>::contains": contains, "alloc::vec::Vec::contains": contains,
    "core::ops::range::Range::contains": contains, "core::slice::<impl [T]>::get": slice_get,
    "core::slice::<impl [T]>::get_mut": slice_get, "core::slice::<impl [T]>::first": first_, "core::slice::<impl [T]>::last": last_,
    "core::slice::<impl [T]>::first_mut": first_, "core::slice::<impl [T]>::last_mut": last_,
    "core::slice::<impl [T]>::iter": slice_iter, "core::slice::<impl [T]>::iter_mut": slice_iter_mut,
    "alloc::vec::Vec::iter": slice_iter,
    "std::collections::hash::map::HashMap::new": map_new, "std::collections::hash::map::HashMap::insert": map_insert,
    "std::collections::hash::map::HashMap::get": map_get, "std::collections::hash::map::HashMap::contains_key": map_contains,
    "std::collections::hash::map::HashMap::get_mut": map_get,
    "std::collections::hash::map::HashMap::iter": map_iter("entries"), "std::collections::hash::map::HashMap::keys": map_iter("mapkeys"),
    "std::collections::hash::map::HashMap::values": map_iter("mapvalues"), "std::collections::hash::map::HashMap::iter_mut": map_iter("entries"),
    "std::collections::hash::map::HashMap::values_mut": map_iter("mapvalues"),
    "serde_json::map::Map::values": map_iter("mapvalues"), "serde_json::map::Map::values_mut": map_iter("mapvalues"),
    "serde_json::map::Map::keys": map_iter("mapkeys"), "serde_json::map::Map::iter": map_iter("entries"), "serde_json::map::Map::iter_mut": map_iter("entries"),
    "serde_json::map::Map::new": map_new, "serde_json::map::Map::insert": map_insert, "serde_json::map::Map::get": map_get,
    "serde_json::map::Map::contains_key": map_contains,
    J + "get": json_get, J + "get_mut": json_get, J + "pointer": json_pointer, J + "pointer_mut": json_pointer,
    J + "as_array": json_as("Array"), J + "as_array_mut": json_as("Array"), J + "as_str": json_as("String"),
    J + "as_bool": json_as("Bool"), J + "as_object": json_as("Object"), J + "as_object_mut": json_as("Object"),
    J + "as_i64": json_num("i64"), J + "as_u64": json_num("u64"), J + "as_f64": json_num("f64"),
    J + "is_i64": json_is("Number"), J + "is_number": json_is("Number"),
    J + "is_null": json_is("Null"), J + "is_array": json_is("Array"), J + "is_string": json_is("String"), J + "is_object": json_is("Object"),
    J + "is_boolean": json_is("Bool"), J + "take": json_take, "serde_json::value::to_value": to_value,
    "core::mem::replace": mem_replace, "core::mem::take": mem_take, "core::mem::swap": mem_swap, "core::mem::drop": unit,
    "serde_json::de::from_str": json_parse,
    "alloc::fmt::format": ident, "core::fmt::Arguments::from_str": ident, "core::fmt::Arguments::new": args_new,
    "core::fmt::rt::Argument::new_display": fmt_arg("display"), "core::fmt::rt::Argument::new_debug": fmt_arg("debug"),
    "core::fmt::rt::Argument::new_lower_hex": fmt_arg("lhex"), "core::fmt::rt::Argument::new_upper_hex": fmt_arg("uhex"),
    "core::option::Option::unwrap_or_default": unwrap_or_default("Some", U_OPT),
    "core::result::Result::unwrap_or_default": unwrap_or_default("Ok", U_RES),
    "core::option::Option::as_ref": clone, "core::option::Option::as_deref": clone, "core::option::Option::cloned": ident,
    "core::option::Option::copied": ident, "core::option::Option::iter": into_iter,
    "core::result::Result::as_ref": clone, "core::result::Result::cloned": ident, "core::result::Result::copied": ident,
    "std::path::PathBuf::push": path_set("std::path::Path::join"), "std::path::PathBuf::set_extension": path_set("std::path::Path::with_extension"),
    "std::path::PathBuf::set_file_name": path_set("std::path::Path::with_file_name"), "std::path::PathBuf::pop": path_pop,
    "std::path::PathBuf::into_os_string": ident, "std::path::PathBuf::into_boxed_path": ident, "std::path::Path::as_os_str": ident,
    "std::ffi::os_str::OsStr::new": ident, "std::ffi::os_str::OsStr::to_os_string": clone, "std::ffi::os_str::OsString::as_os_str": ident,
    "std::ffi::os_str::OsStr::eq_ignore_ascii_case": eq_nocase,
    "std::path::Path::new": ident, "std::path::Path::to_path_buf": clone, "std::path::PathBuf::as_path": ident,
    "std::path::PathBuf::new": lambda s, st, c, v, a: one(st, S("")), "std::path::Path::display": clone,
    "<std::path::PathBuf as core::str::traits::FromStr>::from_str": from_path,
    "core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next": nxt,
    "core::intrinsics::discriminant_value": lambda s, st, c, v, a: one(st, discr(s.deref(st, v[0]))),
    "core::num::<impl usize>::saturating_sub": lambda s, st, c, v, a: fork(s, st, t_lt(v[1], v[0]), t_sub(v[0], v[1]), I(0)),
    "core::num::<impl usize>::checked_sub": lambda s, st, c, v, a: fork(s, st, t_lt(v[0], v[1]), NONE, some(t_sub(v[0], v[1]))),
    "core::cmp::min": lambda s, st, c, v, a: fork(s, st, t_lt(v[1], v[0]), v[1], v[0]),
    "core::cmp::max": lambda s, st, c, v, a: fork(s, st, t_lt(v[1], v[0]), v[0], v[1]),
    "core::num::<impl usize>::wrapping_add": lambda s, st, c, v, a: one(st, t_add(v[0], v[1])),
    "core::num::<impl usize>::wrapping_sub": lambda s, st, c, v, a: one(st, addc(v[0], -v[1].args[0]) if v[1].op == "i" else mk("sub", v[0], v[1])),
    "log::__private_api::log": unit, "log::__private_api::loc": unit,
}
for _t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize"):
    for _o in ("wrapping_add", "wrapping_sub"):
        NM["core::num::<impl %s>::%s" % (_t, _o)] = NM["core::num::<impl usize>::" + _o]
for _m in ("std::collections::hash::map::HashMap::", "alloc::collections::btree::map::BTreeMap::", "serde_json::map::Map::"):
    NM.update({_m + "new": map_new, _m + "insert": map_insert, _m + "get": map_get, _m + "contains_key": map_contains, _m + "iter": map_iter("entries"), _m + "keys": map_iter("mapkeys"),
               _m + "values": map_iter("mapvalues"), _m + "iter_mut": map_iter("entries"), _m + "values_mut": map_iter("mapvalues"), _m + "into_keys": map_iter("mapkeys"),
               _m + "into_values": map_iter("mapvalues")})
    if "serde" not in _m:
        NM.update({_m + "get_mut": map_get_mut, _m + "entry": map_entry})
for _m in ("std::collections::hash::map::Entry::", "alloc::collections::btree::map::entry::Entry::"):
    NM.update({_m + "or_insert": entry_or_insert(), _m + "or_default": entry_or_insert(True)})
for _n in ("panic", "panic_fmt", "panic_explicit", "unreachable_display", "panic_display", "assert_failed", "panic_nounwind", "panic_const"):
    NM["core::panicking::" + _n] = panic
NM["std::rt::begin_panic"] = panic
NM["std::rt::panic_fmt"] = panic


def lookup(tr, me, name):
    h = NM.get(name)
    if h is not None:
        return h
    if tr:
        h = TM.get((tr, me))
        if h is not None:
            return h
        if tr == ITT:
            h = IT_NATIVE.get(me)
            if h is not None:
                return h
    if name.startswith("<") and " as " in name:
        head, m = name.rsplit("::", 1)
        t = head[1:-1].split(" as ", 1)[1].split("<")[0]
        h = TM.get((t, m)) or (IT_NATIVE.get(m) if t == ITT else None)
        if h is not None:
            return h
    if name.startswith("core::panicking::panic") or name.startswith("core::panicking::assert"):
        return panic
    return None


MODEL_PREFIX = (("core::option::Option::", "Option_"), ("core::result::Result::", "Result_"), ("core::bool::<impl bool>::", "Bool_"),
                ("core::iter::traits::iterator::Iterator::", "Iter_"), ("alloc::vec::Vec::", "Vec_"))


def model(p, tr, me, name):
    if tr == ITT:
        n = "models::Iter_" + me
        if n in p.fns:
            return n
    if name == "std::fs::write" and "models::fs_write" in p.fns:
        return "models::fs_write"
    for pre, m in MODEL_PREFIX:
        if name.startswith(pre):
            n = "models::" + m + name[len(pre):]
            if n in p.fns:
                return n
    return None
