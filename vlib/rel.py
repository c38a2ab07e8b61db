"""Conformance of a function to its reviewed reference: both are abstracted to event automata by the same
abstract interpreter and compared by a product over all jointly consistent paths (up to the order of tests,
the split into helper functions, and the shape of loops).  A difference is reported only when it is definite:
the path to it is described entirely by conditions both sides share."""
import hashlib
import json
import lzma
import os
import re

from .sim import *
from .mir import strip_generics

SILENT = ("log::", "core::fmt::", "alloc::fmt", "std::io::stdio::_eprint", "env_logger", "<core::fmt", "core::hint", "core::any")
AMBIENT = ("PrettyPrinter", "dyn std::io::Write", "dyn core::io", "Pcg64", "Lcg128", "RngCore", "Rng", "dyn mutagenyx_lib::visitor", "core::fmt::Formatter")


def ambient(ty, names=AMBIENT):
    return ty is not None and "&mut " in ty and any(a in ty for a in names)


CONTAINER = re.compile(r"^(alloc::vec::Vec|alloc::collections|std::collections|hashbrown)\b")


def flat(cells):
    """changes of parts of a value, told part by part: the same memory has one description, whether it was reached
    through the whole value or through a reference to the part"""
    out, keys = [], {r for r, v in cells}

    def go(r, v):
        if v.op == "upd" and v.args[0] is r and v.args[1]:
            parts = [(proj(r, e), x) for e, x in v.args[1]]
            if not any(q in keys for q, x in parts):
                for q, x in parts:
                    keys.add(q)
                    go(q, x)
                return
        out.append((r, v))
    for r, v in cells:
        go(r, v)
    return out


class RelSim(Sim):
    def __init__(self, prog, entry, stop, extra=None, amb=AMBIENT, peel=1, **kw):
        kw.setdefault("limit", 60000)
        self.amb = amb
        super().__init__(prog, entry, stop=stop, on_call=self.handle, on_branch=self.lit, on_return=self.returned, peel=peel, **kw)
        self.extra = extra

    def explore(self):
        self.defs = {}
        self.phity = {}
        return super().explore()

    def handle(self, sim, st, c, name, vals, loc):
        self.cur_loc = loc
        if name.startswith(SILENT) and not name.startswith(("core::fmt::rt", "core::fmt::Arguments", "alloc::fmt::format", "alloc::fmt::Formatter")):
            n = gen_short(name)
            if name.startswith(("log::", "std::io::stdio::_eprint", "env_logger")):
                if n in ("max_level", "enabled"):
                    return [(st, FALSE if n == "enabled" else mk("arg", "maxlevel"), [])]
                return [(st, UNIT, [])]
        if self.extra:
            return self.extra(sim, st, c, name, vals, loc)
        return None

    def lit(self, sim, st, c, val):
        return [("if", c, val)]

    def deep(self, st, v, d=0):
        if v.op == "loc":
            return self.deep(st, self.deref(st, v), d + 1) if d < 6 else v
        if not v.locs or d > 6:
            return v
        if v.op == "agg":
            return agg(v.args[0], v.args[1], v.args[2], [self.deep(st, x, d + 1) for x in v.args[3]])
        if v.op == "tup":
            return mk("tup", tuple(self.deep(st, x, d + 1) for x in v.args[0]))
        if v.op == "arr":
            return mk("arr", tuple(self.deep(st, x, d + 1) for x in v.args[0]))
        if v.op == "&":
            return self.deep(st, v.args[0], d + 1)
        return v

    def view(self, st, vals=None):
        """what the function has changed (and, for a call, what the callee can see of it)"""
        out = []
        for r, v in st.store.items():
            if v is r:
                continue
            if vals is not None and not any(x in subterms(r) for x in vals):
                continue
            out.append((r, self.deep(st, v)))
        return tuple(sorted(flat(out), key=lambda p: p[0].n))

    def returned(self, sim, st, v):
        return [("ret", self.deep(st, self.snapshot(st, v)), self.view(st))]

    def opaque(self, st, c, name, vals, atys):
        site = self.site(st)
        dv = tuple(self.deep(st, v) for v in vals)
        ptr = [("&mut " in (t or "") or v.op == "loc") for v, t in zip(vals, atys)]
        mut = any("&mut " in (t or "") for t in atys) or any(v.locs for v in vals if v.op != "loc")
        mutloc = any(v.op == "loc" and ("&mut " in (t or "") or t in (None, "?")) for v, t in zip(vals, atys))
        impure = mut or mutloc or self.std.impure(name) or name in self.p.fns and effectful(self.p, name)
        self.res.opaque.setdefault(name, 0)
        self.res.opaque[name] += 1
        if not impure:
            return (st, mk("call", name, dv), ())
        seen = self.view(st, [x for x in dv if x.op not in ("i", "s", "b", "unit")])
        val = mk("x", site, name, ())
        for i, (v, t) in enumerate(zip(vals, atys)):
            if ambient(t, self.amb):
                continue
            if v.op == "loc" and ("&mut " in (t or "") or t in (None, "?")) or "&mut " in (t or ""):
                self.write_ptr(st, v, mk("hv", site, name, i))
            elif v.locs and v.op != "loc":
                for r in v.locs:
                    self.write_cell(st, r, (), mk("hv", site, name, i, r[2]))
        nm = c.get("trait") and c.get("method") and c.get("rk") in ("virtual", None) and "%s::%s" % (c["trait"], c["method"]) or name
        if nm.endswith("Formatter::write_str") or (c.get("trait") or "").endswith(("io::Write", "io::write::Write")) and c.get("method") == "write_all":
            # writing a text is writing it formatted as itself
            nm = nm[:-len(nm.rsplit("::", 1)[1])] + "write_fmt"
            dv = tuple(x.args[0] if x.op == "bytes" else x for x in dv)
        # ambient objects do not take part in the comparison of arguments
        cmp_ = tuple(UNIT if ambient(t, self.amb) else x for x, t in zip(dv, atys))
        f = self.p.fns.get(name)
        return (st, UNIT if f is not None and str(f.locals[0]) == "()" else val, (("do", nm, cmp_, seen, val, getattr(self, "cur_loc", "")),))

    def jump(self, st, to, events):
        fn, ctx, frm = st.stack[-1][:3]
        f = self.p.fns[fn]
        depth = len(st.stack) - 1
        loops = f.loops()
        if to in loops and frm in loops[to]:
            its = [l[3] for l in st.loops if l[0] == depth and l[1] == to]
            if its and its[-1] >= self.peel - 1:
                key = (ctx, fn, to)
                carry = []
                for (rk, path), kind in self.varying.get(key, {}).items():
                    if kind[0] == "phi" and rk[0] == "L" and rk[1:] in st.env and rk[1] < len(st.stack):
                        t = mk("phi", key, str((rk, path)))
                        ty = str(self.p.fns[st.stack[rk[1]][0]].locals[rk[2]])
                        if not path and CONTAINER.match(ty) or path and re.match(r"^(mutagenyx|mutagenyx_lib)::", ty) and not self.p.adts.get(ty, {"enum": 1})["enum"]:
                            self.phity[t] = ty + "".join("." + str(x[-1]) for x in path)
                        carry.append((t, self.deep(st, projs(st.env[rk[1:]], path))))
                events = list(events) + [("back", key, its[-1] == self.peel - 1, tuple(carry))]
        return super().jump(st, to, events)

    def back_edge(self, st, key, body, head, depth, to):
        pre = {}
        for (rk, path), kind in self.varying.get(key, {}).items():
            cur = st.env.get(rk[1:]) if rk[0] == "L" else st.store.get(rk[1], rk[1])
            if cur is not None:
                pre[(rk, path)] = (kind, self.deep(st, projs(cur, path)))
        super().back_edge(st, key, body, head, depth, to)
        for lk, (kind, v) in pre.items():
            t = self.ind(key, kind) if kind[0] == "ind" else mk("phi", key, str(lk))
            self.defs.setdefault(t, set()).add(v)


def effectful(prog, name):
    """does a workspace function (or anything it calls) do input or output"""
    memo = prog.__dict__.setdefault("_effectful", {})
    r = memo.get(name)
    if r is None:
        from . import std
        r = False
        for n in prog.reachable([name]):
            for _, callee, c, _ in prog.callee_names(prog.fns[n]):
                # (writing to a stream the caller passes in shows in the caller's &mut argument; logging is no effect)
                if (std.impure(callee) or std.impure(c["fn"])) and not c["fn"].startswith("log::") and "::Write::" not in c["fn"]:
                    r = True
            if r:
                break
        memo[name] = r
    return r


def pure(prog, name):
    """a workspace function that only computes a value from what it is given, and calls boundaries (so that keeping it closed matters)"""
    f = prog.fns[name]
    tys = [str(t) for t in f.locals[1:f.argc + 1]]
    return not any("&mut " in t or "Cell<" in t or "closure" in t or ambient(t) for t in tys) and str(f.locals[0]) != "()" and not effectful(prog, name) and \
        any(is_stop(n, name) for n in prog.reachable([name]) if n != name)


def gen_short(n):
    return n.rsplit("::", 1)[-1]


# ---------------------------------------------------------------- one side as a graph of single items
class Side:
    def __init__(self, sim):
        self.sim = sim
        res = sim.run()
        self.res = res
        self.succ = [[] for _ in res.edges]
        self.term = {}
        for n, es in enumerate(res.edges):
            for evs, d in es:
                cur = n
                evs = [e for e in evs if e[0] in ("if", "do", "ret", "back")]
                for i, e in enumerate(evs):
                    last = i == len(evs) - 1
                    if last:
                        nx = d
                    else:
                        nx = len(self.succ)
                        self.succ.append([])
                    self.succ[cur].append((e, nx))
                    cur = nx
                if not evs:
                    self.succ[n].append((None, d))
        for n, fin in res.finals.items():
            self.term[n] = fin[0]
        self.futures()
        self.signatures0()

    def futures(self):
        """per node: sites and test subjects that occur on some path from it"""
        n = len(self.succ)
        self.fs = [0] * n
        self.ft = [0] * n
        self.fl = [0] * n
        self.loopix = {}
        self.sites, self.tests = {}, {}
        preds = [[] for _ in range(n)]
        for a in range(n):
            for e, b in self.succ[a]:
                preds[b].append(a)
                if e is None:
                    continue
                for t in terms_of(e):
                    for s in t.sites:
                        self.fs[a] |= 1 << self.sites.setdefault(s, len(self.sites))
                    for x in carried_in(t):
                        self.fl[a] |= 1 << self.loopix.setdefault(x, len(self.loopix))
                for s in fact_subjects(e[1]) if e[0] == "if" else ():
                    self.ft[a] |= 1 << self.tests.setdefault(s, len(self.tests))
                for t in terms_of(e):
                    for y in inner_tests(t) if e[0] == "if" else outcomes(t):
                        for s in fact_subjects(y):
                            self.ft[a] |= 1 << self.tests.setdefault(s, len(self.tests))
        work = list(range(n))
        inq = set(work)
        while work:
            x = work.pop()
            inq.discard(x)
            for y in preds[x]:
                a, b, c = self.fs[y] | self.fs[x], self.ft[y] | self.ft[x], self.fl[y] | self.fl[x]
                if a != self.fs[y] or b != self.ft[y] or c != self.fl[y]:
                    self.fs[y], self.ft[y], self.fl[y] = a, b, c
                    if y not in inq:
                        inq.add(y)
                        work.append(y)
        self.testlist = list(self.tests)

    def signatures0(self):
        self.carried = {}
        self.calls = set()
        for es in self.succ:
            for e, _ in es:
                if e is None:
                    continue
                for t in terms_of(e):
                    for x in subterms(t):
                        if x.op == "call":
                            self.calls.add(x.args[0])
                        if x.op in ("phi", "ind"):
                            self.carried.setdefault(x, set())
                if e[0] == "if":
                    for x in subterms(e[1]):
                        if x.op == "ind":
                            self.carried[x].add(e[1])
        work = list(self.carried)
        while work:
            x = work.pop()
            for d in self.sim.defs.get(x, ()):
                for y in subterms(d):
                    if y.op in ("phi", "ind") and y not in self.carried:
                        self.carried[y] = set()
                        work.append(y)

    def signatures(self):
        sig = {x: ("ind%s,%s" % (x.args[1], x.args[2]) if x.op == "ind" else "phi") for x in self.carried}
        for rnd in range(5):
            memo = {}

            def h(t):
                r = memo.get(t)
                if r is not None:
                    return r
                if t in sig:
                    r = sig[t]
                elif t.op == "x":
                    r = dig("x", t.args[1], *[h(a) for a in t.args[2]])
                elif t.op == "hv":
                    r = dig("hv", t.args[1], str(t.args[2]))
                elif t.op == "own":
                    r = dig("own", h(t.args[0]))
                elif t.op == "loc":
                    r = "loc"
                else:
                    r = dig(t.op, *[hv(a) for a in t.args])
                memo[t] = r
                return r

            def hv(a):
                if isinstance(a, T):
                    return h(a)
                if isinstance(a, tuple):
                    return dig("t", *[hv(x) for x in a])
                if isinstance(a, frozenset):
                    return dig("s", *sorted(hv(x) for x in a))
                return str(a)
            new = {}
            for x in self.carried:
                if x.op == "ind":
                    new[x] = dig("ind", str(x.args[1]), str(x.args[2]), *sorted({h(c) for c in self.carried[x] if c.op in ("cmp", "eq", "eqd")}))
                else:
                    new[x] = dig("phi", *sorted({h(d) for d in self.sim.defs.get(x, ())}))
            sig = new
        self.sig = sig
        return sig


    def weak(self, t):
        """start, step and the collections a counter runs over"""
        bases = set()
        for es in self.succ:
            for e, _ in es:
                if e is None:
                    continue
                for x in terms_of(e):
                    for y in subterms(x):
                        if y.op == "elem" and t in subterms(y.args[1]):
                            bases.add(plain(y.args[0]))
                        elif y.op in ("cmp", "eq", "eqd") and any(isinstance(z, T) and t in subterms(z) for z in y.args):
                            for z in y.args:
                                if isinstance(z, T):
                                    for q in subterms(z):
                                        if q.op in ("len", "nchars"):
                                            bases.add(plain(q.args[0]))
        return dig("weak", str(t.args[1:]), *sorted(bases))


def plain(t):
    """a term without the identity of call sites and loops"""
    if t.op in ("x", "hv", "phi", "ind", "loc"):
        return t.op
    return t.op + "(" + ",".join(plain(a) if isinstance(a, T) else "[" + ",".join(plain(x) if isinstance(x, T) else str(x) for x in a) + "]"
                                 if isinstance(a, (tuple, frozenset)) else str(a) for a in t.args) + ")"


FAMILIES = ("is_ascii_", "is_alpha", "is_num", "is_digit", "is_whitespace", "is_upper", "is_lower"), ("to_lower", "to_upper", "to_ascii"), \
    ("starts_with", "ends_with", "contains"), ("trim",), ("replace",), ("split", "rsplit"), ("as_i64", "as_u64", "as_f64"), ("next_u", "gen_")


def family(name):
    n = gen_short(name)
    for k, f in enumerate(FAMILIES):
        if n.startswith(f):
            return k + 1
    return None


def clamp(v):
    """keeps the chain of facts about a counter finite"""
    lo, hi = v[1], v[2]
    if lo > 4:
        lo = 4
    if hi < -4:
        hi = -4
    return ("I", lo if lo >= -4 else NEG, hi if hi <= 4 else POS, frozenset(x for x in v[3] if lo < x < hi and -4 <= x <= 4))


def at(s, c, y):
    """s with position c of a collection replaced by the counter y"""
    if not isinstance(s, T):
        return tuple(at(x, c, y) for x in s) if isinstance(s, tuple) else s
    if s.op == "elem" and s.args[1] is c:
        return mk("elem", at(s.args[0], c, y), y)
    if not s.args or s.op in ("x", "y", "phi", "ind"):
        return s
    a = tuple(at(x, c, y) for x in s.args)
    return s if a == s.args else mk(s.op, *a)


def dig(*xs):
    return hashlib.md5("\0".join(xs).encode()).hexdigest()[:16]


_carr = {}


def carried_in(t):
    r = _carr.get(t)
    if r is None:
        r = _carr[t] = frozenset(x.args[0] for x in subterms(t) if x.op in ("phi", "ind"))
    return r


def terms_of(e):
    if e[0] == "if":
        return (e[1],)
    if e[0] == "do":
        return tuple(e[2]) + tuple(x for p in e[3] for x in p)
    if e[0] == "ret":
        return (e[1],) + tuple(x for p in e[2] for x in p)
    if e[0] == "back":
        return tuple(v for _, v in e[3])
    return ()


# ---------------------------------------------------------------- product
class Known:
    def __init__(self, facts):
        self.facts = facts


def placed(t, facts):
    """t with the positions of its removals and insertions resolved by what is known of them"""
    from . import std
    k = Known(facts)
    if t.op == "elem" and t.args[0].op == "remove":
        v, i = t.args
        while v.op == "remove":
            if std.known_lt(k, i, v.args[1]):
                v = v.args[0]
            else:
                break
        return t if v is t.args[0] else elem(v, i)
    if t.op == "insert" and len(t.args) == 3:
        c = placed(t.args[0], facts) if t.args[0].op == "insert" else t.args[0]
        if c.op == "insert" and c.args[2].op == "elem" and t.args[2].op == "elem":
            c2 = mk("insert", c.args[0], c.args[1], placed(c.args[2], facts))
            return std.as_swap(k, c2, t.args[1], placed(t.args[2], facts)) or t
    return t


class Cmp:
    def __init__(self, ref, cur, limit=120000):
        self.s = (ref, cur)
        self.limit = limit
        self.problems = {}
        self.undecided = {}
        self.states = 0
        s1, s2 = ref.signatures(), cur.signatures()
        g = [{}, {}]
        for i, sg in enumerate((s1, s2)):
            for t, h in sg.items():
                g[i].setdefault(h, []).append(t)
        self.sym = [{}, {}]
        # a counter that differs only in what it is compared with: same start, step and arrays
        left = [{}, {}]
        for i in (0, 1):
            for h, ts in list(g[i].items()):
                if h not in g[1 - i] and ts[0].op == "ind":
                    for t in ts:
                        left[i].setdefault(self.s[i].weak(t), []).append((h, t))
        for w in left[0]:
            a, b = left[0][w], left[1].get(w, [])
            if len(a) == len(b) == 1:
                for i, (h, t) in ((0, a[0]), (1, b[0])):
                    g[i][h].remove(t)
                    if not g[i][h]:
                        del g[i][h]
                    g[i]["w" + w] = [t]
        # a container that is filled differently: same type, same content before the loop; what each round adds is compared where the loop goes round
        self.paired = ({}, {})
        left = [{}, {}]
        for i in (0, 1):
            for h, ts in list(g[i].items()):
                if h not in g[1 - i] and ts[0].op == "phi":
                    for t in ts:
                        ty = self.s[i].sim.phity.get(t)
                        if ty:
                            left[i].setdefault(ty, []).append((h, t))
        for ty in left[0]:
            a, b = left[0][ty], left[1].get(ty, [])
            if len(a) == len(b) == 1:
                h2 = dig("paired", ty)
                for i, (h, t) in ((0, a[0]), (1, b[0])):
                    g[i][h].remove(t)
                    if not g[i][h]:
                        del g[i][h]
                    g[i][h2] = [t]
                    self.paired[i][t] = h2
        for h in set(g[0]) | set(g[1]):
            a, b = sorted(g[0].get(h, []), key=lambda t: t.n), sorted(g[1].get(h, []), key=lambda t: t.n)
            op = (a or b)[0].op
            if a and b:
                for i, l in enumerate((a, b)):
                    for k, t in enumerate(l):
                        self.sym[i][t] = mk("sh" + op, h, k if len(a) == len(b) else 0)
                        if op == "phi" and len(a) == len(b) == 1:
                            self.paired[i][t] = h
            else:
                for i, l in enumerate((a, b)):
                    for k, t in enumerate(l):
                        self.sym[i][t] = mk("un" + op, i, h, k)
        # symbols that change when a loop goes round
        self.loopsyms = [{}, {}]
        for i in (0, 1):
            for t, y in self.sym[i].items():
                self.loopsyms[i].setdefault(t.args[0], set()).add(y)
        self.cmemo = {}
        self.binds = {}
        self.clos = ({}, {})
        self.onesided = {}
        self.closame = {}
        self.weak = []
        self.went = set()
        self.freed = {}
        self.tested = None
        # tests of functions that are given the outcome of a test
        self.inner = any(inner_tests(t) for side in self.s for t in side.testlist)

    # -- canonical terms
    def canon(self, i, t, bind):
        memo = self.cmemo.get((i, bind))
        if memo is None:
            memo = self.cmemo[(i, bind)] = {}
        bd = dict(bind)
        shifted = any(k[0] == "s" and k[1] == i for k in bd)

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            o = t.op
            if not t.sites and not t.locs and not t.code and o not in ("loc",):
                memo[t] = t
                return t
            if o in ("x", "hv"):
                y = bd.get((i, t.args[0]))
                if y is None:
                    y = mk("un" + o, i, t.args[0], t.args[1])
                r = y if o == "x" else mk("yh", y, t.args[2])
                if o == "x" and t.args[2]:
                    r = mk("ya", r, tuple(go(a) for a in t.args[2])) if y.op == "unx" else r
            elif o in ("phi", "ind"):
                r = self.sym[i].get(t) or mk("un" + o, i, str(t.args))
                n = bd.get(("s", i, t.args[0]))
                if n and o == "ind" and n == 1:
                    r = addc(r, t.args[2])
                elif n == "c" and o == "ind" and isinstance(t.args[1], int):
                    r = I(t.args[1] + t.args[2])
                elif n:
                    r = mk("un" + o, i, r, n)
            elif o == "own":
                r = go(t.args[0])
                if r.op != "own":
                    r = mk("own", r, 0)
            elif o == "loc":
                r = mk("unloc", i, str(t.args[0]), walk(t.args[1]))
            elif o == "eq":
                r = t_eq(go(t.args[0]), go(t.args[1]))
            elif o == "eqd":
                r = t_eq(addc(go(t.args[0]), t.args[2]), go(t.args[1]))
            elif shifted and o in ("add", "cmp", "elem", "diff"):
                a = [walk(x) for x in t.args]
                if o == "add":
                    r = addc(a[0], a[1])
                elif o == "cmp":
                    r = t_lt(addc(a[0] or I(0), a[2]), a[1] or I(0))
                elif o == "elem":
                    r = elem(a[0], a[1])
                else:
                    r = mk("diff", lin(a[0])[0], lin(a[1])[0])
            elif o == "discr":
                r = mk("discr", go(t.args[0]))
                if t in DTAB:
                    DTAB.setdefault(r, DTAB[t])
            elif o == "clo":
                r = mk("clo", self.clokey(i, t.args[0]), *[walk(a) for a in t.args[1:]])
            elif o == "fn" and t.args[0] in self.s[i].sim.p.fns:
                r = mk("fn", self.clokey(i, t.args[0]))
            else:
                r = mk(o, *[walk(a) for a in t.args])
            if t.uns:
                r.uns = True
            memo[t] = r
            return r

        def walk(a):
            if isinstance(a, T):
                return go(a)
            if isinstance(a, tuple):
                return tuple(walk(x) for x in a)
            if isinstance(a, frozenset):
                return frozenset(walk(x) for x in a)
            return a
        return go(t)

    def clokey(self, i, name):
        h = deep_hash(self.s[i].sim.p, name)
        self.clos[i].setdefault(h, name)
        return h

    def same_closure(self, h1, h2):
        """True / False / None (undecided) for two closures with different bodies"""
        k = (h1, h2)
        if k not in self.closame:
            self.closame[k] = None
            n1, n2 = self.clos[0].get(h1), self.clos[1].get(h2)
            if n1 and n2:
                try:
                    a, b = self.s[0].sim, self.s[1].sim
                    c = Cmp(Side(RelSim(a.p, n1, a.stop, amb=a.amb, peel=a.peel)), Side(RelSim(b.p, n2, b.stop, amb=b.amb, peel=b.peel))).run()
                    self.closame[k] = False if c.problems else None if c.undecided else True
                except Limit:
                    pass
        return self.closame[k]

    def one_sided(self, name):
        """a library function only one side uses may well be related to what the other side does"""
        r = self.onesided.get(name)
        if r is None:
            a, b = self.s[0].calls, self.s[1].calls
            r = (name in a) != (name in b) and not name.startswith(("mutagenyx", "<mutagenyx"))
            if r:
                fam = family(name)
                r = not (fam and any(family(n) == fam and (n in a) != (n in b) and (n in a) != (name in a) for n in a | b))
            self.onesided[name] = r
        return r

    def unmodelled(self, *evs):
        """an operation on data of the standard library that only one side uses and whose result the analysis does not compute"""
        for e in evs:
            if e and e[0] == "do" and DATAOP.match(e[1]) and e[1].rsplit("::", 1)[1] not in LOSSY and self.one_sided(e[1]):
                return True
        return False

    def unshared(self, t):
        for x in subterms(t):
            if x.op == "call" and self.one_sided(x.args[0]):
                return True
            if x.op in ("clo", "fn") and (x.args[0] in self.clos[0]) + (x.args[0] in self.clos[1]) == 1 or x.op == "clo" and x.args[0] not in self.clos[0]:
                return True
        return Cmp.unshared0(t)

    @staticmethod
    def unshared0(t):
        for x in subterms(t):
            if x.op.startswith("un") and x.op in ("unphi", "unind", "unx", "unloc", "unhv"):
                return True
        return False

    # -- moving one side to its next observable item
    @staticmethod
    def settled(facts, t):
        """t with the outcomes of tests that the facts decide, where they are arguments of functions"""
        for x in inner_tests(t):
            r = ev(facts, x)
            if r is not None:
                t = subst(t, x, B(r))
        return t

    def resettle(self, facts):
        for k in [k for k in facts if inner_tests(k)]:
            k2 = self.settled(facts, k)
            if k2 is k:
                continue
            v, w = facts.pop(k), facts.get(k2)
            if w is None:
                facts[k2] = v
                if k in DTAB:
                    DTAB.setdefault(k2, DTAB[k])
            elif v[0] == "E" and (w[0] == "E" and w[1] is not v[1] or w[0] == "N" and v[1] in w[1]) or v[0] == "N" and w[0] == "E" and w[1] in v[1] \
                    or v[0] == w[0] == "B" and v != w:
                return False
            elif v[0] == "E":
                facts[k2] = v
        return True

    def advance(self, i, n, facts, bind, fuzzy):
        side = self.s[i]
        out = []
        seen = set()
        work = [(n, facts, fuzzy)]
        while work:
            n, f, z = work.pop()
            k = (n, frozenset(f.items()), z)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 20000:
                raise Limit("advance")
            if n in side.term and not side.succ[n]:
                out.append((None, n, f, z, side.term[n]))
                continue
            for e, m in side.succ[n]:
                if e is None:
                    work.append((m, f, z))
                elif e[0] == "if":
                    c = self.canon(i, e[1], bind)
                    f2 = dict(f)
                    if self.inner:
                        c = self.settled(f2, c)
                    if c.op == "b":
                        if c.args[0] == e[2]:
                            work.append((m, f2, z))
                        continue
                    if not assume(f2, c, e[2]):
                        continue
                    if self.inner and not self.resettle(f2):
                        continue
                    z2 = z
                    if self.unshared(c):
                        z2 = z | {(i, c, e[2])}
                        if len(z2) > 4:
                            z2 = TOP
                    work.append((m, f2, z2))
                else:
                    out.append((e, m, f, z, None))
        return out

    def doomed(self, n, facts, bind):
        """does the reference, from here, panic as well, unless an operation on the way fails"""
        work, seen, ends = [(n, facts)], set(), 0
        while work:
            n, f = work.pop()
            k = (n, frozenset(f.items()))
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 200:
                return False
            for e, m, f2, z, t in self.advance(0, n, f, bind, frozenset()):
                if e is None:
                    ends += 1
                elif e[0] == "back":
                    return False
                elif e[0] == "ret":
                    v = e[1]
                    if not (isinstance(v, T) and (v.op == "agg" and v.args[1] == "Err" or ev(f2, mk("isv", discr(self.canon(0, v, bind)), "Err")) is True)):
                        return False
                else:
                    work.append((m, f2))
        return ends > 0

    def keep(self, n1, n2, bind, facts):
        if not facts:
            return facts
        want = set()
        for i, n in ((0, n1), (1, n2)):
            key = (i, self.s[i].ft[n], bind)
            r = self.binds.get(key)
            if r is None:
                r = set()
                bits, l = self.s[i].ft[n], self.s[i].testlist
                k = 0
                while bits:
                    if bits & 1:
                        t = l[k]
                        if t.op == "diff":
                            a, b = lin(self.canon(i, t.args[0], bind))[0], lin(self.canon(i, t.args[1], bind))[0]
                            r.add(mk("diff", a, b))
                            r.add(mk("diff", b, a))
                        else:
                            y = self.canon(i, t, bind)
                            r.add(y)
                            if y.op == "add":
                                r.add(y.args[0])
                    bits >>= 1
                    k += 1
                self.binds[key] = r
            want |= r
        return {s: v for s, v in facts.items() if s in want}

    def prune_bind(self, n1, n2, bind):
        out = []
        for k, y in bind:
            if k[0] == "s":
                if (self.s[k[1]].fl[(n1, n2)[k[1]]] >> self.s[k[1]].loopix.get(k[2], 0)) & 1:
                    out.append((k, y))
                continue
            i, site = k
            sd = self.s[i]
            b = sd.sites.get(site)
            if b is not None and (sd.fs[(n1, n2)[i]] >> b) & 1:
                out.append(((i, site), y))
        return frozenset(out)

    def run(self):
        start = (0, 0, frozenset(), frozenset(), frozenset())
        par = {start: None}
        work = [start]
        while work:
            cur = work.pop()
            n1, n2, bind, fz, fuzzy = cur
            facts = dict(fz)
            for e1, m1, f1, z1, t1 in self.advance(0, n1, facts, bind, fuzzy):
                for e2, m2, f2, z2, t2 in self.advance(1, n2, f1, bind, z1):
                    for nx in self.match(cur, par, e1, m1, t1, e2, m2, t2, bind, f2, z2, n1, n2):
                        a, b, bd, ff, z = nx
                        bd = self.prune_bind(a, b, bd)
                        key = (a, b, bd, frozenset(self.keep(a, b, bd, ff).items()), z)
                        if key not in par:
                            if len(par) > self.limit:
                                if self.settle():
                                    self.states = len(par)
                                    return self
                                raise Limit("product")
                            par[key] = (cur, (e1, e2))
                            work.append(key)
        self.states = len(par)
        self.settle()
        return self

    def settle(self):
        for causes, key, p in self.weak:
            if any((i, c, not v) in self.went for i, c, v in causes):
                self.undecided.pop(key, None)
                self.problems.setdefault(key, p)
        return bool(self.problems)

    def extra_condition(self, causes):
        """conditions only the current tree tests, with library predicates the reference does not use on values the reference does not test: nothing the
        reference does can depend on them, so both outcomes have to agree with the reference"""
        if not causes or causes is TOP or TOP <= causes:
            return False
        r = self.freed.get(causes)
        if r is None:
            r = self.freed[causes] = self.extra0(causes)
        return r

    def extra0(self, causes):
        r = self.extra1(causes)
        if os.environ.get("XD"): print("EXTRA", r, [(i, show(c)[:300], v) for i, c, v in causes], [n for n in self.s[0].calls if n not in self.s[1].calls and self.one_sided(n)], [show(t)[:100] for i, c, v in causes if c is not None for t in places(c) & (self.tested or set())])
        return r

    def extra1(self, causes):
        a, b = self.s[0], self.s[1]
        if any(n not in b.calls and self.one_sided(n) for n in a.calls):
            return False
        if self.tested is None:
            self.tested = set()
            for t in a.testlist:
                if t.op in ("discr", "isv"):
                    continue
                self.tested |= places(self.canon(0, t, frozenset()))
        for i, c, v in causes:
            if i != 1:
                return False
            sub = subterms(c)
            fresh = [x for x in sub if x.op == "unx"]
            if any(x.op in ("unphi", "unloc", "unhv", "clo") for x in sub) or any("mutagenyx" in str(x.args[2]) for x in fresh):
                return False
            if not fresh and not any(x.op == "call" and self.one_sided(x.args[0]) for x in sub):
                return False
            if places(c) & self.tested:
                return False
        return True

    def match(self, cur, par, e1, m1, t1, e2, m2, t2, bind, facts, fuzzy, n1, n2):
        k1 = e1[0] if e1 else "end"
        k2 = e2[0] if e2 else "end"
        if k1 == "end":
            # the reference does not return here (it panics): nothing is promised
            return []
        if k1 == "back" or k2 == "back":
            bd = dict(bind)
            moved = [e1[1] if k1 == "back" else None, e2[1] if k2 == "back" else None]
            first = [k1 == "back" and e1[2], k2 == "back" and e2[2]]
            if k1 == k2 and not self.alike(moved[0], moved[1]):
                # a loop only one side has goes round on its own
                own = [not self.counterpart(i, moved[i]) for i in (0, 1)]
                if own[0] != own[1]:
                    if own[0]:
                        k2 = "wait"
                    else:
                        k1 = "wait"
                    moved[own.index(False)] = None
                    first[own.index(False)] = False
            if k1 == k2 and first[0] == first[1] and self.alike(moved[0], moved[1]):
                d1 = {self.paired[0][t]: v for t, v in e1[3] if t in self.paired[0]}
                d2 = {self.paired[1][t]: v for t, v in e2[3] if t in self.paired[1]}
                for h in sorted(set(d1) & set(d2)):
                    a, b = self.canon(0, d1[h], bind), self.canon(1, d2[h], bind)
                    if not self.same(a, b, facts):
                        self.problem(cur, par, "carried", "a loop goes round with %s where the reference has %s" % (show(b)[:120], show(a)[:120]), "", fuzzy, facts, not self.definite(a, b, facts))
                        return []
                self.went |= fuzzy
                facts = self.rebase(facts, 0, moved[0], 1, moved[1], first[0])
            else:
                for i in (0, 1):
                    L = moved[i]
                    if L is None:
                        continue
                    ahead = [k for k in bd if k[0] == "s" and k[1] == 1 - i and bd[k] == ("c" if first[i] else 1)
                             and self.alike(*((L, k[2]) if i == 0 else (k[2], L)))]
                    if ahead and not bd.get(("s", i, L)):
                        del bd[ahead[0]]
                        facts = self.rebase(facts, i, L, 1 - i, ahead[0][2], first[i])
                    else:
                        n = bd.get(("s", i, L))
                        if self.loopsyms[i].get(L):
                            bd[("s", i, L)] = 99 if n else "c" if first[i] else 1
                        if n:
                            facts = self.dropsyms(facts, self.loopsyms[i].get(L, set()))
            for i in (0, 1):
                if moved[i] is not None:
                    for k in [k for k in bd if k[0] == "s" and k[1] == i and self.nested(i, moved[i], k[2])]:
                        del bd[k]
            return [(m1 if k1 == "back" else n1, m2 if k2 == "back" else n2, frozenset(bd.items()), facts, fuzzy)]
        if k2 == "end" and self.doomed(n1, facts, bind):
            return []
        if k2 == "end":
            self.problem(cur, par, "panic", "may panic where the reference continues with %s" % desc(e1), "", fuzzy, facts)
            return []
        if k1 != k2:
            self.problem(cur, par, "shape", "%s where the reference has %s" % (desc(e2), desc(e1)), loc_of(e2), fuzzy, facts, self.unmodelled(e1, e2))
            return []
        if k1 == "ret":
            a, b = self.canon(0, e1[1], bind), self.canon(1, e2[1], bind)
            if not self.same(a, b, facts):
                self.problem(cur, par, "value", "returns %s where the reference returns %s" % (show(b)[:120], show(a)[:120]), "", fuzzy, facts, not self.definite(a, b, facts))
                return []
            if self.stores(cur, par, e1[2], e2[2], bind, facts, fuzzy, "on return"):
                self.went |= fuzzy
            return []
        if e1[1] != e2[1]:
            self.problem(cur, par, "call", "%s where the reference has %s" % (desc(e2), desc(e1)), e2[5], fuzzy, facts, self.unmodelled(e1, e2))
            return []
        if len(e1[2]) != len(e2[2]):
            self.problem(cur, par, "call", "%s has other arguments than the reference" % desc(e2), e2[5], fuzzy, facts)
            return []
        diffs = [(a, b) for a, b in ((self.canon(0, x, bind), self.canon(1, y, bind)) for x, y in zip(e1[2], e2[2])) if not self.same(a, b, facts)]
        if diffs:
            # (one argument that certainly differs is enough)
            a, b = ([d for d in diffs if self.definite(d[0], d[1], facts)] or diffs)[0]
            self.problem(cur, par, "arg", "%s(%s) where the reference has %s" % (gen_short(e2[1]), show(b)[:100], show(a)[:100]), e2[5],
                         fuzzy, facts, not self.definite(a, b, facts))
            return []
        if not self.stores(cur, par, e1[3], e2[3], bind, facts, fuzzy, "at the call of " + gen_short(e2[1])):
            return []
        x1, x2 = e1[4], e2[4]
        y = mk("y", x1.args[0], x2.args[0], x1.args[1])
        bd = dict(bind)
        bd[(0, x1.args[0])] = y
        bd[(1, x2.args[0])] = y
        return [(m1, m2, frozenset(bd.items()), self.dropsyms(facts, {y}), fuzzy)]

    def counterpart(self, i, L):
        mine = self.loopsyms[i].get(L, set())
        return any(mine & o for o in self.loopsyms[1 - i].values())

    def alike(self, l0, l1):
        """do a loop of the reference and one of the current tree carry the same symbols"""
        s0, s1 = self.loopsyms[0].get(l0, set()), self.loopsyms[1].get(l1, set())
        return bool(s0 & s1) or not s0 and not s1

    def nested(self, i, outer, inner):
        if outer == inner:
            return False
        if outer[0] == inner[0] and outer[1] == inner[1]:
            return inner[2] in self.s[i].sim.p.fns[outer[1]].loops().get(outer[2], ())
        return len(inner[0]) > len(outer[0]) and inner[0][:len(outer[0])] == outer[0]

    def rebase(self, facts, i, l, j, m, first):
        """facts after both sides have gone round: counters have advanced, other carried values are new"""
        syms = self.loopsyms[i].get(l, set()) | self.loopsyms[j].get(m, set())
        if not syms or not facts:
            return facts
        steps = {}
        for side, k in ((i, l), (j, m)):
            for t, y in self.sym[side].items():
                if t.args[0] == k and t.op == "ind" and y.op == "shind" and isinstance(t.args[1], int):
                    steps[y] = (t.args[1], t.args[2])
        out = {}
        for s, v in facts.items():
            hit = subterms(s) & syms
            if not hit:
                out[s] = v
                if first:
                    # the counters have their first values: what is known about these positions is known about the counters
                    for y, (start, st) in steps.items():
                        c = start + st
                        if v[0] == "I" and s.op in ("len", "nchars"):
                            # s - y
                            d = mk("diff", y, s) if y.n < s.n else mk("diff", s, y)
                            lo, hi = v[1] - c if v[1] > NEG else NEG, v[2] - c if v[2] < POS else POS
                            if d.args[0] is s:
                                lo, hi = -hi, -lo
                            out[d] = clamp(("I", lo, hi, frozenset()))
                        s2 = at(s, I(c), y)
                        if s2 is not s:
                            out[s2] = v
                continue
            if first or len(hit) != 1:
                continue
            y = next(iter(hit))
            if y not in steps:
                continue
            st = steps[y][1]
            if s is y:
                continue
            if v[0] == "I" and s.op == "diff" and (s.args[0] is y) != (s.args[1] is y):
                d = st if s.args[1] is y else -st
                out[s] = clamp(("I", v[1] + d if v[1] > NEG else NEG, v[2] + d if v[2] < POS else POS, frozenset(x + d for x in v[3])))
            else:
                mark = mk("mark")
                s2 = subst(s, addc(y, st), mark)
                if y not in subterms(s2):
                    out[subst(s2, mark, y)] = v
        return out

    def stores(self, cur, par, v1, v2, bind, facts, fuzzy, when):
        d1 = {self.canon(0, r, bind): self.canon(0, v, bind) for r, v in v1}
        d2 = {self.canon(1, r, bind): self.canon(1, v, bind) for r, v in v2}
        good = True
        for r in sorted(set(d1) | set(d2), key=lambda t: t.n):
            a, b = d1.get(r, r), d2.get(r, r)
            if not self.same(a, b, facts):
                self.problem(cur, par, "store", "%s holds %s %s where the reference has %s" % (show(r)[:60], show(b)[:100], when, show(a)[:100]), "",
                             fuzzy, facts, not self.definite(a, b, facts) or self.unshared(r))
                good = False
        return good

    def same(self, a, b, facts, d=0):
        if a is b:
            return True
        if a.op == "own" or b.op == "own":
            # a copy has the value of what it was made from
            return self.same(unown(a) if a.op == "own" else a, unown(b) if b.op == "own" else b, facts, d)
        if not d and (inner_tests(a) or inner_tests(b)):
            a, b = self.settled(facts, a), self.settled(facts, b)
            if a is b:
                return True
        for x, y in ((a, b), (b, a)):
            f = facts.get(x)
            if f:
                if f[0] == "E" and (f[1] is y or (facts.get(y) or ("", None))[0] == "E" and facts[y][1] is f[1]):
                    return True
                if f[0] == "B" and y.op == "b" and y.args[0] == f[1]:
                    return True
                if f[0] == "I" and f[1] == f[2] and y.op == "i" and y.args[0] == f[1]:
                    return True
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "alloc::str::<impl str>::replace":
                # nothing to replace
                f = facts.get(discr(mk("call", "core::str::<impl str>::find", x.args[1][:2])))
                if f and ev(facts, mk("isv", discr(mk("call", "core::str::<impl str>::find", x.args[1][:2])), "None")):
                    if self.same(x.args[1][0], y, facts, d + 1):
                        return True
        for x, y in ((a, b), (b, a)):
            w = x.op == "cast" and re.match(r"([iu])(\d+|size)(<|$)", str(x.args[1]))
            if w:
                # a conversion that does not change the value
                bits = 64 if w.group(2) == "size" else int(w.group(2))
                lo, hi, _ = iv_get(facts, x.args[0])
                least = -(1 << bits - 1) if w.group(1) == "i" else 0
                if lo >= least and hi < least + (1 << bits) and self.same(x.args[0], y, facts, d + 1):
                    return True
        if a.op in NUMERIC and b.op in NUMERIC:
            (x, k), (y, m) = lin(a), lin(b)
            if x is not None and y is not None and x is not y and ev(facts, mk("eqd", x, y, k - m) if x.n < y.n else mk("eqd", y, x, m - k)) is True:
                return True
        for x, y in ((a, b), (b, a)):
            if y.op == "b":
                r = ev(facts, x)
                if r is not None and r == y.args[0]:
                    return True
            elif y.op == "i" and x.op in ("sub", "add"):
                xb, xc = lin(x)
                if xb is not None:
                    lo, hi, _ = iv_get(facts, xb)
                    if lo == hi == y.args[0] - xc:
                        return True
        if a.op == "agg" and not a.args[3] or b.op == "agg" and not b.args[3]:
            for x, y in ((a, b), (b, a)):
                if x.op == "agg" and y.op not in ("agg",) and x.args[1]:
                    if ev(facts, mk("isv", discr(y), x.args[1])) is True:
                        return True
        if a.op != b.op or a.op == "elem":
            na, nb = placed(a, facts), placed(b, facts)
            if na is not a or nb is not b:
                return self.same(na, nb, facts, d + 1)
        if d < 12:
            # Some(payload of v) is v, etc.
            for x, y in ((a, b), (b, a)):
                if x.op == "agg" and x.args[1] and y.op not in ("agg", "b", "s", "i") and x.args[3]:
                    if ev(facts, mk("isv", discr(y), x.args[1])) is True and all(
                            self.same(v, proj(proj(y, ("v", x.args[1])), ("f", n)), facts, d + 1) for n, v in zip(x.args[2], x.args[3])):
                        return True
            if a.op == b.op and a.op in ("clo", "fn") and a.args[0] != b.args[0] and (a.op == "clo" or a.args[0] in self.clos[0] and b.args[0] in self.clos[1]):
                r = self.same_closure(a.args[0], b.args[0])
                if r is False:
                    # definite: make the difference comparable
                    self.clos[1].setdefault(a.args[0], "")
                    self.clos[0].setdefault(b.args[0], "")
                return bool(r) and len(a.args) == len(b.args) and all(self.same2(x, y, facts, d + 1) for x, y in zip(a.args[1:], b.args[1:]))
            if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("x", "y", "phi"):
                return all(self.same2(x, y, facts, d + 1) for x, y in zip(a.args, b.args))
        return False

    def definite(self, a, b, facts, d=0):
        """do two values that are not known to be equal certainly differ"""
        a, b = placed(a, facts), placed(b, facts)
        sa, sb = strip(a), strip(b)
        if (sa is not a) != (sb is not b) and self.same(sa, sb, facts):
            return True
        if a.op == "agg" and b.op == "agg" and d < 12:
            if a.args[:3] != b.args[:3]:
                return True
            return any(not self.same(x, y, facts) and self.definite(x, y, facts, d + 1) for x, y in zip(a.args[3], b.args[3]))
        if self.unshared(a) or self.unshared(b):
            return False
        ca, cb = seqops(a), seqops(b)
        if len(ca) != len(cb):
            # the same sequence may be the result of different editing operations; only its length is compared
            (ba, na), (bb, nb) = growth(a), growth(b)
            return ba is bb and na != nb
        return True

    def same2(self, x, y, facts, d):
        if isinstance(x, T) and isinstance(y, T):
            return self.same(x, y, facts, d)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same2(p, q, facts, d) for p, q in zip(x, y))
        return x == y

    @staticmethod
    def dropsyms(facts, syms):
        if not syms or not facts:
            return facts
        return {s: v for s, v in facts.items() if not (subterms(s) & syms)}

    def witnessed(self, causes, facts):
        """every cause is a test of a changed text (other case, trimmed, ...) whose outcome differs from the same test of the text itself"""
        if not causes or TOP <= causes:
            return False
        for i, c, v in causes:
            sc = strip(c)
            if sc is c or sc.op == "b":
                return False
            r = ev(facts, sc)
            if r is None or r == v:
                return False
            if not v and (c.op != "eq" or all(strip(x) is not x for x in c.args) or any(x.op == "s" for x in c.args)):
                return False
        return True

    def problem(self, cur, par, kind, msg, loc, fuzzy, facts, soft=False):
        if fuzzy and self.witnessed(fuzzy, facts):
            fuzzy = frozenset()
        d = self.undecided if fuzzy or soft else self.problems
        key = kind + ":" + msg[:200]
        if key not in d and len(d) < 40:
            tr = []
            c = cur
            while par.get(c) is not None:
                p, (a, b) = par[c]
                if b:
                    tr.append(desc(b))
                c = p
            tr = tr[::-1][-12:] + ["when " + "; ".join(sorted("%s=%s" % (show(s)[:70], str(v[1:])[:40]) for s, v in facts.items())[:10])]
            d[key] = (kind, msg, loc, tr)
            if fuzzy and not soft and not (kind == "panic" and any(x[1].op == "isv" for x in fuzzy if x[1] is not None)) and self.extra_condition(fuzzy):
                self.weak.append((fuzzy, key, d[key]))


TOP = frozenset([("?", None, None)])


def places(t):
    """the inputs a term looks at"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T):
            return
        if x.op in ("p", "elem", "get", "key", "arg", "y", "yh", "shphi", "shind", "own", "obj", "loc", "mval") and not any(z.op == "call" and "mutagenyx" not in z.args[0] or z.op == "unx" for z in subterms(x)) \
                or x.op == "call" and "mutagenyx" in x.args[0]:
            out.add(x)
            return
        for y in x.args:
            go(y)
    go(t)
    return out


INNER = {}


NUMERIC = INTOPS + ("x", "y", "cast", "phi", "shphi", "sub", "diff")
TESTS = ("eq", "cmp", "eqd", "isv", "not", "in", "and", "or")
OUTCOMES = {}


def outcomes(t):
    """tests whose outcome is part of the value t"""
    r = OUTCOMES.get(t)
    if r is None:
        r = OUTCOMES[t] = tuple(x for x in subterms(t) if x.op in TESTS)
    return r


def inner_tests(t):
    """tests whose outcome is an argument of a function in t"""
    r = INNER.get(t)
    if r is None:
        out = set()
        for x in subterms(t):
            if x.op in ("call", "disp"):
                for y in subterms(x):
                    if y.op in TESTS:
                        out.add(y)
        r = INNER[t] = tuple(sorted(out, key=lambda y: -len(subterms(y))))
    return r


CHANGING = re.compile(r"(^|::)(trim\w*|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|replace|replacen|escape_\w+|abs|wrapping_abs|unsigned_abs)$")


def strip(t):
    """the term without the library functions that change a text"""
    if not any(x.op == "call" and CHANGING.search(gen_short(x.args[0])) for x in subterms(t)):
        return t
    for _ in range(6):
        m = [x for x in subterms(t) if x.op == "call" and CHANGING.search(gen_short(x.args[0])) and x.args[1]]
        if not m:
            break
        t = subst(t, m[0], m[0].args[1][0])
    return t


DATAOP = re.compile(r"^<?(alloc::(vec|string|collections|slice|str)|core::(slice|str|option|result|iter|num)|std::collections|serde_json)::")
# operations that throw data away or disarrange it: an extra one is not a way to say the same thing
LOSSY = {"truncate", "dedup", "dedup_by_key", "dedup_by", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "rotate_left", "rotate_right", "clear", "pop",
         "pop_front", "pop_back", "swap_remove", "split_off", "remove", "drain", "shuffle", "swap", "fill"}
GROW = {"remove": -1, "insert": 1, "push": 1, "popped": -1, "removed": -1, "swap_remove": -1, "swap": 0, "reverse": 0, "rev": 0}


def seqops(t):
    return [x for x in subterms(t) if x.op in GROW and x.op not in ("push", "rev")]


def growth(t):
    n = 0
    while t.op in GROW:
        n += GROW[t.op]
        t = t.args[0]
    return t, n


def desc(e):
    if e is None:
        return "an end"
    if e[0] == "do":
        return "%s(%s)" % (gen_short(e[1]), ", ".join(show(a)[:60] for a in e[2] if a is not UNIT))
    if e[0] == "ret":
        return "return %s" % show(e[1])[:80]
    return e[0]


def loc_of(e):
    return e[5] if e and e[0] == "do" else ""


# ---------------------------------------------------------------- reference program
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_ref = []


def reference(prog):
    """the reviewed program, with the standard-library models of the current run"""
    if not _ref:
        from .mir import Program
        import tempfile
        import shutil
        d = tempfile.mkdtemp(prefix="mirref-")
        try:
            with lzma.open(os.path.join(HERE, "spec", "reference.json.xz")) as f:
                parts = json.load(f)
            for n, p in parts.items():
                with open(os.path.join(d, n), "w") as f:
                    json.dump(p, f)
            r = Program(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for n, f in prog.fns.items():
            if n.startswith(("models::", "<models::")):
                r.fns[n] = f
        for i in prog.impls:
            if i["crate"] == "models":
                r.impls.append(i)
        for n, a in prog.adts.items():
            r.adts.setdefault(n, a)
        _ref.append(r)
    return _ref[0]


UNIT_TRAITS = ("NodePrinter", "NodePrinterFactory", "Mutator", "MutatorFactory", "Visitor", "VisitorMut", "Commenter", "CommenterFactory", "Namer", "Permit", "Id",
               "JSONLanguageDelegate", "MutableLanguage", "NodeFinder", "NodeFinderFactory")
STOPS = ("pretty_printer::write_", "pretty_printer::PrettyPrinter::", "node_printer_helpers::traverse_sub_node_and_print", "ast::ASTTraverser::",
         "<serde_json::value::Value as mutagenyx_lib::json::JSONMutate>::get_node_with_id", "<serde_json::value::Value as json::JSONMutate>::get_node_with_id")


CONFORM = ("Each unit (function or trait method, listed under 'analysed') is turned by abstract interpretation of its MIR into an automaton over its observable actions (calls across the "
           "unit's boundary with argument terms, writes through its arguments, returned values, path conditions); the product of that automaton with the one of the reviewed reference "
           "(spec/reference.json.xz) is searched for a path on which both sides know the same facts and act differently. Loops are compared by induction (first iterations peeled, then widened). "
           "Only definite differences are reported; differences the domain cannot decide are listed in the notes.")
ASSUME = ["the reviewed reference (spec/reference.json.xz, rebuilt only by tools/mkref.py) behaves as the property says; review notes in DESIGN.md",
          "models of std, serde_json, rand, num and the sha crate in vlib/std.py and models/models.rs"]

JSON_CORE = ["json::*"]
JSON_TRAITS = [("JSONMutate", None), ("SolidityASTApi", None), ("MutagenyxString", None)]
PRINT_CORE = ["node_printer_helpers::*", "node_printer::*", "pretty_print_visitor::*", "<pretty_print_visitor::*"]


def unit_trait(n):
    """the crate trait a `<X as Trait>::m` name implements, if calls of it are boundaries"""
    if not n.startswith("<") or " as mutagenyx_lib::" not in n:
        return None
    t = strip_angle(n.split(" as ", 1)[1].rsplit(">::", 1)[0]).rsplit("::", 1)[-1]
    return t if t in UNIT_TRAITS else None


def strip_angle(t):
    i = t.find("<")
    return t[:i] if i > 0 else t


def is_stop(n, entry):
    if n == entry or "{closure" in n:
        return False
    if unit_trait(n):
        return True
    m = n[len("mutagenyx_lib::"):] if n.startswith("mutagenyx_lib::") else n
    return m.startswith(STOPS)


def body_hash(prog, name):
    memo = prog.__dict__.setdefault("_bodyhash", {})
    r = memo.get(name)
    if r is None:
        f = prog.fns[name]
        txt = json.dumps([[b["s"], b["t"]] for b in f.blocks if not b["cl"]] + [f.locals], sort_keys=True, default=str)
        txt = re.sub(r'"[^" ]*\.rs:\d+"', '""', txt)
        txt = re.sub(r'[\w/.-]*\.rs:\d+(:\d+)?', '', txt)
        r = memo[name] = hashlib.md5(txt.encode()).hexdigest()
    return r


def deep_hash(prog, name):
    """identity of a function together with everything it may call"""
    memo = prog.__dict__.setdefault("_deephash", {})
    r = memo.get(name)
    if r is None:
        parts = []
        for n in sorted(prog.reachable([name])):
            if n != name and is_stop(n, name):
                parts.append(n)
            else:
                parts.append((n if n != name else "") + "=" + body_hash(prog, n))
        r = memo[name] = dig(*parts)
    return r


def full_hash(prog, name):
    memo = prog.__dict__.setdefault("_fullhash", {})
    r = memo.get(name)
    if r is None:
        r = memo[name] = dig(*[n + "=" + body_hash(prog, n) for n in sorted(prog.reachable([name]))])
    return r


def weight(prog, name):
    """size of a function together with what would be opened inside it"""
    memo = prog.__dict__.setdefault("_weight", {})
    r = memo.get(name)
    if r is None:
        r = memo[name] = sum(sum(1 for b in prog.fns[m].blocks if not b["cl"]) for m in prog.reachable([name])
                             if m in prog.fns and (m == name or not is_stop(m, name)))
    return r


def compare(prog, refname, curname=None, stop=None, shared=False, opened=(), **kw):
    """shared: functions with the same body (and callees) on both sides stay calls (1: all of them, 2: only the larger ones)"""
    ref = reference(prog)
    curname = curname or refname
    stop = stop or is_stop
    if "hook" in kw:
        kw["extra"] = HOOKS[kw.pop("hook")]

    def both(n):
        """a boundary has to exist on both sides with the same signature; otherwise it is opened"""
        if n in opened:
            return False
        f, g = ref.fns.get(n), prog.fns.get(n)
        if f is None and g is None:
            return True
        return f is not None and g is not None and f.argc == g.argc and [str(x) for x in f.locals[:f.argc + 1]] == [str(x) for x in g.locals[:g.argc + 1]]

    def same(n):
        if n in opened and shared == 2:
            return False
        if shared == 3:
            # functions without effects, equal up to the boundaries: the order of their calls does not matter
            return n in ref.fns and n in prog.fns and "{closure" not in n and not n.startswith(("models::", "<models::")) and deep_hash(ref, n) == deep_hash(prog, n) and \
                all(pure(p, n) for p in (ref, prog))
        return shared and (shared == 1 or weight(ref, n) > 24) and n in ref.fns and n in prog.fns and "{closure" not in n and not n.startswith(("models::", "<models::")) and \
            full_hash(ref, n) == full_hash(prog, n)
    a = Side(RelSim(ref, refname, lambda n: stop(n, refname) and both(n) or n != refname and same(n), **kw))
    b = Side(RelSim(prog, curname, lambda n: stop(n, curname) and both(n) or n != curname and same(n), **kw))
    return Cmp(a, b).run()


def agree(prog, f, g, **kw):
    """do two functions of the current program (same parameters by position, same field names) act alike"""
    a, b = (Side(RelSim(prog, n, lambda x, n=n: is_stop(x, n), **kw)) for n in (f, g))
    return Cmp(a, b).run()


# ---------------------------------------------------------------- conformance of a set of units
def trait_methods(prog, trait):
    """method names of a workspace trait, with the name of the default body if there is one"""
    out = {}
    for i in prog.impls:
        if i["trait"] == trait:
            for m, p in i["methods"]:
                out.setdefault(m, None)
    for n in prog.fns:
        if n.startswith(trait + "::") and "::" not in n[len(trait) + 2:]:
            out[n[len(trait) + 2:]] = n
    return out


def trait_impls(prog, trait):
    return {i["self"]: dict(i["methods"]) for i in prog.impls if i["trait"] == trait}


def trait_path(prog, short):
    for i in prog.impls:
        if i["crate"] == "mutagenyx_lib" and i["trait"].startswith("mutagenyx_lib") and i["trait"].rsplit("::", 1)[-1] == short:
            return i["trait"]
    return None


def units_of_trait(cx, short, where=None):
    """[(label, reference function, current function)] for every method of every reviewed implementation of a trait"""
    ref, prog = reference(cx.prog), cx.prog
    tr = trait_path(ref, short)
    if tr is None:
        return []
    rm, cm = trait_methods(ref, tr), trait_methods(prog, tr)
    ri, ci = trait_impls(ref, tr), trait_impls(prog, tr)
    out = []
    for self_ty in sorted(ri):
        if where and not where(self_ty):
            continue
        for m in sorted(rm):
            a = ri[self_ty].get(m) or rm[m]
            b = (ci[self_ty].get(m) or cm.get(m)) if self_ty in ci else None
            if a not in ref.fns:
                continue
            lab = "<%s as %s>::%s" % (strip_angle(self_ty).rsplit("::", 1)[-1] if "mutagenyx" in self_ty else self_ty, short, m)
            out.append((lab, a, b if b in prog.fns else None))
    return out


def units_of_fns(cx, pred):
    ref, prog = reference(cx.prog), cx.prog
    return [(n.replace("mutagenyx_lib::", ""), n, n if n in prog.fns else None) for n in sorted(ref.fns)
            if "{closure" not in n and "mutagenyx" in n and "__CALLSITE" not in n and not ref.fns[n].derived and pred(n)]


def units(cx, traits=(), fns=()):
    """traits: [(trait, where-predicate or substring or None)], fns: [exact name or prefix ending in * (without the crate)]"""
    out = []
    for t, where in traits:
        w = where if callable(where) or where is None else (lambda s, k=where: k in s)
        out += units_of_trait(cx, t, w)

    def match(n):
        m = n.replace("mutagenyx_lib::", "")
        return any(m.startswith(k[:-1]) if k.endswith("*") else m == k for k in fns)
    if fns:
        out += units_of_fns(cx, match)
    return out


class TimeUp(Exception):
    pass


def _one(job):
    lab, a, b, opt = job
    prog = _job_prog[0]
    opt = dict(opt)
    secs = opt.pop("secs", 60)
    deep = opt.pop("deep", False)
    notes = []
    best = None
    changed = deep_hash(reference(prog), a) != deep_hash(prog, b)
    for peel in (1, 3, 2) if changed or deep else (1,):
        if peel == 2 and r[1:3] != ("limit", []):
            continue
        r = _passes(prog, a, b, dict(opt, peel=peel), secs, deep and peel == 1)
        if r[0] == "differs":
            return (lab,) + r
        if best is None or r[0] == "same":
            best = r
        if r[0] == "undecided":
            notes.append(r[1])
    if notes and changed:
        return (lab, "undecided", notes[0]) + best[2:]
    return (lab,) + best


def call_sites(side):
    """how often each function is called in the text of the functions that were looked into"""
    out = {}
    p = side.sim.p
    for f in set(side.res.inlined) | {side.sim.entry.name}:
        for c in calls_in(p, f):
            out[c] = out.get(c, 0) + 1
    return out


def calls_in(p, name):
    memo = p.__dict__.setdefault("_callsin", {})
    r = memo.get(name)
    if r is None:
        from .gen import calls_of
        r = memo[name] = [d.get("res") or d["fn"] for d, _ in calls_of(p.fns[name])] if name in p.fns else []
    return r


def _passes(prog, a, b, opt, secs, deep):
    import signal

    def bell(*_):
        raise TimeUp()
    last = None
    why = ""
    old = signal.signal(signal.SIGALRM, bell)
    try:
        for shared in (1, 0, 2):
            signal.alarm(secs)
            try:
                c = compare(prog, a, b, shared=shared, **opt)
            except Exception as e:  # no verdict on this unit
                why = type(e).__name__ + " " + str(e)
                if os.environ.get("VERIF_DEBUG"):
                    raise
                if last is not None and not last.problems and not last.undecided:
                    return "same", "", inl, size
                if shared and last is not None:
                    break
                if shared:
                    return "undecided", "limit", [], (0, 0, 0)
                continue
            finally:
                signal.alarm(0)
            size = (len(c.s[0].succ), len(c.s[1].succ), c.states)
            inl = sorted(c.s[1].res.inlined)
            if not c.problems and not c.undecided and not (deep and shared):
                return "same", "", inl, size
            last = c
            if shared == 0:
                break
        c = last
        if why and c.problems:
            # not everything could be opened: what both sides call has to agree at least
            o = [{n for n in x.res.opaque if "mutagenyx" in n} for x in c.s]
            if o[0] != o[1]:
                return "undecided", why, inl, size
            n = [call_sites(x) for x in c.s]
            more = {f for f in o[0] if n[0].get(f) != n[1].get(f)}
            if more:
                # called from other places: compare what they do
                signal.alarm(secs)
                try:
                    c = compare(prog, a, b, shared=2, opened=more, **opt)
                except Exception as e:
                    return "undecided", type(e).__name__ + " " + str(e), inl, size
                finally:
                    signal.alarm(0)
        opened = set()
        while c.problems and not why:
            # a boundary only one side calls: compare what it does instead
            o = [{n for n in x.res.opaque if n in x.sim.p.fns} for x in c.s]
            more = (o[0] ^ o[1]) - opened - {a, b}
            if not more:
                break
            opened |= more
            signal.alarm(secs)
            try:
                c = compare(prog, a, b, shared=0, opened=opened, **opt)
            except Exception as e:
                return "undecided", type(e).__name__ + " " + str(e), inl, size
            finally:
                signal.alarm(0)
        if c.problems and not why:
            signal.alarm(secs)
            try:
                d = compare(prog, a, b, shared=3, opened=opened, **opt)
                if not d.problems:
                    c = d
            except Exception as e:
                pass
            finally:
                signal.alarm(0)
        if c.problems:
            return "differs", list(c.problems.values())[:3], inl, size
        if not c.undecided:
            return "same", "", inl, size
        return "undecided", list(c.undecided.values())[0][1], inl, size
    finally:
        signal.signal(signal.SIGALRM, old)


_job_prog = []
HOOKS = {}


def conform(cx, units, name="units", **opt):
    """compares every unit with its reviewed reference"""
    import multiprocessing
    prog, ref = cx.prog, reference(cx.prog)
    deep = cx.tier == "thorough"  # thorough: shared helper functions are opened too, even where that is not needed
    jobs = []
    for lab, a, b, *more in units:
        cx.count(name)
        cx.analysed(a)
        if b is None:
            cx.count("units_without_counterpart")
            cx.notes.append("no counterpart of %s in the current tree" % lab)
            continue
        jobs.append((lab, a, b, tuple(opt.items()) + (("deep", deep),) + tuple(more)))
    _job_prog[:] = [prog]
    if len(jobs) > 2:
        with multiprocessing.get_context("fork").Pool(min(8, len(jobs))) as pool:
            res = pool.map(_one, jobs, 1)
    else:
        res = [_one(j) for j in jobs]
    for (lab, verdict, info, inl, size) in res:
        cx.count("units_compared")
        cx.count("product_states", size[2])
        cx.count("items_compared", size[0] + size[1])
        for n in inl:
            cx.analysed(n)
        if verdict == "differs":
            for kind, msg, loc, tr in info[:2]:
                cx.report("%s:%s" % (lab, kind), "%s: %s" % (lab, msg), loc, tr)
        elif verdict == "undecided":
            cx.count("units_undecided")
            cx.notes.append("undecided: %s: %s" % (lab, str(info)[:200]))


LOW_AMBIENT = ("dyn std::io::Write", "dyn core::io")


def no_stop(n, entry):
    return False


def conform_low(cx):
    """the pretty printer, down to what it hands to the stream"""
    conform(cx, units(cx, [], ["pretty_printer::write_*"]))
    conform(cx, units(cx, [], ["pretty_printer::PrettyPrinter::*"]), stop=no_stop, amb=LOW_AMBIENT)
