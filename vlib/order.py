"""Where the iteration order of hash maps and sets may leak into behaviour (intraprocedural dataflow with return summaries)."""
import re

HASHIT = re.compile(r"(std::collections::hash::(map|set)|std::collections::hash_(map|set)|hashbrown::(map|set))::"
                    r"(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|Intersection|Difference|SymmetricDifference)\b")
SEQ = ("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "alloc::string::String", "alloc::collections::linked_list")
UNORDERED = ("std::collections::hash", "alloc::collections::btree", "serde_json::map::Map", "()", "serde_json::value::Value")
RNG = re.compile(r"^(<.* as )?(rand|rand_core|rand_pcg|rand_chacha)::(?!SeedableRng|.*as core::clone|.*as core::fmt)")
OUT = re.compile(r"std::io::stdio::_e?print|std::io::Write|core::fmt::Write|std::fs::(write|File::create)")
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "inspect", "flat_map", "flatten", "by_ref", "into_iter", "iter", "iter_mut", "fuse", "peekable", "size_hint", "chain",
         "clone", "rev", "drain", "as_ref", "borrow"}
POSITIONAL = {"enumerate", "zip", "take", "skip", "step_by", "take_while", "skip_while", "scan", "map_while", "windows", "chunks"}
ORDERLESS = {"any", "all", "count", "sum", "product", "len", "max", "min", "is_empty", "max_by", "min_by", "max_by_key", "min_by_key", "for_each", "try_for_each", "eq", "drop", "fold", "try_fold"}
CHOSEN = {"find", "find_map", "nth", "last", "position", "reduce", "next_back", "rposition", "rfind"}
PUSH = {"push", "push_back", "push_front", "push_str", "extend", "append", "extend_from_slice", "insert"}
HARMLESS = {"len", "is_empty", "contains", "capacity", "reserve", "clear", "deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "drop", "borrow", "borrow_mut",
            "with_capacity", "new", "max", "min"} | PUSH


def callee(t):
    if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
        d = t[1][1]
        return d.get("res") or d["fn"], d
    return None, {}


def short(n):
    n = re.sub(r"::<[^:]*>$", "", n)
    return n.rsplit("::", 1)[-1]


class Order:
    def __init__(self, prog, report, count):
        self.p, self.report, self.count = prog, report, count
        self.ret = set()  # functions returning a sequence in hash order
        self._rng, self._out = {}, {}

    # ---------------------------------------------------------------- effects of callees
    def direct(self, fn, rx):
        out = []
        for b in self.p.fns[fn].blocks:
            n, d = callee(b["t"])
            if n and (rx.search(n) or rx.search(d.get("fn") or "")):
                out.append(n)
        return out

    def reaches(self, names, rx, memo):
        for n in names:
            if n not in memo:
                memo[n] = next((m for m in sorted(self.p.reachable([n])) if self.direct(m, rx)), None)
            if memo[n]:
                return memo[n]
        return None

    def targets(self, f, b):
        """workspace functions a call may enter (by name, trait object or closure argument)"""
        g = self.p.call_targets(f, b) if hasattr(self.p, "call_targets") else None
        if g is not None:
            return g
        n, d = callee(f.blocks[b]["t"])
        out = []
        if n in self.p.fns:
            out.append(n)
        if d.get("trait", "").startswith("mutagenyx"):
            out += [fn.name for _, fn in self.p.impl_methods(d["trait"].rsplit("::", 1)[-1], d["method"])]
        return out

    # ---------------------------------------------------------------- one function
    def analyse(self, f):
        n = len(f.blocks)
        live, _ = f.liveness()
        succ = f.succs()
        roots = {i: {i} for i in range(len(f.locals))}
        changed = True

        def base(p):
            return p[0]
        edges = []
        for b in f.blocks:
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "ref":
                    edges.append((s[1][0], r[2][0]))
                elif r[0] == "use" and r[1][0] in "cm" and str(f.locals[s[1][0]]).startswith(("&", "*")):
                    edges.append((s[1][0], r[1][1][0]))
                elif r[0] == "cast" and r[2][0] in "cm" and str(f.locals[s[1][0]]).startswith(("&", "*")):
                    edges.append((s[1][0], r[2][1][0]))
            nme, d = callee(b["t"])
            if nme and short(nme) in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_mut", "as_ref", "borrow", "borrow_mut", "by_ref") and b["t"][2] and b["t"][2][0][0] in "cm":
                edges.append((b["t"][3][0], b["t"][2][0][1][0]))
        while changed:
            changed = False
            for a, c in edges:
                new = roots[a] | roots[c]
                if new != roots[a]:
                    roots[a] = new
                    changed = True
        self.f, self.roots, self.live, self.succ = f, roots, live, succ
        self.done = set()
        self.work = []
        for i, ty in enumerate(f.locals):
            ty = str(ty)
            if HASHIT.search(ty) and not ty.startswith("&") and "Option<" not in ty[:30]:
                self.work.append(("iter", i, None))
        for bi, b in enumerate(f.blocks):
            nme, d = callee(b["t"])
            if nme in self.ret and not b["cl"]:
                self.work.append(("seq", b["t"][3][0], b["t"][4]))
        while self.work:
            w = self.work.pop()
            if w in self.done:
                continue
            self.done.add(w)
            (self.iterator if w[0] == "iter" else self.sequence)(w[1], w[2])

    def uses(self, local):
        for bi, b in enumerate(self.f.blocks):
            if b["cl"]:
                continue
            t = b["t"]
            if t[0] == "call":
                for k, a in enumerate(t[2]):
                    if a[0] in "cm" and local in self.roots[a[1][0]]:
                        yield bi, k

    def iterator(self, it, _):
        f = self.f
        # moved into another local?
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in "cm" and s[2][1][1] == [it, []] and not s[1][1]:
                    self.work.append(("iter", s[1][0], None))
        for bi, k in self.uses(it):
            t = f.blocks[bi]["t"]
            nme, d = callee(t)
            if not nme:
                continue
            s = short(nme) if not d.get("method") else d["method"]
            self.count("hash_order_uses")
            dest, loc = t[3][0], self.loc(bi)
            if s == "next":
                self.loop(bi)
            elif s in ("collect", "from_iter", "extend", "partition", "unzip", "concat", "join"):
                if s == "extend":
                    for r in self.roots[t[2][0][1][0]]:
                        if self.seqty(r):
                            self.work.append(("seq", r, t[4]))
                elif self.seqty(dest):
                    self.work.append(("seq", dest, t[4]))
            elif s in POSITIONAL:
                self.report(f, s, "%s depends on the iteration order of a hash map or set" % s, loc)
            elif s in ADAPT:
                self.work.append(("iter", dest, None))
                self.effects(bi)
            elif s in CHOSEN:
                self.chosen(dest, s, loc)
            elif s in ORDERLESS:
                self.effects(bi)
                if s in ("fold", "try_fold") and self.seqty(dest):
                    self.work.append(("seq", dest, t[4]))

    def loc(self, bi):
        for s in self.f.blocks[bi]["s"]:
            if s[0] == "=" and len(s) > 3:
                return s[3]
        return self.f.loc

    def seqty(self, local):
        ty = str(self.f.locals[local]).lstrip("&").replace("mut ", "")
        return ty.startswith(SEQ) or (ty.startswith("core::option::Option<") or ty.startswith("core::result::Result<")) and any(x in ty for x in SEQ) and not any(
            u in ty for u in UNORDERED if u != "()")

    def chosen(self, dest, what, loc):
        f = self.f
        for b in f.blocks:
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("use", "ref"):
                    p = s[2][1][1] if s[2][0] == "use" and s[2][1][0] in "cm" else s[2][2] if s[2][0] == "ref" else None
                    if p and p[0] == dest and any(isinstance(e, list) and e[0] == "v" and e[2] == "Some" for e in p[1]):
                        return self.report(f, what, "an element is picked by the iteration order of a hash map or set (%s)" % what, loc)
            nme, d = callee(b["t"])
            if nme:
                for a in b["t"][2]:
                    if a[0] in "cm" and dest in self.roots[a[1][0]] and short(nme) not in ("is_some", "is_none", "drop"):
                        return self.report(f, what, "an element is picked by the iteration order of a hash map or set (%s)" % what, loc)

    def effects(self, bi, where="while going through a hash map or set"):
        """random numbers or output inside an unordered iteration"""
        f = self.f
        names = set(self.targets(f, bi))
        t = f.blocks[bi]["t"]
        for a in t[2]:
            if a[0] in "cm":
                m = re.match(r"^&?(?:mut )?\{closure@(.*?):(\d+):", str(f.locals[a[1][0]]))
                if m:
                    names |= {g for g in self.p.fns if g.startswith(f.name + "::{closure")}
        nme, d = callee(t)
        if nme and (RNG.search(nme) or RNG.search(d.get("fn") or "")):
            return self.report(f, "rng", "random numbers are drawn %s" % where, self.loc(bi))
        if nme and OUT.search(nme):
            return self.report(f, "output", "output is produced %s" % where, self.loc(bi))
        r = self.reaches(names, RNG, self._rng)
        if r:
            return self.report(f, "rng", "random numbers are drawn %s (by %s)" % (where, r), self.loc(bi))
        r = self.reaches(names, OUT, self._out)
        if r:
            return self.report(f, "output", "output is produced %s (by %s)" % (where, r), self.loc(bi))

    def loop(self, bi):
        f = self.f
        ls = [(len(body), h, body) for h, body in f.loops().items() if bi in body]
        t = f.blocks[bi]["t"]
        if not ls:
            return self.chosen(t[3][0], "next", self.loc(bi))
        _, head, body = min(ls)
        self.count("hash_order_loops")
        D = {t[3][0]}
        selfd = set()
        flow = []
        cmpd = set()
        for b in body:
            blk = f.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    src = self.ops(s[2])
                    flow.append((s[1][0], src))
                    if s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge"):
                        cmpd.add(frozenset(src))
            tt = blk["t"]
            if tt[0] == "call" and b != bi:
                src = {a[1][0] for a in tt[2] if a[0] in "cm"}
                flow.append((tt[3][0], src))
        changed = True
        while changed:
            changed = False
            for d, src in flow:
                if src & D and d not in D:
                    D.add(d)
                    changed = True
        # copies of a local inside the loop
        der = {}

        def closure(x):
            if x in der:
                return der[x]
            seen, work = set(), [x]
            while work:
                y = work.pop()
                for d, src in flow:
                    if d == y:
                        for z in src:
                            if z not in seen:
                                seen.add(z)
                                work.append(z)
            der[x] = seen
            return seen
        for b in sorted(body):
            if b == bi:
                continue
            tt = f.blocks[b]["t"]
            nme, d = callee(tt)
            if not nme:
                continue
            if "log::" in nme:
                continue
            self.effects(b)
            if short(nme) in PUSH and tt[2] and tt[2][0][0] in "cm":
                for r in self.roots[tt[2][0][1][0]]:
                    ty = str(f.locals[r])
                    if self.seqty(r) and r in self.live[head]:
                        if not ty.startswith("&") and r > f.argc:
                            for u in body:
                                for v in self.succ[u]:
                                    if v not in body:
                                        self.work.append(("seq", r, v))
                        elif r <= f.argc:
                            self.report(f, "push", "a sequence of the caller is filled in the order of a hash map or set", self.loc(b))
        for u in sorted(body):
            for v in self.succ[u]:
                if v in body or f.blocks[v]["cl"]:
                    continue
                for l in sorted(self.live[v] & D):
                    if l in closure(l):  # accumulates
                        continue
                    ty = str(f.locals[l])
                    if ty in ("bool", "()") or self.isiter(l) or ty.startswith(("core::ops::control_flow::ControlFlow<", "mutagenyx_lib::error::")):
                        continue
                    back = closure(l) | {l}
                    if any(c & back and len(c) > 1 for c in (frozenset(set().union(*[closure(x) | {x} for x in c])) for c in cmpd)):
                        continue
                    if self.seqty(l) or not self.assigned(l, body):
                        continue
                    self.report(f, "escape", "a value of an element met in hash order leaves the loop (%s)" % ty, self.loc(u))

    def isiter(self, l):
        return HASHIT.search(str(self.f.locals[l])) is not None

    def assigned(self, l, body):
        for b in body:
            blk = self.f.blocks[b]
            if any(s[0] == "=" and s[1][0] == l for s in blk["s"]) or blk["t"][0] == "call" and blk["t"][3][0] == l:
                return True
        return False

    def ops(self, r):
        k = r[0]
        o = []
        if k == "use":
            o = [r[1]]
        elif k == "ref":
            return {r[2][0]}
        elif k == "cast":
            o = [r[2]]
        elif k == "bin":
            o = [r[2], r[3]]
        elif k == "un":
            o = [r[2]]
        elif k == "discr":
            return {r[1][0]}
        elif k == "agg":
            o = r[2]
        return {a[1][0] for a in o if a[0] in "cm"}

    def sequence(self, x, start):
        """local x holds a sequence in hash order from block `start` on"""
        f = self.f
        if start is None:
            return
        self.count("hash_order_sequences")
        seen, work = set(), [start]
        while work:
            b = work.pop()
            if b in seen or f.blocks[b]["cl"]:
                continue
            seen.add(b)
            blk = f.blocks[b]
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] in ("use", "agg"):
                    ops = [s[2][1]] if s[2][0] == "use" else s[2][2]
                    for o in ops:
                        if o[0] == "m" and o[1] == [x, []]:
                            if s[1][0] == 0:
                                self.returned = True
                                self.newret.add(f.name)
                            self.work.append(("seq", s[1][0], b))
            t = blk["t"]
            nme, d = callee(t)
            stop = False
            if nme:
                sh = d.get("method") or short(nme)
                for k, a in enumerate(t[2]):
                    if a[0] in "cm" and x in self.roots[a[1][0]]:
                        if k and sh in PUSH:
                            if sh in ("push_str", "extend", "append", "extend_from_slice"):
                                for r in self.roots[t[2][0][1][0]] if t[2][0][0] in "cm" else ():
                                    if self.seqty(r):
                                        self.work.append(("seq", r, t[4]))
                            else:
                                self.report(f, "seq:" + sh, "a sequence filled in the order of a hash map or set is put into another container by %s before it is sorted" % sh, self.loc(b))
                        elif sh.startswith("sort"):
                            stop = True
                            why = self.partial(sh, d)
                            if why:
                                self.report(f, "partial:" + sh, "a sequence filled in the order of a hash map or set is sorted by %s only, which leaves equal elements in that order" % why, self.loc(b))
                        elif sh in HARMLESS:
                            pass
                        elif sh in ("iter", "into_iter", "iter_mut", "drain"):
                            self.work.append(("iter", t[3][0], None))
                        elif sh in ("clone", "to_vec", "into", "unwrap", "into_boxed_slice", "unwrap_or_default", "branch", "expect"):
                            self.work.append(("seq", t[3][0], t[4]))
                        elif "log::" in nme or "new_debug" in nme or "new_display" in nme:
                            pass
                        else:
                            self.report(f, "seq:" + sh, "a sequence filled in the order of a hash map or set is used by %s before it is sorted" % sh, self.loc(b))
            if t[0] == "return" and x == 0:
                self.newret.add(f.name)
            if not stop:
                work.extend(self.succ[b])

    def partial(self, sh, d):
        """why a sort leaves different elements in the order they came in, if it certainly does"""
        ga = d.get("ga") or []
        if "key" in sh and len(ga) > 1 and ga[1] in ("bool", "char", "()") and ga[0].lstrip("&") != ga[1]:
            return "a key of type " + ga[1]
        clo = next((g for g in ga if g.startswith("{closure@")), None)
        fs = [g for g in self.p.fns.values() if clo and g.argc >= 2 and clo in str(g.locals[1])]
        if len(fs) != 1:
            return None
        from .sim import Sim, T, Limit, show
        terms = []
        try:
            res = Sim(self.p, fs[0].name, on_branch=lambda sim, st, c, v: terms.append(c)).run()
        except Limit:
            return None
        terms += [v[1] for v in res.finals.values() if v[0] == "return"]
        seen = {"whole": False, "size": False}

        def go(t, small):
            if isinstance(t, (tuple, frozenset)):
                for x in t:
                    go(x, small)
            elif isinstance(t, T):
                if t.op == "arg" and t.args[0] >= 2:
                    seen["size" if small else "whole"] = True
                elif t.op in ("x", "phi", "hv"):
                    seen["whole"] = True
                for x in t.args:
                    go(x, small or t.op in ("len", "nchars"))
        for t in terms:
            go(t, False)
        if seen["whole"]:
            return None
        return "the length of something" if seen["size"] else "a constant"

    def run(self, fns):
        for _ in range(4):
            self.newret = set()
            for f in fns:
                self.analyse(f)
            if self.newret <= self.ret:
                break
            self.ret |= self.newret
        return self
