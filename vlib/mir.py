"""Loads the facts dumped by driver/mirfacts and offers the program model used by every check."""
import json, os, re
from functools import lru_cache


class Fn:
    __slots__ = ("name", "loc", "kind", "parent", "self_ty", "trait", "trait_ref", "in_trait", "item", "argc",
                 "locals", "vars", "blocks", "crate", "derived", "_live", "_loops", "_succ", "argnames")

    def __init__(self, d, crate):
        self.crate = crate
        self.name = d["name"]
        self.loc = d["loc"]
        self.kind = d["kind"]
        self.parent = d.get("parent")
        self.self_ty = d.get("self_ty")
        self.trait = d.get("trait")
        self.trait_ref = d.get("trait_ref")
        self.in_trait = d.get("in_trait")
        self.item = d.get("item")
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.vars = d["vars"]
        self.blocks = d["blocks"]
        self.derived = d.get("derived", False)
        self._live = None
        self._loops = None
        self._succ = None
        self.argnames = {}
        for n, p in self.vars:
            if not p[1] and 1 <= p[0] <= self.argc:
                self.argnames[p[0]] = n

    @property
    def file(self):
        return self.loc.rsplit(":", 1)[0]

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def succs(self):
        if self._succ is None:
            self._succ = [self.succ(i) for i in range(len(self.blocks))]
        return self._succ

    def liveness(self):
        """live-in sets of locals per block and the set of mutably borrowed locals"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, defs = [set() for _ in range(n)], [set() for _ in range(n)]
        pinned = set()

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in "cm":
                place_use(o[1], u, d)

        def rv_use(r, u, d):
            k = r[0]
            if k == "use":
                op_use(r[1], u, d)
            elif k == "ref":
                place_use(r[2], u, d)
                if r[1] and "*" not in r[2][1]:
                    pinned.add(r[2][0])
            elif k == "cast":
                op_use(r[2], u, d)
            elif k == "bin":
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == "un":
                op_use(r[2], u, d)
            elif k == "discr":
                place_use(r[1], u, d)
            elif k == "agg":
                for o in r[2]:
                    op_use(o, u, d)
            elif k == "repeat":
                op_use(r[1], u, d)

        for i, b in enumerate(self.blocks):
            u, d = use[i], defs[i]
            for s in b["s"]:
                if s[0] == "=":
                    rv_use(s[2], u, d)
                    if s[1][1]:
                        place_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "setd":
                    place_use(s[1], u, d)
            t = b["t"]
            if t[0] == "switch":
                op_use(t[1], u, d)
            elif t[0] == "call":
                op_use(t[1], u, d)
                for a in t[2]:
                    op_use(a, u, d)
                if t[3][1]:
                    place_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == "assert":
                op_use(t[1], u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set(x) for x in use]
        succs = self.succs()
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succs[i]:
                    out |= live[s]
                new = use[i] | (out - defs[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        self._live = ([frozenset(x) for x in live], frozenset(pinned))
        return self._live

    liveness2 = liveness

    def loops(self):
        """head -> set of blocks (natural loops, from a DFS of the non-cleanup graph)"""
        if self._loops is not None:
            return self._loops
        succs = self.succs()
        n = len(self.blocks)
        preds = [[] for _ in range(n)]
        for i in range(n):
            for s in succs[i]:
                preds[s].append(i)
        color = [0] * n
        back = []
        stack = [(0, iter(succs[0]))]
        color[0] = 1
        while stack:
            v, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1
                    stack.append((w, iter(succs[w])))
                    break
                elif color[w] == 1:
                    back.append((v, w))
            else:
                color[v] = 2
                stack.pop()
        loops = {}
        for v, h in back:
            body = loops.setdefault(h, {h})
            work = [v]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])
        self._loops = loops
        return loops


class Program:
    def __init__(self, facts_dir):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.statics = {}
        self.crates = []
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".json"):
                continue
            with open(os.path.join(facts_dir, f)) as fh:
                d = json.load(fh)
            self.crates.append(d["crate"])
            for b in d["bodies"]:
                self.fns[b["name"]] = Fn(b, d["crate"])
            for n, v in d.get("statics", []):
                self.statics[n] = v
            for a in d["adts"]:
                self.adts[a["name"]] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)

    def find(self, suffix):
        """functions whose canonical name ends with `suffix` at a path boundary"""
        r = [f for n, f in self.fns.items() if n == suffix or n.endswith("::" + suffix)]
        return r

    def impl_methods(self, trait_suffix, method):
        """[(self type, Fn)] of every impl of a workspace trait"""
        out = []
        for i in self.impls:
            if i["trait"].endswith(trait_suffix):
                for m, p in i["methods"]:
                    if m == method and p in self.fns:
                        out.append((i["self"], self.fns[p]))
        return out

    def impl_selfs(self, trait_suffix):
        return [i for i in self.impls if i["trait"].endswith(trait_suffix)]

    def children(self, fn):
        """closures defined (transitively) in fn"""
        return [f for n, f in self.fns.items() if n.startswith(fn.name + "::{closure")]

    def calls(self, fn):
        """(block, callee const dict or None, args, dest, loc) of every call terminator"""
        for i, b in enumerate(fn.blocks):
            t = b["t"]
            if b["cl"]:
                continue
            if t[0] == "call":
                c = t[1][1] if t[1][0] == "k" else None
                yield i, c, t[2], t[3], b["l"]

    def callee_names(self, fn):
        out = []
        for i, c, a, d, l in self.calls(fn):
            if c is not None and "fn" in c:
                out.append((i, c.get("res") or c["fn"], c, l))
        return out

    def fn_consts(self, fn):
        """names of functions and closures mentioned as values in fn (not only called)"""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if "fn" in x:
                    out.add(x.get("res") or x["fn"])
                    out.add(x["fn"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str):
                    out.add(x[1])
                for v in x:
                    walk(v)

        for b in fn.blocks:
            if not b["cl"]:
                walk(b["s"])
                walk(b["t"])
        return out

    def dyn_candidates(self, trait, method):
        out = []
        for i in self.impls:
            if i["trait"] == trait:
                for m, p in i["methods"]:
                    if m == method:
                        out.append(p)
        return out

    @lru_cache(maxsize=None)
    def callgraph(self):
        g = {}
        for n, f in self.fns.items():
            s = set()
            for x in self.fn_consts(f):
                if x in self.fns:
                    s.add(x)
            for i, c, a, d, l in self.calls(f):
                if c and c.get("trait") and (c.get("rk") in ("virtual", None)):
                    for p in self.dyn_candidates(c["trait"], c["method"]):
                        s.add(p)
                    if c["fn"] in self.fns:
                        s.add(c["fn"])
            g[n] = s
        return g

    def reachable(self, roots):
        g = self.callgraph()
        seen, work = set(), list(roots)
        while work:
            x = work.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            work.extend(g[x])
        return seen


def strip_generics(name):
    """drop <...> generic arguments that follow ::"""
    out, depth, i = [], 0, 0
    while i < len(name):
        if name.startswith("::<", i) and depth == 0 and not name.startswith("::<impl", i):
            j, d = i + 3, 1
            while j < len(name) and d:
                if name[j] == "<":
                    d += 1
                elif name[j] == ">" and name[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(name[i])
        i += 1
    return "".join(out)
