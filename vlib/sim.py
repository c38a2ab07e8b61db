"""Path-sensitive abstract interpreter over MIR facts ("property simulation").

It never runs the analysed program: values are symbolic terms, branches are decided only by constant
propagation and by the facts (equalities, enum variants, integer intervals and differences) established by
earlier branches on the same path; loops are brought to a fixpoint by widening. The result is a finite event
automaton that over-approximates the event sequences of every execution of an entry function.
"""
import re
import sys
from .mir import strip_generics

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "n", "sites", "locs", "_r", "code", "uns")

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.n = len(_table)
        t._r = None
        sites, locs = set(), set()
        t.uns = False  # of an unsigned type
        t.code = op in ("clo", "fn")  # mentions a function by name

        def walk(a):
            if isinstance(a, T):
                t.code = t.code or a.code
                sites.update(a.sites)
                locs.update(a.locs)
            elif isinstance(a, (tuple, frozenset)):
                for x in a:
                    walk(x)

        for a in args:
            walk(a)
        if op in ("x", "hv", "phi", "elem?"):
            sites.add(args[0])
        if op == "own":
            sites.add(args[1])
        if op == "ind":
            sites.add(args[0])
        if op == "loc" and args[0][0] == "L":
            locs.add(args[0])
        t.sites = frozenset(sites)
        t.locs = frozenset(locs) if op not in ("x", "call") else frozenset()
        _table[key] = t
    return t


def subst(t, a, b):
    """t with every occurrence of the term a replaced by b"""
    memo = {}

    def go(x):
        if x is a:
            return b
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.args:
            return x
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            if na == x.args:
                r = x
            elif x.op == "disp" and na[0].op == "b":
                r = S("true" if na[0].args[0] else "false")
            elif x.op == "cat":
                r = cat(*na[0])
            else:
                r = mk(x.op, *na)
            memo[x] = r
        return r
    return go(t)


def unown(t):
    """t with copies of JSON values named by what they were copied from"""
    while True:
        os_ = [x for x in subterms(t) if x.op == "own"]
        if not os_:
            return t
        for o in os_:
            t = subst(t, o, o.args[0])


def S(s):
    return mk("s", s)


def I(i):
    return mk("i", i)


TRUE, FALSE, UNIT = mk("b", True), mk("b", False), mk("unit")


def B(b):
    return TRUE if b else FALSE


CONST = {"s", "i", "b", "ch", "unit", "fn"}


def isconst(t):
    return t.op in CONST


def agg(adt, variant, names=(), vals=()):
    return mk("agg", adt, variant, tuple(names), tuple(vals))


OPT, RES = "core::option::Option", "core::result::Result"
NONE = agg(OPT, "None")


def some(x):
    return agg(OPT, "Some", ("0",), (x,))


def ok(x):
    return agg(RES, "Ok", ("0",), (x,))


def err(x):
    return agg(RES, "Err", ("0",), (x,))


def tup(*v):
    return mk("tup", tuple(v))


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t._r is not None:
        return t._r
    o, a = t.op, t.args
    if o == "s":
        r = repr(a[0])
    elif o in ("i", "b"):
        r = str(a[0])
    elif o == "ch":
        r = "'" + chr(a[0]) + "'"
    elif o == "agg":
        r = "%s::%s" % (a[0].split("::")[-1], a[1]) + ("(" + ",".join(show(x) for x in a[3]) + ")" if a[3] else "")
    elif o == "tup":
        r = "(" + ",".join(show(x) for x in a[0]) + ")"
    elif o == "arr":
        r = "[" + ",".join(show(x) for x in a[0]) + "]"
    elif o == "p":
        e = a[1]
        r = "%s.%s" % (show(a[0]), e[1] if e[0] in "fv" else "[%s]" % (show(e[1]),))
    elif o == "arg":
        r = "arg%d" % a[0]
    elif o == "key":
        r = "%s/%s" % (show(a[0]), show(a[1]))
    elif o == "get":
        r = "get(%s,%s)" % (show(a[0]), show(a[1]))
    elif o in ("x", "hv"):
        r = "%s@%s" % (o if o == "hv" else a[1], a[0][1].split("::")[-1] + ":" + str(a[0][2]))
        if o == "x" and a[2]:
            r += "(" + ",".join(show(x) for x in a[2]) + ")"
    elif o == "own":
        r = "^" + show(a[0])
    elif o == "phi":
        r = "phi%s" % (t.n,)
    elif o == "ind":
        r = "ind%s" % (t.n,)
    elif o == "fn":
        r = a[0].split("::")[-1]
    else:
        r = o + "(" + ",".join(show(x) if isinstance(x, T) else
                               ("[" + ",".join(show(y) for y in x) + "]" if isinstance(x, tuple) else str(x)) for x in a) + ")"
    t._r = r
    return r


def subterms(t, seen=None):
    """every subterm of t"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return seen


def mlookup(m, k):
    """(value or None, decided) of key k in map term m"""
    while m.op == "mput":
        if m.args[1] is k:
            return m.args[2], True
        if not (isconst(m.args[1]) and isconst(k)):
            return None, False
        m = m.args[0]
    if m.op == "map0":
        return None, True
    return mk("mval", m, k), None


def map_put(cur, k, v):
    items = []
    base = cur
    while base.op == "mput":
        items.append((base.args[1], base.args[2]))
        base = base.args[0]
    items.reverse()
    items = [(a, b) for a, b in items if a is not k]
    items.append((k, v))
    if all(isconst(a) for a, _ in items):
        items.sort(key=lambda x: str(x[0].args))
    r = base
    for a, b in items:
        r = mk("mput", r, a, b)
    return r


def proj(t, e):
    o = t.op
    if e[0] == "mk":
        v, dec = mlookup(t, e[1])
        return v if v is not None else mk("mval", t, e[1])
    if e[0] == "v":
        if o == "agg":
            return t
        if o == "upd" :
            for k, v in t.args[1]:
                if k == e:
                    return v
            return proj(t.args[0], e)
        return mk("p", t, e)
    if e[0] == "f":
        if o == "agg":
            names = t.args[2]
            if e[1] in names:
                return t.args[3][names.index(e[1])]
            return mk("p", t, e)
        if o == "tup" or o == "clo":
            vals = t.args[-1]
            if e[1].isdigit() and int(e[1]) < len(vals):
                return vals[int(e[1])]
            return mk("p", t, e)
        if o == "upd":
            for k, v in t.args[1]:
                if k == e:
                    return v
            return proj(t.args[0], e)
        if o == "p" and t.args[1][0] == "v" and e[1] == "0":
            v, b = t.args[1][1], t.args[0]
            if v == "Some" and b.op == "get":
                return mk("key", *b.args)
            if v == "Some" and b.op == "getidx":
                return elem(*b.args)
            if v == "Some" and b.op == "call" and b.args[0] in ("std::path::Path::to_str", "std::ffi::OsStr::to_str", "std::ffi::os_str::OsStr::to_str") and isinstance(b.args[1][0], T):
                return b.args[1][0]  # the text of a path is the path
            if v == "String" and b.op == "tojson":
                return b.args[0]
            if v == "Object":
                return mk("obj", b)
        return mk("p", t, e)
    if e[0] in ("i", "ci"):
        idx = e[1] if e[0] == "i" else I(e[1])
        if e[0] == "ci" and e[2]:
            if o == "arr":
                return t.args[0][-e[1]]
            return mk("p", t, e)
        return elem(t, idx)
    return mk("p", t, e)


def elem(src, idx):
    if src.op == "arr" and idx.op == "i" and 0 <= idx.args[0] < len(src.args[0]):
        return src.args[0][idx.args[0]]
    if src.op == "upd":
        for k, v in src.args[1]:
            if k == ("i", idx):
                return v
        if not any(k[0] in ("i", "ci") for k, v in src.args[1]) or idx.op == "i" and all(
                k[0] == "i" and isinstance(k[1], T) and k[1].op == "i" for k, v in src.args[1]):
            return elem(src.args[0], idx)
    if src.op in ("mapkeys", "mapvalues"):
        return proj(elem(entries(src.args[0]), idx), ("f", "0" if src.op == "mapkeys" else "1"))
    if src.op == "rev" and src.args[0].op == "arr" and idx.op == "i" and idx.args[0] < len(src.args[0].args[0]):
        return src.args[0].args[0][-1 - idx.args[0]]
    if src.op == "rev" and idx.op == "i" and src.args[0].op not in ("loc", "arr"):
        return elem(src.args[0], addc(t_len(src.args[0]), -1 - idx.args[0]))
    return mk("elem", src, idx)


def entries(m):
    """the (key, value) pairs of a map, in its own order"""
    if m.op == "map0":
        return mk("arr", ())
    if m.op == "mput" and m.args[0].op == "map0":
        return mk("arr", (mk("tup", (m.args[1], m.args[2])),))
    return mk("entries", m)


def projs(t, path):
    for e in path:
        t = proj(t, e)
    return t


def setp(t, path, new):
    if not path:
        return new
    e = path[0]
    child = setp(proj(t, e), path[1:], new)
    o = t.op
    if e[0] == "mk":
        return map_put(t, e[1], child)
    if e[0] == "v" and o == "agg":
        return child
    if e[0] == "f":
        if o == "agg" and e[1] in t.args[2]:
            i = t.args[2].index(e[1])
            return agg(t.args[0], t.args[1], t.args[2], t.args[3][:i] + (child,) + t.args[3][i + 1:])
        if o == "tup" and e[1].isdigit() and int(e[1]) < len(t.args[0]):
            i = int(e[1])
            return mk("tup", t.args[0][:i] + (child,) + t.args[0][i + 1:])
        if o == "clo" and e[1].isdigit() and int(e[1]) < len(t.args[1]):
            i = int(e[1])
            return mk("clo", t.args[0], t.args[1][:i] + (child,) + t.args[1][i + 1:])
    if e[0] == "i" and o == "arr" and e[1].op == "i" and e[1].args[0] < len(t.args[0]):
        i = e[1].args[0]
        return mk("arr", t.args[0][:i] + (child,) + t.args[0][i + 1:])
    base, ups = (t.args if o == "upd" else (t, ()))
    d = [(k, v) for k, v in ups if k != e]
    if e[0] in ("i", "ci"):
        const = lambda k: k[0] == "i" and isinstance(k[1], T) and k[1].op == "i"
        if any(k[0] in ("i", "ci") and not (const(k) and const(e)) for k, v in d):
            # an element whose index is not known to be another one: what was written before stays below
            return t if proj(t, e) is child else mk("upd", t, ((e, child),))
    if proj(base, e) is child and o == "upd":
        pass
    else:
        d.append((e, child))
    if not d:
        return base
    d.sort(key=lambda kv: (kv[0][0], kv[0][1].n if isinstance(kv[0][1], T) else 0, str(kv[0][1])))
    return mk("upd", base, tuple(d))


# ---------------------------------------------------------------- integer forms
def lin(t):
    """t as (base or None, const)"""
    if t.op == "i":
        return None, t.args[0]
    if t.op == "add":
        return t.args[0], t.args[1]
    return t, 0


def addc(t, c):
    b, k = lin(t)
    if b is None:
        return I(k + c)
    return b if k + c == 0 else mk("add", b, k + c)


def t_add(a, b):
    ab, ac = lin(a)
    bb, bc = lin(b)
    if ab is None:
        return addc(b, ac)
    if bb is None:
        return addc(a, bc)
    x, y = sorted((ab, bb), key=lambda z: z.n)
    return addc(mk("sum", x, y), ac + bc)


def t_sub(a, b):
    ab, ac = lin(a)
    bb, bc = lin(b)
    if bb is None:
        return addc(a, -bc)
    if ab is bb:
        return I(ac - bc)
    return addc(mk("sub", ab if ab is not None else I(0), bb), ac - bc)


def t_not(c):
    if c.op == "b":
        return B(not c.args[0])
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


INTOPS = ("add", "len", "nchars", "ind", "shind", "unind", "bin")


def t_lt(a, b):
    """a < b on integers"""
    ab, ac = lin(a)
    bb, bc = lin(b)
    if ab is None and bb is None:
        return B(ac < bc)
    if ab is bb:
        return B(ac < bc)
    return mk("cmp", ab, bb, ac - bc)  # ab + c < bb  (None = 0)


def t_eq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b) and a.op == b.op:
        return FALSE
    if isconst(a):
        a, b = b, a
    if b.op == "b":
        return a if b.args[0] else t_not(a)
    if a.op == "agg" and b.op == "agg":
        if a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            if not a.args[3] and not b.args[3]:
                return TRUE
            if len(a.args[3]) == 1:
                return t_eq(a.args[3][0], b.args[3][0])
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and not y.args[3]:
            return mk("isv", discr(x), y.args[1])
    if b.op == "ch" and a.op == "cast" and a.args[1] == "char":
        return t_eq(a.args[0], I(b.args[0]))
    if b.op == "i" and a.op == "add":
        return t_eq(a.args[0], I(b.args[0] - a.args[1]))
    if a.op == "len" and a.args[0].op == "cat" and b is I(0):
        return FALSE
    if a.op == "arr" and b.op == "arr" and len(a.args[0]) != len(b.args[0]):
        return FALSE
    if b.op == "s" and b.args[0] == "":
        return t_eq(mk("len", a), I(0)) if a.op not in ("cat",) else FALSE
    if isconst(b):
        return mk("eq", a, b)
    ab, ac = lin(a)
    bb, bc = lin(b)
    if ab is bb:
        return B(ac == bc)
    if (a.op in INTOPS or b.op in INTOPS) and ab is not None and bb is not None:
        if ab.n > bb.n:
            ab, bb, ac, bc = bb, ab, bc, ac
        return mk("eqd", ab, bb, ac - bc)  # ab + c == bb
    if a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


DTAB = {}  # discr term -> {int: variant}
UNIV = {}  # adt -> frozenset of variants


def discr(v):
    if v.op == "agg":
        return S(v.args[1])
    if v.op == "upd":
        for k, x in v.args[1]:
            if k[0] == "v":
                return S(k[1])
        return discr(v.args[0])
    return mk("discr", v)


def t_len(x):
    if x.op == "s":
        return I(len(x.args[0].encode()))
    if x.op == "arr":
        return I(len(x.args[0]))
    if x.op in ("chars", "rev", "collect", "bytes", "asstr") and isinstance(x.args[0], T):
        if x.op == "chars":
            return mk("nchars", x.args[0])
        return t_len(x.args[0]) if x.op != "collect" else mk("len", x)
    if x.op in ("mapkeys", "mapvalues", "entries"):
        return t_len(x.args[0])
    if x.op == "map0":
        return I(0)
    if x.op == "mput" and x.args[0].op == "map0":
        return I(1)
    if x.op == "push":
        return addc(t_len(x.args[0]), 1)
    if x.op in ("removed", "remove"):
        return addc(t_len(x.args[0]), -1)
    if x.op == "insert" and len(x.args) == 3:
        return addc(t_len(x.args[0]), 1)
    if x.op == "swap":
        return t_len(x.args[0])
    if x.op == "upd" and all(k[0] in ("i", "ci") for k, v in x.args[1]):
        return t_len(x.args[0])  # elements were overwritten in place
    return mk("len", x)


def cat(*parts):
    out = []
    for p in parts:
        for q in (p.args[0] if p.op == "cat" else (p,)):
            if q.op == "ch":
                q = S(chr(q.args[0]))
            if q.op == "s" and q.args[0] == "":
                continue
            if out and out[-1].op == "s" and q.op == "s":
                out[-1] = S(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


NOFACT = object()


class Limit(Exception):
    pass


class Restart(Exception):
    pass


class State:
    __slots__ = ("stack", "env", "store", "facts", "loops", "aux")

    def __init__(self, stack, env, store, facts, loops, aux=()):
        self.stack, self.env, self.store, self.facts, self.loops, self.aux = stack, env, store, facts, loops, aux

    def copy(self):
        return State(self.stack, dict(self.env), dict(self.store), dict(self.facts), self.loops, self.aux)


# ---------------------------------------------------------------- facts
NEG, POS = -(1 << 130), 1 << 130


def unescape(x):
    """text of a Rust string literal"""
    import re
    simple = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)",
                  lambda m: chr(int(m.group(2), 16)) if m.group(2) else chr(int(m.group(3), 16)) if m.group(3) else simple.get(m.group(1), m.group(0)), x)


UNSIGNED = ("usize", "u8", "u16", "u32", "u64", "u128")


def lower(t):
    if t is None:
        return 0
    if t.op in ("len", "nchars") or t.uns:
        return 0
    if t.op == "ind":
        return t.args[3] if t.args[2] > 0 else NEG
    if t.op == "bin" and t.args[0] == "Rem" and natural(t.args[1]):
        return 0
    return NEG


def natural(t):
    while t.op == "cast" and str(t.args[1]).startswith("u"):
        t = t.args[0]
    return t.op in ("len", "nchars") or t.op in ("x", "y") and "next_u" in str(t.args[1])


def upper(t):
    if t is not None and t.op == "bin" and t.args[0] == "Rem" and natural(t.args[1]) and t.args[2].op == "i" and t.args[2].args[0] > 0:
        return t.args[2].args[0] - 1
    return POS


def iv_get(facts, t):
    f = facts.get(t)
    if f is None or f[0] != "I":
        if t.op == "sub":
            x, y = t.args
            f = facts.get(mk("diff", y, x)) if y.n < x.n else facts.get(mk("diff", x, y))
            if f is not None and f[0] == "I":
                if y.n < x.n:
                    return f[1], f[2], f[3]
                return -f[2], -f[1], frozenset(-v for v in f[3])
        return lower(t), upper(t), frozenset()
    return f[1], f[2], f[3]


def iv_put(facts, t, lo, hi, ne):
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    if lo > hi:
        return False
    ne = frozenset(x for x in ne if lo < x < hi)
    if lo == NEG and hi == POS and not ne:
        return True
    facts[t] = ("I", lo, hi, ne)
    return True


def cmp_subject(c):
    """cmp(a,b,c): a + c < b -> (subject, sign, bound): sign=+1: subject > bound; sign=-1: subject < bound"""
    a, b, k = c.args
    if a is None:
        return b, 1, k
    if b is None:
        return a, -1, -k
    if a.n < b.n:
        return mk("diff", a, b), 1, k  # diff = b - a > k
    return mk("diff", b, a), -1, -k  # diff = a - b ; a-b < -k


def ev(facts, c):
    """truth of condition term c under facts, or None"""
    o = c.op
    if o == "b":
        return c.args[0]
    if o == "not":
        r = ev(facts, c.args[0])
        return None if r is None else not r
    if o == "and":
        a, b = ev(facts, c.args[0]), ev(facts, c.args[1])
        if a is False or b is False:
            return False
        return True if (a and b) else None
    if o == "or":
        a, b = ev(facts, c.args[0]), ev(facts, c.args[1])
        if a or b:
            return True
        return False if (a is False and b is False) else None
    if o == "cmp":
        s, sg, k = cmp_subject(c)
        lo, hi, ne = iv_get(facts, s)
        if sg > 0:
            if lo > k:
                return True
            if hi <= k:
                return False
        else:
            if hi < k:
                return True
            if lo >= k:
                return False
        return None
    if o == "eqd":
        a, b, k = c.args
        lo, hi, ne = iv_get(facts, mk("diff", a, b))
        if lo == hi == k:
            return True
        if k < lo or k > hi or k in ne:
            return False
        return None
    if o == "eq":
        a, b = c.args
        if b.op == "i":
            lo, hi, ne = iv_get(facts, a)
            k = b.args[0]
            if lo == hi == k:
                return True
            if k < lo or k > hi or k in ne:
                return False
            return None
        if isconst(b):
            f = facts.get(a)
            if f is None:
                return None
            if f[0] == "E":
                return f[1] is b
            if f[0] == "N" and b in f[1] or f[0] == "M" and b not in f[1]:
                return False
            return None
        if not isconst(a):
            fa, fb = facts.get(a), facts.get(b)
            if fa and fb and fa[0] == "E" and fb[0] == "E":
                return fa[1] is fb[1]
            f = facts.get(mk("diff", a, b)) if a.n < b.n else None
            if f and f[0] == "I":
                if f[1] == f[2] == 0:
                    return True
                if f[1] > 0 or f[2] < 0 or 0 in f[3]:
                    return False
            da, db = facts.get(mk("discr", a)), facts.get(mk("discr", b))
            if da and db:
                if da[0] == "E" and db[0] == "E" and da[1] is not db[1]:
                    return False
                if da[0] == "E" and db[0] == "N" and da[1] in db[1] or db[0] == "E" and da[0] == "N" and db[1] in da[1]:
                    return False
    if o == "isv":
        d = c.args[0]
        f = facts.get(d)
        if d.op == "s":
            return d.args[0] == c.args[1]
        if f is None:
            return None
        if f[0] == "E":
            return f[1].args[0] == c.args[1]
        if f[0] == "N" and S(c.args[1]) in f[1]:
            return False
        return None
    if o == "in":
        x, ks = c.args
        if isconst(x):
            return x in ks
        f = facts.get(x)
        if f is None:
            return None
        if f[0] == "E":
            return f[1] in ks
        if f[0] == "N" and ks <= f[1] or f[0] == "M" and not (ks & f[1]):
            return False
        if f[0] == "M" and f[1] <= ks:
            return True
        return None
    f = facts.get(c)
    if f is not None and f[0] == "B":
        return f[1]
    return None


def exclude(facts, x, ks):
    f = facts.get(x)
    if f and f[0] == "M":
        ks2 = f[1] - ks
        if not ks2:
            return False
        facts[x] = ("E", next(iter(ks2))) if len(ks2) == 1 else ("M", ks2)
    else:
        facts[x] = ("N", (f[1] if f and f[0] == "N" else frozenset()) | ks)
    return True


def assume(facts, c, val, univ=None):
    """add c == val to facts (in place); False when contradictory"""
    r = ev(facts, c)
    if r is not None:
        return r == val
    o = c.op
    if o == "not":
        return assume(facts, c.args[0], not val, univ)
    if o == "and" and val:
        return assume(facts, c.args[0], True) and assume(facts, c.args[1], True)
    if o == "or" and not val:
        return assume(facts, c.args[0], False) and assume(facts, c.args[1], False)
    if o == "cmp":
        s, sg, k = cmp_subject(c)
        lo, hi, ne = iv_get(facts, s)
        if (sg > 0) == val:
            lo = max(lo, k + 1 if sg > 0 else k)
        else:
            hi = min(hi, k if sg > 0 else k - 1)
        return iv_put(facts, s, lo, hi, ne)
    if o == "eqd":
        a, b, k = c.args
        d = mk("diff", a, b)
        lo, hi, ne = iv_get(facts, d)
        return iv_put(facts, d, k, k, ne) if val else iv_put(facts, d, lo, hi, ne | {k})
    if o == "eq" and c.args[1].op == "i":
        a, k = c.args[0], c.args[1].args[0]
        lo, hi, ne = iv_get(facts, a)
        return iv_put(facts, a, k, k, ne) if val else iv_put(facts, a, lo, hi, ne | {k})
    if o == "eq" and isconst(c.args[1]):
        a, k = c.args
        if val:
            facts[a] = ("E", k)
        else:
            return exclude(facts, a, frozenset((k,)))
        return True
    if o == "isv":
        d, v = c.args
        if val:
            facts[d] = ("E", S(v))
        else:
            f = facts.get(d)
            ex = (f[1] if f and f[0] == "N" else frozenset()) | {S(v)}
            tab = DTAB.get(d)
            if tab:
                rest = [x for x in tab.values() if S(x) not in ex]
                if not rest:
                    return False
                if len(rest) == 1:
                    facts[d] = ("E", S(rest[0]))
                    return True
            facts[d] = ("N", ex)
        return True
    if o == "in":
        x, ks = c.args
        f = facts.get(x)
        if not val:
            return exclude(facts, x, ks)
        ks2 = ks
        if f and f[0] == "N":
            ks2 = ks - f[1]
        elif f and f[0] == "M":
            ks2 = ks & f[1]
        if not ks2:
            return False
        facts[x] = ("E", next(iter(ks2))) if len(ks2) == 1 else ("M", ks2)
        return True
    facts[c] = ("B", val)
    return True


def fact_subjects(c):
    o = c.op
    if o == "not":
        return fact_subjects(c.args[0])
    if o in ("and", "or"):
        return fact_subjects(c.args[0]) | fact_subjects(c.args[1])
    if o == "cmp":
        a, b, k = c.args
        return {cmp_subject(c)[0]} | {x for x in (a, b) if x is not None}
    if o == "eqd":
        return {mk("diff", c.args[0], c.args[1])}
    if o == "eq":
        a, b = c.args
        s = {a, c}
        if not isconst(b):
            s |= {b, mk("diff", a, b)}
        return s
    if o == "isv":
        return {c.args[0]}
    if o == "in":
        return {c.args[0], c}
    return {c}


# ---------------------------------------------------------------- NFA result
class Result:
    def __init__(self):
        self.edges = []  # per node: list of (events tuple, dst)
        self.info = []  # per node: location string
        self.finals = {}  # node -> (kind, value, facts)
        self.warnings = set()
        self.inlined = set()
        self.opaque = {}
        self.phis = {}

    def size(self):
        return len(self.edges), sum(len(e) for e in self.edges)


class Sim:
    def __init__(self, prog, entry, args=None, stop=None, on_call=None, on_branch=None, on_store=None, on_panic=None,
                 limit=150000, keep_all=False, facts=None, max_depth=30, ctxless=False, keep_term=None, on_return=None,
                 devirt=True, panics=False, peel=False, use_facts=True, on_back=None, on_loop=None):
        self.p = prog
        self.entry = prog.fns[entry] if isinstance(entry, str) else entry
        self.args = args
        self.stop = stop or (lambda n: False)
        self.on_call = on_call
        self.on_branch = on_branch
        self.on_store = on_store
        self.on_return = on_return
        self.on_back = on_back
        self.on_loop = on_loop
        self.limit = limit
        self.keep_all = keep_all
        self.keep_term = keep_term
        self.facts0 = facts or []
        self.max_depth = max_depth
        self.devirt = devirt
        self.panics = panics
        self.use_facts = use_facts
        self.peel = peel
        self.varying = {}  # (ctx,fn,head) -> {(rootkey,path): kind}
        self.consts_seen = {}
        self.insite = {}
        self.nounroll = set()
        self.relevant = None
        self.known = set()
        from . import std
        self.std = std

    # ---- running
    def run(self):
        phase_facts = False
        restarts = 0
        for phase in ((0, 1) if self.use_facts and not self.keep_all else (1,)):
            self.with_facts = phase == 1 and self.use_facts
            while True:
                try:
                    res = self.explore()
                    break
                except Restart:
                    restarts += 1
                    if restarts > 400:
                        raise Limit("too many widening restarts")
            if phase == 0:
                self.compute_relevance(res)
        res.restarts = restarts
        return res

    def init_state(self):
        f = self.entry
        env = {}
        for i in range(1, f.argc + 1):
            v = mk("arg", i)
            if self.args and i in self.args:
                v = self.args[i]
            env[(0, i)] = v
        st = State(((f.name, (), 0, None, None),), env, {}, {}, ())
        for c, v in self.facts0:
            assume(st.facts, c, v)
        return st

    def explore(self):
        self.res = res = Result()
        self.nodes = {}
        self.tests = {}
        self.unrolled = {}
        self.ctlof = []
        st = self.init_state()
        self.work = []
        self.snap = {}
        n0 = self.node(st)
        while self.work:
            nid, st = self.work.pop()
            for ev_, nxt in self.block(nid, st):
                res.edges[nid].append((tuple(ev_), nxt))
        return res

    def node(self, st):
        self.prune(st)
        key = (st.stack, frozenset(st.env.items()), frozenset(st.store.items()), frozenset(st.facts.items()), st.loops, st.aux)
        nid = self.nodes.get(key)
        if nid is None:
            nid = len(self.nodes)
            if nid > self.limit:
                raise Limit("state limit in " + self.entry.name)
            self.nodes[key] = nid
            self.res.edges.append([])
            fn, ctx, blk = st.stack[-1][:3]
            self.res.info.append((fn, blk))
            self.ctlof.append(tuple(fr[:3] for fr in st.stack))
            self.snap[nid] = st
            self.work.append((nid, st.copy()))
        return nid

    def final(self, kind, st, value):
        key = ("final", kind, value, frozenset(st.facts.items()) if self.keep_all else frozenset(), st.aux,
               frozenset(st.store.items()) if self.keep_all else None)
        nid = self.nodes.get(key)
        if nid is None:
            nid = len(self.nodes)
            self.nodes[key] = nid
            self.res.edges.append([])
            self.res.info.append((st.stack[-1][0] if st.stack else self.entry.name, kind))
            self.ctlof.append(())
            self.res.finals[nid] = (kind, value, dict(st.facts), dict(st.store), st.aux)
        return nid

    def compute_relevance(self, res):
        """subjects of tests reachable from each control point"""
        n = len(res.edges)
        preds = [[] for _ in range(n)]
        for a in range(n):
            for _, b in res.edges[a]:
                preds[b].append(a)
        # group by control point
        rel = {}
        subj_nodes = {}
        for nid, subs in self.tests.items():
            for s in subs:
                subj_nodes.setdefault(s, set()).add(nid)
        for s in list(subj_nodes):
            u = unown(s)
            if u is not s:
                subj_nodes.setdefault(u, set()).update(subj_nodes[s])
        self.known = set(subj_nodes)
        relc = {}
        for s, nodes in subj_nodes.items():
            seen = set(nodes)
            work = list(nodes)
            while work:
                x = work.pop()
                for y in preds[x]:
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            for x in seen:
                relc.setdefault(self.ctlof[x], set()).add(s)
        self.relevant = relc

    def prune(self, st):
        depth = len(st.stack) - 1
        keep = {}
        env = st.env
        for d, fr in enumerate(st.stack):
            f = self.p.fns[fr[0]]
            live, pinned = f.liveness2()
            lv = live[fr[2]] if d == depth else live_at_return(f, fr)
            for l in lv:
                k = (d, l)
                if k in env:
                    keep[k] = env[k]
        # closure under references
        work = [v for v in keep.values()] + list(st.store.values())
        seen = set()
        while work:
            v = work.pop()
            for r in v.locs:
                k = (r[1], r[2])
                if k not in keep and k in env:
                    keep[k] = env[k]
                    work.append(env[k])
        st.env = keep
        if st.store:
            live_sites = set()
            for v in keep.values():
                live_sites |= v.sites
            st.store = {r: v for r, v in st.store.items() if not r.sites or r.sites <= live_sites}
        if not self.with_facts:
            st.facts = {}
        elif not self.keep_all and st.facts and self.relevant is not None:
            ctl = tuple(fr[:3] for fr in st.stack)
            rel = self.relevant.get(ctl)
            new = {}
            for s, f in st.facts.items():
                if rel is None or s in rel or s not in self.known or (self.keep_term and self.keep_term(s)):
                    if s not in self.known and rel is not None and s.op == "diff":
                        pass
                    new[s] = f
            st.facts = new
        elif self.keep_all:
            pass

    # ---- places
    def root_value(self, st, root):
        if root[0] == "L":
            v = st.env.get((root[1], root[2]))
            return v if v is not None else mk("undef", root[1], root[2])
        v = st.store.get(root[1])
        return root[1] if v is None else v

    def cell(self, st, place):
        """resolve a place to (root, path)"""
        depth = len(st.stack) - 1
        root, path = ("L", depth, place[0]), ()
        for e in place[1]:
            if e == "*":
                v = projs(self.root_value(st, root), path)
                root, path = self.ptr_cell(v)
            elif e[0] == "f":
                path = path + (("f", e[2] if e[2] not in (None, "") else str(e[1])),)
            elif e[0] == "v":
                path = path + (("v", e[2]),)
            elif e[0] == "i":
                path = path + (("i", self.root_value(st, ("L", depth, e[1]))),)
            elif e[0] == "ci":
                path = path + (("ci", e[1], e[2]) if e[2] else ("i", I(e[1])),)
            else:
                path = path + (("ss",) + tuple(e[1:]),)
        return root, path

    def ptr_cell(self, v):
        if v.op == "loc":
            return v.args
        if v.op == "&":
            return ("T", v.args[0]), ()
        # a pointer that is a projection/element of a modified object: canonical root
        return ("T", v), ()

    def read(self, st, place):
        root, path = self.cell(st, place)
        v = projs(self.root_value(st, root), path)
        return v

    def deref(self, st, v):
        """value behind pointer-ish v (identity on plain values)"""
        n = 0
        while v.op in ("loc", "&") and n < 10:
            if v.op == "&":
                v = v.args[0]
            else:
                v = projs(self.root_value(st, v.args[0]), v.args[1])
            n += 1
        if v in st.store:
            return st.store[v]
        return v

    def write_cell(self, st, root, path, val):
        old = self.root_value(st, root)
        new = setp(old, path, val)
        if root[0] == "L":
            st.env[(root[1], root[2])] = new
        else:
            st.store[root[1]] = new

    def write_ptr(self, st, ptr, val):
        root, path = self.ptr_cell(ptr)
        self.write_cell(st, root, path, val)

    def ptr_of(self, root, path):
        if root[0] == "T" and not path:
            return root[1]
        return mk("loc", root, path)

    # ---- operands and rvalues
    def const(self, c):
        if "fn" in c:
            if c.get("ctor"):
                return mk("ctor", c["fn"], tuple(c["ctor"]) if isinstance(c["ctor"], list) else c["ctor"])
            n = c.get("res") or c["fn"]
            return mk("fn", n)
        if "v" in c:
            v = self.cval(c["v"])
            if v is not None:
                return v
        if c.get("t") == "()":
            return UNIT
        u = c.get("u")
        if isinstance(u, str) and len(u) > 1 and u[0] == u[-1] == '"' and c.get("t", "").endswith("str"):
            return S(unescape(u[1:-1]))
        if c.get("const"):
            return mk("cst", c["const"])
        return mk("u", str(c.get("u") or c.get("static") or c.get("t")))

    def cval(self, v):
        if "s" in v:
            return S(v["s"])
        if "i" in v:
            return I(int(v["i"]))
        if "b" in v:
            return B(v["b"])
        if "ch" in v:
            return mk("ch", v["ch"])
        if "a" in v:
            xs = [self.cval(x) for x in v["a"]]
            if any(x is None for x in xs):
                return None
            return mk("arr", tuple(xs))
        if "ref" in v:
            return self.cval(v["ref"])
        if "tup" in v:
            xs = [self.cval(x) for x in v["tup"]]
            if any(x is None for x in xs):
                return None
            return mk("tup", tuple(xs))
        if "adt" in v:
            fs = v.get("fields") or []
            names, vals = [], []
            for i, x in enumerate(fs):
                if isinstance(x, list):
                    n, x = x
                else:
                    n = v["names"][i] if "names" in v else str(i)
                y = self.cval(x)
                if y is None:
                    return None
                names.append(n)
                vals.append(y)
            return agg(v["adt"], v.get("variant") or "", names, vals)
        if "zst" in v:
            return UNIT
        if "static" in v and v["static"] in self.p.statics:
            return self.cval(self.p.statics[v["static"]])
        return None

    def operand(self, st, o):
        if o[0] == "k":
            return self.const(o[1])
        return self.read(st, o[1])

    def rvalue(self, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            root, path = self.cell(st, r[2])
            if r[1]:
                return self.ptr_of(root, path)
            v = projs(self.root_value(st, root), path)
            return mk("&", v) if v.op == "loc" else v
        if k == "cast":
            kind = r[1]
            if kind == "BoxDerefTransmute" or (kind == "Transmute" and r[2][0] in "cm" and "BoxRaw" in str(r[4])):
                pl = r[2][1]
                pl2 = [pl[0], pl[1][:-1]]
                root, path = self.cell(st, pl2)
                v = projs(self.root_value(st, root), path)
                return self.ptr_of(root, path)
            v = self.operand(st, r[2])
            if kind == "IntToInt":
                if v.op == "ch":
                    return I(v.args[0])
                if v.op == "i" or r[3] in ("usize", "u64", "u128", "i128", "u32", "i64", "isize") and r[4] != "char":
                    if v.op == "i":
                        w = re.match(r"([iu])(\d+|size)$", r[3])
                        if not w:
                            return v
                        bits = 64 if w.group(2) == "size" else int(w.group(2))
                        n = v.args[0] & ((1 << bits) - 1)
                        return I(n - (1 << bits) if w.group(1) == "i" and n >> (bits - 1) else n)
                    return v if r[3] in ("u128", "i128") or r[4] in ("u8", "u16", "u32", "i32", "usize", "u64") and r[3] in ("usize", "u64", "i64") else mk("cast", v, r[3] + "<" + r[4] if r[4] in ("u128", "i128") else r[3])
                if r[4] == "char":
                    return mk("code", v)
                return mk("cast", v, r[3])
            if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
                return mk("cast", v, r[3])
            return v
        if k == "bin":
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            for o, v in ((r[2], a), (r[3], b)):
                if v.op in ("p", "arg") and not v.uns and o[0] != "k" and not o[1][1] and self.p.fns[st.stack[-1][0]].locals[o[1][0]] in UNSIGNED:
                    v.uns = True
            return self.binop(st, r[1], a, b)
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                return t_not(v)
            if r[1] == "Neg":
                return I(-v.args[0]) if v.op == "i" else mk("neg", v)
            if r[1] == "PtrMetadata":
                return t_len(self.deref(st, v))
            return mk("un", r[1], v)
        if k == "discr":
            v = self.read(st, r[1])
            d = discr(v)
            tab = {int(a): b for a, b in (r[3] or [])}
            if d.op == "discr":
                DTAB[d] = tab
            else:
                pass
            self.lasttab = tab
            return mk("dv", d, tuple(sorted(tab.items()))) if d.op == "s" else d
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(st, o) for o in r[2])
            if kind[0] == "array":
                return mk("arr", ops)
            if kind[0] == "tuple":
                return mk("tup", ops) if ops else UNIT
            if kind[0] == "adt":
                names = [n if n not in (None, "") else str(i) for i, n in enumerate(kind[3])] if len(kind) > 3 and kind[3] else [str(i) for i in range(len(ops))]
                return agg(kind[1], kind[2], names, ops)
            if kind[0] == "closure":
                return mk("clo", kind[1], ops)
            return mk("aggo", str(kind[0]), ops)
        if k == "repeat":
            return mk("rep", self.operand(st, r[1]), str(r[2]))
        if k == "tls":
            return mk("u", "tls")
        return mk("u", k)

    def binop(self, st, op, a, b):
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Add":
            v = t_add(a, b)
        elif op == "Sub":
            v = t_sub(a, b)
        elif op in ("Lt", "Gt", "Le", "Ge"):
            a, b = self.deref(st, a), self.deref(st, b)
            if a.op == "ch":
                a = I(a.args[0])
            if b.op == "ch":
                b = I(b.args[0])
            if a.op == "agg" or b.op == "agg":
                return mk(op, a, b)
            if op == "Lt":
                return t_lt(a, b)
            if op == "Gt":
                return t_lt(b, a)
            if op == "Le":
                return t_not(t_lt(b, a))
            return t_not(t_lt(a, b))
        elif op == "Eq":
            return t_eq(self.deref(st, a), self.deref(st, b))
        elif op == "Ne":
            return t_not(t_eq(self.deref(st, a), self.deref(st, b)))
        elif op == "Mul" and a.op == "i" and b.op == "i":
            v = I(a.args[0] * b.args[0])
        elif op in ("BitAnd", "BitOr") and (a.op in ("b", "not", "eq", "cmp", "isv", "in", "and", "or") or b.op in ("b", "not", "eq", "cmp", "isv", "in", "and", "or")):
            if a.op == "b":
                a, b = b, a
            if b.op == "b":
                if op == "BitAnd":
                    return a if b.args[0] else FALSE
                return TRUE if b.args[0] else a
            return mk("and" if op == "BitAnd" else "or", a, b)
        else:
            if op in ("Mul", "BitXor", "BitAnd", "BitOr") and a.n > b.n:
                a, b = b, a
            if op == "Rem" and a.op == "i" and b.op == "i" and b.args[0]:
                v = I(a.args[0] % b.args[0])
            elif op == "Div" and a.op == "i" and b.op == "i" and b.args[0]:
                v = I(a.args[0] // b.args[0])
            else:
                v = mk("bin", op, a, b)
        return tup(v, mk("ovf", op, a, b)) if wo else v

    # ---- control
    def block(self, nid, st):
        """execute the block at the top frame; returns [(events, node)]"""
        fn, ctx, blk, dest, target = st.stack[-1]
        f = self.p.fns[fn]
        b = f.blocks[blk]
        events = []
        self.cur = nid
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, s[2], s[1])
                if s[1][1]:
                    root, path = self.cell(st, s[1])
                    if self.on_store and (root[0] == "T" or path):
                        e = self.on_store(self, st, root, path, v, s[3] if len(s) > 3 else b["l"])
                        if e:
                            events.extend(e)
                    self.write_cell(st, root, path, v)
                else:
                    st.env[(len(st.stack) - 1, s[1][0])] = v
            elif s[0] == "setd":
                pass
        t = b["t"]
        k = t[0]
        if k == "goto":
            return self.jump(st, t[1], events)
        if k == "drop":
            return self.jump(st, t[2], events)
        if k == "switch":
            return self.switch(nid, st, t, events)
        if k == "return":
            return self.ret(st, events)
        if k == "assert":
            c = self.operand(st, t[1])
            if t[2] is False or t[2] == "false":
                c = t_not(c)
            out = []
            if isinstance(t[3], list) and t[3][0] == "other":
                return self.jump(st, t[4], events)
            if c.op not in ("ovf",) and c.op != "not" or c.op == "not" and c.args[0].op != "ovf":
                r = ev(st.facts, c)
                self.tests.setdefault(nid, set()).update(fact_subjects(c))
                if self.panics and r is not True:
                    s2 = st.copy()
                    if assume(s2.facts, c, False):
                        out.append((events + [("panic", "assert:" + str(t[3][0] if isinstance(t[3], list) else t[3]), c, self.site(st), b["l"])], self.final("panic", s2, UNIT)))
                if r is False:
                    return out
                if r is None:
                    assume(st.facts, c, True)
                    e = self.on_branch(self, st, c, True) if self.on_branch else None
                    events = list(events) + (e if isinstance(e, list) else [])
            elif self.panics:
                r = self.ovf_safe(st, c)
                if not r:
                    out.append((events + [("panic", "overflow", c, self.site(st), b["l"])], self.final("panic", st.copy(), UNIT)))
            return out + self.jump(st, t[4], events)
        if k == "call":
            return self.call(nid, st, t, b["l"], events)
        return []

    def ovf_safe(self, st, c):
        o = c.args[0] if c.op == "not" else c
        op, a, b = o.args
        if op == "Add":
            return b.op == "i"  # adding a small constant to a length or counter
        if op == "Sub":
            return ev(st.facts, t_lt(a, b)) is False
        return False

    def site(self, st):
        fn, ctx, blk = st.stack[-1][:3]
        if self.peel > 1 and st.loops:
            return (ctx, fn, blk, tuple(l[3] for l in st.loops))
        return (ctx, fn, blk)

    def callsite_name(self, st):
        fn, ctx, blk = st.stack[-1][:3]
        return fn

    def jump(self, st, to, events):
        n = self.goto(st, to)
        return [] if n is None else [(events, n)]

    def goto(self, st, to):
        fn, ctx, frm, dest, target = st.stack[-1]
        f = self.p.fns[fn]
        if f.blocks[to]["t"][0] == "unreachable" and not f.blocks[to]["s"]:
            return None
        depth = len(st.stack) - 1
        loops = f.loops()
        # leave loops that do not contain `to`
        while st.loops and st.loops[-1][0] == depth and to not in loops[st.loops[-1][1]]:
            st.loops = st.loops[:-1]
        st.stack = st.stack[:-1] + ((fn, ctx, to, dest, target),)
        if to in loops:
            body = loops[to]
            key = (ctx, fn, to)
            if frm in body and any(l[0] == depth and l[1] == to for l in st.loops):
                while not (st.loops[-1][0] == depth and st.loops[-1][1] == to):
                    st.loops = st.loops[:-1]
                head, it = st.loops[-1][2:]
                if it >= int(self.peel) - 1:
                    self.back_edge(st, key, body, head, depth, to)
                st.loops = st.loops[:-1]
                return self.head_node(st, depth, to, min(it + 1, int(self.peel)))
            if self.on_loop and self.with_facts:
                self.on_loop(self, st, key)
            if not self.peel:
                self.widen_entry(st, key)
            return self.head_node(st, depth, to, 0)
        return self.node(st)

    def head_node(self, st, depth, to, it):
        # node id is part of the loop entry: allocate by keying on the state without it
        self.prune(st)
        st.loops = st.loops + ((depth, to, None, it),)
        key = (st.stack, frozenset(st.env.items()), frozenset(st.store.items()), frozenset(st.facts.items()), st.loops, st.aux)
        nid = self.nodes.get(key)
        if nid is None:
            nid = len(self.nodes)
            if nid > self.limit:
                raise Limit("state limit in " + self.entry.name)
            self.nodes[key] = nid
            self.res.edges.append([])
            self.res.info.append(st.stack[-1][0:3:2])
            self.ctlof.append(tuple(fr[:3] for fr in st.stack))
            self.snap[nid] = st
            s2 = st.copy()
            s2.loops = st.loops[:-1] + ((depth, to, nid, it),)
            self.work.append((nid, s2))
        return nid

    def ind(self, key, kind):
        return mk("ind", key, kind[1], kind[2], kind[1] + (kind[2] if self.peel else 0))

    def widen_entry(self, st, key):
        """entering a loop without peeling: locations known to vary are unknown from the first iteration on"""
        for (rk, path), kind in sorted(self.varying.get(key, {}).items(), key=str):
            cur = st.env.get(rk[1:]) if rk[0] == "L" else st.store.get(rk[1], rk[1])
            if cur is None:
                continue
            old = projs(cur, path)
            if kind[0] == "ind" and not (old.op == "i" and old.args[0] == kind[1]):
                kind = ("phi",)
                self.varying[key][(rk, path)] = kind
            new = self.ind(key, kind) if kind[0] == "ind" else mk("phi", key, str((rk, path)))
            nv = setp(cur, path, new)
            if rk[0] == "L":
                st.env[rk[1:]] = nv
            else:
                st.store[rk[1]] = nv

    def in_loop(self, site, key, body):
        """is a site label inside the loop `key` (ctx, fn, head)?"""
        ck = (site, key)
        r = self.insite.get(ck)
        if r is None:
            ctx, fn, head = key
            sctx, sfn, sblk = site[:3]
            if sctx == ctx and sfn == fn:
                r = sblk in body
            elif len(sctx) > len(ctx) and sctx[:len(ctx)] == ctx:
                c = sctx[len(ctx)]
                r = c[0] == fn and c[1] in body
            else:
                r = False
            self.insite[ck] = r
        return r

    def widenable(self, a, b, key, lk):
        """two different values of one location at a loop head: may they stay separate instances?"""
        ok_ = True
        for v in (a, b):
            if v.op in ("b", "s", "ch", "unit", "fn") or (v.op == "agg" and not v.args[3]) or (v.op == "arr" and not v.args[0]):
                continue
            ok_ = False
        if not ok_:
            return True
        seen = self.consts_seen.setdefault((key, lk), set())
        seen.add(a)
        seen.add(b)
        return len(seen) > 4

    def diffs(self, a, b, path, out, key, rk, parent=None):
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
            if a.args[1] == b.args[1] and a.args[2] == b.args[2]:
                for n, x, y in zip(a.args[2], a.args[3], b.args[3]):
                    self.diffs(x, y, path + ((("v", a.args[1]),) if a.args[1] and a.args[0] in (OPT, RES) else ()) + (("f", n),), out, key, rk, a)
                return
            if a.args[0] in (OPT,) and len(self.consts_seen.setdefault((key, (rk, path, "opt")), set())) < 4:
                seen = self.consts_seen[(key, (rk, path, "opt"))]
                seen.add(a)
                seen.add(b)
                return
            if not a.args[3] and not b.args[3] and not self.widenable(a, b, key, (rk, path)):
                return
            out.append((rk, path, a, b))
            return
        if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                self.diffs(x, y, path + (("f", str(i)),), out, key, rk)
            return
        if a.op == "upd" or b.op == "upd":
            ba, ua = a.args if a.op == "upd" else (a, ())
            bb, ub = b.args if b.op == "upd" else (b, ())
            if ba is bb and not any(k[0] in ("i", "ci") for k, _ in ua + ub):
                for k in sorted({k for k, _ in ua} | {k for k, _ in ub}, key=str):
                    self.diffs(proj(a, k), proj(b, k), path + (k,), out, key, rk)
                return
        if parent is not None and parent.args[0] == "iter" and path[-1] == ("f", "pos") and a.op == "i" and b.op == "i":
            src = parent.args[3][0]
            if src.op == "arr" or (src.op == "rev" and src.args[0].op == "arr"):
                return
        if parent is not None and parent.args[0].endswith("::Range") and a.op == "i" and b.op == "i" and parent.args[3][1].op == "i" and parent.args[3][1].args[0] - b.args[0] < 24:
            return
        if not self.widenable(a, b, key, (rk, path)):
            return
        out.append((rk, path, a, b))

    def finite(self, a, b, depth=0):
        """does some iterator over a constant sequence advance between the two values?"""
        if a is b or depth > 6 or a.op != b.op:
            return False
        if a.op == "agg" and a.args[:3] == b.args[:3]:
            if a.args[0] == "iter":
                d = dict(zip(a.args[2], zip(a.args[3], b.args[3])))
                (src, src2), (p0, p1) = d["src"], d["pos"]
                s0 = src.args[0] if src.op == "rev" else src
                return src is src2 and s0.op == "arr" and len(s0.args[0]) <= 16 and p0.op == "i" and p1.op == "i" and p1.args[0] > p0.args[0]
            if a.args[0].endswith("::Range"):
                (s0, e0), (s1, e1) = a.args[3][:2], b.args[3][:2]
                return e0 is e1 and e0.op == "i" and s0.op == "i" and s1.op == "i" and s1.args[0] > s0.args[0] and e0.args[0] - s0.args[0] <= 16
            return any(self.finite(x, y, depth + 1) for x, y in zip(a.args[3], b.args[3]))
        if a.op == "tup" and len(a.args[0]) == len(b.args[0]):
            return any(self.finite(x, y, depth + 1) for x, y in zip(a.args[0], b.args[0]))
        return False

    def back_edge(self, st, key, body, head, depth, to):
        hs = self.snap[head]
        vary = self.varying.setdefault(key, {})
        if self.on_back and self.with_facts:
            self.on_back(self, st, key, hs)
        # prune with liveness at the head
        self.prune(st)
        if key not in self.nounroll and any(self.finite(a, st.env[k]) for k, a in hs.env.items() if k in st.env):
            n = self.unrolled[key] = self.unrolled.get(key, 0) + 1
            if n > 600:
                self.nounroll.add(key)
                raise Restart()
            return
        found = []
        for k in set(hs.env) | set(st.env):
            a, b = hs.env.get(k), st.env.get(k)
            if a is None or b is None:
                continue
            self.diffs(a, b, (), found, key, ("L",) + k)
        for k in set(hs.store) | set(st.store):
            a, b = hs.store.get(k, k), st.store.get(k, k)
            self.diffs(a, b, (), found, key, ("T", k))
        changed = False
        moved = []
        for rk, path, a, b in found:
            lk = (rk, path)
            # covered by an already widened prefix?
            kind = vary.get(lk)
            ab, ac = lin(a) if a.op in ("i", "add", "ind") else (a, 0)
            bb, bc = lin(b) if b.op in ("i", "add", "ind") else (b, 0)
            step = None
            if a.op == "i" and b.op == "i":
                step = (ac, bc - ac)
            elif a.op == "ind" and a.args[0] == key and bb is a:
                step = (a.args[1], bc)
            if kind is None:
                vary[lk] = ("ind", step[0], step[1]) if step and step[1] else ("phi",)
                changed = True
            elif kind[0] == "ind" and (step is None or ("ind",) + step != kind):
                if a.op == "i" and step is not None and ("ind", ac, bc - ac) == kind:
                    pass
                elif a.op == "ind" and a.args[0] != key:
                    vary[lk] = ("phi",)
                    changed = True
                else:
                    vary[lk] = ("phi",)
                    changed = True
            moved.append((lk, a, b))
        for lk, kind in vary.items():
            if kind[0] == "ind" and lk not in [m[0] for m in moved]:
                # unchanged on this path: not an induction variable any more, unless it is dead here
                rk, path = lk
                cur = st.env.get(rk[1:]) if rk[0] == "L" else st.store.get(rk[1])
                if cur is None:
                    continue
                hv = hs.env.get(rk[1:]) if rk[0] == "L" else hs.store.get(rk[1])
                if hv is None:
                    continue
                if projs(hv, path).op in ("i", "ind", "phi") and projs(cur, path) is projs(hv, path):
                    vary[lk] = ("phi",)
                    changed = True
        if changed:
            raise Restart()
        # apply widening
        shift = {}
        first = {}
        for lk, kind in sorted(vary.items(), key=lambda x: str(x)):
            rk, path = lk
            cur = st.env.get(rk[1:]) if rk[0] == "L" else st.store.get(rk[1], rk[1])
            if cur is None:
                continue
            old = projs(cur, path)
            if kind[0] == "ind":
                new = self.ind(key, kind)
                if old.op == "i":
                    first[new] = old.args[0]
                else:
                    shift[new] = kind[2]
            else:
                new = mk("phi", key, str(lk))
            nv = setp(cur, path, new)
            if rk[0] == "L":
                st.env[rk[1:]] = nv
            else:
                st.store[rk[1]] = nv
        # facts
        nf = {}
        for s, fa in st.facts.items():
            inside = [x for x in s.sites if self.in_loop(x, key, body)]
            if not inside:
                nf[s] = fa
                if first and fa[0] == "I" and s.op in ("len", "nchars", "p", "arg", "key"):
                    for ph, v in first.items():
                        x, y = (ph, s) if ph.n < s.n else (s, ph)
                        lo, hi = fa[1], fa[2]
                        if x is ph:
                            nlo, nhi = (lo - v if lo > NEG else NEG), (hi - v if hi < POS else POS)
                        else:
                            nlo, nhi = (v - hi if hi < POS else NEG), (v - lo if lo > NEG else POS)
                        iv_put(nf, mk("diff", x, y), nlo, nhi, frozenset())
                continue
            if s.op == "diff" and fa[0] == "I":
                a, b = s.args
                sa, sb = shift.get(a), shift.get(b)
                ina = any(self.in_loop(x, key, body) for x in a.sites)
                inb = any(self.in_loop(x, key, body) for x in b.sites)
                if (ina and sa is None) or (inb and sb is None):
                    continue
                d = (sb or 0) - (sa or 0)
                lo = fa[1] + d if fa[1] > NEG else NEG
                hi = fa[2] + d if fa[2] < POS else POS
                if lo < -2:
                    lo = NEG
                if hi > 2:
                    hi = POS
                if hi < -2:
                    hi = -2
                if lo > 2:
                    lo = 2
                iv_put(nf, s, lo, hi, frozenset())
        st.facts = nf

    def switch(self, nid, st, t, events):
        c = self.operand(st, t[1])
        c0 = c
        targets, other, ty = t[2], t[3], t[4]
        out = []
        if c.op == "dv":
            name = c.args[0].args[0]
            tab = dict(c.args[1])
            for v, bb in targets:
                if tab.get(int(v)) == name:
                    return self.branch(st, bb, c.args[0], name, events, False)
            return self.branch(st, other, c.args[0], name, events, False)
        if c.op == "i" or c.op == "ch":
            for v, bb in targets:
                if int(v) == c.args[0]:
                    return self.jump(st, bb, events)
            return self.jump(st, other, events)
        conds = []
        if ty == "bool":
            if c.op == "b":
                for v, bb in targets:
                    if bool(int(v)) == c.args[0]:
                        return self.jump(st, bb, events)
                return self.jump(st, other, events)
            self.tests.setdefault(nid, set()).update(fact_subjects(c))
            for v, bb in targets:
                conds.append((c, bool(int(v)), bb))
            conds.append((c, not bool(int(targets[0][0])), other))
            for cc, val, bb in conds:
                s2 = st.copy()
                if not self.with_facts or assume(s2.facts, cc, val):
                    evs = list(events)
                    if self.on_branch:
                        e = self.on_branch(self, s2, cc, val)
                        if e is NOFACT:
                            continue
                        if e:
                            evs += e
                    out += self.jump(s2, bb, evs)
            return out
        tab = DTAB.get(c)
        seen = []
        for v, bb in targets:
            v = int(v)
            if c.op == "discr" and tab is not None and v in tab:
                cc = mk("isv", c, tab[v])
            elif ty == "char":
                cc = t_eq(c, mk("ch", v))
            else:
                cc = t_eq(c, I(v))
            self.tests.setdefault(nid, set()).update(fact_subjects(cc))
            seen.append(cc)
            s2 = st.copy()
            if not self.with_facts or assume(s2.facts, cc, True):
                evs = list(events)
                if self.on_branch:
                    e = self.on_branch(self, s2, cc, True)
                    if e is NOFACT:
                        continue
                    if e:
                        evs += e
                out += self.jump(s2, bb, evs)
        f = self.p.fns[st.stack[-1][0]]
        if f.blocks[other]["t"][0] == "unreachable":
            return out
        s2 = st.copy()
        good = True
        evs = list(events)
        for cc in seen:
            if self.with_facts and not assume(s2.facts, cc, False):
                good = False
                break
        if good:
            if self.on_branch:
                for cc in seen:
                    e = self.on_branch(self, s2, cc, False)
                    if e:
                        evs += e
            out += self.jump(s2, other, evs)
        return out

    def branch(self, st, bb, d, name, events, known):
        return self.jump(st, bb, events)

    def ret(self, st, events):
        fn, ctx, blk, dest, target = st.stack[-1]
        depth = len(st.stack) - 1
        v = st.env.get((depth, 0), UNIT)
        if depth == 0:
            if self.on_return:
                e = self.on_return(self, st, v)
                if e:
                    events = events + e
            return [(events, self.final("return", st, self.snapshot(st, v)))]
        for k in [k for k in st.env if k[0] == depth]:
            del st.env[k]
        st.stack = st.stack[:-1]
        while st.loops and st.loops[-1][0] >= depth:
            st.loops = st.loops[:-1]
        if target is None:
            return []
        self.assign(st, dest, v)
        return self.jump(st, target, events)

    def snapshot(self, st, v):
        return self.deref(st, v) if v.op in ("loc", "&") else v

    def assign(self, st, dest, v):
        place = (dest[0], dest[1])
        if dest[1]:
            root, path = self.cell(st, place)
            self.write_cell(st, root, path, v)
        else:
            st.env[(len(st.stack) - 1, dest[0])] = v

    # ---- calls
    def call(self, nid, st, t, loc, events):
        fop, args, dest, target = t[1], t[2], t[3], t[4]
        dest = (dest[0], tuple(tuple(x) if isinstance(x, list) else x for x in dest[1]))
        fty = self.p.fns[st.stack[-1][0]].locals
        atys = [fty[a[1][0]] if a[0] in "cm" and not a[1][1] else (a[1].get("t", "") if a[0] == "k" else "?") for a in args]
        vals = [self.operand(st, a) for a in args]
        if fop[0] == "k" and "fn" in fop[1]:
            c = fop[1]
        else:
            fv = self.operand(st, fop)
            c = {"fn": "<indirect>", "value": fv}
            r = self.call_value(nid, st, fv, vals, dest, target, loc, events)
            if r is not None:
                return r
        return self.invoke(nid, st, c, vals, atys, dest, target, loc, events)

    def finish(self, st, outcomes, dest, target, events):
        """outcomes: [(state, value or None (diverges), events)]"""
        out = []
        for s2, v, e in outcomes:
            if v is None or target is None:
                out.append((events + list(e), self.final("diverge", s2, UNIT)))
                continue
            self.assign(s2, dest, v)
            out += self.jump(s2, target, events + list(e))
        return out

    def invoke(self, nid, st, c, vals, atys, dest, target, loc, events):
        full = c.get("res") or c["fn"]
        name = strip_generics(full)
        self.cur = nid
        if self.on_call:
            r = self.on_call(self, st, c, name, vals, loc)
            if r is not None:
                if r and r[0] == "event":  # events then default handling
                    events = events + list(r[1])
                else:
                    return self.finish(st, r, dest, target, events)
        tr, me = c.get("trait"), c.get("method")
        # closures and function values
        if tr in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"):
            fv = self.deref(st, vals[0])
            tupv = vals[1] if len(vals) > 1 else UNIT
            a2 = list(tupv.args[0]) if tupv.op == "tup" else ([] if tupv is UNIT else [tupv])
            r = self.call_value(nid, st, fv if fv.op in ("fn", "clo", "ctor") else vals[0], a2, dest, target, loc, events, selfv=vals[0])
            if r is not None:
                return r
        if c.get("ctor"):
            ct = c["ctor"]
            return self.finish(st, [(st, self.ctor_value(c["fn"], ct, vals), ())], dest, target, events)
        h = self.std.lookup(tr, me, name)
        if h is not None:
            r = h(self, st, c, vals, atys)
            if r is not None:
                if isinstance(r, tuple) and r and r[0] == "inline":
                    return self.inline(nid, st, r[1], r[2], dest, target, loc, events)
                return self.finish(st, r, dest, target, events)
        # devirtualise
        late = tr and c.get("rk") in ("virtual", None)
        if self.devirt and late and vals:
            sv = self.deref(st, vals[0])
            base = sv
            while base.op == "upd":
                base = base.args[0]
            if base.op == "agg":
                for i in self.p.impls:
                    if i["trait"] == tr and strip_ty(i["self"]) == base.args[0]:
                        late = False
                        for m, pth in i["methods"]:
                            if m == me:
                                full = pth
                                break
        if late and strip_generics(full) == "%s::%s" % (tr, me) and any(i["trait"] == tr and any(m == me for m, _ in i["methods"]) for i in self.p.impls):
            pass  # the default body is one of several; which one runs is not known here
        elif full in self.p.fns and not self.stop(full) and self.can_inline(st, full):
            return self.inline(nid, st, full, vals, dest, target, loc, events)
        m = self.std.model(self.p, tr, me, name)
        if m is not None:
            return self.inline(nid, st, m, vals, dest, target, loc, events)
        return self.finish(st, [self.opaque(st, c, name, vals, atys)], dest, target, events)

    def ctor_value(self, name, ct, vals):
        if isinstance(ct, (list, tuple)) and len(ct) >= 2:
            adt, variant = ct[0], ct[1]
        else:
            n = strip_generics(name)
            adt, variant = n.rsplit("::", 1)
            if n in self.p.adts:
                adt = n
        if adt.endswith("::Some"):
            adt, variant = OPT, "Some"
        return agg(adt, variant, [str(i) for i in range(len(vals))], vals)

    def can_inline(self, st, full):
        if len(st.stack) >= self.max_depth:
            return False
        if any(fr[0] == full for fr in st.stack):
            return full.startswith("models::")
        return True

    def inline(self, nid, st, full, vals, dest, target, loc, events):
        fn, ctx, blk, d0, t0 = st.stack[-1]
        self.res.inlined.add(full)
        f = self.p.fns[full]
        depth = len(st.stack)
        st.stack = st.stack[:-1] + ((fn, ctx, blk, d0, t0), (full, ctx + ((fn, blk),), 0, dest, target))
        for i, v in enumerate(vals):
            st.env[(depth, i + 1)] = v
        return [(events, self.enter(st))]

    def enter(self, st):
        fn = st.stack[-1][0]
        f = self.p.fns[fn]
        if 0 in f.loops():
            if not self.peel:
                self.widen_entry(st, (st.stack[-1][1], fn, 0))
            return self.head_node(st, len(st.stack) - 1, 0, 0)
        return self.node(st)

    def call_value(self, nid, st, fv, vals, dest, target, loc, events, selfv=None):
        if fv.op == "fn":
            n = fv.args[0]
            c = {"fn": n, "res": n}
            if n.startswith("<") and " as " in n:
                # <X as Trait>::method
                head, me = n.rsplit("::", 1)
                c["trait"], c["method"] = strip_generics(head[1:-1].split(" as ", 1)[1]).split("<")[0], me
            return self.invoke(nid, st, c, vals, ["?"] * len(vals), dest, target, loc, events)
        if fv.op == "ctor":
            return self.finish(st, [(st, self.ctor_value(fv.args[0], fv.args[1], vals), ())], dest, target, events)
        if fv.op == "clo" and fv.args[0] in self.p.fns:
            if not self.can_inline(st, fv.args[0]):
                return None
            sv = selfv if selfv is not None and selfv.op == "loc" else fv
            return self.inline(nid, st, fv.args[0], [sv] + list(vals), dest, target, loc, events)
        return None

    def opaque(self, st, c, name, vals, atys):
        """uninterpreted call"""
        site = self.site(st)
        dv = [self.deref(st, v) for v in vals]
        mut = any("&mut " in (t or "") for t in atys) or any(v.locs for v in vals)
        impure = mut or self.std.impure(name)
        self.res.opaque.setdefault(name, 0)
        self.res.opaque[name] += 1
        for v in vals:
            if v.op == "clo" or (v.locs and v.op != "loc"):
                self.res.warnings.add("closure passed to unmodelled " + name)
        if impure:
            val = mk("x", site, name, tuple(dv))
            for i, (v, t) in enumerate(zip(vals, atys)):
                if v.op == "loc" or "&mut " in (t or ""):
                    self.write_ptr(st, v, mk("hv", site, name, i))
                elif v.locs:
                    for r in v.locs:
                        self.write_cell(st, r, (), mk("hv", site, name, i, r[2]))
        else:
            val = mk("call", name, tuple(dv))
        return (st, val, ())


def strip_ty(t):
    i = t.find("<")
    return t[:i] if i > 0 else t


def live_at_return(f, fr):
    # frames below the top: block fr[2] is the calling block; what is live after its call
    live, _ = f.liveness2()
    t = f.blocks[fr[2]]["t"]
    out = set()
    for s in f.succs()[fr[2]]:
        out |= live[s]
    if t[0] == "call":
        d = t[3]
        if d[1]:
            out.add(d[0])
            for e in d[1]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])
        else:
            out.discard(d[0])
    return out
