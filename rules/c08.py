"""Never more mutants than requested, numbered 0, 1, 2, ... in order."""
from vlib.sim import *
from vlib import gen, mon
from vlib.mon import Bad

RULE = ("On the event automaton of the generator: the queue of algorithm choices grows only on loop paths that advance one counter "
        "by exactly one step under a guard that bounds that counter by the requested number; the queue never grows once mutants are written; "
        "every mutant write takes its algorithm from that queue and pairs with the removal of one entry before the next write; "
        "the number in an output file name starts at 0 and advances by exactly one on every path that wrote a mutant and on no other. "
        "A choice is queued only while that algorithm was chosen fewer times than it has mutable nodes. "
        "Every round of a loop that makes mutants removes an entry of the queue or advances a counter that is known to be below 50 on that path.")


def net(t):
    """(base, number of pushes minus removals)"""
    n = 0
    while t.op in ("push", "removed"):
        n += 1 if t.op == "push" else -1
        t = t.args[0]
    if t.op == "arr":
        return None, n + len(t.args[0])
    return t, n


def dlen(a, b, nm):
    ba, na = net(a)
    bb, nb = net(b)
    if ba is bb or (bb is not None and ba is not None and bb.op == "phi" and bb.args[1] == nm):
        return nb - na
    if bb is not None and bb.op == "phi" and bb.args[1] == nm:
        return nb - na
    return None


def run(cx):
    backs, entries = [], []

    def on_back(sim, st, key, hs):
        backs.append((key, dict(hs.env), dict(st.env), dict(st.facts), st.aux))
        st.aux = ()

    def on_loop(sim, st, key):
        entries.append((key, dict(st.env)))
    g = gen.Gen(cx, on_back=on_back, on_loop=on_loop, track=True)
    if g.res is None:
        return
    N = g.pf("number_of_mutants")
    # the queue: the container the algorithm of each mutation is taken from
    queues = set()
    for e in g.events("mutate"):
        cx.count("mutate_calls")
        ty = e[2][2]
        q = None
        if ty.op == "elem":
            q = ty.args[0]
        if q is None:
            cx.report("queue", "the algorithm given to a mutation is not taken from the queue of choices: %s" % show(ty)[:150], e[3])
            continue
        if not (ty.args[1] is I(0)):
            cx.notes.append("algorithm taken at " + show(ty.args[1]))
        queues.add(gen.base_of(q))
    names = {gen.loc_name(q) for q in queues if gen.loc_name(q)}
    cx.need("mutate_calls", 1)
    if not queues:
        return
    isq = lambda t: gen.base_of(t) in queues or gen.loc_name(t) in names

    # 1. writes pair with removals
    def step(s, e):
        bal, wrote, cur = s
        k = e[0]
        if k == "mutate":
            return (bal, wrote, e[1])
        if k == "qremove" and isq(e[1]):
            if e[2] not in ("remove", "pop_front"):
                return s
            return (min(bal + 1, 1), wrote, cur)
        if k in ("qpush",) and isq(e[1]) and wrote:
            raise Bad("grows-late", "the queue of algorithm choices grows after mutants have been written", e[3])
        if k in ("write_file", "write_stream"):
            ast = e[2][1]
            if not gen.mut_of(ast):
                return s
            if bal == -1:
                raise Bad("unpaired", "a second mutant is written without removing an entry from the queue of choices", e[3])
            return (bal - 1, True, cur)
        return s

    def end(s, kind, value, fin):
        if kind == "return" and value.op == "agg" and value.args[1] == "Ok" and s[0] < 0:
            raise Bad("unpaired-end", "generation ends with a written mutant still queued")
    mon.apply(cx, g.res, (0, False, None), step, end)

    # 2. growth of the queue is bounded by the requested number
    grow = []
    locs = [k for k in {k for b in backs for k in b[1]} if str((("L",) + k, ())) in names]
    if not locs:
        cx.notes.append("undecided: the queue of algorithm choices is not a local container")
        return
    # the container may have been filled by a helper and handed over
    known = {k for b in backs for k in b[1]}
    for q in locs:
        for _, en in entries:
            for t in subterms(en[q]) if q in en else ():
                n2 = gen.loc_name(t)
                for k in known:
                    if n2 == str((("L",) + k, ())) and k not in locs:
                        locs.append(k)
    for key in {b[0] for b in backs}:
        bs = [b for b in backs if b[0] == key]
        for q in locs:
            nm = str((("L",) + q, ()))
            ds = [(b, dlen(b[1][q], b[2][q], nm) if q in b[1] and q in b[2] else 0) for b in bs]
            if any(d is None for b, d in ds):
                cx.report("queue-replaced", "the queue of algorithm choices is replaced inside a loop", g.entry.loc)
                continue
            if not any(d > 0 for b, d in ds):
                continue
            cx.count("growth_loops")
            grow.append((key, q, ds))
            ok_ = None
            why = []
            ints = {k for b, d in ds for k in b[1]} - {q}
            for v in sorted(ints):
                r = counter_ok(ds, v, N, [en.get(v) for k2, en in entries if k2 == key])
                if r is True:
                    ok_ = v
                    break
                if r:
                    why.append(r)
            if ok_ is None:
                # bound directly on the queue's length
                if all(d == 0 or (d == 1 and ev(b[3], t_lt(t_len(b[1][q]), N)) is True) for b, d in ds):
                    ok_ = "len"
            if ok_ is None:
                cx.report("unbounded", "the queue of algorithm choices is not bounded by the requested number of mutants: %s" % ("; ".join(sorted(set(why))) or "no counter advances with it"), g.entry.loc)
            else:
                cx.sample("queue growth bounded by %s" % (ok_,))
            for k2, en in entries:
                if k2 == key and q in en and not (net(en[q])[0] is None and net(en[q])[1] == 0):
                    cx.report("queue-start", "the queue of algorithm choices is not empty when selection starts", g.entry.loc)
            # per algorithm: chosen fewer times than nodes
            for b, d in ds:
                if d > 0:
                    cx.count("growth_paths")
                    c = cap_ok(b)
                    if c is not True:
                        cx.report("cap", "an algorithm may be chosen more often than it has mutable nodes: " + c, g.entry.loc)
    cx.need("growth_loops", 1)
    cx.attempt(retries, cx, g, backs, entries, locs)
    numbering(cx, g, backs, entries)


LIMIT = 50


def leaves(env):
    out = {}

    def go(k, t, d):
        if t.op == "agg" and d < 3:
            for n, x in zip(t.args[2], t.args[3]):
                go(k + (n,), x, d + 1)
        else:
            out[k] = t
    for k, t in env.items():
        go((k,), t, 0)
    return out


def inside(prog, inner, outer):
    if inner == outer:
        return True
    if inner[:2] == outer[:2]:
        return inner[2] in prog.fns[outer[1]].loops().get(outer[2], ())
    return len(inner[0]) > len(outer[0]) and inner[0][:len(outer[0])] == outer[0]


def retries(cx, g, backs, entries, locs):
    """every round of a loop that makes mutants uses up an entry of the queue or one of a bounded number of attempts"""
    prog = cx.prog
    making = {b[0] for b in backs if "m" in b[4]}
    for key in sorted({b[0] for b in backs}, key=str):
        if not any(inside(prog, m, key) for m in making):
            continue
        for b in backs:
            if b[0] != key:
                continue
            cx.count("retry_back_edges")
            used = None
            for q in locs:
                if q in b[1] and q in b[2]:
                    d = dlen(b[1][q], b[2][q], str((("L",) + q, ())))
                    if d is None or d < 0:
                        used = d
            if used is not None:
                continue
            h, t = leaves(b[1]), leaves(b[2])
            ok, open_, why = False, False, []
            for k in sorted(set(h) & set(t), key=str):
                a, c = h[k], t[k]
                if a is c or a.op not in ("phi", "ind", "i", "add", "p"):
                    continue
                la, lc = lin(a), lin(c)
                if la[0] is not lc[0]:
                    if c.op not in ("i", "b", "phi", "ind", "add") and a.op != "phi":
                        open_ = True
                    continue
                dv = lc[1] - la[1]
                starts = [leaves(en).get(k) for k2, en in entries if k2 == key]
                lo, hi, _ = iv_get(b[3], a)
                if dv == 1:
                    if hi < 2 ** 40:
                        if "m" not in b[4] or hi <= LIMIT - 1:
                            ok = True
                        else:
                            why.append("an attempt is made when %d have been made already" % hi)
                    elif any(ev(b[3], t_lt(a, x)) is True for x in {y for s in b[3] for y in subterms(s) if y.op == "len" or y.op == "p"}):
                        ok = ok or "m" not in b[4] or key[1] != g.entry.name or a.op == "ind"
                        open_ = open_ or not ok
                elif dv == -1 and lo >= 1:
                    ok = True
                else:
                    why.append("a counter moves by %d" % dv)
            if ok:
                cx.count("bounded_attempts")
            elif open_:
                cx.notes.append("undecided: what bounds a round of the loop at %s" % (key,))
            else:
                cx.report("retry", "a round of the generating loop neither uses up an entry of the queue nor counts an attempt towards the limit of %d%s"
                          % (LIMIT, " (%s)" % "; ".join(sorted(set(why))) if why else ""), g.entry.loc)


def counter_ok(ds, v, N, inits):
    """is v a counter that moves by one with every growth, guarded against N (or from N down to 0)?"""
    sgn = None
    for b, d in ds:
        a, c = b[1].get(v), b[2].get(v)
        if a is None or c is None:
            return None
        if a.op not in ("phi", "ind", "i", "add", "p") or c.op not in ("phi", "ind", "i", "add", "p"):
            return None
        la, lc = lin(a), lin(c)
        if la[0] is not lc[0]:
            return None
        dv = lc[1] - la[1]
        if d == 0 and dv != 0:
            return None
        if d != 0:
            if dv == 0:
                return None
            if abs(dv) != d:
                return "a counter moves by %d while the queue grows by %d" % (dv, d)
            s = 1 if dv > 0 else -1
            if sgn not in (None, s):
                return None
            sgn = s
            if s < 0:
                lo, hi, ne = iv_get(b[3], a)
                if lo < 1:
                    return "the countdown is not guarded by > 0"
                if lo > 1:
                    return "the countdown stops before it reaches 0"
            else:
                if ev(b[3], t_lt(a, N)) is not True:
                    return "the counter is not guarded by < the requested number"
                if ev(b[3], t_lt(addc(a, 1), N)) is True:
                    return "the counter stops before the requested number"
    if sgn is None:
        return None
    for i in inits:
        if i is None:
            continue
        if sgn < 0 and i is not N:
            return "the countdown does not start at the requested number but at %s" % show(i)[:80]
        if sgn > 0 and i is not I(0):
            return "the counter does not start at 0"
    return True


def cap_ok(b):
    """facts on the path: uses(chosen) < nodes(chosen)"""
    for s, f in b[3].items():
        if f[0] == "I" and s.op == "diff":
            x, y = s.args
            lo, hi = f[1], f[2]
            for p, q, good in ((x, y, lo >= 1), (y, x, hi <= -1)):
                # q - p >= 1
                if good and p.op == "p" and q.op == "p" and p.args[0] is q.args[0] and p.args[1] != q.args[1]:
                    return True
                if good and (p.op in ("mval", "mget") or "mval" in show(p)) and ("mval" in show(q)):
                    return True
    return "no comparison of the number of uses with the number of nodes holds on the path that queues it"


def numbering(cx, g, backs, entries):
    nums = set()
    for e in g.events("write_file"):
        ast, path = e[2][1], e[2][2]
        if not gen.mut_of(ast):
            continue
        ds = {x for x in subterms(path) if x.op == "disp"}
        cx.count("numbered_writes")
        if not ds:
            cx.report("unnumbered", "the name of a mutant file does not depend on a counter", e[3])
        for d in ds:
            nums.add((d.args[0], e[3]))
    cx.need("numbered_writes", 1)
    for t, loc in nums:
        if t.op not in ("phi", "ind"):
            cx.report("number", "the number in a mutant's file name is not a counter from 0: %s" % show(t)[:100], loc)
            continue
        vs = [k for k in {k for b in backs for k in b[1]} if any(b[1].get(k) is t for b in backs)]
        if not vs:
            cx.report("number-location", "the number in a mutant's file name is not a loop counter", loc)
        for v in vs:
            cx.count("file_counters")
            key = t.args[0]
            for k2, en in entries:
                if k2 == key and v in en and en[v] is not I(0):
                    cx.report("number-start", "mutant numbers start at %s instead of 0" % show(en[v])[:60], loc)
            for b in backs:
                if b[0] != key or v not in b[1] or v not in b[2]:
                    continue
                cx.count("counter_back_edges")
                la, lc = lin(b[1][v]), lin(b[2][v])
                dv = lc[1] - la[1] if la[0] is lc[0] else None
                if dv != b[4].count("w"):
                    cx.report("number-step", "the mutant number changes by %s on a path that writes %d mutants" % (dv, b[4].count("w")), loc)
    cx.need("file_counters", 1)
    cx.need("counter_back_edges", 2)
