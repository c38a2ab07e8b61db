"""What a mutator's record has to say, on every path that returns Ok."""
from .sim import *
from . import mon, rel
from .mon import Bad
from .visit import impls

DRAWS = ("next_u64", "next_u32", "gen_range", "gen", "gen_bool", "choose", "choose_mut", "shuffle", "fill_bytes", "sample", "random_range", "random")


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}


def is_draw(t):
    return t.op == "x" and t.args[1].rsplit("::", 1)[-1] in DRAWS and ("rand" in t.args[1] or "Rng" in t.args[1])


def truncated(t):
    """random choices that are part of t only after a conversion that loses some of their values"""
    out = []
    for x in subterms(t):
        if x.op != "cast":
            continue
        v, ty = x.args[0], str(x.args[1])
        bits = 64 if "<" in ty else BITS.get(ty)
        if not bits or not any(is_draw(y) for y in subterms(v)):
            continue
        if v.op == "bin" and v.args[0] == "Rem":
            n = v.args[2]
            if n.op == "i" and n.args[0] <= 1 << bits or n.op not in ("i", "len"):
                continue
        elif v.op != "bin" and not is_draw(v) or v.op == "bin":
            continue
        elif bits == 32 and "32" in v.args[1]:
            continue
        elif bits < 64 and v.args[1].rsplit("::", 1)[-1] not in ("next_u64", "next_u32"):
            continue
        out.append(v)
    return out


def check(cx):
    prog = cx.prog
    for self_ty, f in impls(prog, "Mutator", "mutate"):
        imp = next((g for s, g in impls(prog, "Mutator", "implements") if s == self_ty), None)
        cx.analysed(f)
        cx.count("mutators")
        try:
            res = rel.RelSim(prog, f.name, lambda x: rel.is_stop(x, f.name) and not x.endswith("::implements"), peel=0).run()
            own = [x[1] for x in Sim(prog, imp).run().finals.values() if x[0] == "return"] if imp else []
        except Limit:
            cx.notes.append("%s has too many states for the record rule" % f.name)
            continue

        def step(s, e):
            if e[0] == "do" and e[1].rsplit("::", 1)[-1] in DRAWS and ("rand" in e[1] or "Rng" in e[1]):
                return s | {"drawn"}
            if e[0] == "do" and e[1].startswith("openssl::hash::Hasher::update"):
                data = e[2][1] if len(e[2]) > 1 else UNIT
                cut = truncated(data)
                return s | {"hashed"} | {("cut", v) for v in cut} | {("whole", v) for v in subterms(data) if is_draw(v)} - {("whole", v) for c in cut for v in subterms(c)}
            return s

        def end(s, kind, value, fin):
            if kind != "return" or value.op != "agg" or value.args[1] != "Ok":
                return
            r = value.args[3][0]
            if r.op != "agg" or not r.args[0].endswith("MutatorResult"):
                return
            fields = dict(zip(r.args[2], r.args[3]))
            t = fields.get("mutation_type")
            if t is NONE:
                raise Bad("no-type", "%s returns a record without the algorithm" % f.name, f.loc)
            if t is not None and t.op == "agg" and t.args[1] == "Some":
                v = unown(t.args[3][0])
                if v.op == "agg" and all(o.op == "agg" for o in own) and v not in own:
                    raise Bad("type", "%s records the algorithm %s but implements %s" % (f.name, show(v), ", ".join(show(o) for o in own)), f.loc)
            h = fields.get("random_behavior_hash")
            if h is NONE and "drawn" in s:
                raise Bad("no-hash", "%s draws random numbers but returns a record without their hash" % f.name, f.loc)
            if h is not None and h is not NONE and "drawn" in s and "hashed" not in s:
                raise Bad("empty-hash", "%s draws random numbers and hashes none of its choices" % f.name, f.loc)
            for v in sorted((x[1] for x in s if x[0] == "cut"), key=lambda x: x.n):
                if h is not NONE and not any(("whole", d) in s for d in subterms(v) if is_draw(d)):
                    raise Bad("cut-hash", "%s hashes a random choice only after cutting it down to a smaller integer type: different choices have equal records" % f.name, f.loc)
        mon.apply(cx, res, frozenset(), step, end, prefix=self_ty + ":")
    cx.need("mutators", 20)
