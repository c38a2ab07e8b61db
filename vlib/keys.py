"""Agreement of the keys a settings object is saved under and the keys it is loaded from."""
from .sim import *
from . import mon, rel

GET = ("get_str_for_key", "get_int_for_key", "get_bool_for_key", "get_array_for_key", "get_float_for_key", "get_object_for_key", "get_node_for_key", "get_value_for_key", "get")


def fields_in(t):
    out = set()
    for x in subterms(t):
        if x.op == "p" and x.args[0].op == "arg" and x.args[0].args[0] == 1:
            out.add(str(x.args[1][1]) if isinstance(x.args[1], tuple) else str(x.args[1]))
    return out


def saved(cx, f):
    """key -> fields of self that are written under it"""
    table = {}

    def hook(sim, st, c, n, vals, loc):
        m = n.rsplit("::", 1)[-1]
        if m.startswith("set_") and m.endswith("_for_key") and len(vals) == 3:
            k = sim.deref(st, vals[1])
            v = vals[2]
            for _ in range(4):
                v = sim.deref(st, v) if v.op in ("loc", "&") else v
            if k.op == "s":
                table.setdefault(k.args[0], set()).update(fields_in(v))
                cx.count("keys_saved_sites")
                return [(st, UNIT, [("saved", k.args[0])])]
            return [(st, UNIT, [("saved", None)])]
        return None
    res = Sim(cx.prog, f, on_call=hook, keep_all=True).run()
    return table, res


def names(f):
    return mk("p", mk("arg", 1), ("f", f))


def is_default(facts, t, d):
    """is it known that a setting has the value loading gives it when its key is absent"""
    if d.op == "agg" and not d.args[3]:
        return ev(facts, mk("isv", discr(t), d.args[1])) is True
    if d.op == "b":
        return ev(facts, t) is d.args[0]
    if d.op == "i":
        return ev(facts, t_eq(t, d)) is True
    if t_len(d) is I(0):
        return ev(facts, t_eq(t_len(t), I(0))) is True
    return None


def omitted(cx, w, res, table, defaults):
    """a key may only be left out where the setting has the value that loading gives it anyway"""
    def step(s, e):
        if e[0] == "saved":
            return s | {e[1]}
        return s

    def end(s, kind, v, fin):
        if kind != "return" or not (v.op == "agg" and v.args[1] == "Ok") or None in s:
            return
        for k, fs in table.items():
            if k in s:
                continue
            for f in fs:
                d = defaults.get(f)
                if d is None:
                    continue
                r = is_default(fin[2], names(f), d)
                if r is None:
                    cx.notes.append("undecided: default of %s: %s" % (f, show(d)[:80]))
                elif not r:
                    raise mon.Bad("omitted:" + k, "a configuration is saved without %r although the setting %s may differ from what loading assumes then (%s)" % (k, f, show(d)[:60]), w.loc)
                else:
                    cx.count("keys_left_out_at_default")
    mon.apply(cx, res, frozenset(), step, end)


def loaded(cx, f, keys):
    """key -> fields of the result that depend on the value found under it"""
    asked = set()
    plain = {}

    def run(key):
        got = set()

        def hook(sim, st, c, n, vals, loc):
            m = n.rsplit("::", 1)[-1]
            if m == "load_json_from_file_with_name":
                return [(st, ok(mk("arg", "json")), [])]
            if len(vals) == 2 and "mutagenyx" in n + str(c.get("trait")) or m == "get":
                if m == "contains_key" and sim.deref(st, vals[1]).op == "s":
                    return [(st, TRUE, [])]
                if m in GET and len(vals) == 2 and sim.deref(st, vals[1]).op == "s":
                    k = sim.deref(st, vals[1]).args[0]
                    asked.add(k)
                    v = mk("x", sim.site(st), "got", (S(k),))
                    return [(st, some(v) if k == key or k == "language" else NONE, [])]
            return None
        res = Sim(cx.prog, f, on_call=hook).run()
        plain.clear()
        for kind, v, facts, store, aux in res.finals.values():
            if kind == "return" and v.op == "agg" and v.args[1] == "Ok" and v.args[3][0].op == "agg":
                r = v.args[3][0]
                for name, t in zip(r.args[2], r.args[3]):
                    plain.setdefault(name, set()).add(t)
                    if any(x.op == "x" and x.args[1] == "got" and x.args[2] == (S(key),) for x in subterms(t)):
                        got.add(name)
        return got
    run("")
    defaults = {n: next(iter(ts)) for n, ts in plain.items() if len(ts) == 1}
    out = {}
    for k in sorted(asked | set(keys)):
        out[k] = run(k)
        cx.count("keys_loaded")
    return out, asked, defaults


def one_key(key):
    """loading a file that has one key: what the other keys do is left out"""
    present = {key, "language"}

    def hook(sim, st, c, n, vals, loc):
        m = n.rsplit("::", 1)[-1]
        if len(vals) == 2 and "mutagenyx" in n + str(c.get("trait")) or m == "get" and "serde_json" in n:
            k = sim.deref(st, vals[1])
            if k.op != "s":
                return None
            if m == "contains_key":
                return [(st, B(k.args[0] in present | {"filenames"}), [])]
            if m in GET:
                return [(st, some(mk("call", "mutagenyx::got", (S(m), k))) if k.args[0] in present else NONE, [])]
        return None
    return hook


def per_key(cx, keys):
    u = [x for x in rel.units(cx, [], ["config_file::ConfigurationFileDetails::new_from_file"])]
    jobs = []
    for k in sorted(keys):
        rel.HOOKS["key:" + k] = one_key(k)
        jobs += [("%s[%s]" % (lab, k), a, b, ("hook", "key:" + k)) for lab, a, b in u]
    rel.conform(cx, jobs, name="keys_compared")


def check(cx):
    prog = cx.prog
    w = next((f for n, f in sorted(prog.fns.items()) if n.endswith("config_file::ConfigurationFileDetails::convert_to_json")), None)
    r = next((f for n, f in sorted(prog.fns.items()) if n.endswith("config_file::ConfigurationFileDetails::new_from_file")), None)
    if w is None or r is None:
        cx.notes.append("the functions that save and load configurations were not found")
        return
    cx.analysed(w, r)
    try:
        a, res = saved(cx, w)
        b, asked, defaults = loaded(cx, r, a)
    except Limit:
        cx.notes.append("too many states for the key rule")
        return
    cx.count("keys_saved", len(a))
    omitted(cx, w, res, {k: a[k] or b.get(k, ()) for k in a}, defaults)
    for k in sorted(a):
        if not a[k]:
            cx.notes.append("the value saved under %r is not tied to one setting" % k)
            continue
        if k not in asked:
            cx.report("unread:" + k, "settings saved under %r are not read from that key" % k, r.loc)
        elif b.get(k) and not (a[k] & b[k]):
            cx.report("crossed:" + k, "the key %r holds the setting %s when saved and is loaded into %s" % (k, "/".join(sorted(a[k])), "/".join(sorted(b[k]))), r.loc)
        elif b.get(k):
            cx.count("keys_agree")
    for k in sorted(asked - set(a)):
        cx.report("unsaved:" + k, "the key %r is read from configuration files but never saved" % k, w.loc)
