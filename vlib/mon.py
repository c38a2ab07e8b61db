"""Monitors: product of a simulation result (event automaton) with a deterministic observer."""
from collections import deque


class Bad(Exception):
    def __init__(self, key, msg, loc=""):
        Exception.__init__(self, msg)
        self.key, self.msg, self.loc = key, msg, loc


def product(res, init, step, at_end=None, limit=2000000):
    """breadth-first product; step(state, event) -> state (or raises Bad); at_end(state, kind, value, final).
    Returns ({key: Bad}, {key: trace}, explored)"""
    bad, traces = {}, {}
    start = (0, init)
    par = {start: None}
    q = deque([start])
    while q:
        cur = q.popleft()
        n, s = cur
        if n in res.finals and at_end:
            try:
                at_end(s, res.finals[n][0], res.finals[n][1], res.finals[n])
            except Bad as b:
                if b.key not in bad:
                    bad[b.key] = b
                    traces[b.key] = trace(par, cur)
        for evs, d in res.edges[n]:
            st = s
            dead = False
            for i, e in enumerate(evs):
                try:
                    st = step(st, e)
                except Bad as b:
                    if b.key not in bad:
                        bad[b.key] = b
                        traces[b.key] = trace(par, cur) + [ev_str(x) for x in evs[:i + 1]]
                    dead = True
                    break
                if st is None:
                    dead = True
                    break
            if dead:
                continue
            nx = (d, st)
            if nx not in par:
                if len(par) > limit:
                    raise RuntimeError("product too large")
                par[nx] = (cur, evs)
                q.append(nx)
    return bad, traces, len(par)


def ev_str(e):
    return " ".join(str(x)[:160] for x in e)


def trace(par, cur):
    out = []
    while par[cur] is not None:
        prev, evs = par[cur]
        for e in reversed(evs):
            out.append(ev_str(e))
        cur = prev
    return out[::-1]


def apply(cx, res, init, step, at_end=None, prefix=""):
    bad, traces, n = product(res, init, step, at_end)
    cx.count("automaton_states", n)
    for k, b in sorted(bad.items()):
        cx.report(prefix + k, b.msg, b.loc, traces[k])
    return n
