import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *


def cap_traces(c, traces, n):
    """At most n traces for TLC, keeping at least a few of every program."""
    if len(traces) <= n:
        return traces
    r = random.Random(c.seed)
    by = {}
    for t in traces:
        by.setdefault(t["id"], []).append(t)
    for v in by.values():
        r.shuffle(v)
    out = []
    k = 0
    while len(out) < n:
        more = False
        for v in by.values():
            if k < len(v) and len(out) < n:
                out.append(v[k])
                more = True
        k += 1
        if not more:
            break
    return out


def show(t, at):
    lo = max(0, at - 6)
    return "program %s seed %s, event %d of %s" % (json.dumps(t["prog"])[:500], t.get("seed"), at - lo + 1, json.dumps(t["ev"][lo:at + 2])[:1200])


def check_traces(c, part, module, traces, cap, key=None, **kw):
    """Validates; rejected ones are violations. TLC stops at the first event it cannot explain."""
    traces = cap_traces(c, traces, cap)
    for i, at, out in c.validate(part, module, [{"ev": t["ev"], "prog": t["prog"]} for t in traces], **kw):
        c.violation("%s: not a behaviour of the specification: %s" % (part, show(traces[i], at)), traces[i], key=key(traces[i], out) if key else None)
    for t in traces[:2]:
        c.sample({"prog": t["prog"], "seed": t["seed"], "ev": t["ev"][:12]})
    return traces
