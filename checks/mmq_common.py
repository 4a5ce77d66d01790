from conc_common import *


def attach(traces):
    """Attaches to each call the timestamp it turns out to get."""
    out = []
    for t in traces:
        ev = [dict(e) for e in t["ev"]]
        open_ = {}
        for e in ev:
            if e["k"] == "c":
                open_[e["i"]] = e
                e["g"] = e["ts"] if e["ts"] >= 0 else -2
            elif e["k"] == "r":
                c = open_.pop(e["i"])
                if e["f"] == 1 and c["o"] == "pub":
                    c["g"] = e["us"]
        out.append({"ev": ev, "prog": t["prog"]})
    return out


def run(c, part, module, exe, programs, ns, cap, tick):
    jobs = [{"prog": p, "seed0": 1 + c.seed * 1000000 + i * 1000, "n": ns, "opt": {"tick_ns": tick}} for i, p in enumerate(programs)]
    traces = cap_traces(c, c.explore(exe, jobs, part), cap)
    for i, at, out in c.validate(part, module, attach(traces)):
        c.violation("%s: not a behaviour of the specification: %s" % (part, show(traces[i], at)), traces[i])
    for t in traces[:3]:
        c.sample({"prog": t["prog"], "ev": t["ev"][:10]})
