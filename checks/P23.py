"""P23: Now() under every schedule and every clock history."""
from conc_common import *


def program(r, exact):
    threads = []
    for _ in range(r.choice([1, 2, 2, 3])):
        t = []
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < .65:
                t.append(["now"])
            elif exact:
                t.append(["clock", r.choice([0, 0, 1, 2, 3, 5, 10, 1000, -1, -3, -1000])])
            elif x < .8:
                t.append(["sleep", r.choice([-5, 0, 3, 10, 50, 500])])
            else:
                t.append(["rest", r.choice([1, 5, 30])])
        threads.append(t)
    if exact and r.random() < .7:
        threads.append([["clock", r.choice([0, 1, 2, 7, 100, -7, -100])] for _ in range(r.randrange(1, 5))])
    return {"threads": threads, "exact": int(exact)}


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "time", ["time.cc"])
        c.model_check("Clock", "time/ClockMC.tla", "SPECIFICATION Spec\nCONSTANTS TS={1,2%s}\nMaxT=2\nMaxN=%d\n" % (("", 3) if c.quick else (",3", 3)) +
                      "INVARIANTS Later Distinct NotYetReturned NeverRepeats\nPROPERTIES Returns\nCHECK_DEADLOCK FALSE\n")
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns = (500, 150) if c.quick else (2000, 500)
    jobs = []
    for i in range(np):
        exact = i % 4 != 3
        jobs.append({"prog": program(r, exact), "seed0": 1 + c.seed * 1000000 + i * 1000, "n": ns, "opt": {"tick_ns": 0 if exact else 1500}})
    traces = c.explore(exe, jobs, "clock")
    for t in traces:
        open_ = {}
        for e in t["ev"]:
            e["g"] = 0
            if e["k"] == "c":
                open_[e["i"]] = e
            elif e["k"] == "r":
                open_[e["i"]]["g"] = e["f"]
    traces = cap_traces(c, traces, 12000 if c.quick else 60000)
    for i, at, out in c.validate("clock", "time/ClockTrace.tla",
                                 [{"ev": t["ev"], "exact": t["prog"]["exact"], "slack": len(t["ev"])} for t in traces]):
        c.violation("clock: not a behaviour of the specification: %s" % show(traces[i], at), traces[i])
    for t in traces[:3]:
        c.sample({"prog": t["prog"], "ev": t["ev"][:10]})
    c.finish()


main("P23", body)
