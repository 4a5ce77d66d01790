"""P15: WaitableAtomic under every schedule."""
from conc_common import *


def program(r):
    intr = r.random() < .4
    nt = r.choice([2, 2, 3, 3])
    threads = [[] for _ in range(nt)]
    monotone = r.random() < .6
    incs = 0
    for t in threads:
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .35:
                t.append([r.choice(["inc", "inc2", "inc3"])])
                incs += 1
            elif x < .5:
                t.append([r.choice(["get", "get2", "get3"])])
            elif x < .6:
                t.append(["pot", r.randrange(3)])
            elif x < .7 and not monotone:
                t.append(["set", 0, r.randrange(4)])
            elif x < .8 and not monotone:
                t.append(["setif", r.randrange(3), r.randrange(4)])
            elif x < .9:
                t.append(["waitfor", r.choice([1, 10, 100000]), r.randrange(1, 4)])
            elif intr:
                t.append(["ok"])
    if monotone or intr:
        # Waits for values which are reached whatever the schedule: a thread's own later increments do not count.
        for k, t in enumerate(threads):
            if r.random() < .6:
                pos = r.randrange(len(t) + 1)
                mine = sum(1 for o in t[pos:] if o[0].startswith("inc"))
                limit = incs - mine if monotone and not any(o[0] == "wait" for q in threads for o in q) else 0
                if intr:
                    t.insert(pos, ["wait", 0, r.choice([1, 2, 50])])   # the destruction ends it
                elif limit > 0:
                    t.insert(pos, ["wait", 0, r.randrange(1, limit + 1)])
    clients = []
    if intr:
        clients = list(range(nt))
        for k, t in enumerate(threads):
            t.append(["leave", 0, k])
    return {"intrusive": int(intr), "clients": clients, "threads": threads, "destroy": int(intr)}


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "waitable", ["waitable.cc"])
        c.model_check("Waitable", "waitable/WaitableMC.tla", "SPECIFICATION Spec\nCONSTANTS TS={1,2}\nMaxV=%d\n" % (2 if c.quick else 3) +
                      "INVARIANTS DeadIsQuiet ClientsKeepAlive Bound\nPROPERTIES WokenUp Ends\nCHECK_DEADLOCK FALSE\n")
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns = (500, 150) if c.quick else (2000, 500)
    jobs = [{"prog": program(r), "seed0": 1 + c.seed * 1000000 + i * 1000, "n": ns} for i in range(np)]
    traces = c.explore(exe, jobs, "waitable atomic")
    check_traces(c, "waitable atomic", "waitable/WaitableTrace.tla", traces, 12000 if c.quick else 60000)
    c.finish()


main("P15", body)
