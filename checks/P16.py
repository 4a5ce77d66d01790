"""P16: Owned / Borrowed handles under every schedule."""
from conc_common import *


PLAIN = ("give", "copy", "move")


def program(r):
    nt = r.choice([1, 2, 2, 3])
    own, threads = [], []
    order = list(range(nt))
    for t in order:
        own.append([r.choice(["give", "givecb"]), t])
    cbs = [own[t][0] == "givecb" for t in order]
    r.shuffle(order)
    if r.random() < .3:
        own.insert(r.randrange(len(own) + 1) if False else len(own), ["moveowner"])
    for t in order:
        own.append(["start", t])
        if r.random() < .2:
            own.append([r.choice(["use", "count"])])
    own.append(["destroy"])
    for t in range(nt):
        live, ops, nulls = {0: "givecb" if cbs[t] else "give"}, [], set()
        first = True
        for _ in range(r.randrange(0, 5)):
            if not live:
                break
            h = r.choice(list(live))
            free = [x for x in range(4) if x not in live and x not in nulls]
            x = r.random()
            if x < .2:
                ops.append(["use", h])
            elif x < .27:
                ops.append(["valid", h])
            elif x < .32:
                ops.append(["excl", h])
            elif x < .4:
                ops.append(["count", h])
            elif x < .6 and free:
                g = r.choice(free)
                k = r.choice(["copy", "copycb"])
                ops.append([k, h, g])
                live[g] = k
            elif x < .75 and free:
                g = r.choice(free)
                k = r.choice(["move", "movecb"])
                ops.append([k, h, g])
                del live[h]
                live[g] = k
            elif x < .85 and len(live) > 1:
                if live[h] in PLAIN and r.random() < .4:
                    ops.append(["null", h])
                    nulls.add(h)
                else:
                    ops.append(["drop", h])
                del live[h]
            elif live[h] in PLAIN:
                to = [g for g in live if g != h and live[g] in PLAIN] + list(nulls)
                if to:
                    g = r.choice(to)
                    ops.append(["assign", h, g])
                    nulls.discard(g)
                    del live[h]
                    live[g] = "move"
        if 0 in live and live[0] == "givecb" and not any(o[0] == "drop" and o[1] == 0 for o in ops) \
                and not any(o[0].startswith("move") and o[1] == 0 for o in ops) and r.random() < .5:
            ops.append(["await", 0])
        left = list(live)
        r.shuffle(left)
        for h in left:
            if r.random() < .3:
                ops.append(["use", h])
            ops.append([r.choice(["drop", "null"]), h])
        threads.append(ops)
    return {"own": own, "threads": threads}


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "owned", ["owned.cc"])
        inv = "INVARIANTS UseIsSafe RegisteredImpliesAlive CallbacksOfRegistered EachCallbackOnce\nCHECK_DEADLOCK FALSE\n"
        c.model_check("Owned (safety)", "owned/OwnedMC.tla", "SPECIFICATION Spec\nCONSTANTS HS={\"a\",\"b\"%s}\nMaxOps=%d\n" % (("", 3) if c.quick else (",\"c\"", 2)) + inv)
        c.model_check("Owned (termination)", "owned/OwnedMC.tla", "SPECIFICATION LiveSpec\nCONSTANTS HS={\"a\",\"b\"}\nMaxOps=2\nPROPERTY DestructionEnds\n" + inv)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns = (400, 200) if c.quick else (1500, 600)
    jobs = [{"prog": program(r), "seed0": 1 + c.seed * 1000000 + i * 1000, "n": ns} for i in range(np)]
    traces = c.explore(exe, jobs, "handles")
    used = check_traces(c, "handles", "owned/OwnedTrace.tla", traces, 9000 if c.quick else 40000)
    for i in sorted(c.tags.get("late", ()))[:3]:
        c.violation("a destruction callback is called after its handle was released: %s" % show(used[i], len(used[i]["ev"])), used[i],
                    key="callback-after-release")
    c.finish()


main("P16", body)
