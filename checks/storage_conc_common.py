from storage_common import *
from conc_common import check_traces

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Ids={0,1}\nMaxOps=%d\nMaster=%s\nKinds={%s}\n"
      "INVARIANTS OneAtATime ShowsAPrefix MasterHasAll FollowerDoesNotWrite UndoExact JournalOrdered\nPROPERTIES JournalGrows Completes CatchesUp\n")


def cbody(r, use, rw, n):
    b = []
    for _ in range(n):
        x = r.random()
        if x < (.35 if rw else .7):
            b.append([r.choice(["view", "view", "viewp"])])
        elif x < (.45 if rw else 1):
            b.append(["point"])
        else:
            c = r.choice(use)
            op = r.choice(["add", "add", "add", "erase", "readd"] + (["eraserow", "erasecol"] if c[0] == "O" else []))
            b.append([op, c, r.randrange(0, 3), 0 if c in DICTS else r.randrange(0, 3), r.randrange(0, 50)])
    return b


def ctx(r, use, rw_share=.65, aborts=.25):
    rw = r.random() < rw_share
    kind = r.choice(["v", "void", "two"] if rw else ["rov", "rovoid", "rotwo"])
    how = "ret" if r.random() > aborts else r.choice(["throw", "rb"] + ([] if kind in ("void", "rovoid") else ["rbv"]))
    return {"tx": kind, "body": cbody(r, use, rw, r.randrange(0, 4)), "end": how, "f2": r.choice(["ret", "ret", "ret", "throw"])}


def initial(r, use, n):
    init = []
    for _ in range(n):
        b = [["add", c, r.randrange(0, 3), 0 if c in DICTS else r.randrange(0, 3), r.randrange(50, 99)] for c in [r.choice(use) for _ in range(r.randrange(1, 4))]]
        if r.random() < .4:
            c = r.choice(use)
            b.append(["erase", c, r.randrange(0, 3), 0 if c in DICTS else r.randrange(0, 3), 0])
        init.append(b)
    return init


def master_program(r):
    use = r.choice([["Du"], ["Ouu"], ["Du", "Ouu"]])
    threads = []
    for _ in range(r.choice([2, 2, 3])):
        t = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .08:
                t.append({"rest": r.choice([1, 20])})
            elif x < .2:
                t.append({"lock": [ctx(r, use) for _ in range(r.choice([1, 2]))]})
            elif x < .28:
                t.append({"applied": 1})
            else:
                t.append(ctx(r, use))
        threads.append(t)
    if r.random() < .25:
        t = r.choice(threads)
        t.insert(r.randrange(len(t) + 1), {"shutdown": 1})
    return {"mode": "master", "file": int(r.random() < .15), "use": use, "init": initial(r, use, r.choice([0, 0, 1, 2])), "threads": threads}


def follower_program(r):
    use = r.choice([["Du"], ["Ouu"], ["Du", "Ouu"]])
    n = r.choice([1, 2, 3, 4])
    flip = r.random() < .6
    feeder = [{"feed": 1} for _ in range(r.randrange(0, n + 1))]
    threads = [feeder] if feeder else []
    for _ in range(r.choice([1, 2])):
        t = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .1:
                t.append({"rest": r.choice([1, 20, 60])})
            elif x < .25:
                t.append({r.choice(["applied", "is"]): 1})
            elif x < .35:
                t.append({"lock": [ctx(r, use, .3) for _ in range(r.choice([1, 2]))]})
            else:
                t.append(ctx(r, use, .35))
        threads.append(t)
    if flip:
        t = r.choice(threads) if r.random() < .5 else []
        if not t:
            threads.append(t)
        t.insert(r.randrange(len(t) + 1), {"flip": 1})
        for _ in range(r.randrange(0, 3)):
            t.append(ctx(r, use, .7))
    return {"mode": "follower", "file": int(r.random() < .15), "use": use, "init": initial(r, use, n), "pre": r.choice([0, 0, 1, 2]), "borrow": int(flip or r.random() < .3), "threads": threads}


def prep(traces):
    out = []
    for t in traces:
        ev = t["ev"]
        out.append(dict(t, start=ev[0], journal=ev[-1]["log"] if ev[-1]["k"] == "journal" else [], ev=[{"k": "journal"} if e["k"] == "journal" else e for e in ev[1:]]))
    return out


def run(c, what, exe, progs, n, cap, seed0=1):
    jobs = [{"prog": p, "seed0": seed0 + i * n, "n": n, "opt": {"tick_ns": 0}} for i, p in enumerate(progs)]
    tr = prep(c.explore(exe, jobs, what, timeout=200, args=(c.work,)))
    from conc_common import cap_traces, show
    tr = cap_traces(c, tr, cap)
    for i, at, out in c.validate(what, "storage/StorageConcTrace.tla", [{"ev": t["ev"], "start": t["start"], "journal": t["journal"]} for t in tr], timeout=1500):
        c.violation("%s: not a behaviour of the specification: %s" % (what, show(tr[i], at)), tr[i])
    for t in tr[:2]:
        c.sample({"prog": t["prog"], "seed": t["seed"], "ev": t["ev"][:8]})
    return tr
