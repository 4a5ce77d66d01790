from conc_common import *


def attach(traces):
    """Attaches to each call the timestamp it turns out to get."""
    out = []
    for t in traces:
        ev = [dict(e) for e in t["ev"]]
        open_ = {}
        for e in ev:
            if e["k"] == "c":
                open_[e["i"]] = e
                e["g"] = e["ts"] if e["ts"] >= 0 else -2
            elif e["k"] == "r":
                c = open_.pop(e["i"])
                if e["f"] == 1 and c["o"] in ("pub", "hpub"):
                    c["g"] = e["us"]
        out.append({"ev": ev, "prog": t["prog"]})
    return out


def initial(r, p):
    n = r.choice([0, 0, 1, 2, 3])
    us, p["init"] = 0, []
    for i in range(n):
        us += r.randrange(1, 4)
        p["init"].append([r.randrange(1, 90), us])
    p["inithead"] = us + r.randrange(1, 4) if r.random() < .3 else 0
    return n, max(us, p["inithead"])


def program(r, filep):
    """Publishers, head updates and subscribers coming and going."""
    p = {"p": "file" if filep else "mem"}
    n0, us0 = initial(r, p)
    ns = r.choice([1, 1, 2, 2, 3])
    p["subs"] = []
    for k in range(ns):
        p["subs"].append({"begin": r.choice([0, 0, 0, n0, max(0, n0 - 1), n0 + 1, n0 + 2]),
                          "from": r.choice([0, 0, 0, 0, us0, us0 + 2, us0 + 4, max(us0 - 1, 1)]),
                          "mode": r.choice(["c", "c", "u", "u", "t"]), "after": r.choice([0, 0, 0, 1, 2, 4]),
                          "term": r.choice(["t", "t", "t", "w"])})
    np = r.choice([1, 1, 2])
    threads = []
    vs = list(range(100, 140))
    r.shuffle(vs)
    for _ in range(np):
        t, us = [], us0
        for _ in range(r.randrange(1, 5)):
            us += r.randrange(0, 4)
            x = r.random()
            if x < .45:
                t.append(["pub", vs.pop(), us if r.random() < .8 else -1])
            elif x < .6:
                t.append(["lpub", vs.pop(), us])
            elif x < .7:
                t.append(["raw", vs.pop(), us])
            elif x < .95:
                t.append(["head", us])
            else:
                t.append(["rest", r.choice([10, 60000])])
        threads.append(t)
    ready = set()
    for k in range(ns):
        t = [["sub", k]]
        x = r.random()
        if x < .3:
            t.append(["wait", k])
        if x < .5 and r.random() < .5:
            t.append(["alive", k])
        if x > .6:
            t.append(["unsub", k])
        if x > .8:
            t.append(["iter"])
        if r.random() < .3:
            i = r.randrange(len(threads))
            j = r.randrange(len(threads[i]) + 1)
            threads[i][j:j] = t
        else:
            threads.append(t)
    p["threads"] = threads
    p["end"] = "subs" if any(s["term"] == "w" for s in p["subs"]) or r.random() < .7 else "stream"
    return p


def burst_program(r, filep):
    """Many entries in a row, read as they are published."""
    p = {"p": "file" if filep else "mem"}
    n0, us = initial(r, p)
    ns = r.choice([1, 2])
    p["subs"] = [{"begin": r.choice([0, 0, n0, n0 + 3]), "from": 0, "mode": r.choice(["c", "u", "u", "t"]), "after": 0, "term": "t"} for _ in range(ns)]
    t, v = [], 100
    for _ in range(r.randrange(7, 11)):
        us += r.randrange(1, 4)
        v += 1
        t.append(["pub", v, us] if r.random() < .9 else ["head", us])
    p["threads"] = [t] + [[["sub", k]] + ([["iter"], ["iter"]] if r.random() < .5 else []) for k in range(ns)]
    p["end"] = "subs"
    return p


def flip_program(r, filep):
    """Publishers are borrowed, taken away and given back."""
    p = {"p": "file" if filep else "mem"}
    n0, us0 = initial(r, p)
    p["subs"] = [{"begin": 0, "from": 0, "mode": r.choice(["c", "u"]), "after": 0, "term": "t"}] if r.random() < .3 else []
    threads = []
    vs = list(range(100, 180))
    r.shuffle(vs)
    nt = r.choice([2, 2, 3])
    for i in range(nt):
        t, us, held = [], us0, False
        for _ in range(r.randrange(2, 6)):
            us += r.randrange(1, 4)
            x = r.random()
            if held:
                if x < .5:
                    t.append(["hpub", i, vs.pop(), us if r.random() < .7 else -1])
                elif x < .6:
                    t.append(["hhead", i, us])
                elif x < .7:
                    t.append(["valid", i])
                else:
                    t.append(["rel", i])
                    held = False
            else:
                if x < .35:
                    t.append(["borrow", i])
                    held = True
                elif x < .55:
                    t.append(["follow", i])
                    held = True
                elif x < .75:
                    t.append(["master"])
                elif x < .85:
                    t.append(["trypub"])
                else:
                    t.append(["is"])
        if held:
            t.append(["rel", i])
        threads.append(t)
    if p["subs"]:
        threads.append([["sub", 0]])
    p["threads"] = threads
    p["end"] = "subs"
    return p


def run(c, part, exe, programs, ns, cap, key=None):
    import tempfile
    d = tempfile.mkdtemp(prefix="streams.", dir=c.work)
    jobs = [{"prog": p, "seed0": 1 + c.seed * 1000000 + i * 1000, "n": ns, "opt": {"tick_ns": 0, "early": 0 if p["end"] == "stream" else 1}} for i, p in enumerate(programs)]
    traces = cap_traces(c, c.explore(exe, jobs, part, args=[d], key=key), cap)
    for i, at, out in c.validate(part, "stream/StreamTrace.tla", attach(traces)):
        c.violation("%s: not a behaviour of the specification: %s" % (part, show(traces[i], at)), traces[i])
    for t in traces[:3]:
        c.sample({"prog": t["prog"], "ev": t["ev"][:10]})


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RangeExact HeadTrue OnePublisher MasterIsIdle LogIsLog\nPROPERTIES NothingAfterDone DoneOnce AppendOnly OnlyOwner "
