"""P21: a RipCurrent flow hands over every message once, in order, and then stops."""
from conc_common import *
import concurrent.futures
import re


# --- what is connected with what, from the flows of the driver ---
class B(object):
    def __init__(self, kind, n=None, a=None, b=None):
        self.kind, self.n, self.a, self.b = kind, n, a, b

    def __or__(self, x):
        return B("|", a=self, b=x)

    def __add__(self, x):
        return B("+", a=self, b=x)

    def blocks(self):
        return [self] if self.n else self.a.blocks() + self.b.blocks()

    def entries(self):
        return [self] if self.n else self.a.entries() if self.kind == "|" else self.a.entries() + self.b.entries()

    def exits(self):
        return [self] if self.n else self.b.exits() if self.kind == "|" else self.a.exits() + self.b.exits()

    def edges(self):
        if self.n:
            return []
        e = self.a.edges() + self.b.edges()
        if self.kind == "|":
            e.append(([x.n for x in self.a.exits() if x.kind[0] != "D"], {t: x.n for x in self.b.entries() for t in ("AB" if len(x.kind) == 1 else x.kind[1]) if x.kind != "S"}))
        return e


def flows():
    out, ns = {}, {k: (lambda k: lambda n: B(k, n))(k) for k in ("S", "P", "PA", "PB", "D", "DA", "DB")}
    for m in re.finditer(r'^FLOW\("(\w+)", (.*)\),$', open(os.path.join(VERIF, "harness/rip_flows.h")).read(), re.M):
        f = eval(m.group(2), ns)
        n, edges = len(f.blocks()), f.edges()
        assert sorted(x.n for x in f.blocks()) == list(range(1, n + 1)), m.group(0)
        into, o = [0] * n, [0] * n
        for i, (a, b) in enumerate(edges):
            for x in a:
                o[x - 1] = i + 1
            for x in b.values():
                into[x - 1] = i + 1
        out[m.group(1)] = {"route": [b for _, b in edges], "into": into, "out": o}
    return out


def op(r, types, mix):
    k = r.choice(mix)
    if k == "emit":
        return ["emit", r.choice(types)]
    if k == "post":
        return ["post", r.choice(types), r.choice([0, 0, 0, 1, 2, 5, -3])]
    if k == "sched":
        return ["sched", r.choice(types), r.choice([-2, 0, 2, 4, 8, 30])]
    return ["head", r.choice([0, 0, 1, 3, 10, -4])]


MIXES = [["emit"], ["emit"], ["post"], ["emit", "post"], ["emit", "sched"], ["post", "sched", "head"], ["emit", "post", "sched", "sched", "head"]]


def program(r, name, f, size):
    n = len(f["into"])
    mix = r.choice(MIXES)
    sources = [b for b in range(1, n + 1) if not f["into"][b - 1]]
    vias = [b for b in range(1, n + 1) if f["into"][b - 1] and f["out"][b - 1]]
    types = r.choice(["A", "B", "AB", "AB"])
    p = {"top": name, "threads": [], "ctor": {}, "f": {}, "dtor": {}, "async": r.randrange(2)}
    for _ in range(r.choice([1, 2, 2, 3])):
        b = r.choice(sources)
        p["threads"].append([[b] + op(r, types, mix) for _ in range(r.randrange(1, size + 1))])
    if r.random() < .3:
        b = r.choice(sources + vias)
        p["ctor"][str(b)] = [op(r, types, mix) for _ in range(r.randrange(1, 3))]
    fill = r.choice([0, 1, 1, 2])
    for b in vias:
        y = r.choice(["A", "B", "AB", "AB"])
        p["f"][str(b)] = [[op(r, y, mix) for _ in range(r.choice([0, 1, 1, fill]))] for _ in range(r.randrange(1, 4))]
    if r.random() < .3:
        p["dtor"] = {str(b): [op(r, types, mix)] for b in r.sample(sources + vias, 1)}
    # at the end everything which has been scheduled is due
    late = any(o[0] == "sched" for o in [o[1:] for t in p["threads"] for o in t] + sum(p["ctor"].values(), []) + sum(p["dtor"].values(), []) + [o for s in p["f"].values() for k in s for o in k])
    if late:
        for b in sources + vias:
            p["dtor"].setdefault(str(b), []).append(["head", 1000])
    return p


def body(c):
    r = random.Random(c.seed)
    fl = flows()
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "rip", ["rip.cc"])
        fq = ex.submit(c.build, "ripq", ["rip.cc", "csched.cc"], ["-O1"])
        mc = "SPECIFICATION MCSpec\nINVARIANT MCInv\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Which=\"%s\"\nMaxOps=%d\nPerF=%d\nKinds={%s}\nAhead={%s}\n"
        live, every = "PROPERTY Ends_\n", '"emit","post","sched","head"'
        for w in ("pipe", "both", "split", "lanes"):
            c.model_check("RipCurrent, %s, emitting and scheduling" % w, "rip/RipMC.tla", mc % (live, w, 2, 1, '"emit","sched"', "3" if w in ("split", "lanes") else "1,3"), timeout=3000)
            c.model_check("RipCurrent, %s" % w, "rip/RipMC.tla", mc % (live, w, 2 if w == "both" else 1, 1, every, "0,1,3"), timeout=3000)
            if not c.quick:
                c.model_check("RipCurrent, %s, more" % w, "rip/RipMC.tla", mc % ("", w, 2, 1, every, "0,3"), timeout=3000)
                c.model_check("RipCurrent, %s, emitting only" % w, "rip/RipMC.tla", mc % ("", w, 3, 1, '"emit"', "0"), timeout=3000)
        exe, exq = fe.result(), fq.result()
    opt = lambda: {"max_steps": 5000000, "tick_ns": 0, "early": 0, "spurious": int(r.random() < .5)}
    names = sorted(fl)
    jobs = [{"prog": program(r, nm, fl[nm], 5), "seed0": r.randrange(1 << 20), "n": 4, "opt": opt()} for _ in range(60 if c.quick else 600) for nm in names]
    out = c.explore(exq, jobs, "switching at synchronization")
    jobs = [{"prog": program(r, nm, fl[nm], 3), "seed0": r.randrange(1 << 20), "n": 6 if c.quick else 30, "opt": opt()} for _ in range(60 if c.quick else 600) for nm in names]
    out += c.explore(exe, jobs, "switching anywhere")
    # a message which is scheduled for a time the head never gets to
    if c.known:
        p = {"top": "1", "threads": [[[1, "emit", "A"], [1, "sched", "A", 1000000]]], "ctor": {}, "f": {}, "dtor": {}, "async": 0}
        out += c.explore(exq, [{"prog": p, "seed0": 1, "n": 1, "opt": opt()}], "scheduled for never", key=lambda s: "scheduled-beyond-the-head" if s["stuck"] == "deadlock" else None)
    items, seen = [], set()
    for t in out:
        p = {"flow": fl[t["prog"]["top"]], "us": sorted({e["us"] for e in t["ev"] if e["k"] == "call" and e["o"] != "emit"}), "ev": t["ev"]}
        s = json.dumps(p)
        if s not in seen:
            seen.add(s)
            items.append((p, t))
    c.log("%d distinct runs" % len(items))
    for i, at, _ in c.validate("runs", "rip/RipTrace.tla", [x[0] for x in items], "", timeout=2400):
        p, t = items[i]
        c.violation("the flow does not hand over its messages as specified: event %d, %s" % (at, json.dumps(p["ev"][at - 1] if 0 < at <= len(p["ev"]) else None)[:400]), t)
    c.sample({"ev": items[0][0]["ev"][:20]})
    c.finish()


main("P21", body)
