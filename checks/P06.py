"""P06: who may publish into a stream changes hands without anything being lost, and only if it is allowed to."""
from persistence_common import *
import concurrent.futures

NONE = {"idx": 0, "size": 0, "head": 0, "clock": 0}
BASE = "CHECK_DEADLOCK FALSE\nCONSTANTS N=%d\nThreads={%s}\nLossy=%s\nMaxPub=%d\nMaxOps=%d\nSlip={0}\n"


def base_prog(r, n):
    return {"p": r.choice(["mem", "file"]), "rm": r.choice(["checked", "unchecked"]), "sub": r.randrange(2), "n": n, "cut": r.choice([0, 0, 1, 2, 3]), "plan": [],
            "main": [], "threads": [], "after": [], "end": r.sample(range(1, n + 1), n)}


def restrictions(r):
    e = dict(NONE)
    for k, v in (("idx", [1, 1, 2, 3]), ("size", [40, 44, 45, 46, 80, 90, 200]), ("head", [1, 2, 3, 6, 7]), ("clock", [300000])):
        if r.random() < .3:
            e[k] = r.choice(v)
    return e


def setup(r, p, order, strict):
    """order: node -> whom it follows, 0: nobody."""
    n = p["n"]
    p["main"] += [["expose", i, restrictions(r) if r.random() < strict else dict(NONE)] for i in range(1, n + 1)]
    p["main"] += [["follow", i, order[i]] for i in range(1, n + 1) if order[i]]


def sequential(r, n, script):
    p = base_prog(r, n)
    setup(r, p, {i: i - 1 for i in range(1, n + 1)}, r.choice([0, 0, .5]))
    clk, times, main = 0, {-1: -1}, p["main"]
    lazy = r.random() < .5
    for x in script:
        op = x[0]
        if op in ("pub", "head"):
            clk += 3
            if x[3] == "master":
                times[x[2]] = clk
            main.append(["pub", x[1], r.choice(["a", "bbbb", "", "long" * 10])] if op == "pub" else ["head", x[1]])
        elif op == "ask":
            size, hd = x[2], times[x[3]]
            if r.random() < .3:
                hd += r.choice([-3, -1, 1, 3, 100])
            if r.random() < .15:
                size = max(0, size + r.choice([-1, 1]))
            main.append(["ask", x[1], size, hd, x[1] if r.random() < .85 else 0, r.choice([None, 0, 0, 100000, -150000, 600000, -600000])])
        elif op == "expose":
            main.append(["expose", x[1], restrictions(r) if r.random() < .5 else x[2]])
        else:
            main.append(list(x))
        if not lazy or r.random() < .3:
            main.append(["quiet"])
        if r.random() < .2:
            main.append(["sleep", r.choice([400000, 1000500, 1700000, 2500000])])
    return p


def concurrent_prog(r):
    n = r.choice([2, 2, 3])
    p = base_prog(r, n)
    star = n == 3 and r.random() < .5
    p["lossy"] = (n == 2 or star) and r.random() < .35
    order = {1: 0, 2: 1, 3: 1 if star else 2}
    setup(r, p, order, 0 if p["lossy"] else r.choice([0, 0, .6]))
    if p["lossy"]:
        for _ in range(r.choice([1, 2, 4])):
            p["plan"].append([r.choice(range(1, n + 1)), r.randrange(1, 9), r.choice([-1, -1, r.randrange(150)]), r.choice([r.randrange(40), r.randrange(400), r.randrange(250, 900), 2000]), r.randrange(2)])

    def publish(k, nodes):
        return [(["pub", r.choice(nodes), r.choice(["a", "bbbb", "", "long" * 10])] if r.random() < .75 else ["head", r.choice(nodes)]) for _ in range(k)]
    p["main"] += publish(r.choice([0, 0, 2, 4]), [1])
    if r.random() < .5:
        p["main"].append(["quiet"])
    who = list(range(1, n + 1))
    p["threads"].append(publish(r.randrange(1, 6), r.choice([[1], who, who])))
    kind = r.random()
    if kind < .35 or n == 2 and kind < .7:
        # one who takes over, and publishes
        m = r.choice(range(2, n + 1))
        p["threads"].append([["flip", m, 1 if r.random() < .9 else 0]] + publish(r.randrange(0, 4), [m]))
        if n == 2 and r.random() < .5:
            p["after"] += [["follow", 1, 2], ["quiet"]] + publish(2, [1, 2]) + [["flip", 1, 2], ["quiet"]] + publish(1, [1, 2])
    elif kind < .7:
        # two who want to
        p["threads"] += [[["flip", 2, 1]] + publish(r.randrange(0, 3), [2]), [["flip", 3, 1]] + publish(r.randrange(0, 3), [3])] if n == 3 else [[["flip", 2, 1]], publish(2, [1, 2])]
    else:
        # a subscription through the old master; the one who takes over is asked at once
        p["threads"].append([["flip", 2, 1]] + publish(r.randrange(0, 2), [2]) + [["sleep", 30000], ["follow", 1, 2]][:r.choice([0, 1, 2])])
    return p


def probes(r):
    """Asks from somebody else, at the limits of what is allowed."""
    p = base_prog(r, 2)
    clk, log, heads = 0, [], []
    ops = []
    for _ in range(r.randrange(0, 13)):
        clk += 3
        t = r.choice(["a", "bbbb", "", "long" * 10])
        if r.random() < .75:
            ops.append(["pub", 1, t])
            log.append((clk, len('{"index":%d,"us":1600000000000000}\t{"s":"%s"}\n' % (len(log), t))))
        else:
            ops.append(["head", 1])
    size = r.choice([0, len(log), r.randrange(len(log) + 1), r.randrange(len(log) + 1)])
    hd = -1 if size == 0 else log[size - 1][0]
    e = dict(NONE)
    lim = {"idx": len(log) - size, "size": sum(x[1] for x in log[size:]), "head": clk - hd, "clock": 300000}
    for k in r.sample(sorted(lim), r.choice([1, 1, 2])):
        e[k] = max(0, lim[k] + r.choice([-1, 0, 0, 1]))
    asks = []
    for _ in range(r.choice([1, 2, 3, 4])):
        n, h = size, hd
        if r.random() < .3:
            n = max(0, n + r.choice([-1, 1, 100]))
        if r.random() < .3:
            h += r.choice([-3, -2, -1, 1, 2, 3])
        asks.append(["ask", 1, n, h, 1 if r.random() < .75 else 0, r.choice([None, 0, 0, 0, 100000, -100000, 600000, -600000])])
        if r.random() < .4:
            asks.append(["sleep", r.choice([500000, 999000, 1000500, 2000500, 1999000, 4000500])])
    asks.append(["ask", 1, size, hd, 1, 0])
    if r.random() < .3:
        asks += [["unexpose", 1], ["ask", 1, size, hd, 1, 0], ["expose", 1, e], ["ask", 1, size, hd, 1, 0]]
    p["main"] = [["expose", 1, e]] + ops + asks + [["pub", 1, "x"]]
    return p


def project(t):
    ev = [e for e in t["ev"] if e["k"] in ("call", "ret", "quiet")]
    return {"ev": ev}


def body(c):
    r = random.Random(c.seed)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "flip", ["flip.cc"], [], ["vnet.cc"])
        fq = ex.submit(c.build, "flipq", ["flip.cc", "csched.cc", "vnet.cc"], ["-O1"])
        mc = "SPECIFICATION MCSpec\nINVARIANT MCInv SomeMaster\nPROPERTY Refused\n"
        for n, lossy, ops in ((2, "FALSE", 5), (2, "TRUE", 5), (3, "FALSE", 4)) if c.quick else ((2, "FALSE", 7), (2, "TRUE", 6), (3, "FALSE", 5), (3, "TRUE", 5)):
            c.model_check("Flip, %d streams%s" % (n, ", lossy" if lossy == "TRUE" else ""), "flip/FlipMC.tla", mc + BASE % (n, "1,2", lossy, 2, ops), timeout=3000)
        gen = "SPECIFICATION GenSpec\nVIEW GenView\nACTION_CONSTRAINT GenAll\n"
        scripts = {n: sorted(c.generate("histories, %d streams" % n, "flip/FlipMC.tla", gen + BASE % (n, "1", "FALSE", 3, k), timeout=600), key=json.dumps)
                   for n, k in ((2, 5), (3, 4))}
        exe, exq = fe.result(), fq.result()
    opt = lambda: {"max_steps": 20000000, "tick_ns": 0, "early": 0, "spurious": int(r.random() < .5)}
    jobs = []
    for n in scripts:
        c.log("%d histories of %d streams" % (len(scripts[n]), n))
        # the longest first: the others are parts of them
        s = [x for x in scripts[n] if len(x) > 2]
        r.shuffle(s)
        jobs += [{"prog": sequential(r, n, x), "seed0": r.randrange(1 << 20), "n": 1, "opt": opt()} for x in s[:1500 if c.quick else 20000]]
    jobs += [{"prog": probes(r), "seed0": r.randrange(1 << 20), "n": 1, "opt": opt()} for _ in range(1000 if c.quick else 6000)]
    seq = c.explore(exq, jobs, "sequential")
    jobs = [{"prog": concurrent_prog(r), "seed0": r.randrange(1 << 20), "n": 4 if c.quick else 15, "opt": opt()} for _ in range(1000 if c.quick else 6000)]
    con = c.explore(exe, jobs, "concurrent")
    groups, seen = {}, set()
    for t in seq + con:
        for e in t["ev"]:
            if e["k"] == "leak":
                c.violation("%d connections are left open" % e["n"], t)
        k, p = (t["prog"]["n"], bool(t["prog"].get("lossy"))), project(t)
        s = json.dumps([k, p])
        if s not in seen:
            seen.add(s)
            groups.setdefault(k, []).append((p, t))
    for (n, lossy), g in sorted(groups.items(), key=lambda x: x[0]):
        for i, at, out in c.validate("%d streams%s" % (n, ", lossy" if lossy else ""), "flip/FlipTrace.tla", [x[0] for x in g],
                                     "CONSTANTS N=%d\nThreads={0,1,2,3}\nLossy=%s\nSlip={0,100000}\n" % (n, "TRUE" if lossy else "FALSE"), timeout=2400):
            p, t = g[i]
            c.violation("the streams do not hand over as specified: event %d, %s" % (at, json.dumps(p["ev"][at - 1] if 0 < at <= len(p["ev"]) else None)[:400]), dict(t, projection=p))
    c.sample({"ev": next(iter(groups.values()))[0][0]["ev"][:20]})
    c.finish()


main("P06", body)
