"""P20: a stream served over HTTP returns exactly the requested range."""
from persistence_common import *
import concurrent.futures

K = 60  # the clock moves by 60 ms when everything waits for everything else
TEXTS = ["a", "bbbb", "cc", "dddddddd", "e"]


def path(q, r):
    """The parameters as a client writes them."""
    ps = []
    if q["i"] or r.random() < .1:
        ps.append("i=%d" % q["i"])
    if q["n"]:
        ps.append("n=%d" % q["n"])
    if q["tail"] >= 0:
        ps.append(r.choice(["tail", "tail=0"]) if q["tail"] == 0 else "tail=%d" % q["tail"])
    if q["since"]:
        ps.append("since=@%d" % q["since"])
    if q["recent"]:
        ps.append("recent=%d" % q["recent"])
    if q["period"]:
        ps.append("period=%d" % q["period"])
    if q["sab"]:
        ps.append("stop_after_bytes=%d" % q["sab"])
    for k, name in (("nowait", "nowait"), ("arr", "array"), ("size", "sizeonly"), ("chk", "checked")):
        if q[k]:
            ps.append(name)
    if q["eo"] and not q["arr"]:
        ps.append("entries_only")
    if q["bad"]:
        ps.append("json=" + r.choice(["xx", "", "JS"]))
    elif r.random() < .1:
        ps.append("json=" + r.choice(["js", "fs", "minimalistic"]))
    r.shuffle(ps)
    return "/s" + ("?" + "&".join(ps) if ps else "")


def concrete(q):
    q = dict(q)
    for k in ("since", "recent", "period"):
        q[k] *= 1000 * K
    return q


def rnd_query(r):
    z = lambda p, xs: r.choice(xs) if r.random() < p else 0
    q = {"m": "GET", "i": z(.3, [1, 2, 3, 5, 50]), "n": z(.3, [1, 2, 3, 10]), "tail": r.choice([0, 1, 2, 3, 4, 10]) if r.random() < .3 else -1,
         "since": z(.3, [1, 1000 * K, 1000 * K + 1, 2000 * K, 2500 * K, 3000 * K, 4500 * K, 9000 * K]), "recent": z(.12, [1, 500 * K, 1000 * K, 2500 * K, 99000 * K]),
         "period": z(.25, [1, 1000 * K - 1, 1000 * K, 1500 * K, 3000 * K]),
         "sab": z(.25, [1, 12, 20, 50, 51, 60, 100, 101, 120]), "nowait": r.random() < .4, "eo": r.random() < .3, "arr": r.random() < .4, "size": r.random() < .03,
         "bad": r.random() < .02, "chk": r.random() < .4}
    if r.random() < .04:
        q["m"] = r.choice(["HEAD", "POST", "PUT", "DELETE"])
    q["eo"] = q["eo"] or q["arr"]
    return q


def pub(us, n):
    return ["pub", us, TEXTS[n % 5] * (1 + n // 5)]


def get(c, q, r, qs):
    qs[c] = q
    return ["get", c, q["m"], path(q, r)]


def ending(r):
    return r.choice(["stream", "stream", "term", "cut"])


def sequential(r, script, queries):
    """A behaviour of the specification: every step waits for what follows from the previous one."""
    main, n, qs = [], 0, {}
    for op, u in script:
        if op == "pub":
            main.append(pub(u * 1000 * K, n))
            n += 1
        elif op == "head":
            main.append(["head", u * 1000 * K])
        else:
            main += [get(c, q, r, qs) for c, q in enumerate(queries)]
        if r.random() < .8:
            main.append(["quiet"])
    return {"p": r.choice(["mem", "file"]), "cut": r.choice([0, 1, 3]), "main": main, "threads": [], "end": ending(r)}, qs


def concurrent_prog(r):
    qs, n, us, c = {}, 0, 0, 0
    main, th = [], []

    def publish(k):
        nonlocal n, us
        ops = []
        for _ in range(k):
            us += r.choice([1, 500 * K, 1000 * K, 1000 * K])
            if r.random() < .7:
                ops.append(pub(us, n))
                n += 1
            else:
                ops.append(["head", us])
            if r.random() < .1:
                ops.append(["quiet"])
        return ops
    main += publish(r.choice([0, 0, 1, 3, 5]))
    if r.random() < .4:
        main.append(get(c, rnd_query(r), r, qs))
        c += 1
    if r.random() < .5:
        main.append(["quiet"])
    th.append(publish(r.randrange(1, 6)))
    for _ in range(r.choice([1, 2])):
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            ops.append(get(c, rnd_query(r), r, qs))
            c += 1
            if r.random() < .15:
                ops.append([r.choice(["term", "cut"]), c - 1] + [r.randrange(2)])
        th.append(ops)
    if c and r.random() < .3:
        k = r.randrange(c)
        th.append([["term", k]] if r.random() < .6 else [["cut", k, r.randrange(2)]])
    return {"p": r.choice(["mem", "file"]), "cut": r.choice([0, 1, 3]), "main": main, "threads": th, "end": ending(r)}, qs


def project(t, c, q):
    """What concerns one connection."""
    ev, t0, t1, asked, last, cut, dead = [], 0, 0, False, None, False, False
    for e in t["ev"]:
        k = e["k"]
        if k in ("pub", "head"):
            ev.append({"k": k, "us": e["us"], "j": e.get("j", "")})
        elif k == "did":
            ev.append({"k": k})
        elif k == "get" and e["c"] == c:
            asked, t0 = True, e["t"]
            ev.append({"k": "get", "q": q})
        elif k == "term" and e["c"] == c and e["known"]:
            ev.append({"k": "term"})
        elif k == "cut" and e["c"] == c:
            break
        elif k == "close":
            ev.append({"k": "kill"})
        elif k == "quiet":
            t1 = t1 or (e["t"] if asked else 0)
            s = [x for x in e["see"] if x["c"] == c]
            last = s[0] if s else last
            ev.append(dict({"k": "quiet"}, **(s[0] if s else {"code": 0, "end": 0, "lines": [], "size": -1})))
    if not asked:
        return None
    full = [x for e in t["ev"] if e["k"] == "quiet" for x in e["see"] if x["c"] == c]
    times = {t0, t1} | {x for e in t["ev"] if e["k"] in ("pub", "head") for x in (e["us"] + q["recent"], e["us"] + q["recent"] + 1) if t0 < x < t1}
    return {"ev": ev, "lines": full[-1]["lines"] if full else [], "now": sorted(times) if q["recent"] else [0]}


def body(c):
    r = random.Random(c.seed)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(c.build_sched, "pubsub", ["pubsub.cc"], [], ["vnet.cc"])
        fq = ex.submit(c.build, "pubsubq", ["pubsub.cc", "csched.cc", "vnet.cc"], ["-O1"])
        base = "CHECK_DEADLOCK FALSE\nCONSTANTS MaxPub=%d\nMaxHead=1\nRich=%s\n"
        c.model_check("Pubsub", "pubsub/PubsubMC.tla", "SPECIFICATION MCSpec\nINVARIANT MCInv\n" + base % (2, "FALSE" if c.quick else "TRUE"), timeout=2400)
        scripts = c.generate("histories", "pubsub/PubsubMC.tla", "SPECIFICATION GenSpec\nACTION_CONSTRAINT GenPrint\n" + base % (2 if c.quick else 3, "FALSE"), timeout=600)
        queries = c.generate("queries", "pubsub/PubsubMC.tla", "SPECIFICATION GenSpec\nINVARIANT GenQ2\n" + base % (0, "TRUE"), timeout=600)[0]
        exe, exq = fe.result(), fq.result()
    queries = [concrete(q) for q in queries]
    c.log("%d histories, %d queries from the specification" % (len(scripts), len(queries)))
    jobs, asked = [], []

    def job(p, n):
        jobs.append({"prog": p[0], "seed0": r.randrange(1 << 20), "n": n, "opt": {"max_steps": 20000000, "tick_ns": 0, "early": 0, "spurious": int(r.random() < .5)}})
        p[0]["qs"] = p[1]
    # every query with several histories
    todo = queries * (1 if c.quick else 6)
    r.shuffle(todo)
    for i in range(0, len(todo), 7):
        job(sequential(r, r.choice(scripts), [dict(q, chk=r.random() < .5) for q in todo[i:i + 7]]), 1)
    for _ in range(150 if c.quick else 1500):
        job(sequential(r, r.choice(scripts), [rnd_query(r) for _ in range(7)]), 1)
    nseq = len(jobs)
    seq = c.explore(exq, jobs, "sequential")
    jobs = []
    for _ in range(600 if c.quick else 5000):
        job(concurrent_prog(r), 5 if c.quick else 15)
    con = c.explore(exe, jobs, "concurrent")
    traces, src, seen = [], [], set()
    for t in seq + con:
        for e in t["ev"]:
            if e["k"] == "termd" and not (e["code"] == 404 if not e["known"] else e["code"] in (200, 404)):
                c.violation("the answer to ?terminate= is %d" % e["code"], t)
            if e["k"] == "leak":
                c.violation("%d connections are left open" % e["n"], t)
        for k, q in t["prog"]["qs"].items():
            p = project(t, int(k), q)
            if p:
                s = json.dumps(p)
                if s not in seen:
                    seen.add(s)
                    traces.append(p)
                    src.append((t, k))
    for i, at, out in c.validate("responses", "pubsub/PubsubTrace.tla", traces, timeout=2400):
        t, k = src[i]
        c.violation("a response is not what was asked for: %s -> %s (event %d)" % (json.dumps(t["prog"]["qs"][k]), json.dumps(traces[i]["lines"])[:600], at), dict(t, conn=int(k), projection=traces[i]))
    c.sample({"ev": traces[0]["ev"][:20], "lines": traces[0]["lines"]})
    c.finish()


main("P20", body)
