"""P05: a stream which follows a remote one is at all times what the remote one was at some time, and catches up."""
from persistence_common import *
import concurrent.futures

TEXTS = ["a", "bbbb", "", "d\\\"d", "long" * 30]


def line(o, i, us, j):
    return ("{\"us\":@%d}" % us if o == "head" else "{\"index\":%d,\"us\":@%d}\t%s" % (i, us, j)) + "\n"


def say(o, i=0, us=0, j="", text=None):
    return {"o": o, "i": i, "us": us, "j": j, "text": text if text is not None else line(o, i, us, j)}


def bad(r, rm, n, us):
    """What cannot be received; n: the index which is expected, us: a time which would do."""
    if rm == "checked":
        return say("bad", text=r.choice([
            "garbage\n", "{}\n", "{\"index\":%d}\n" % n, "{\"us\":\"x\"}\n", "{\"index\":%d,\"us\":@%d}\n" % (n, us), "{\"index\":%d,\"us\":@%d}\t\n" % (n, us),
            "{\"index\":%d,\"us\":@%d}\tgarbage\n" % (n, us), "{\"index\":%d,\"us\":@%d}\t{\"s\":\n" % (n, us), "{\"index\":%d,\"us\":@%d}\t{\"t\":1}\n" % (n, us),
            "{\"index\":%d,\"us\":@%d}\t{\"s\":\"L\"}\t{}\n" % (n, us), "{\"us\":@%d}\t{\"s\":\"L\"}\n" % us, "{\"index\":\"%d\",\"us\":@%d}\t{\"s\":\"L\"}\n" % (n, us),
            "\t{\"s\":\"L\"}\n", "{\"index\":%d,\"us\":@%d} {\"s\":\"L\"}\n" % (n, us), "{\"index\":99999999999999999999,\"us\":@%d}\t{\"s\":\"L\"}\n" % us,
            "{\"index\":%d}\t{\"s\":\"L\"}\n" % n, "{\"error\":\"The subscriber has terminated.\"}\n", "[\n"]))
    if r.random() < .5:
        return say("bad", text=r.choice(["garbage\n", "{}\n", "{\"index\":%d}\n" % n, "{\"us\":\"x\"}\n", "{\"error\":\"The subscriber has terminated.\"}\n", "[\n"]))
    return say("junk", -2, -2, "", r.choice(["garbage\tgarbage\n", "{}\t{}\n", "{\"index\":%d}\t{\"s\":\"L\"}\n" % n, "\t\n", "{\"us\":@%d}\t{\"s\":\"L\"}\n" % us,
                                             "\t{\"index\":%d,\"us\":@%d}\t{\"s\":\"L\"}\n" % (n, us)]))


def lie(r, rm, log, head):
    """... or what is well-formed and not what comes next."""
    n, x = len(log), r.random()
    if x < .4:
        return bad(r, rm, n, head + 5)
    if x < .6:
        return say("pub", n + r.choice([1, 1, 2, 100]), head + r.choice([1, 5]), "{\"s\":\"L\"}")
    if x < .75 and log:
        k = r.randrange(n)
        return say("pub", k, log[k][0], log[k][1])
    if x < .9 and head > 0:
        return say("pub", n, r.choice([head, max(1, head - 1)]), "{\"s\":\"L\"}")
    if head > 0:
        return say("head", -1, r.choice([head, max(1, head - 1)]))
    return bad(r, rm, n, head + 5)


def incomplete(r, log, head):
    s = line("pub", len(log), head + 5, "{\"s\":\"L\"}") if r.random() < .7 else line("head", -1, head + 3, "")
    return say("bad", text=s[:r.choice([1, r.randrange(1, len(s)), len(s) - 1])])


def base_prog(r):
    return {"p": r.choice(["mem", "file"]), "rm": r.choice(["checked", "unchecked"]), "sub": r.randrange(2), "from": r.randrange(2), "cut": r.choice([0, 1, 2, 3]),
            "whole": r.choice([0, 1, 2, 4, 9, 30]), "plan": [], "main": [], "threads": []}


def sequential(r, script):
    p = base_prog(r)
    log, head, on, known, n, main, says = [], -1, False, 0, 0, p["main"], []
    pending = None

    def hostile(lines):
        says.append(lines)
        main.append(["hostile", [[x["text"] for x in lines]]])
    for x in script:
        op = x[0]
        if pending and op not in ("pub", "head"):
            pending = None
            h = log[known - 1][0] if known else -1
            lines = []
            for i in range(known, min(len(log), known + r.choice([0, 1, 2]))):
                lines.append(say("pub", i, log[i][0], log[i][1]))
            fl = log[:known + len(lines)]
            h = max(fhead, fl[-1][0] if fl else -1)
            lines.append(r.choice([lambda: lie(r, p["rm"], fl, h), lambda: incomplete(r, fl, max(h, head))])())
            hostile(lines)
            main.append(["start"])
            main.append(["quiet"])
        if op == "pub":
            head = x[1]
            t = TEXTS[n % 5]
            n += 1
            log.append((x[1], json.dumps({"s": t}, separators=(",", ":"))))
            main.append(["pub", x[1], t])
        elif op == "head":
            head = x[1]
            main.append(["head", x[1]])
        elif op == "start":
            main.append(["start"])
        elif op == "stop":
            main.append(["stop", r.randrange(2)])
        elif op == "break":
            main.append(["break", r.randrange(2)])
        elif op == "truth":
            main += [["quiet"], ["stop", r.randrange(2)]]
            known, fhead, pending = len(log), head, True
            continue
        else:
            main.append(["quiet"])
            k = r.choice([1, 1, 2, 3])
            for _ in range(k):
                hostile([incomplete(r, log, head)] if op == "cut" else [lie(r, p["rm"], log, head)] if op == "old" else [bad(r, p["rm"], len(log), head + 5)])
            main.append(["break", r.randrange(2)])
        if r.random() < .8:
            main.append(["quiet"])
    if pending:
        main.append(["start"])
    p["says"] = says
    return p


def concurrent_prog(r):
    p = base_prog(r)
    us, n, says = 0, 0, []

    def publish(k):
        nonlocal us, n
        ops = []
        for _ in range(k):
            us += r.choice([1, 2, 30000])
            if r.random() < .7:
                ops.append(["pub", us, TEXTS[n % 5]])
                n += 1
            else:
                ops.append(["head", us])
            if r.random() < .1:
                ops.append(["quiet"])
        return ops
    if r.random() < .6:
        for _ in range(r.choice([1, 2, 4])):
            p["plan"].append([r.randrange(0, 14), r.choice([-1, -1, -1, r.randrange(150)]), r.choice([r.randrange(40), r.randrange(400), r.randrange(250, 900), 2000]), r.randrange(2)])
    p["main"] += publish(r.choice([0, 0, 2, 4]))
    if r.random() < .5:
        p["main"].append(["start"])
        if r.random() < .5:
            p["main"].append(["quiet"])
    p["threads"].append(publish(r.randrange(1, 7)))
    ops = []
    for _ in range(r.randrange(1, 5)):
        x = r.random()
        if x < .3:
            ops.append(["break", r.randrange(2)])
        elif x < .5:
            ops += [["stop", r.randrange(2)], ["start"]]
        elif x < .6:
            ops += [["refuse", r.randrange(1, 5)], ["break", r.randrange(2)]]
        elif x < .75:
            ops += [["schema", r.randrange(1, 4), r.choice(["500", "garbage", "other"])], ["break", r.randrange(2)]]
        elif x < .9:
            h = [bad(r, p["rm"], 0, 900000000) if r.random() < .6 else say("pub", 1000, 900000000, "{\"s\":\"L\"}")]
            says.append(h)
            ops += [["hostile", [[y["text"] for y in h]]], ["break", r.randrange(2)]]
        else:
            ops.append(["start"])
    p["threads"].append([["start"]] + ops + ([["start"]] if r.random() < .7 else []))
    p["says"] = says
    return p


def project(t):
    p, ev, k = t["prog"], [], 0
    for e in t["ev"]:
        if e["k"] in ("nostart", "leak"):
            continue
        if e["k"] == "req":
            e = dict(e, raw="say" in e)
            if e["raw"]:
                e["say"] = [{x: y for x, y in s.items() if x != "text"} for s in p["says"][k]]
                k += 1
            else:
                e["say"] = []
            e["chk"] = int(e["chk"])
        elif e["k"] == "head":
            e = dict(e, j="")
        ev.append(e)
    ops = p["main"] + [o for th in p["threads"] for o in th]
    return {"ev": ev, "chk": p["sub"], "breaks": bool(p["plan"]) or any(o[0] in ("break", "stop") for o in ops)}


def body(c):
    r = random.Random(c.seed)
    base = "CHECK_DEADLOCK FALSE\nCONSTANTS RM=\"%s\"\nMaxPub=%d\nMaxHead=%d\nMaxBreak=%d\nMaxRaw=%d\n"
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(c.build_sched, "replication", ["replication.cc"], [], ["vnet.cc"])
        fq = ex.submit(c.build, "replicationq", ["replication.cc", "csched.cc", "vnet.cc"], ["-O1"])
        for rm in ("checked", "unchecked"):
            c.model_check("Replication, " + rm, "pubsub/ReplicationMC.tla", "SPECIFICATION MCSpec\nINVARIANT MCInv Quiet\n" + base % ((rm, 2, 1, 2, 1) if c.quick else (rm, 3, 1, 2, 2)), timeout=2400)
            c.model_check("Replication catches up, " + rm, "pubsub/ReplicationMC.tla", "SPECIFICATION MCLive\nPROPERTY CatchesUp\n" + base % ((rm, 1, 1, 1, 1) if c.quick else (rm, 2, 1, 1, 1)), timeout=2400)
        scripts = c.generate("histories", "pubsub/ReplicationMC.tla", "SPECIFICATION GenSpec\nACTION_CONSTRAINT GenPrint\n" + base % ("checked", 2, 1, 3 if c.quick else 4, 0), timeout=600)
        exe, exq = fe.result(), fq.result()
    scripts.sort(key=json.dumps)
    r.shuffle(scripts)
    c.log("%d histories from the specification" % len(scripts))
    opt = lambda: {"max_steps": 20000000, "tick_ns": 0, "early": 0, "spurious": int(r.random() < .5)}
    jobs = [{"prog": sequential(r, s), "seed0": r.randrange(1 << 20), "n": 1, "opt": opt()} for s in (scripts[:1500] if c.quick else scripts)]
    seq = c.explore(exq, jobs, "sequential")
    jobs = [{"prog": concurrent_prog(r), "seed0": r.randrange(1 << 20), "n": 4 if c.quick else 15, "opt": opt()} for _ in range(700 if c.quick else 6000)]
    con = c.explore(exe, jobs, "concurrent")
    traces, src, seen = [], [], set()
    for t in seq + con:
        for e in t["ev"]:
            if e["k"] == "leak":
                c.violation("%d connections are left open" % e["n"], t)
        p = project(t)
        s = json.dumps([p, t["prog"]["rm"]])
        if s not in seen:
            seen.add(s)
            traces.append((t["prog"]["rm"], p))
            src.append(t)
    for rm in ("checked", "unchecked"):
        ix = [i for i, x in enumerate(traces) if x[0] == rm]
        for i, at, out in c.validate(rm, "pubsub/ReplicationTrace.tla", [traces[i][1] for i in ix], "CONSTANTS RM=\"%s\"\n" % rm, timeout=2400):
            t, p = src[ix[i]], traces[ix[i]][1]
            c.violation("the follower is not what follows from the master's stream and the connection: event %d, %s" % (at, json.dumps(p["ev"][at - 1] if 0 < at <= len(p["ev"]) else None)[:400]), dict(t, projection=p))
    c.sample({"ev": traces[0][1]["ev"][:20]})
    c.finish()


main("P05", body)
