import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *


def rnd_str(r):
    return r.choice(["", "a", "b", "foo\tbar", "new\nline", "q\"uote", "back\\slash", "#head 5", "\x01\x02", "x" * r.randrange(1, 60),
                     "{\"index\":0}", "\u00e9\u00ff", "#", "\t", " "])


def rnd_ops(r, n, spread, crash=False):
    """Random histories biased towards the boundaries of the current head / size (tracked approximately)."""
    ops, size, head = [], 0, -1
    for _ in range(n):
        x = r.random()
        us = head + r.choice([-3, -1, 0, 0, 1, 1, 1, 2, 5, spread])
        us = max(us, 0)
        if x < .34 or (crash and x < .5):
            o = {"op": "pub", "us": us, "e": rnd_str(r)}
            if r.random() < .2:
                o["now"] = 1
            if us > head:
                head, size = us, size + 1
        elif x < .44:
            i = size + r.choice([0, 0, 0, 1, -1])
            o = {"op": "raw", "i": max(i, 0), "us": us, "e": rnd_str(r)}
            if max(i, 0) == size and us > head:
                head, size = us, size + 1
        elif x < .58:
            o = {"op": "head", "us": us}
            if r.random() < .2:
                o["now"] = 1
            head = max(head, us)
        elif x < .60:
            o = {"op": "rawbad"}
        elif x < .66:
            o = {"op": r.choice(["info", "last"])}
        elif x < .78:
            b, e = r.randrange(0, size + 2), r.choice([-1, -1, r.randrange(0, size + 2)])
            o = {"op": r.choice(["iter", "iteru"]), "b": b, "e": e}
        elif x < .86:
            f = r.randrange(0, max(2, head + 2))
            o = {"op": r.choice(["itert", "itertu", "range"]), "from": f, "till": r.choice([-1, 0, f, f + r.randrange(0, 6), max(0, f - 1)])}
        elif x < .90:
            o = {"op": "open", "k": r.randrange(2), "b": r.randrange(0, size + 1), "e": r.choice([-1, size])}
        elif x < .955:
            o = {"op": "next", "k": r.randrange(2)}
        else:
            o = {"op": r.choice(["reopen", "copy"])}
        if o["op"] in ("pub", "raw", "head", "iter"):
            o["lk"] = r.randrange(2)
        if crash and o["op"] in ("pub", "raw", "head") and r.random() < .6:
            o = {"op": "crash", "inner": o}
        ops.append(o)
    ops += [{"op": "info"}, {"op": "iter", "b": 0, "e": -1}, {"op": "copy"}, {"op": "reopen"}]
    return ops


def run_driver(c, exe, seqs, what):
    """Runs the harness over the sequences in parallel; a crash or a hang of the harness is reported."""
    import json
    chunks = [seqs[i::NCPU] for i in range(NCPU) if seqs[i::NCPU]]

    def go(k):
        d = c.path("scratch.%s.%d" % (what, k))
        os.makedirs(d, exist_ok=True)
        rc, out, err = c.run([exe, d], stdin=("\n".join(json.dumps(s) for s in chunks[k]) + "\n").encode(), timeout=240)
        return rc, read_ndjson(out), err
    res = c.pmap(go, range(len(chunks)))
    traces = []
    for k, (rc, tr, err) in enumerate(res):
        if rc != 0 or len(tr) != len(chunks[k]):
            bad = chunks[k][min(len(tr), len(chunks[k]) - 1)]
            rc2, out2, err2 = c.run([exe, c.path("scratch.%s.%d" % (what, k))], stdin=(json.dumps(bad) + "\n").encode(), timeout=60)
            if rc2 != 0 or len(read_ndjson(out2)) != 1:
                c.violation("the harness died (%s) executing a history: %s" % (rc2, err2[-300:]), bad)
            else:
                raise CheckError("harness died once and not again: rc=%s %s" % (rc, err[-500:]))
        for s, t in zip(chunks[k], tr):
            t["seq"] = s
            traces.append(t)
    return traces


def explain(t, at):
    k = max(0, min(at - 1, len(t["ev"]) - 1))
    return "event %d: op=%s observed=%s" % (k, json.dumps(t["ev"][k]["op"]), json.dumps(t["ev"][k]["res"])[:600])
