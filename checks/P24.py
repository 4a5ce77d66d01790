"""P24: splitting a byte stream into lines."""
from persistence_common import *


def gen(c, part, bytes_, piece, feeds, fail):
    return c.generate(part, "lines/LinesMC.tla", "SPECIFICATION Spec\nACTION_CONSTRAINT GenPrint\nCHECK_DEADLOCK FALSE\nCONSTANTS Bytes={%s}\nMaxPiece=%d\nMaxFeeds=%d\nMaxFail=%d\n"
                      "INVARIANTS Faithful AllAtTheEnd NoNewlineInside Cut\nPROPERTIES OutGrows\n" % (bytes_, piece, feeds, fail), timeout=1200)


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build, "lines", ["lines.cc"], ["-O1"])
        c.model_check("Lines", "lines/LinesMC.tla", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Bytes={10,97,0}\nMaxPiece=%d\nMaxFeeds=%d\nMaxFail=%d\n"
                      "INVARIANTS Faithful AllAtTheEnd NoNewlineInside Cut\nPROPERTIES OutGrows\n" % ((2, 3, 2) if c.quick else (3, 3, 3)), timeout=1800)
        hs = gen(c, "two symbols", "10,97", 2, 3, 2) + gen(c, "three symbols", "10,97,0", 2 if c.quick else 3, 2, 1)
        exe = fe.result()
    r = random.Random(c.seed)
    seqs = []
    for h in hs:
        zero = any(0 in p for p in h["p"])
        for m in ("str", "cstr", "ex", "exc"):
            seqs.append({"m": m, "f": h["f"], "p": h["p"], "z": 0 if zero else r.randrange(2)})
        if h["f"] == 0:
            seqs.append({"m": "http", "f": 0, "p": h["p"], "z": r.randrange(2)})
    if c.quick:
        seqs = r.sample(seqs, min(len(seqs), 6000))
    for _ in range(600 if c.quick else 10000):
        m = r.choice(["str", "cstr", "ex", "exc", "http"])
        z = r.randrange(2)
        al = [10, 10, 97, 98, 13, 255, 32] + ([] if z and m != "http" else [0])
        seqs.append({"m": m, "f": 0 if m == "http" else r.choice([0, 0, 0, 1, 2, 4]), "z": z,
                     "p": [[r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 7, 20]))] for _ in range(r.randrange(0, 7))]})
    traces = run_driver(c, exe, seqs, "lines")
    pre = [{"ev": t["ev"], "f": t["seq"]["f"], "c": int(t["seq"]["m"] in ("cstr", "exc"))} for t in traces]
    for i, at, out in c.validate("lines", "lines/LinesTrace.tla", pre, timeout=1200):
        c.violation("lines: rejected at event %d: %s" % (at, json.dumps(pre[i])[:800]), traces[i]["seq"])
    c.sample(traces[0])
    c.sample(traces[-1])
    c.finish()


main("P24", body)
