"""P01: the persistence log (memory and file) is an append-only, contiguously indexed, time-ordered log."""
from persistence_common import *


def body(c):
    import concurrent.futures
    ts = "{0,1,2,3}" if c.quick else "{0,1,2,3,4}"
    mc = lambda: c.model_check("Persistence", "persistence/PersistenceMC.tla",
        'SPECIFICATION Spec\nCONSTANTS TS=%s\nES={"a","b"}\nMaxLen=%d\nINVARIANTS AppendOnly Order Ranges IterSnapshot\n'
        'VIEW ViewSt\nCHECK_DEADLOCK FALSE\n' % (ts, 3 if c.quick else 4), workers=4)
    gen = lambda: c.generate("Persistence", "persistence/PersistenceGen.tla",
                             "SPECIFICATION Spec\nCONSTANT K=%d\nCHECK_DEADLOCK FALSE\n" % 3, workers=4)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(c.build, "pers", ["persistence.cc"])
        fm, fg = ex.submit(mc), ex.submit(gen)
        exe, _, behaviours = fe.result(), fm.result(), fg.result()
    # specification -> code: every behaviour of depth K with the results the specification prescribes
    n = bad = 0
    for kind in ("mem", "file"):
        todo = behaviours if kind == "mem" or not c.quick else behaviours[c.seed % 2::2]
        traces = run_driver(c, exe, [{"kind": kind, "ops": [e["op"] for e in b["ev"]], "exp": b["ev"]} for b in todo], "gen")
        for t in traces:
            n += 1
            for got, exp in zip(t["ev"], t["seq"]["exp"]):
                if got["res"] != exp["res"] and bad < 3:
                    bad += 1
                    c.violation("%s persister: %s returned %s, the specification requires %s" %
                                (kind, json.dumps(got["op"]), json.dumps(got["res"]), json.dumps(exp["res"])),
                                {"kind": kind, "ops": t["seq"]["ops"]})
                    break
    c.cov["spec_behaviours_replayed"] = n
    c.log("replayed %d specification behaviours" % n)
    # code -> specification: long random histories
    r = random.Random(c.seed)
    seqs = [{"kind": r.choice(["mem", "file", "file"]), "ops": rnd_ops(r, r.randrange(10, 60), r.choice([3, 10, 1000]))}
            for _ in range(400 if c.quick else 6000)]
    traces = run_driver(c, exe, seqs, "rnd")
    for i, at, _ in c.validate("random histories", "persistence/PersistenceTrace.tla", traces):
        c.violation("%s persister: history rejected by the specification at %s" % (traces[i]["kind"], explain(traces[i], at)),
                    traces[i]["seq"])
    for t in traces[:2]:
        c.sample({"kind": t["kind"], "ev": t["ev"][:6]})
    c.assumptions += ["one process uses the file", "timestamps within 32 bits in the traces"]
    c.finish()


main("P01", body)
