"""P02: what a file-backed log recovers after a crash at any byte of any write, and opening damaged files."""
from persistence_common import *


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(c.build, "pers", ["persistence.cc"])
        fm = ex.submit(c.model_check, "PersistenceCrash", "persistence/PersistenceCrashMC.tla",
                       "SPECIFICATION Spec\nCONSTANTS TS=%s\nMaxLen=%d\nINVARIANTS AlwaysLoads RecoveryExact DurableWhenIdle\nCHECK_DEADLOCK FALSE\n"
                       % (("{0,1,2,3,4}", 3) if c.quick else ("{0,1,2,3,4,5,6}", 4)))
        fg = ex.submit(c.generate, "LoadFile", "persistence/PersistenceLoadGen.tla",
                       "SPECIFICATION Spec\nCONSTANT K=3\nCHECK_DEADLOCK FALSE\n")
        exe, _, loads = fe.result(), fm.result(), fg.result()
    r = random.Random(c.seed)
    r.shuffle(loads)
    loads.sort(key=lambda o: len(o["lines"]))
    small = [o for o in loads if len(o["lines"]) <= 2]
    rest = [o for o in loads if len(o["lines"]) > 2]
    loads = small + rest[:1500 if c.quick else len(rest)]
    seqs = [{"kind": "file", "ops": loads[i:i + 20]} for i in range(0, len(loads), 20)]
    seqs += [{"kind": "file", "ops": [{"op": "create"}] + rnd_ops(r, r.randrange(4, 14), r.choice([3, 10, 1000, 100000]), crash=True)}
             for _ in range(60 if c.quick else 1500)]
    traces = run_driver(c, exe, seqs, "crash")
    torn = sum(len(e["res"].get("outs", [])) for t in traces for e in t["ev"])
    c.cov["distinct_crash_outcomes_checked"] = torn
    c.cov["files_loaded"] = len(loads)
    for i, at, _ in c.validate("crash histories", "persistence/PersistenceCrashTrace.tla", traces):
        c.violation("file persister: recovery not allowed by the specification at %s" % explain(traces[i], at), traces[i]["seq"])
    for t in traces[-2:]:
        c.sample({"ev": t["ev"][:3]})
    c.assumptions += ["a crash leaves a byte prefix of the write in flight; earlier writes are complete (no reordering by the OS)"]
    c.finish()


main("P02", body)
