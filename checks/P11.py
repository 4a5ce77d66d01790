"""P11: a storage which follows its stream."""
from storage_conc_common import *


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "storage_conc", ["storage_conc.cc"])
        c.model_check("StorageConc: follower", "storage/StorageConcMC.tla", MC % (2 if c.quick else 3, "FALSE", '"tx","flip","feed"'), timeout=1800)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (300, 20, 2500) if c.quick else (2500, 150, 30000)
    progs = [follower_program(r) for _ in range(np)]
    for i, p in enumerate(progs):
        p["file"] = int(i % 3 == 0)
    run(c, "follower", exe, progs, ns, cap)
    c.finish()


main("P11", body)
