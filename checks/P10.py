"""P10: transactions from several threads."""
from storage_conc_common import *


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "storage_conc", ["storage_conc.cc"])
        c.model_check("StorageConc: master", "storage/StorageConcMC.tla", MC % (2 if c.quick else 3, "TRUE", '"tx","shutdown","lock"'), timeout=1800)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (300, 20, 3000) if c.quick else (2500, 150, 40000)
    run(c, "transactions", exe, [master_program(r) for _ in range(np)], ns, cap)
    c.finish()


main("P10", body)
