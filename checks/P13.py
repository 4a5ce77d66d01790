"""P13: MMQ under every schedule."""
from mmq_common import *


def program(r):
    q = r.choice(["mmq", "mmq", "drop"])
    nt = r.choice([1, 2, 2, 3])
    threads, explicit = [], r.random() < .5
    total = 0
    for _ in range(nt):
        t = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < .1:
                t.append(["rest", r.choice([1, 5, 20])])
            else:
                t.append(["pub", r.randrange(0, 8) if explicit and r.random() < .8 else -1])
                total += 1
        threads.append(t)
    n = r.choice([1, 1, 2, 2, 3])
    echo = 0
    if r.random() < .25:
        echo = r.choice([1, 2])
        if q == "mmq":
            n = 2 * total + 2      # publishing into a full queue from its own consumer would wait for itself
    return {"q": q, "n": n, "threads": threads, "slow": r.choice([0, 0, 1, 3, 9]), "echo": echo}


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "mmq", ["mmq.cc"])
        c.model_check("MMQ", "mmq/MmqMC.tla", "SPECIFICATION Spec\nCONSTANTS TS={1,2}\nMaxPub=%d\nSizes={1,2}\n" % (3 if c.quick else 4) +
                      "INVARIANTS InOrder NothingLost ToldTheTruth Bounded\nPROPERTIES EveryoneReturns Ends\nCHECK_DEADLOCK FALSE\n", timeout=900)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (500, 150, 12000) if c.quick else (2000, 500, 50000)
    run(c, "mmq", "mmq/MmqTrace.tla", exe, [program(r) for _ in range(np)], ns, cap, 1000)
    c.finish()


main("P13", body)
