"""P14: MMPQ under every schedule."""
from mmq_common import *


def program(r):
    nt = r.choice([1, 2, 2, 3])
    threads, now = [], r.random() < .3
    top = r.choice([3, 6])
    for k in range(nt):
        t = []
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if x < .08 and not now:
                t.append(["rest", r.choice([1, 3])])
            elif x < .65:
                t.append(["pub", -1 if now and r.random() < .8 else r.randrange(top)])
            else:
                t.append(["head", -1 if now else r.randrange(top)])
        threads.append(t)
    if r.random() < .6:
        threads[0].append(["head", -1 if now else top])
    return {"q": "mmpq", "n": 1, "threads": threads, "slow": r.choice([0, 0, 1, 3, 2 if now else 6]), "echo": 0}


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "mmq", ["mmq.cc"])
        c.model_check("MMPQ", "mmq/MmpqMC.tla", "SPECIFICATION Spec\nCONSTANTS TS={1,2}\nMaxPub=%d\nMaxT=1\n" % (3 if c.quick else 4) +
                      "INVARIANTS OnceEach NotEarly NothingLost AllDue Ordered\nPROPERTIES EveryoneReturns Delivered\nCHECK_DEADLOCK FALSE\n", timeout=900)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (500, 150, 12000) if c.quick else (2000, 500, 50000)
    run(c, "mmpq", "mmq/MmpqTrace.tla", exe, [program(r) for _ in range(np)], ns, cap, 0)
    c.finish()


main("P14", body)
