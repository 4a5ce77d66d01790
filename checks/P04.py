"""P04: who may publish, under every schedule."""
from stream_common import *


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "stream", ["stream.cc"])
        c.model_check("Stream: authority", "stream/StreamMC.tla", CFG + "Authority\nCONSTANTS Pubs={1,2}\nSubSet={}\nMaxOps=%d\nMaxUs=%d\nFlip=TRUE\n" %
                      ((4, 3) if c.quick else (6, 3)), timeout=1800)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (240, 40, 6000) if c.quick else (1500, 200, 40000)
    run(c, "stream", exe, [flip_program(r, i % 3 == 2) for i in range(np)], ns, cap)
    c.finish()


main("P04", body)
