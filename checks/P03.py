"""P03: stream subscribers under every schedule."""
from stream_common import *


def body(c):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "stream", ["stream.cc"])
        c.model_check("Stream: subscribers", "stream/StreamMC.tla", CFG + "CatchesUp Ends\nCONSTANTS Pubs={1}\nSubSet={1}\nMaxOps=%d\nMaxUs=%d\nFlip=FALSE\n" %
                      ((3, 3) if c.quick else (4, 3)), timeout=1800)
        exe = fe.result()
    r = random.Random(c.seed)
    np, ns, cap = (240, 40, 6000) if c.quick else (1500, 200, 40000)
    run(c, "stream", exe, [burst_program(r, i % 8 == 0) if i % 4 == 0 else program(r, i % 3 == 2) for i in range(np)], ns, cap)
    c.finish()


main("P03", body)
