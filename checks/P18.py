"""P18: HTTP requests go to the handler registered for the longest matching path."""
from http_common import *
from conc_common import check_traces

PATHS = ["/", "/a", "/a/b", "/a/b/c", "/x.y", "/a-b", "/b"]
BADPATHS = ["", "a", "/a/", "/a b", "/a?b", "/%41", "//", "/a//"]
MASKS = [1, 1, 2, 3, 4, 6, 7, 65535, 32768, 5]


def req_path(r):
    comps = [r.choice(["a", "b", "c", "x.y", "a-b", "%41", "1+2", "%2F", "%zz", "a%", "%c3%a9"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    if r.random() < .03:
        comps = ["a"] * r.choice([15, 16, 17])
    p = "".join(r.choice(["/", "/", "/", "//"] if i else ["/"]) + x for i, x in enumerate(comps)) + r.choice(["", "", "/", "//"] if comps else ["/"])
    return p + (r.choice(["?q", "?a=b&c=d/e", "#f", "?x#/y"]) if r.random() < .15 else "")


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def rnd_ops(r, n, ids, t, conc, depth=0):
    ops = []
    for _ in range(n):
        x = r.random()
        if x < .4:
            o = {"o": "reg", "path": b(r.choice(PATHS) if r.random() < .93 else r.choice(BADPATHS)), "mask": r.choice(MASKS), "upd": int(r.random() < .2), "id": ids(), "slot": r.randrange(3)}
            if depth == 0 and r.random() < (.35 if conc else .15):
                # (a handler registers its routes once, and drops nothing which may be running: only one runs at a time)
                o["inner"] = [x for x in rnd_ops(r, r.choice([1, 1, 2]), ids, 4, conc, 1) if x["o"] != "req" and not (x["o"] == "reg" and x["upd"])]
                for x in o["inner"]:
                    if x["o"] == "reg":
                        x["path"] = b("/in" + str(x["id"] % 3))
            ops.append(o)
        elif x < .58:
            if depth == 0:
                ops.append({"o": "drop", "slot": r.randrange(3)})
        elif x < .94:
            ops.append({"o": "req", "path": b(req_path(r) if r.random() < .9 else "/in%d" % r.randrange(3))})
        else:
            ops.append({"o": "count"})
    return ops


def body(c):
    r = random.Random(c.seed)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build_sched, "httpc", ["http.cc"], [], ["vnet.cc"])
        c.model_check("Routes", "http/RoutesMC.tla", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads={1,2}\nMaxOps=%d\nMasks=%s\nPaths <- MCPaths\nReqPaths <- MCReqPaths\n"
                      "INVARIANTS GoneIsGone OnePerRoute Longest\n" % ((3, "{1,3,6}") if c.quick else (5, "{1,6}")), timeout=3000)
        exe = fe.result()
    jobs = []
    for i in range(500 if c.quick else 6000):  # one thread: everything about matching
        jobs.append({"prog": {"t": "route", "cut": 0, "threads": [rnd_ops(r, r.choice([6, 10, 16]), Ids(), 1, False)]}, "seed0": r.randrange(1 << 20), "n": 1, "opt": {}})
    for i in range(260 if c.quick else 3000):
        ids = Ids()
        nt = r.choice([2, 2, 3])
        jobs.append({"prog": {"t": "route", "cut": 0, "threads": [rnd_ops(r, r.choice([2, 3, 4]), ids, t, True) for t in range(nt)]},
                     "seed0": r.randrange(1 << 20), "n": 25 if c.quick else 60, "opt": {}})
    traces = c.explore(exe, jobs, "routes")
    check_traces(c, "routes", "http/RoutesTrace.tla", traces, 3500 if c.quick else 40000, timeout=3000)
    c.finish()


main("P18", body)
