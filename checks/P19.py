"""P19: HTTP responses (and requests made with the client) arrive complete and unaltered."""
from http_common import *

CODES = [200, 200, 200, 201, 301, 400, 404, 418, 500, 503, 599, 204, 304]
NAMES = ["A", "X-y", "x_Y", "Abc", "N", "Set", "a"]
VALS = ["b", "", "some value", "a,b", "x=1; y", "\xe9\xff", "l" * 100, "1"]


def data(r, n):
    x = r.random()
    if x < .5:
        return [r.choice(b("ab\r\n\n0:\x00" if n < 1000 else "abcdefghijklmnopqrstuvwxyz0123456789\r\n" * 2 + "\x00")) for _ in range(n)]
    if x < .7 and n < 1000:
        return (b("\r\n\r\n0\r\n\r\n") * (n // 8 + 1))[:n]
    return [r.randrange(256) for _ in range(n)]


def headers(r):
    return [[b(r.choice(NAMES)), b(r.choice(VALS))] for _ in range(r.choice([0, 0, 1, 2, 4]))]


def cookies(r):
    return [[b("c%d" % i), b(r.choice(["v", "a=b", "x y", "=="]))] for i in range(r.choice([0, 0, 0, 1, 3]))]


def item(r, big):
    if r.random() < .25:
        m = r.choice(["GET", "HEAD", "DELETE", "POST", "PUT", "PATCH"])
        hasbody = m in ("POST", "PUT", "PATCH")
        n = r.choice([0, 1, 10, 300] + ([16384, 50000] if big else [])) if hasbody else 0
        return {"how": "echo", "m": b(m), "p": b(r.choice(["/", "/a", "/a/b", "/a/b/", "/x-y_z.t"])), "h": headers(r), "ck": cookies(r), "body": data(r, n),
                "ct": b(r.choice(["text/plain", "", "application/json; charset=utf-8"])) if hasbody else [], "down": -1, "reset": 0}
    how = r.choice(["whole", "vector", "response", "built", "chunks", "chunks", "chunks", "chunks"])
    q = {"how": how, "code": r.choice(CODES + [r.randrange(200, 600)]), "ct": b(r.choice(["text/plain", "application/json; charset=utf-8", "x"])),
         "h": headers(r), "ck": cookies(r), "body": [], "chunks": [], "cache": 16, "ack": 0, "client": "get", "order": r.randrange(4), "down": -1, "reset": 0}
    if how == "chunks":
        q["client"] = r.choice(["get", "chunked", "chunked", "chunked", "file"])
        q["cache"] = r.choice([16, 64, 64, 4096])
        sizes = [0, 0, 1, 1, 2, 5, 9, 10, 11, 12, 15, 16, 17, 30, 56, 57, 58, 59, 60] + ([4000, 4090, 16384, 20000, 33000] if big else [])
        q["chunks"] = [{"d": data(r, r.choice(sizes)), "f": int(r.random() < .5)} for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
    else:
        q["body"] = data(r, r.choice([0, 1, 2, 10, 100, 500] + ([16384, 16385, 40000] if big else [])))
        q["client"] = r.choice(["get", "get", "get", "file"])
    total = len(q["body"]) + sum(len(x["d"]) for x in q["chunks"])
    x = r.random()
    if x < .35:
        q["down"], q["reset"] = r.randrange(0, 260 + total + total // 4), r.randrange(2)
    elif q["client"] == "chunked" and r.random() < .6:
        q["ack"] = 1
    return q


def body(c):
    r = random.Random(c.seed)
    d = c.path("files")
    os.makedirs(d)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build, "http", ["http.cc", "csched.cc", "vnet.cc"], ["-O1"])
        c.model_check("Response", "http/ResponseMC.tla", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d\nCache=10\nDatas <- MCDatas\n"
                      "INVARIANTS Faithful DoneMeansAll FlushedArrives EndArrives NeverAnError CacheBound\n" % (3 if c.quick else 4), timeout=3000)
        exe = fe.result()
    jobs = []
    for i in range(900 if c.quick else 9000):
        big = i % 30 == 0
        p = {"t": "resp", "dir": d, "cut": r.choice([0, 1, 1, 2, 3]) if not big else r.choice([0, 1, 3]), "items": [item(r, big) for _ in range(3 if big else 8)]}
        if r.random() < .3:
            p["window"] = r.choice([1, 3, 100])
            if big:
                p["window"] = r.choice([100, 5000])
        jobs.append({"prog": p, "seed0": r.randrange(1 << 20), "n": 2 if c.quick else 4, "opt": {"max_steps": 20000000}})
    traces = c.explore(exe, jobs, "responses")
    ev = {}
    for t in traces:
        for e in t["ev"]:
            k = json.dumps(e)
            if k not in ev:
                ev[k] = {"ev": [e], "prog": t["prog"], "seed": t["seed"]}
    ev = list(ev.values())
    for i, at, out in c.validate("responses", "http/ResponseTrace.tla", [{"ev": t["ev"]} for t in ev], timeout=1800):
        c.violation("responses: not as sent: %s" % json.dumps(ev[i]["ev"][0])[:3000], ev[i])
    broken = [t for t in ev if t["ev"][0].get("ex")]
    c.log("%d exchanges, %d of them broken and noticed" % (len(ev), len(broken)))
    c.cov["parts"]["broken connections noticed"] = len(broken)
    c.sample(ev[0])
    c.finish()


main("P19", body)
