"""P17: HTTP requests are understood the same however their bytes arrive."""
from http_common import *

METHODS = ["GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "foo"]
PATHS = ["/", "/a", "/a/b", "/x?y=z", "/x?y=1&z=%20#f", "/%41%zz", "//", "a", "http://h/x", "/a/", "/" + "l" * 300, "?", "#", "/a?b"]


def rnd_body(r, big):
    n = r.choice([0, 1, 2, 3, 7, 20, 64, 200] + ([16300, 16384, 16385, 20000, 40000] if big else []))
    x = r.random()
    if x < .4:
        return [r.choice(b("abc\r\n0123456789: ")) for _ in range(n)]
    if x < .7:
        return [r.randrange(256) for _ in range(n)]
    return (b("\r\n\r\n0\r\n\r\n") * (n // 8 + 1))[:n]


def hx(r, n):
    s = "%x" % n
    if r.random() < .3:
        s = s.upper()
    if r.random() < .15:
        s = "000" + s
    if r.random() < .15:
        s += r.choice([";a=b", " ", "; x"])
    return s


def rnd_header(r):
    k = r.choice(["X", "Y-Z", "y_z", "Accept", "Cookie", "cookie", "Host", "x", "Set-Cookie", "N"])
    v = r.choice(["", "1", "a b", "\tq ", "x=1; y=2", "a=b=c", " k = v ;; z=;q", "v:w", "\xe9", "l" * r.randrange(1, 50), "x=2"])
    v = "; ".join(p for p in v.split(";") if not p.strip().startswith("=")) if "ookie" in k else v
    return k + ":" + r.choice(["", " ", "  ", "\t"]) + v + r.choice(["", "", " ", "\t "])


def rnd_request(r, big=False):
    """-> (bytes, complete)"""
    m = r.choice(METHODS)
    s = b(r.choice(["", "", "", "\r\n", "\r\n\r\n"]))
    s += b(r.choice(["%s %s HTTP/1.1", "%s %s HTTP/1.1", "%s %s HTTP/1.0", "%s  %s\tHTTP/1.1 ", " %s %s"]) % (m, r.choice(PATHS))) if r.random() < .96 else b(m)
    s += b("\r\n")
    hs = [rnd_header(r) for _ in range(r.choice([0, 0, 1, 2, 3, 5]))]
    if r.random() < .1:
        hs.append("no colon here")
    if r.random() < .1:
        hs.append("X-HTTP-Method-Override: " + r.choice(["PATCH", "post", "Get"]))
    body = rnd_body(r, big)
    x = r.random()
    data, kind = [], "n"
    if x < .35:
        hs.append(r.choice(["Content-Length", "content-length", "CONTENT_LENGTH"]) + ": " + r.choice(["", "0", "00"]) + str(len(body)))
        data = body
    elif x < .7:
        hs.append(r.choice(["Transfer-Encoding: chunked", "transfer-encoding:Chunked", "Transfer-Encoding: CHUNKED "]))
        if r.random() < .1:
            hs.append("Content-Length: 3")
        i = 0
        while i < len(body):
            n = r.choice([1, 1, 2, 3, 9, 10, 15, 16, 17, 31, 255, 256, 4096, 16384, 33000])
            d = body[i:i + n]
            i += len(d)
            data += b(hx(r, len(d)) + "\r\n") + d + b(r.choice(["\r\n", "\r\n", "\r\n", "", "\r\n\r\n"]))
        y = r.random()
        if y < .80:
            data += b(r.choice(["0", "00", "0;x"]) + "\r\n") + (b("\r\n") if r.random() < .8 else [])
        elif y < .95:
            data += b(r.choice(["zz", "-1", "80000000", "FFFFFFFF", "fffffffffffffffffff", "g", "-fff", ";1", "x1"]) + "\r\n")
        else:
            kind = "cut"
    elif x < .8:
        hs.append("Content-Length: " + r.choice(["16777217", "4294967301", "4294967296", "18446744073709551617", "2147483648", "-1", "-4294967290", "99999999999999999999999",
                                                 "16777216", "99999999", "000000000000000005", "007"]))
        data = b("hello")
        kind = "maybe"
    else:
        data = []
    r.shuffle(hs)
    s += b("".join(h + "\r\n" for h in hs)) + b("\r\n") + data
    if r.random() < .2:
        s += b(r.choice(["\r\n", "GET /again HTTP/1.1\r\n\r\n", "trailing", "\x00\x01"]))
    if r.random() < .03:
        s[r.randrange(len(s))] = r.choice([0, 10, 13, 58, 32, 48, 255])
        kind = "maybe"
    if r.random() < .25:
        s = s[:r.randrange(len(s) + 1)]
        kind = "cut"
    return s, kind == "n"


def jobs_of(r, conns, per, nsched, direct):
    jobs = []
    for i in range(0, len(conns), per):
        p = {"t": "req", "buf": 0, "cut": r.choice([0, 1, 1, 2, 3]), "conns": conns[i:i + per]}
        if max(len(x) for c in p["conns"] for x in c["in"] or [[]]) > 5000:
            p["cut"] = r.choice([0, 1, 3])
        if r.random() < .3:
            p["window"] = 3000  # what is not read by anyone, and a response, fit
        if direct:
            p["buf"] = r.choice([2, 3, 5, 8, 16, 17, 20, 33, 64, 100, 1000, 16385])
            p["k100"] = r.choice([100, 110, 150, 195, 400])
        jobs.append({"prog": p, "seed0": r.randrange(1 << 20), "n": nsched, "opt": {"max_steps": 6000000}})
    return jobs


def body(c):
    r = random.Random(c.seed)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(c.build, "http", ["http.cc", "csched.cc", "vnet.cc"], ["-O1"])
        base = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxBody=%d\nTails <- MCTails\nINVARIANTS NotEarly Understood Prefix\n"
        c.model_check("Http", "http/HttpMC.tla", base % (1 if c.quick else 3), timeout=1800)
        gen = c.generate("two pieces", "http/HttpMC.tla", base % (1 if c.quick else 2) + "ACTION_CONSTRAINT GenCut\n", timeout=1200)
        exe = fe.result()
    conns, direct = [], []
    for g in gen:
        pieces = [p for p in (g["in"][:g["at"]], g["in"][g["at"]:]) if p]
        (conns if r.random() < .5 else direct).append({"in": pieces, "end": r.choice(["keep", "keep", "half", "close"])})
        if g["at"] < g["n"] and r.random() < (.3 if c.quick else 1):
            (conns if r.random() < .5 else direct).append({"in": [g["in"][:g["at"]]] if g["at"] else [], "end": r.choice(["half", "close", "reset"])})
    ngen = len(conns) + len(direct)
    for i in range(8000 if c.quick else 60000):
        s, complete = rnd_request(r, big=(i % 25 == 0))
        e = r.choice(["keep", "half", "close", "reset"] if complete else ["half", "half", "close", "reset"])
        (conns if r.random() < .5 else direct).append({"in": cut_pieces(r, s), "end": e})
    c.log("%d connections from the specification, %d random" % (ngen, len(conns) + len(direct) - ngen))
    r.shuffle(conns)
    r.shuffle(direct)
    traces = c.explore(exe, jobs_of(r, conns, 10, 2 if c.quick else 4, False), "server")
    traces += c.explore(exe, jobs_of(r, direct, 10, 2 if c.quick else 4, True), "connection")
    ev = {}
    for t in traces:  # every connection is judged on its own
        for e in t["ev"]:
            k = json.dumps(e)
            if k not in ev:
                ev[k] = {"ev": [e], "prog": t["prog"], "seed": t["seed"]}
    ev = list(ev.values())
    for i, at, out in c.validate("requests", "http/HttpTrace.tla", [{"ev": t["ev"]} for t in ev], timeout=1800):
        e = ev[i]["ev"][0]
        short = dict(e, **{"in": bytes(e["in"]).decode("latin1")[:600]}) if "in" in e else e
        c.violation("requests: not understood as specified: %s" % json.dumps(short)[:1500], ev[i])
    c.sample(ev[0])
    c.finish()


main("P17", body)
