"""P12: the REST interface is a faithful view of the storage."""
from conc_common import *
import concurrent.futures, email.utils, urllib.parse

CONTS = ["Du", "Do", "Moo", "Muo", "Ouu", "Oou", "Noo", "Nou"]
KINDS = {"Du": "i", "Do": "s", "Moo": "ii", "Muo": "is", "Ouu": "ii", "Oou": "si", "Noo": "ii", "Nou": "si"}
TAILS = [" ", "%", "&", "?x=1", "/y", "#z", "+", "=", "\"", "."]
ROWS, COLS = ["1", "row", "left", "l", "L"], ["2", "col", "right", "r", "R"]
NOBODY = {"kind": "none", "key": [0, 0], "v": 0}
NOIUS = {"kind": "none", "us": 0}


def q0(**kw):
    return dict({"impl": "plain", "kind": "data", "verb": "GET", "c": "Du", "tgt": "all", "keyed": False, "key": [0, 0], "body": NOBODY,
                 "ius": NOIUS, "over": False, "exp": "no", "page": [0, 10], "name": "", "mv": [0, 0, 0]}, **kw)


# ---- keys as texts and back
def text(kind, k):
    return str(k) if kind == "i" else "s%d%s" % (k, TAILS[k] if 0 <= k < 10 else "")


def unText(kind, s):
    if kind == "i":
        return int(s) if re.match(r"-?\d+$", s) else -99
    return int(s[1]) if len(s) >= 2 and s[0] == "s" and s[1].isdigit() and s == text("s", int(s[1])) else -99


def key_of(c, obj):
    k = KINDS[c]
    try:
        return [unText(k[0], str(obj["key"])), 0] if len(k) == 1 else [unText(k[0], str(obj["row"])), unText(k[1], str(obj["col"]))]
    except KeyError:
        return [-98, 0]


def key_texts(c, key):
    k = KINDS[c]
    return [text(k[i], key[i]) for i in range(len(k))]


def key_in(c, s):
    """The key at the end of a URL."""
    k = KINDS[c]
    if len(k) == 1:
        return [unText(k, s), 0]
    for i in range(len(s)):
        if s[i] == "/" and unText(k[0], s[:i]) != -99 and unText(k[1], s[i + 1:]) != -99:
            return [unText(k[0], s[:i]), unText(k[1], s[i + 1:])]
    return [-97, 0]


def json_of(c, key, v):
    k = KINDS[c]
    t = key_texts(c, key)
    o = {}
    for i, f in enumerate(("key",) if len(k) == 1 else ("row", "col")):
        o[f] = t[i] if k[i] == "s" else key[i]
    if v != -1:
        o["v"] = v
    return o


# ---- a request as what is sent
def bad_body(r, c):
    return r.choice(["", "{", "nope", "[]", '{"v":"x"}', '{"v":1', '{"key":1,"row":1,"col":1,"v":[]}', "{\"key\":\"s\\", '""'])


def op_of(r, q, ius=None):
    c, kind = q["c"], KINDS[q["c"]]
    u, params, b, h = "/" + q["impl"], [], "", []
    if q["kind"] == "status":
        u += "/status"
    elif q["kind"] == "schema":
        u += "/schema/" + c + r.choice(["", ".json", ".h"])
    elif q["kind"] == "none":
        u += r.choice(["/data/Nope", "/nope", "/data", "/schema/Nope", "/data/%s.nope" % c, "/cqs", "/cqs/nope/has"])
    elif q["kind"] in ("query", "command"):
        u += "/cqs/" + q["kind"] + ("/" + q["name"] if q["name"] else "")
        if q["kind"] == "query":
            key = "x" if q["body"]["kind"] == "bad" else str(q["mv"][0])
            if r.random() < .7 or q["body"]["kind"] == "bad":
                params = [("key", key)]
            else:
                b = '{"key":%s}' % key
        else:
            o = {"from": q["mv"][0], "to": q["mv"][1], "bad": q["mv"][2]}
            if r.random() < .6 or q["body"]["kind"] == "bad":
                b = json.dumps(o) if q["body"]["kind"] != "bad" else r.choice(["{", '{"from":"x"}', "nope"])
            else:
                params = [(k, str(v)) for k, v in o.items()]
    elif q["kind"] == "data":
        u += "/data/" + c
        path = True
        if q["tgt"] != "all":
            u += "." + r.choice(ROWS if q["tgt"] == "row" else COLS)
            if q["keyed"]:
                t = text(kind[0 if q["tgt"] == "row" else 1], q["key"][0])
                if r.random() < .6:
                    u += "/" + urllib.parse.quote(t, safe="")
                else:
                    params = [("key", t)]
        else:
            if len(kind) == 1:
                u += r.choice(["", "", ".key", ".0", ".K"]) if DICT_ALIASES else ""
            if q["keyed"]:
                t = key_texts(c, q["key"])
                if q["verb"] == "POST" or r.random() < .6:
                    u += "".join("/" + urllib.parse.quote(x, safe="") for x in t)
                else:
                    names = ("key",) if len(kind) == 1 else r.choice([("key1", "key2"), ("row", "col"), ("1", "2")])
                    params = list(zip(names, t))
                    r.shuffle(params)
        if q["over"]:
            params.append(("overwrite", r.choice(["", "1"])))
        if q["exp"] != "no":
            params.append(("export", "detailed" if q["exp"] == "detailed" else r.choice(["", "plain"])))
        if q["page"] != [0, 10]:
            for name, x, d in (("i", q["page"][0], 0), ("n", q["page"][1], 10)):
                if x != d or r.random() < .3:
                    params.append((name, str(HUGE if x == MANY else x)))
        if q["impl"] == "hyper" and q["verb"] == "GET" and r.random() < .2:
            params.append((r.choice(["full", "brief"]), ""))
        if q["body"]["kind"] in ("ok", "rekey"):
            if q["verb"] == "PATCH":
                b = json_of(c, q["body"]["key"], q["body"]["v"]) if q["body"]["kind"] == "rekey" else ({} if q["body"]["v"] == -1 else {"v": q["body"]["v"]})
            else:
                b = json_of(c, q["body"]["key"], q["body"]["v"])
            b = json.dumps(b, separators=r.choice([(",", ":"), (", ", ": ")]))
        elif q["body"]["kind"] == "bad":
            b = bad_body(r, c) if q["verb"] != "PATCH" else r.choice(["{", "nope", '{"v":"x"}', '{"v":[]}', ""])
    op = {"m": q["verb"], "u": u, "h": h, "b": b}
    if q["ius"]["kind"] == "bad":
        h.append(r.choice([["X-Current-If-Unmodified-Since", r.choice(["abc", "0", "-5"])], ["If-Unmodified-Since", r.choice(["junk", "2020-01-01", "Sun, 99 Foo 2020 00:00:00 GMT"])]]))
    elif q["ius"]["kind"] == "at":
        op["ius"] = {"c": c, "r": q["key"][0], "q": q["key"][1], "d": ius[1], "form": ius[0]}
        if ius[0] == "us" and r.random() < .3:
            h.append(["If-Unmodified-Since", "junk"])  # (it is not looked at)
    if params:
        op["u"] += "?" + "&".join(urllib.parse.quote(k, safe="") + "=" + urllib.parse.quote(v, safe="") for k, v in params)
    return op


DICT_ALIASES = True
HUGE, MANY = (1 << 64) - 1, 1000000  # (the specification counts to less)


def page_at(s, url):
    m = re.match(re.escape(url) + r"\?i=(\d+)&n=(\d+)$", s)
    return [min(int(x), MANY) if int(x) != HUGE else MANY for x in m.groups()]


# ---- what came back
def response(q, raw, base, c_):
    """raw -> r (see Shown in Rest.tla)"""
    res = {"code": -1, "data": [], "text": "", "url": [], "lm": -1, "lmd": -1, "ok": 2, "lms": [], "pre": [], "ordered": False, "preordered": False,
           "page": {"i": 0, "n": 0, "total": 0, "asked": [], "prev": [], "next": []}}
    if "\r\n\r\n" not in raw:
        return res
    head, body = raw.split("\r\n\r\n", 1)
    lines = head.split("\r\n")
    m = re.match(r"HTTP/1.1 (\d+) ", lines[0])
    res["code"] = int(m.group(1)) if m else -1
    hs = {}
    for l in lines[1:]:
        k, _, v = l.partition(": ")
        hs[k.lower()] = v
    if "x-current-last-modified" in hs:
        res["lm"] = int(hs["x-current-last-modified"]) - base * 1000000
    if "last-modified" in hs:
        try:
            res["lmd"] = int(email.utils.parsedate_to_datetime(hs["last-modified"]).timestamp()) - base
        except Exception:
            res["lmd"] = -2
    if hs.get("content-length") != str(len(body)):
        res["code"] = -2
    c, simple, hyper = q["c"], q["impl"] != "plain", q["impl"] == "hyper"
    js = None
    try:
        js = json.loads(body)
    except ValueError:
        pass
    if isinstance(js, dict) and isinstance(js.get("success"), bool):
        res["ok"] = int(js["success"])
    prefix = "http://x/%s/data/%s" % (q["impl"], c)
    try:
        if q["kind"] in ("status", "top"):
            if res["code"] != 404:
                res["text"] = {True: "up", False: "down"}[js["up"]]
                if q["kind"] == "top" and js["url_data"] != {n: "http://x/%s/data/%s" % (q["impl"], n) for n in CONTS}:
                    res["text"] = "not the top level"
        elif q["kind"] == "schema":
            if res["code"] == 200:
                name = {"i": "DI", "s": "DS", "ii": "II", "is": "IS", "si": "SI"}[KINDS[c]]
                res["text"] = "schema" if name in body else "not a schema"
        elif q["kind"] in ("query", "command"):
            if body in ("yes", "no", "moved", "nothing", "rolled back"):
                res["text"] = body
        elif q["kind"] == "data" and res["code"] == 200 and q["verb"] == "GET":
            export = simple and q["exp"] != "no" and q["tgt"] == "all"
            def rec(o):
                return [key_of(c, o), o["v"]]
            if export:
                if q["exp"] == "detailed":
                    items = [js] if q["keyed"] else js
                    for x in items:
                        d = x["data"]
                        k = x["key"]
                        k = [k] if len(KINDS[c]) == 1 else [k["first"], k["second"]] if isinstance(k, dict) else k
                        if [str(y) for y in k] != key_texts(c, key_of(c, d)) or \
                                email.utils.parsedate_to_datetime(x["timestamp_http"]).timestamp() != x["timestamp_us"] // 1000000:
                            raise ValueError
                    items = [(rec(x["data"]), x["timestamp_us"] - base * 1000000) for x in items]
                else:
                    items = [(rec(js), 0)] if q["keyed"] else [(rec(json.loads(l)), 0) for l in body.split("\n")[:-1]]
                if len(KINDS[c]) > 1 or c[1] == "u":
                    items.sort()
                res["data"] = [x[0] for x in items]
                res["lms"] = [x[1] for x in items] if q["exp"] == "detailed" else []
            elif q["keyed"] and q["tgt"] == "all":
                res["data"] = [rec(js["data"] if simple else js)]
                if hyper and [js["url_full"], js["url_brief"], js["url_directory"]] != [js["url"] + "?full", js["url"] + "?brief", prefix]:
                    raise ValueError
                if simple:
                    res["url"] = key_in(c, js["url"][len(prefix) + 1:]) if js["url"].startswith(prefix + "/") else [-96, 0]
            else:
                line = q["tgt"] != "all" and not q["keyed"]
                at = 0 if q["tgt"] == "row" else 1
                full = prefix
                if simple:
                    for alias in [] if q["tgt"] == "all" else ROWS if at == 0 else COLS:
                        if re.match(re.escape(prefix + "." + alias) + "([/?]|$)", js["url"]):
                            full = prefix + "." + alias
                    here = full if not q["keyed"] else full + "/" + text(KINDS[c][at], q["key"][0])
                    if hyper:
                        if js["url_directory"] != (full if line else prefix):
                            raise ValueError
                        res["page"] = {"i": js["i"], "n": js["n"], "total": js["total"], "asked": page_at(js["url"], here)}
                        for k in ("prev", "next"):
                            x = js.get("url_%s_page" % {"prev": "previous"}.get(k, k))
                            res["page"][k] = [page_at(x, here)] if x is not None else []
                    elif js["url"] != (full if not q["keyed"] else full + "/" + text(KINDS[c][at], q["key"][0])):
                        raise ValueError
                    for u in js["data"]:
                        p = (full if line else prefix) + "/"
                        d, u = (u["data"], u["url"]) if hyper else (None, u)
                        if not u.startswith(p):
                            raise ValueError
                        res["data"].append([[unText(KINDS[c][at], u[len(p):]), 0] if line else key_in(c, u[len(p):]), -1])
                        if hyper and line:
                            res["data"][-1][1] = d["total"]
                            res["pre"].append([rec(x) for x in d["preview"]])
                        elif hyper:
                            if key_of(c, d) != res["data"][-1][0]:
                                raise ValueError
                            res["data"][-1][1] = d["v"]
                else:
                    for l in body.split("\n")[:-1]:
                        f = l.split("\t")
                        if line:
                            res["data"].append([[unText(KINDS[c][at], f[0]), 0], int(f[1])])
                        else:
                            o = json.loads(f[-1])
                            if q["tgt"] == "all" and "\t".join(key_texts(c, key_of(c, o))) != "\t".join(f[:-1]):
                                raise ValueError
                            res["data"].append(rec(o))
                # what has no order may come in any
                ordered = {"all": len(KINDS[c]) == 1 and c[1] == "o",
                           "row": len(KINDS[c]) > 1 and (c[1] if line else c[2]) == "o",
                           "col": len(KINDS[c]) > 1 and (c[2] if line else c[1]) == "o"}[q["tgt"]]
                res["ordered"] = ordered
                res["preordered"] = line and c[2 if at == 0 else 1] == "o"
                if not ordered and not hyper:
                    res["data"].sort()
        elif q["kind"] == "data" and res["code"] in (200, 201) and q["verb"] != "DELETE":
            if simple:
                u = js["resource_url"]
                res["url"] = key_in(c, u[len(prefix) + 1:]) if u.startswith(prefix + "/") else [-96, 0]
            elif q["verb"] == "POST":
                res["url"] = key_in(c, body)
    except (ValueError, KeyError, TypeError, IndexError, AttributeError) as e:
        res["text"] = "cannot be read: %s" % type(e).__name__
    return res


def event(e, qs, c_):
    if e["k"] != "req":
        return e
    q = dict(qs[e["i"]])
    if q["ius"]["kind"] == "at":
        q["ius"] = {"kind": "at", "us": e["ius"]}
    return {"k": "req", "q": q, "r": response(q, e["raw"], e["base"], c_), "j": e["j"], "d": e["d"]}


# ---- histories
class Prog:
    def __init__(self, r):
        self.r, self.ops, self.qs, self.use = r, [], {}, set()

    def ask(self, q, ius=None):
        if q["kind"] == "data":
            self.use.add(q["c"])
        if q["kind"] == "command":
            self.use.add("Du")
        self.qs[len(self.ops)] = q
        self.ops.append(op_of(self.r, q, ius))

    def do(self, op):
        self.ops.append(op)

    def job(self, r):
        return {"prog": {"use": sorted(self.use | {"Du"}), "ops": self.ops}, "qs": self.qs, "seed0": r.randrange(1 << 20), "n": 1,
                "opt": {"max_steps": 20000000, "tick_ns": 0, "early": 0, "spurious": 0}}


def key(r, c):
    return [r.randrange(0, 9), 0] if len(KINDS[c]) == 1 else [r.choice([0, 0, 0, 1, 2, 3]), r.choice([0, 1, 2, 3])][::r.choice([1, -1])]


def request(r, conts, style):
    q = q0(impl=r.choice(["plain", "simple", "simple", "hyper", "hyper"]), c=r.choice(conts))
    c, mat = q["c"], len(KINDS[q["c"]]) > 1
    ius = None
    x = r.random()
    hot = [r.choice([0, 1]), r.choice([0, 1]) if mat else 0]
    q["key"] = hot if r.random() < .6 else key(r, c)
    if x < .04:
        q["kind"] = "none"
        q["verb"] = r.choice(["GET", "POST", "DELETE"])
    elif x < .07:
        q["kind"] = r.choice(["status", "top"])
        q["verb"] = r.choice(["GET", "GET", "POST"])
    elif x < .09:
        q["kind"] = "schema"
    elif x < .15:
        q.update(kind="query", name=r.choice(["has", "has", "has", "nope", ""]), mv=[r.randrange(0, 4), 0, 0], verb=r.choice(["GET", "GET", "GET", "POST"]))
        if r.random() < .15:
            q["body"] = dict(NOBODY, kind="bad")
    elif x < .22:
        q.update(kind="command", name=r.choice(["move", "move", "move", "move", "nope", ""]), mv=[r.randrange(0, 3), r.randrange(0, 3), int(r.random() < .3)],
                 verb=r.choice(["POST", "PUT", "PATCH", "GET", "DELETE"]))
        if r.random() < .15:
            q["body"] = dict(NOBODY, kind="bad")
    elif x < .45:
        q["keyed"] = r.random() < .5
        if mat and r.random() < .5:
            q["tgt"] = r.choice(["row", "col"])
            q["key"] = [q["key"][0 if q["tgt"] == "row" else 1], 0]
            if r.random() < .1:
                q["verb"] = r.choice(["POST", "PUT", "DELETE", "PATCH"])
        if q["impl"] == "hyper" and r.random() < .6:
            q["page"] = [r.choice([0, 0, 1, 2, 3, 5, 9, MANY]), r.choice([10, 1, 1, 2, 2, 3, 4, 0, MANY])]
        elif q["tgt"] == "all" and r.random() < .25:
            q["exp"] = r.choice(["plain", "detailed"])
    else:
        q["verb"] = r.choice(["POST", "PUT", "PUT", "PUT", "PATCH", "PATCH", "DELETE"])
        v = r.randrange(0, 9)
        q["keyed"] = r.random() < (.1 if q["verb"] == "POST" else .95)
        if q["verb"] != "DELETE":
            y = r.random()
            if y < .08:
                q["body"] = dict(NOBODY, kind="bad")
            elif q["verb"] == "PATCH":
                y = r.random()
                q["body"] = {"kind": "ok", "key": [0, 0], "v": v if r.random() < .8 else -1} if y < .7 else \
                            {"kind": "rekey", "key": q["key"] if r.random() < .5 else key(r, c), "v": v if r.random() < .7 else -1}
            else:
                q["body"] = {"kind": "ok", "key": q["key"] if r.random() < .85 else key(r, c), "v": v}
        q["over"] = r.random() < .4 if q["verb"] == "POST" else r.random() < .05
        if q["verb"] != "POST":
            y = r.random()
            if y < .4:
                q["ius"] = {"kind": "at", "us": 0}
                ius = ("us", r.choice([-1, 0, 0, 1, -1000000, 5])) if r.random() < .6 else (r.choice(["date", "rfc850"]), r.choice([0, -1000000, -1000000, 1000000, 999999, 3000000, -5]))
            elif y < .47:
                q["ius"] = {"kind": "bad", "us": 0}
    return q, ius


def random_history(r, n):
    p = Prog(r)
    conts = r.sample(CONTS, r.choice([1, 1, 2, 3]))
    state = "master"
    for _ in range(n):
        x = r.random()
        if x < .06:
            p.do({"sleep": r.choice([1, 900, 1500, 3200])})
        elif x < .08:
            p.do({"follow": 1})
            state = "follower"
        elif x < .13 and state == "follower":
            p.do({"master": 1})
            state = "master"
        elif x < .135:
            p.do({"down": 1})
        else:
            p.ask(*request(r, conts, None))
    return p


def pages_history(r):
    """Something to turn the pages of, and turning them."""
    p = Prog(r)
    c = r.choice(CONTS)
    mat = len(KINDS[c]) > 1
    def some():
        return [r.randrange(0, 9), 0] if not mat else [r.choice([0, 0, 0, 1, 2, 3]), r.choice([0, 1, 2, 3])][::r.choice([1, -1])]
    for _ in range(r.randrange(3, 16)):
        k = some()
        p.ask(q0(impl=r.choice(["simple", "hyper"]), c=c, verb="PUT", keyed=True, key=k, body={"kind": "ok", "key": k, "v": r.randrange(0, 9)}))
    for _ in range(r.randrange(4, 12)):
        if r.random() < .15:
            p.ask(q0(impl="hyper", c=c, verb="DELETE", keyed=True, key=some()))
        tgt = r.choice(["all", "row", "col"]) if mat else "all"
        keyed = tgt != "all" and r.random() < .4
        p.ask(q0(impl="hyper", c=c, tgt=tgt, keyed=keyed, key=[r.randrange(0, 3), 0] if keyed else [0, 0],
                 page=[r.choice([0, 0, 1, 2, 3, 4, 5, 6, 9, MANY]), r.choice([10, 1, 2, 3, 4, 5, 0, MANY])]))
    return p


def from_spec(r, h):
    p = Prog(r)
    for q in h:
        if q["kind"] in ("follow", "master"):
            p.do({q["kind"]: 1})
        else:
            q = dict(q)
            q["name"], q["mv"] = q["name"], list(q["mv"])
            p.ask(q, ("us", q["ius"]["us"]) if q["ius"]["kind"] == "at" else None)
    # what is there in the end, seen in every way
    for c in sorted(p.use):
        for impl in ("plain", "simple", "hyper"):
            p.ask(q0(impl=impl, c=c))
            if len(KINDS[c]) > 1:
                p.ask(q0(impl=impl, c=c, tgt="row"))
                p.ask(q0(impl=impl, c=c, tgt="col"))
    return p


SAME = {"Du": ["Du", "Do"], "Moo": ["Moo", "Muo"], "Ouu": ["Ouu", "Oou"], "Noo": ["Noo", "Nou"]}
MC = ("CHECK_DEADLOCK FALSE\nCONSTANTS OwnKey <- Own\nConts={%s}\nRows={%s}\nCols={%s}\nVals={%s}\nImpls={%s}\nMaxReq=%d\n")
PROPS = "SPECIFICATION MCSpec\nINVARIANTS ViewsAgree PagesAgree MCJournal\nPROPERTIES ErrorsChangeNothing ReadsChangeNothing FollowersChangeNothing OnlyTheAddressed\n"
GEN = "SPECIFICATION GenSpec\nVIEW GenView\nACTION_CONSTRAINT GenPrint\n"


def body(c):
    r = random.Random(c.seed)
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        fe = ex.submit(c.build, "rest", ["rest.cc", "csched.cc", "vnet.cc"], ["-O1"])
        fg = {x: ex.submit(c.generate, "requests on " + x, "storage/RestMC.tla", GEN + MC % ('"%s"' % x, "0,1", "0" if x == "Du" else "0,1", v, '"simple"', n), timeout=1800)
              for x, v, n in (("Du", "0,1", 4 if c.quick else 5), ("Ouu", "0,1", 3), ("Moo", "0,1", 3), ("Noo", "0,1", 3))}
        for x, rows, cols, v, n in ((("Du", "0,1", "0", "0,1", 3), ("Ouu", "0,1", "0,1", "1", 2)) if c.quick else
                                    (("Du", "0,1", "0", "0,1", 4), ("Ouu", "0,1", "0,1", "0,1", 3), ("Moo", "0,1", "0,1", "1", 3), ("Noo", "0,1", "0,1", "0,1", 3))):
            c.model_check("Rest on " + x, "storage/RestMC.tla", PROPS + MC % ('"%s"' % x, rows, cols, v, '"plain","simple"', n), timeout=3000)
        gens = {x: f.result() for x, f in fg.items()}
        exe = fe.result()
    jobs = []
    for x in sorted(gens):
        hs = sorted({json.dumps(h): h for h in gens[x]}.values(), key=json.dumps)
        c.log("%s: %d histories of requests" % (x, len(hs)))
        n = 500 if c.quick else 6000
        full = [h for h in hs if len(h) >= max(len(g) for g in hs) - 1]
        for h in (full if len(full) <= n else r.sample(full, n)):
            to = r.choice(SAME[x])
            # the two who choose no key for what is posted are not asked to
            if to != x and any(q["kind"] == "data" and q["verb"] == "POST" for q in h):
                to = x
            h = [dict(q, c=to, impl=r.choice(["plain", "simple", "simple", "hyper"])) if "impl" in q and q["kind"] == "data" else q for q in h]
            jobs.append(from_spec(r, h).job(r))
    jobs += [random_history(r, r.randrange(8, 26)).job(r) for _ in range(1500 if c.quick else 15000)]
    jobs += [pages_history(r).job(r) for _ in range(300 if c.quick else 4000)]
    qs = {json.dumps(j["prog"], sort_keys=True): j.pop("qs") for j in jobs}
    traces = c.explore(exe, jobs, "requests")
    pre = []
    for t in traces:
        q = qs[json.dumps(t["prog"], sort_keys=True)]
        pre.append({"ev": [event(e, q, c) for e in t["ev"]]})
    codes = {}
    for p in pre:
        for e in p["ev"]:
            if e["k"] == "req":
                k = "%s %d" % (e["q"]["verb"] if e["q"]["kind"] == "data" else e["q"]["kind"], e["r"]["code"])
                codes[k] = codes.get(k, 0) + 1
    c.cov["parts"]["responses"] = codes
    for i, at, out in c.validate("requests", "storage/RestTrace.tla", pre, "CONSTANTS OwnKey <- Own\n", timeout=1200 if c.quick else 3000):
        ev = pre[i]["ev"]
        at = min(at, len(ev) - 1)
        c.violation("the response, or what became of the storage, is not what the request calls for: event %d, %s; raw %s" %
                    (at, json.dumps({k: v for k, v in ev[at].items() if k != "d"})[:900], json.dumps(traces[i]["ev"][at].get("raw"))[:400]), dict(traces[i], projection=pre[i]))
    c.sample({"ev": pre[0]["ev"][:3]})
    c.finish()


main("P12", body)
