from persistence_common import *
import itertools

DICTS = ["Du", "Do"]
MATS = [k + x for k in "MON" for x in ("uu", "oo", "uo", "ou")]


def body_ops(r, use, n, rw, views=.15):
    b = []
    for _ in range(n):
        if not rw or r.random() < views:
            b.append(["view"])
            continue
        if r.random() < .08:
            b.append(r.choice([["meta", r.choice("ab"), r.choice("xyz")], ["unmeta", r.choice("ab")]]))
            continue
        c = r.choice(use)
        if c in DICTS:
            b.append([r.choice(["add", "add", "add", "erase", "readd"]), c, r.randrange(0, 5), 0, r.randrange(0, 50)])
        else:
            op = r.choice(["add", "add", "add", "add", "erase", "erase2", "readd", "eraserow", "erasecol"])
            b.append([op, c, r.randrange(0, 3), r.randrange(0, 3), r.randrange(0, 50)])
    return b


def history(r, use, ntx, nops, views=.15, kinds=None, reopen=.1, aborts=.45):
    ops = []
    for _ in range(ntx):
        kind = r.choice(kinds or ["v", "void", "two", "v", "void", "two", "rov", "rovoid", "rotwo"])
        rw = kind in ("v", "void", "two")
        how = "ret" if r.random() > aborts else r.choice(["throw", "rb"] + ([] if kind in ("void", "rovoid") else ["rbv"]))
        o = {"tx": kind, "body": body_ops(r, use, r.randrange(0, nops) if rw else r.choice([0, 1]), rw, views), "end": how,
             "f2": r.choice(["ret", "ret", "ret", "throw", "rb"]), "v": 1 if r.random() < .6 else 0}
        ops.append(o)
        if r.random() < reopen:
            ops.append(r.choice([{"replay": -1}, {"replay": r.randrange(0, 4)}, {"reopen": 1}]))
    if r.random() < .1:
        ops.append({"shutdown": 1})
        ops.append({"tx": r.choice(["v", "void", "two", "rov", "rovoid", "rotwo"]), "body": [], "end": "ret", "f2": "ret", "v": 0})
    else:
        ops.append({"tx": "rovoid", "body": [["view"]], "end": "ret", "f2": "ret", "v": 0})
        ops.append({"replay": -1})
    return ops


def prepare(t):
    """The journal as seen after a transaction belongs to its end."""
    ev = []
    for e in t["ev"]:
        if e["k"] == "journal":
            ev[-1] = dict(ev[-1], j=e)
        elif e["k"] == "end":
            ev.append(dict(e))
        else:
            ev.append(e)
    # transactions whose result carries a value
    tx = [o["tx"] for o in t["seq"]["ops"] if "tx" in o]
    k = 0
    for e in ev:
        if e["k"] == "end":
            e["valued"] = tx[k] in ("v", "rov")
            k += 1
    return {"ev": ev}


def key_of(ev, at):
    if 0 <= at < len(ev) and ev[at]["k"] == "end" and ev[at]["how"] in ("ret", "rbv") and ev[at]["f2"] == "rb" and ev[at]["st"] == "rolledback" \
            and ev[at]["f2n"] == 1 and ev[at]["how"] == "ret":
        return "two-step-follow-up-rollback"
    return None


SOURCES = ["storage.cc", "storage_mem.cc", "storage_file.cc"]


def prelude(c, models, gens):
    """Builds the driver, model checks `models` and generates `gens` side by side; returns (driver, [histories per gens entry])."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(c.build, "storage", SOURCES, ["-O0"])
        fg = [ex.submit(spec_histories, c, "+".join(conts), conts, **kw) for conts, kw in gens]
        for f in [ex.submit(c.model_check, "Storage: " + "+".join(conts), "storage/StorageMC.tla", mc(conts, **kw), timeout=1800)
                  for conts, kw in models]:
            f.result()
        return fe.result(), [f.result() for f in fg]


def run_histories(c, exe, parts, timeout=600):
    """parts: [(name, programs)]"""
    traces, names = [], []
    for part, seqs in parts:
        t = run_driver(c, exe, seqs, part)
        c.log("%s: %d histories run" % (part, len(t)))
        traces += t
        names += [part] * len(t)
        for x in t[:1]:
            c.sample({"seq": x["seq"], "ev": x["ev"][:5]})
    pre = [prepare(t) for t in traces]
    order = list(range(len(pre)))
    random.Random(1).shuffle(order)
    for k, at, out in c.validate("histories", "storage/StorageTrace.tla", [pre[i] for i in order], timeout=timeout):
        i = order[k]
        at = min(at, len(pre[i]["ev"]) - 1)
        lo = max(0, at - 3)
        c.violation("%s: history rejected by the specification at event %d: %s" % (names[i], at, json.dumps(pre[i]["ev"][lo:at + 1])[:1500]),
                    traces[i]["seq"], key=key_of(pre[i]["ev"], at))
    return traces


def mc(conts, rows="0,1", cols="0,1", vals="1,2", maxtx=2, maxmuts=3):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Conts={%s}\nRows={%s}\nCols={%s}\nVals={%s}\nMaxTx=%d\nMaxMuts=%d\n"
            "INVARIANTS OneToOneHolds OneToManyHolds EveryElementDated ReplayExact UndoExact RedoExact JournalOrdered\nPROPERTIES JournalGrows\n"
            % (",".join('"%s"' % x for x in conts), rows, cols, vals, maxtx, maxmuts))


def spec_histories(c, part, conts, rows="0,1", cols="0,1", vals="1", maxtx=2, maxmuts=2):
    """One history of the specification per transition between its states (those which continue as another one left out)."""
    g = c.generate(part, "storage/StorageGen.tla",
                   "SPECIFICATION GenSpec\nVIEW GenView\nACTION_CONSTRAINT GenPrint\nCHECK_DEADLOCK FALSE\nCONSTANTS Conts={%s}\nRows={%s}\nCols={%s}\n"
                   "Vals={%s}\nMaxTx=%d\nMaxMuts=%d\n" % (",".join('"%s"' % x for x in conts), rows, cols, vals, maxtx, maxmuts), timeout=1200)
    prefixes = {json.dumps(h[:i]) for h in g for i in range(1, len(h))}
    seen = {}
    for h in g:
        k = json.dumps(h)
        if k not in prefixes:
            seen[k] = h
    return [seen[k] for k in sorted(seen)]


def from_spec(r, h, rename, viewed=False, replays=False, file=0, last=None):
    """A history of the specification as a program of the driver; what the specification leaves open is chosen at random."""
    ops, body, use = [], None, set()
    h = h if h[-1][0] in ("commit", "abort") else h + [[last or r.choice(["commit", "abort"])]]
    for x in h:
        if x[0] == "begin":
            body = []
        elif x[0] in ("commit", "abort"):
            kind = r.choice(["v", "void", "two"])
            how = "ret" if x[0] == "commit" else r.choice(["throw", "rb"] + ([] if kind == "void" else ["rbv"]))
            ops.append({"tx": kind, "body": body, "end": how, "f2": r.choice(["ret", "ret", "throw", "rb"]), "v": 1})
            if replays:
                ops.append({"replay": -1})
        else:
            cc = rename.get(x[1], x[1])
            use.add(cc)
            op = r.choice(["erase", "erase2"]) if x[0] == "erase" and cc not in DICTS else x[0]
            body.append([op, cc, x[2], x[3], x[4]])
            if viewed:
                body.append(["view"])
    return {"file": file, "use": sorted(use), "ops": ops}


def renames(conts):
    """The containers of the same semantics the behaviours of `conts` are run on."""
    fam = {"D": ["Du", "Do"], "M": MATS[0:4], "O": MATS[4:8], "N": MATS[8:12]}
    return [dict(zip(conts, p)) for p in itertools.zip_longest(*[fam[x[0]] for x in conts], fillvalue=None)] if len(conts) == 1 else \
           [dict(zip(conts, p)) for p in zip(*[itertools.islice(itertools.cycle(fam[x[0]]), 4) for x in conts])]
