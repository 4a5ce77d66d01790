"""P09: the journal replays to the storage in memory."""
from storage_common import *


def body(c):
    gens = [(["Du"], {"vals": "1,2"}), (["Ouu"], {}), (["Nuu"], {}), (["Muu"], {})]
    exe, generated = prelude(c, [(["Nuu"], {"vals": "1"}), (["Du"], {"maxtx": 3, "maxmuts": 2})] if c.quick else
                             [(["Ouu"], {}), (["Nuu"], {}), (["Du"], {"maxtx": 3, "maxmuts": 2}), (["Du", "Muu"], {"vals": "1"})],
                             [(conts, kw if c.quick else dict(kw, maxmuts=3)) for conts, kw in gens])
    r = random.Random(c.seed)
    parts = []
    for (conts, kw), hs in zip(gens, generated):
        cap = 700 if c.quick else 12000
        if len(hs) > cap:
            hs = r.sample(hs, cap)
        parts.append(("behaviours " + conts[0], [from_spec(r, h, renames(conts)[i % len(renames(conts))], replays=True, file=int(i % 4 == 0), last="commit")
                                                 for i, h in enumerate(hs)]))
    seqs = []
    for i in range(250 if c.quick else 6000):
        use = r.sample(DICTS + MATS, r.choice([1, 2, 3, 4]))
        seqs.append({"file": i % 2, "use": use, "ops": history(r, use, r.randrange(3, 9), 7, views=.05, aborts=.3, reopen=.6)})
    run_histories(c, exe, parts + [("random histories", seqs)], timeout=600 if c.quick else 3000)
    c.finish()


main("P09", body)
