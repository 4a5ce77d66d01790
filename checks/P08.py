"""P08: the views of a storage container always agree."""
from storage_common import *


def body(c):
    gens = [(["Du"], {"vals": "1,2", "rows": "0,1,2", "maxtx": 1, "maxmuts": 4}), (["Ouu"], {"rows": "0,1,2", "maxtx": 1, "maxmuts": 4}),
            (["Nuu"], {"rows": "0,1,2", "maxtx": 1, "maxmuts": 4}), (["Muu"], {"rows": "0,1,2", "maxtx": 1, "maxmuts": 4})]
    exe, generated = prelude(c, [(["Ouu"], {"vals": "1", "rows": "0,1,2", "maxtx": 1, "maxmuts": 4}), (["Nuu"], {"vals": "1"}), (["Muu"], {"vals": "1"})] if c.quick else
                             [([x], {"rows": "0,1,2", "maxtx": 1, "maxmuts": 4}) for x in ("Ouu", "Nuu", "Muu")] + [(["Du"], {"maxmuts": 4})],
                             [(conts, kw if c.quick else dict(kw, cols="0,1,2" if conts[0] != "Du" else "0", maxmuts=4)) for conts, kw in gens])
    r = random.Random(c.seed)
    parts = []
    # every transition of the specification between contents of a container, on every container of these semantics
    for (conts, kw), hs in zip(gens, generated):
        cap = 1000 if c.quick else 15000
        if len(hs) > cap:
            hs = r.sample(hs, cap)
        parts.append(("behaviours " + conts[0], [from_spec(r, h, rn, viewed=True) for i, h in enumerate(hs) for k, rn in enumerate(renames(conts))
                                                 if not c.quick or k == i % len(renames(conts))]))
    seqs = []
    for i in range(280 if c.quick else 7000):
        use = [(DICTS + MATS)[i % 14]]
        seqs.append({"file": 0, "use": use, "ops": history(r, use, r.randrange(2, 5), 14, views=.4, kinds=["v", "void", "two", "rov"], aborts=.3, reopen=.05)})
    run_histories(c, exe, parts + [("random histories", seqs)], timeout=600 if c.quick else 3000)
    c.finish()


main("P08", body)
