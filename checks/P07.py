"""P07: a storage transaction is all or nothing."""
from storage_common import *


def body(c):
    gens = [(["Du"], {"vals": "1,2"}), (["Ouu"], {}), (["Nuu"], {}), (["Muu"], {}), (["Du", "Ouu"], {})]
    exe, generated = prelude(c, [(["Ouu"], {"vals": "1"}), (["Du", "Ouu"], {"vals": "1", "maxmuts": 2})] if c.quick else
                             [(["Ouu"], {}), (["Nuu"], {}), (["Muu"], {}), (["Du", "Ouu"], {}), (["Du", "Nuu"], {"vals": "1"})],
                             [(conts, kw if c.quick else dict(kw, maxmuts=3)) for conts, kw in gens])
    r = random.Random(c.seed)
    parts = []
    # every transition of the specification, the transaction it happens in both committed and taken back
    for (conts, kw), hs in zip(gens, generated):
        if len(hs) > (900 if c.quick else 20000):
            hs = r.sample(hs, 900 if c.quick else 20000)
        seqs = []
        for i, h in enumerate(hs):
            rn = renames(conts)[i % len(renames(conts))]
            for last in (["abort"] if h[-1][0] == "abort" else ["commit"] if h[-1][0] == "commit" else ["abort", "commit"]):
                seqs.append(from_spec(r, h, rn, last=last))
        parts.append(("behaviours " + "+".join(conts), seqs))
    seqs = []
    for i in range(250 if c.quick else 6000):
        use = r.sample(DICTS + MATS, r.choice([1, 2, 3]))
        seqs.append({"file": int(i % 5 == 0), "use": use, "ops": history(r, use, r.randrange(2, 6), 9, views=.3, aborts=.6, reopen=.03)})
    run_histories(c, exe, parts + [("random histories", seqs)], timeout=600 if c.quick else 3000)
    c.finish()


main("P07", body)
