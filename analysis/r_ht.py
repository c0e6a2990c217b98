"""P09: hash maps and sets as finite maps and sets, for each degree and choice of the hash digits that may differ."""
import multiprocessing, os
import spec, htspec
from r_model import feed

# bits per level, levels at which hashes may differ
QUICK = [(6, (0, 10)), (6, (0, 1)), (6, (0, 5)), (5, (0, 12)), (4, (0, 15)), (3, (0, 21)), (2, (0, 31)), (1, (0, 63)), (6, (0, 4, 10))]
DEEP = [(6, (0, 1, 2)), (6, (0, 9, 10)), (6, (0, 1, 2, 3, 10)), (5, (0, 1, 11, 12)), (4, (0, 1, 14, 15)), (3, (0, 1, 20, 21)), (2, (0, 1, 30, 31)), (1, (0, 1, 63))]
COLL = 3

_work = {}
_cache = {}


def _job(k):
    which, bits, free, fn = _work["jobs"][k]
    deep = _work["tier"] != "quick"
    H = spec.Harness(_work["P"], htspec.ht_engine, k=bits, free=free, coll=4 if deep else COLL, budget=2000000 if deep else 200000)
    htspec.SPECS[which](H)
    H.run(lambda n: n == fn)
    for r in H.results:
        if r.verdict != "ok":
            r.msg += " (degree %d, hashes differing at the levels %s)" % (1 << bits, ",".join(map(str, free)))
    return k, H.results, H.stats, H.missing


def harness(P, which, tier="quick"):
    key = (id(P), which)
    if key in _cache:
        return _cache[key]
    H = spec.Harness(P, htspec.ht_engine)
    htspec.SPECS[which](H)
    confs = QUICK if tier == "quick" else DEEP + QUICK
    trivial = ("::new", "::new_sync", "::default", "_ptr_kind", "::clone", "::size", "::is_empty")
    jobs = [(which, b, f, fn) for b, f in confs for fn in H.specs if not fn.endswith(trivial) or (b, f) == (6, (0, 10))]
    if tier == "quick":
        # degrees 2 and 4 are deep: only the operations that the others delegate to
        jobs = [j for j in jobs if j[1] > 2 or which == "map" and j[3].endswith(("::get", "::get_mut", "::insert_mut", "::remove_mut"))]
    jobs.sort(key=lambda j: (j[1], "remove" not in j[3]))
    _work.update(P=P, jobs=jobs, tier=tier)
    H.confs = confs
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for k, res, stats, missing in sorted(pool.imap_unordered(_job, range(len(jobs)), chunksize=1), key=lambda x: x[0]):
            H.results += res
            H.missing += [m for m in missing if m not in H.missing]
            for n in ("paths", "loops", "steps"):
                H.stats[n] += stats[n]
            H.stats["instances"] |= stats["instances"]
    _cache[key] = H
    return H


def p09(P, rep, tier):
    for which in ("map", "set"):
        H = harness(P, which, tier)
        feed(rep, H, aspects=("ret", "view", "rep", "len", "panic", "order"))
        rep.count("configurations", len(H.confs))
    rep.sample("degrees and levels: %s" % " ".join("%d/%s" % (1 << b, ",".join(map(str, f))) for b, f in H.confs))
    rep.floor("functions", 20)


def sharing(P, rep):
    for which in ("map", "set"):
        H = spec.Harness(P, htspec.ht_engine, k=6, free=(0, 10), coll=COLL, budget=200000)
        H.sharing = True
        htspec.SPECS[which](H)
        H.run()
        feed(rep, H, aspects=("share",))
        rep.count("removals of absent keys", len({r.fn for r in H.results if r.aspect == "share"}))
