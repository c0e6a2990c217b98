"""P06: the vector as an indexable sequence, for each branching and height of a grid (any length of that height)."""
import multiprocessing, os
import spec, vecspec, engvec
from r_model import feed

QUICK = [(5, 2), (2, 2), (1, 3), (3, 2), (1, 2), (5, 1), (2, 1), (1, 1), (16, 1), (32, 1), (5, 0), (1, 0), (2, 0), (63, 0)]
DEEP = [(5, 3), (4, 3), (3, 3), (2, 4), (1, 5), (2, 3), (8, 2), (16, 2), (7, 2), (6, 2), (4, 2), (1, 4), (3, 1), (4, 1), (7, 1),
        (24, 1), (31, 1), (33, 1), (47, 1), (3, 0), (4, 0), (16, 0), (31, 0), (32, 0), (47, 0), (48, 0), (62, 0)]

_work = {}
_cache = {}


def _job(k):
    b, h, fn = _work["jobs"][k]
    P = _work["P"]
    H = spec.Harness(P, vecspec.vec_engine, bits=b, h=h, budget=60000 if _work["tier"] == "quick" else 1000000)
    vecspec.vec_specs(H)
    H.run(lambda n: n == fn)
    for r in H.results:
        if r.verdict != "ok":
            r.msg += " (branching 2^%d, height %d)" % (b, h)
    return k, H.results, H.stats, H.missing


def harness(P, tier="quick"):
    if id(P) in _cache:
        return _cache[id(P)]
    H = spec.Harness(P, vecspec.vec_engine)
    vecspec.vec_specs(H)
    confs = QUICK if tier == "quick" else DEEP[:8] + QUICK + DEEP[8:]
    jobs = [(b, h, fn) for b, h in confs for fn in H.specs if not fn.endswith(("::new", "::new_sync", "default", "::new_with_ptr_kind")) or (b, h) == (5, 0)]
    _work.update(P=P, jobs=jobs, tier=tier)
    H.confs = confs
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for k, res, stats, missing in sorted(pool.imap_unordered(_job, range(len(jobs)), chunksize=1), key=lambda x: x[0]):
            H.results += res
            H.missing += [m for m in missing if m not in H.missing]
            for n in ("paths", "loops", "steps"):
                H.stats[n] += stats[n]
            H.stats["instances"] |= stats["instances"]
    _cache[id(P)] = H
    return H


def p06(P, rep, tier):
    H = harness(P, tier)
    feed(rep, H, aspects=("ret", "view", "rep", "len", "panic", "order"))
    rep.count("configurations", len(H.confs))
    rep.sample("branching bits and heights: %s" % " ".join("%d/%d" % c for c in H.confs))
    rep.floor("functions", 17)
