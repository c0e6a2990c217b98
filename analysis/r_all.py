"""Properties that cut across all collections: sizes (P10), iteration (P14), panics (P20)."""
import itertools
import r_model, r_map, r_vec, r_ht, iterspec, vecit, htit, htpar
from r_model import feed


def harnesses(P, tier):
    yield r_model.harness(P, "list")
    yield r_model.harness(P, "stack")
    yield r_model.queue_harness(P)
    yield r_map.harness(P, "map", tier)
    yield r_map.harness(P, "set", tier)
    yield r_vec.harness(P, tier)
    yield r_ht.harness(P, "map", tier)
    yield r_ht.harness(P, "set", tier)


def stepping(P, tier):
    yield tree_iters(P, tier, False)
    yield tree_iters(P, tier, True)
    yield vector_iters(P, tier)
    yield hash_iters(P, tier)


SIZES = ("::len", "::size", "::is_empty")


def p10(P, rep, tier):
    """The view of a value is only defined when its recorded size is the number of its elements, so every proved view
    proves the size too; the queries themselves are checked against the number of elements."""
    def sel(r):
        if r.fn.endswith(SIZES) or r.rep or r.aspect in ("len", "all"):
            return True
        return r.aspect == "view" and r.verdict == "ok"
    for H in harnesses(P, tier):
        feed(rep, H, sel=sel)
    rep.floor("functions", 50)


_iters = {}


def tree_iters(P, tier, ranges):
    """Iterators of ordered maps and sets; with ranges, only those over ranges."""
    k = (id(P), ranges)
    if k not in _iters:
        _iters[k] = iterspec.parallel(P, iterspec.iterators()[1 if ranges else 0], tier)
    return _iters[k]


def vector_iters(P, tier):
    k = (id(P), "vector")
    if k not in _iters:
        _iters[k] = vecit.parallel(P, tier)
    return _iters[k]


def hash_iters(P, tier):
    k = (id(P), "hash")
    if k not in _iters:
        _iters[k] = htit.parallel(P, tier)
    return _iters[k]


def points(rep, H):
    rep.count("iteration_states", H.stats["states"])


def p14(P, rep, tier):
    for H in (r_model.harness(P, "list"), r_model.harness(P, "stack"), r_model.queue_harness(P)):
        feed(rep, H, sel=lambda r: r.aspect in ("order", "hint"))
    H = tree_iters(P, tier, False)
    feed(rep, H, aspects=("order", "hint", "panic"))
    points(rep, H)
    H = vector_iters(P, tier)
    feed(rep, H, aspects=("order", "hint", "panic"))
    rep.sample("vectors of branching bits/height: %s" % " ".join("%d/%d" % c for c in H.confs))
    points(rep, H)
    H = hash_iters(P, tier)
    feed(rep, H, aspects=("order", "hint", "panic"))
    points(rep, H)
    rep.floor("functions", 20)


def p15(P, rep, tier):
    H = tree_iters(P, tier, True)
    feed(rep, H, aspects=("order", "hint", "panic"))
    points(rep, H)
    rep.floor("functions", 2)


def p20(P, rep, tier):
    for H in itertools.chain(harnesses(P, tier), stepping(P, tier)):
        feed(rep, H, sel=lambda r: r.aspect == "panic" or r.verdict == "unk")
        bad = {r.fn for r in H.results if r.verdict == "unk" or r.aspect == "panic"}
        free = {r.fn for r in H.results} - bad
        rep.ok(len(free))
        rep.count("functions_free_of_panics", len(free))
        rep.count("functions_searched_for_panics", len({r.fn for r in H.results}))
        for f in sorted(free)[:2]:
            rep.sample("no path of %s ends in a panic" % f)
    rep.floor("functions_searched_for_panics", 60)


def p17(P, rep, tier):
    C = htpar.ParCheck(P).run(tier)
    feed(rep, C)
    points(rep, C)
    rep.floor("functions", 1)
    rep.floor("iteration_states", 1)
