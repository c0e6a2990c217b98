"""P07 and P08: the ordered map as a dictionary, and its balance."""
import spec, mapspec
from r_model import feed

_cache = {}


def refute(P, specs, path, H, swap, cols, tier):
    """Where summaries leave a doubt, follow the recursion concretely for a few levels: what that finds is definite."""
    doubt = sorted({r.fn for r in H.results if r.verdict != "ok"} - {r.fn for r in H.results if r.verdict == "bad"})
    for fn in doubt:
        for u in ((1, 2) if tier == "quick" else (1, 2, 3)):
            U = spec.Harness(P, mapspec.tree_engine, unroll=u, swap=swap, cols=cols, budget=100000 if tier == "quick" else 1000000)
            specs(U, path)
            U.run(lambda n: n == fn)
            H.stats["paths"] += U.stats["paths"]
            bad = [r for r in U.results if r.verdict == "bad"]
            H.results += bad
            if bad:
                break


def one(P, what, swap=False, cols="NB", tier="quick", raw=False):
    specs, path = dict(map=(mapspec.map_specs, mapspec.MAPS["rb"][0]), set=(mapspec.set_specs, mapspec.MAPS["rb"][1]))[what]
    H = spec.Harness(P, mapspec.tree_engine, swap=swap, cols=cols)
    H.roots = set()
    specs(H, path)
    H.run()
    if "R" in H.roots and cols == "NB":
        return one(P, what, swap, "NRB", tier)
    refute(P, specs, path, H, swap, cols, tier)
    return H


def harness(P, what, tier="quick"):
    """The children may be stored either way round: take the reading under which the operations agree."""
    key = (id(P), what)
    if key not in _cache:
        H = one(P, what, tier=tier)
        n = len({r.fn for r in H.results if r.verdict == "bad"})
        if n > 3:
            H2 = one(P, what, swap=True, tier=tier)
            if len({r.fn for r in H2.results if r.verdict == "bad"}) < n:
                H = H2
        _cache[key] = H
    return _cache[key]


ASPECTS = ("ret", "view", "rep", "panic", "order")


def p07(P, rep, tier):
    feed(rep, harness(P, "map", tier), aspects=ASPECTS)
    rep.floor("functions", 14)
    count_summaries(P, rep)


def p08(P, rep, tier):
    for w in ("map", "set"):
        feed(rep, harness(P, w, tier), aspects=("shape",))
    rep.floor("functions", 8)
    count_summaries(P, rep)


def count_summaries(P, rep):
    for swap, t in getattr(P, "summaries", {}).items():
        rep.count("recursive_summary_classes", len(t["demand"]))
        rep.count("recursive_summary_outcomes", sum(len(v) for v in t["table"].values()))
        for k in t["demand"]:
            s = t["status"][k]
            if s["bad"] or s["unk"]:
                rep.note_unknown("summary of %s: %s" % (P.insts[k[0]]["n"], (s["bad"] + s["unk"])[0]))


def sharing(P, rep):
    """Removing an absent key: the version returned has the very root of the original."""
    for specs, path in ((mapspec.map_specs, mapspec.MAPS["rb"][0]), (mapspec.set_specs, mapspec.MAPS["rb"][1])):
        H = spec.Harness(P, mapspec.tree_engine)
        H.sharing = True
        specs(H, path)
        H.run()
        feed(rep, H, aspects=("share",))
        rep.count("removals of absent keys", len({r.fn for r in H.results if r.aspect == "share"}))
