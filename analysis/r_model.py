"""Rules decided by the abstract interpreter: every outcome of every public operation, on a collection of arbitrary
contents, against the mathematical sequence / dictionary it stands for."""
import spec, seqspec


def short(fn):
    return fn.replace("rpds::", "").replace("core::iter::traits::", "")


def feed(rep, H, fns=None, aspects=None, sel=None):
    """Turn harness results into obligations of this property."""
    seen = set()
    for r in H.results:
        if fns and not fns(r.fn):
            continue
        if sel and not sel(r):
            continue
        if aspects and r.aspect not in aspects and r.aspect != "all":
            continue
        seen.add(r.fn)
        if r.verdict == "ok":
            rep.ok()
            rep.count("paths_" + r.aspect)
        elif r.verdict == "bad":
            rep.obligations += 1
            rep.violate("%s:%s" % (short(r.fn), r.aspect), "%s: %s" % (r.fn, r.msg))
        else:
            rep.note_unknown("%s [%s] %s" % (short(r.fn), r.aspect, r.msg))
    for m in H.missing:
        if not fns or fns(m):
            rep.note_unknown("missing: " + m)
    rep.count("functions", len(seen))
    rep.count("loops_summarised", H.stats["loops"])
    rep.count("resolved_instances_interpreted", len(H.stats["instances"]))
    rep.count("paths", H.stats["paths"])
    for f in sorted(seen)[:6]:
        rep.sample("%s on a collection of arbitrary contents" % f)


_cache = {}


def harness(P, what, iters=True, **kw):
    key = (id(P), what, iters, tuple(sorted(kw.items())))
    if key not in _cache:
        H = spec.Harness(P, **kw)
        specs, its = dict(list=(seqspec.list_specs, seqspec.list_iters), stack=(seqspec.stack_specs, seqspec.stack_iters),
                          queue=(seqspec.queue_specs, seqspec.queue_iters))[what]
        specs(H)
        if iters:
            its(H)
        H.run()
        _cache[key] = H
    return _cache[key]


def queue_harness(P, iters=True):
    """Which backing list holds the oldest elements is a private choice: take the reading under which the operations agree."""
    hs = [harness(P, "queue", iters, queue_order=o) for o in (1, 0)]
    return min(hs, key=lambda h: len({(r.fn, r.aspect) for r in h.results if r.verdict == "bad"}) * 1000 + sum(r.verdict == "unk" for r in h.results))


def p03(P, rep):
    feed(rep, harness(P, "list"), aspects=("ret", "view", "rep", "len", "panic", "order"))
    rep.floor("functions", 14)


def p04(P, rep):
    feed(rep, harness(P, "stack"), aspects=("ret", "view", "rep", "len", "panic", "order"))
    rep.floor("functions", 10)


def p05(P, rep):
    feed(rep, queue_harness(P), aspects=("ret", "view", "rep", "len", "panic", "order"))
    rep.floor("functions", 10)
