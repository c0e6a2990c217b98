"""P24: every value of every construction parameter is refused, or leads to a collection that works."""
import multiprocessing, os
import spec, htspec, vecspec, eng, engx, r_ht
from eng import I, lconst, Unknown, Split, Infeasible
from engx import Budget

VEC = "rpds::vector::Vector"
HT = ("rpds::map::hash_trie_map::HashTrieMap", "rpds::set::hash_trie_set::HashTrieSet")

_work = {}


def param_fields(P, t):
    """Paths to the u8 fields inside a structure of the crate."""
    x = P.types[t]
    if x["k"] != "adt" or len(x.get("v", ())) != 1 or not x["p"].startswith("rpds::"):
        return []
    out = []
    for k, f in enumerate(x["v"][0]["f"]):
        if P.types[f["t"]]["s"] == "u8":
            out.append((k,))
        else:
            out += [(k,) + p for p in param_fields(P, f["t"])]
    return out


def constructors(P):
    """(instance, index of the parameter, collection, path to the field that keeps it)."""
    for x in P.insts:
        b = x.get("body")
        if not x.get("root") or not b or x["n"].startswith("<") or P.root(x["n"]) is not x:
            continue
        ret = P.types[b["locals"][0]]
        if ret["k"] != "adt" or ret["p"] not in (VEC,) + HT:
            continue
        tys = b["locals"][1:1 + b["argc"]]
        if any(P.types[t]["k"] == "ref" for t in tys) or any(P.is_adt(t, p) for t in tys for p in (VEC,) + HT):
            continue
        at = [k for k, t in enumerate(tys) if P.types[t]["s"] == "u8"]
        path = param_fields(P, b["locals"][0])
        if len(path) == 1:
            yield x, at[0] if len(at) == 1 else None, ret["p"], path[0]


def _construct(j):
    """What a constructor makes of one value: 'refused', a kept value, or None."""
    k, d = _work["cons"][j]
    P = _work["P"]
    x, at, coll, path = _work["list"][k]
    E = htspec.ht_engine(P) if coll in HT else vecspec.vec_engine(P)
    st = eng.St()
    try:
        args = []
        for n, t in enumerate(x["body"]["locals"][1:1 + x["body"]["argc"]]):
            args.append(I(lconst(d)) if n == at else E.value(st, t, "a%d" % n))
        res = set()
        for s, kind, v in E.call_inst(st, x["id"], args):
            if kind == "panic":
                res.add("refused")
            elif kind == "ret":
                v = E.force(s, v)
                for f in path:
                    v = E.force(s, v[3][f])
                c = E.fixed(s, E.intof(s, v))
                res.add(c if c is not None else "unknown")
            else:
                res.add("unknown")
        return j, res
    except (Unknown, Split, Infeasible, Budget, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
        return j, {"unknown"}


VOPS = ("::push_back_mut", "::get", "::set", "::drop_last_mut", "::get_mut")
HOPS = ("::insert", "::get", "::remove_mut", "::get_mut")


def _operate(j):
    coll, p, cfg, fn = _work["ops"][j]
    P = _work["P"]
    if coll == VEC:
        H = spec.Harness(P, vecspec.vec_engine, bits=p, h=cfg, budget=200000)
        vecspec.vec_specs(H)
    else:
        k = p.bit_length() - 1
        m = -(-64 // k)
        H = spec.Harness(P, htspec.ht_engine, k=k, free=(0, m - 1), budget=400000)
        htspec.map_specs(H)
    H.run(lambda n: n == fn)
    bad = [r for r in H.results if r.verdict == "bad"]
    unk = [r for r in H.results if r.verdict == "unk"]
    return j, [(r.fn, r.msg) for r in bad], [(r.fn, r.msg) for r in unk], len(H.results)


def pool(f, n):
    if not n:
        return []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
        return sorted(p.imap_unordered(f, range(n), chunksize=1 if f is _operate else 32), key=lambda x: x[0])


def p24(P, rep, tier):
    cons = list(constructors(P))
    jobs = [(k, d) for k, c in enumerate(cons) for d in (range(256) if c[1] is not None else (None,))]
    _work.update(P=P, list=cons, cons=jobs)
    kept = {}
    for j, res in pool(_construct, len(jobs)):
        k, d = jobs[j]
        x, at, coll, path = cons[k]
        rep.count("constructor_values")
        if "unknown" in res:
            rep.note_unknown("%s(%s)" % (x["n"], d))
            continue
        for v in res:
            if v == "refused":
                rep.count("refused")
                rep.ok()
            else:
                kept.setdefault((coll == VEC, v), []).append((x["n"], d))
        if len(res) != 1:
            rep.note_unknown("%s(%s): more than one outcome" % (x["n"], d))
    for x, at, coll, path in cons:
        rep.sample("%s, %s" % (x["n"], "parameter 0..=255" if at is not None else "default parameter"))
    # what the accepted values lead to
    ops, good = [], []
    for vec, v in sorted(kept):
        if vec:
            if v == 0 or v > 64:
                continue
            for h in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                if h == 0 or v * h <= 62 and (h < 2 or v <= 8 or tier != "quick" and v <= 16):
                    ops += [(VEC, v, h, VEC + o) for o in VOPS]
        elif v >= 2 and v & (v - 1) == 0:
            ops += [(HT[0], v, None, HT[0] + o) for o in HOPS]
    ops.sort(key=lambda o: (o[0] == VEC, o[1]))
    _work["ops"] = ops
    broken = {}
    for j, bad, unk, n in pool(_operate, len(ops)):
        coll, v, cfg, fn = ops[j]
        rep.count("operations_at_a_value")
        if bad:
            broken.setdefault((coll == VEC, v), "%s: %s" % bad[0])
        for m in unk[:1]:
            rep.note_unknown("%s at %s: %s" % (fn, v, m[1]))
        rep.ok(n - len(bad))
    for (vec, v), who in sorted(kept.items()):
        why = broken.get((vec, v))
        if vec:
            if v == 0:
                why = "a node without room for any child"
            elif v > 64:
                why = "wider than an index"
        elif v < 2:
            why = "no digit of the hash is consumed on the way down: the descent never ends"
        elif v & (v - 1):
            why = "not a power of two: the digit mask has gaps, so entries of different hashes meet above the last level"
        rep.count("accepted")
        if why is None:
            rep.ok(len(who))
            continue
        for n in sorted({n for n, _ in who}):
            rep.violate("%s:%d" % (n.replace("rpds::", ""), v), "%s accepts %s, keeping %d: %s" % (n, ",".join(str(d) for m, d in who if m == n), v, why))
    rep.floor("constructor_values", 4 * 256)
