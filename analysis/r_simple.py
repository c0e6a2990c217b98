"""Rule checks over the type-checked program: P01 (hidden shared mutation), P26 (no_std)."""
import re

# ---------------------------------------------------------------------------------------------
# P01: the only ways a Rust library can let one handle observe another handle's mutation are
#  (a) interior mutability reachable from a collection's storage, (b) mutable/non-freeze globals,
#  (c) writes through raw pointers or type-system escapes, (d) an unsound copy-on-write primitive
#  (archery, trusted) or a copy-on-write copy that is not a copy (checked by the engine).
WRITE_ESCAPES = (
    "core::mem::transmute", "core::intrinsics::transmute", "core::mem::transmute_copy",
    "core::ptr::write", "core::ptr::write_volatile", "core::ptr::write_unaligned", "core::ptr::copy",
    "core::ptr::copy_nonoverlapping", "core::ptr::swap", "core::ptr::replace", "core::ptr::drop_in_place",
    "core::ptr::write_bytes", "core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile",
    "core::slice::raw::from_raw_parts_mut",
)
WRITE_SUFFIX = ("get_mut_unchecked", "from_raw", "get_unchecked_mut")


def freeze_offenders(P, tid, seen, path):
    """Types with interior mutability stored by value or behind an owned pointer in `tid`."""
    t = P.types[tid]
    if tid in seen or t is None:
        return
    seen.add(tid)
    k = t["k"]
    if k == "adt":
        p = t["p"]
        if p == "core::cell::UnsafeCell" or p.startswith("core::sync::atomic::") or p.startswith("core::cell::"):
            yield path + [t["s"]]
            return
        if p in ("core::marker::PhantomData",):
            return
        if p.startswith("archery::") or p.startswith("triomphe::"):
            # The reference-counted pointer itself is trusted; what it points to is not.
            for a in t["a"]:
                if isinstance(a, int):
                    yield from freeze_offenders(P, a, seen, path + [t["s"]])
            return
        for a in t["a"]:
            if isinstance(a, int):
                yield from freeze_offenders(P, a, seen, path + [t["s"]])
        for v in t.get("v", []):
            for f in v["f"]:
                yield from freeze_offenders(P, f["t"], seen, path + [t["s"] + "." + f["n"]])
    elif k in ("tuple", "closure"):
        for a in t["a"]:
            yield from freeze_offenders(P, a, seen, path)
    elif k in ("ref", "slice", "array", "ptr"):
        yield from freeze_offenders(P, t["t"], seen, path)
    elif k == "dyn":
        yield path + [t["s"]]


def has_deref_of_raw(P, body, place):
    tid = body["locals"][place[0]]
    for e in place[1:]:
        t = P.types[tid]
        if e == "*":
            if t["k"] == "ptr":
                return True
            if t["k"] in ("ref",):
                tid = t["t"]
            else:
                return False
        elif e[0] == "f":
            tid = e[2]
        elif e[0] == "i" or e[0] == "ci":
            if t["k"] in ("array", "slice"):
                tid = t["t"]
            else:
                return False
        elif e[0] == "v":
            pass
        else:
            return False
    return False


def p01_rules(P, rep):
    for a in P.items["adts"]:
        rep.count("storage types checked for interior mutability")
        bad = list(freeze_offenders(P, a["t"], set(), []))
        rep.ok()
        for b in bad:
            rep.violate(f"P01:interior:{a['n']}",
                        f"{a['span']}: type {a['n']} contains interior mutability through {' -> '.join(b)}: "
                        "a shared handle can change what other handles and versions observe")
    for s in P.items["statics"]:
        rep.ok()
        if s["mut"] or not s["freeze"] or s["tls"]:
            rep.violate(f"P01:static:{s['n']}", f"{s['span']}: mutable global state {s['n']} shared by all handles")
    rep.info["statics checked"] = len(P.items["statics"])
    for c in P.items["others"]:
        if c["k"] == "const" and not c["freeze"]:
            rep.violate(f"P01:const:{c['n']}", f"{c['span']}: constant {c['n']} has interior mutability")
    for i, x in enumerate(P.insts):
        if x["crate"] != "rpds" or "body" not in x or "<derived>" in x["n"]:
            continue
        rep.count("function bodies scanned for raw writes")
        b = x["body"]
        for bb in b["blocks"]:
            if bb["c"]:
                continue
            for st in bb["s"]:
                if st[0] == "=":
                    pl, rv = st[1], st[2]
                    if has_deref_of_raw(P, b, pl):
                        rep.violate(f"P01:rawwrite:{x['n']}", f"{P.insts[i]['span']}: {x['n']} writes through a raw pointer (line {st[-1]})")
                    if rv[0] in ("&mut", "raw", "reborrowmut") and has_deref_of_raw(P, b, rv[1]) and rv[0] != "raw":
                        rep.violate(f"P01:rawmut:{x['n']}", f"{P.insts[i]['span']}: {x['n']} makes a mutable reference from a raw pointer (line {st[-1]})")
                    if rv[0] == "cast" and "Transmute" in rv[1]:
                        rep.violate(f"P01:transmute:{x['n']}", f"{P.insts[i]['span']}: {x['n']} transmutes (line {st[-1]})")
            t = bb["t"]
            if t[0] == "call" and t[1][0] == "fn":
                c = t[1][2]
                n = c["n"]
                rep.count("call sites scanned for write escapes")
                if n in WRITE_ESCAPES or n.startswith("*mut T::") and not n.endswith(("cast", "is_null", "addr")) \
                        or n.rsplit("::", 1)[-1] in WRITE_SUFFIX and ("ptr" in n or "Pointer" in n or "slice" in n or "[T]" in n):
                    rep.violate(f"P01:escape:{x['n']}:{n}", f"{P.line(i, t)}: {x['n']} calls {n}, which can write through shared storage")
    rep.floor("storage types checked for interior mutability", 30)
    rep.floor("function bodies scanned for raw writes", 400)


# ---------------------------------------------------------------------------------------------
def std_refs(P):
    """References from the crate's bodies to items of crate std, as (function, item)."""
    for i, x in enumerate(P.insts):
        if x["crate"] != "rpds":
            continue
        for k, c, a, t in P.calls(i, cleanup=True):
            if c and (c["n"].startswith("std::") or c["n"].startswith("<std::")):
                yield x["n"], c["n"]


def canon_body(P, x):
    """A body with type ids and instance ids replaced by their names, so two dumps compare."""
    b = x["body"]
    out = []
    for bb in b["blocks"]:
        row = []
        for st in bb["s"]:
            if st[0] == "=":
                row.append(("=", shape(P, st[1]), shape(P, st[2])))
            else:
                row.append(st[0])
        t = bb["t"]
        if t[0] == "switch":
            row.append((t[0], shape(P, t[1]), shape(P, t[2]), t[3]))
        elif t[0] == "drop":
            row.append((t[0], shape(P, t[1]), t[2], t[3], tnorm(P, t[4])))
        else:
            row.append((t[0], shape(P, t[1:-1])))
        out.append(row)
    return out


def tnorm(P, t):
    return re.sub(r"\b(std|core|alloc)::", "", P.tstr(t))


def shape(P, o):
    """Structure of a MIR fragment up to interning."""
    if isinstance(o, dict):
        return ("callee", o["n"])
    if isinstance(o, list):
        if o and o[0] == "f" and len(o) == 3:
            return ("f", o[1])
        if o and o[0] in ("int", "zst", "opaque", "str", "tyconst") and len(o) >= 2:
            return (o[0],) + tuple(str(z) for z in o[2:])
        if o and o[0] == "konst":
            return ("konst",) + tuple(str(z) for z in o[3:])
        if o and o[0] == "cast":
            return ("cast", o[1], shape(P, o[2]), tnorm(P, o[3]))
        if o and o[0] in ("bin", "un"):
            return (o[0], o[1]) + tuple(shape(P, z) for z in o[2:-1])
        if o and o[0] == "fn":
            return ("fn", o[2]["n"])
        if o and o[0] == "agg":
            if o[1] in ("adt", "tuple", "array", "closure", "rawptr", "other"):
                return ("agg", o[1], o[2], tuple(shape(P, z) for z in o[4]))
            return ("agg", o[2], tuple(shape(P, z) for z in o[3]))
        if o and o[0] == "discr":
            return ("discr", shape(P, o[1]))
        return tuple(shape(P, z) for z in o)
    return o


def p26_rules(Pall, Pnone, Pserde, rep):
    # 1. with features off, neither the crate nor anything it links is the standard library
    for label, P in (("no-default-features", Pnone), ("no-default-features+serde", Pserde)):
        rep.ok()
        rep.info[f"crates linked ({label})"] = len(P.items["crates"])
        rep.sample(f"{label}: links {', '.join(P.items['crates'])}")
        if "std" in P.items["crates"]:
            refs = sorted(set(std_refs(P)))[:5]
            ext = [o for o in P.items["others"] if o["k"] == "extern_crate"]
            rep.violate(f"P26:std-linked:{label}", f"with {label} the build links `std` (extern crates: {ext}; uses: {refs})")
        for fn, n in std_refs(P):
            rep.violate(f"P26:std-use:{fn}", f"with {label}, {fn} uses {n}")
    # 2. optional features only add: every item of the featureless build exists unchanged with all features
    def index(P):
        m = {}
        for x in P.insts:
            if x.get("root") and "body" in x:
                m[x["n"]] = x
        return m
    A, N = index(Pall), index(Pnone)
    rep.info["functions compared across feature sets"] = len(N)
    fa = {f["n"]: f for f in Pall.items["fns"]}
    fn_ = {f["n"]: f for f in Pnone.items["fns"]}
    for n, f in fn_.items():
        rep.ok()
        if n not in fa:
            if f["exported"]:
                rep.violate(f"P26:removed:{n}", f"{f['span']}: {n} exists without optional features but not with them")
    for n, x in N.items():
        if n not in A:
            continue
        if canon_body(Pnone, x) != canon_body(Pall, A[n]):
            rep.count("functions whose body depends on features")
            rep.violate(f"P26:differs:{n}", f"{x['span']}: {n} does something else when optional features are on")
    rep.floor("functions compared across feature sets", 250)
