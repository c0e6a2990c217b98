"""Models of the library functions that have no MIR body in the dump, and of the caller-supplied trait methods."""
from eng import *
from engx import *
import eng

NAT = {}
SPP = "archery::shared_pointer::SharedPointer"


def nat(*names, multi=False):
    def d(f):
        f.multi = multi
        for n in names:
            NAT[n] = f
        return f
    return d


def deref(E, st, v):
    """Value behind a reference (any kind)."""
    v = E.force(st, v)
    if v[0] == "r":
        return E.force(st, v[1])
    if v[0] == "m":
        return E.force(st, E.read_path(st, v[1], v[2]))
    if v[0] == "raw":
        return E.force(st, v[1])
    raise Unknown("deref of " + v[0])


def store(E, st, m, v):
    m = E.force(st, m)
    if m[0] != "m":
        raise Unknown("store through " + m[0])
    E.write_path(st, m[1], m[2], v)


def opt(E, t, v):
    return ("a", t, 0, ()) if v is None else ("a", t, 1, (v,))


def seqof(E, st, v):
    v = E.force(st, v)
    while v[0] in ("r", "m"):
        v = deref(E, st, v)
    if v[0] != "q":
        raise Unknown("sequence expected, got " + v[0])
    return v


# ---- SharedPointer
@nat(SPP + "::new")
def sp_new(E, st, c):
    return ("p", ("n", E.fresh()), c.args[0])


@nat(f"<{SPP} as core::clone::Clone>::clone")
def sp_clone(E, st, c):
    return deref(E, st, c.args[0])


@nat(f"<{SPP} as core::ops::deref::Deref>::deref", f"<{SPP} as core::convert::AsRef>::as_ref", f"<{SPP} as core::borrow::Borrow>::borrow")
def sp_deref(E, st, c):
    p = deref(E, st, c.args[0])
    if p[0] != "p":
        raise Unknown("deref of non pointer " + p[0])
    return R(p[2])


@nat(SPP + "::make_mut", multi=True)
def sp_make_mut(E, st, c):
    # Copy on write: the caller gets exclusive access to an equal value.  Local Clone implementations are
    # executed so that a copy that is not equal is noticed.
    outs = []
    for s, m in E.fork(st, lambda s: _mm(E, s, c)):
        p = E.read_path(s, m[1], m[2])
        inner = E.force(s, p[2])
        ty = c.d["a"][0]
        copies = None
        if E.T[ty]["k"] == "adt" and inner[0] == "a":
            copies = E.clone_of(s, ty, inner)
        if copies is None:
            outs.append((s, "ret", ("m", m[1], m[2] + ("sp",))))
            continue
        base = E.canon_shallow(s, inner)
        same = all(k == "ret" and E.canon_shallow(s2, v) == E.canon_shallow(s2, inner) for s2, k, v in copies)
        if same:
            outs.append((s, "ret", ("m", m[1], m[2] + ("sp",))))
            continue
        outs.append((s.copy(), "ret", ("m", m[1], m[2] + ("sp",))))
        for s2, k, v in copies:
            if k == "ret":
                E.write_path(s2, m[1], m[2], ("p", ("n", E.fresh()), v))
                outs.append((s2, "ret", ("m", m[1], m[2] + ("sp",))))
            else:
                outs.append((s2, k, v))
    return outs


def _mm(E, st, c):
    m = E.force(st, c.args[0])
    if m[0] != "m":
        raise Unknown("make_mut of " + m[0])
    p = E.force(st, E.read_path(st, m[1], m[2]))
    if p[0] != "p":
        raise Unknown("make_mut of non pointer " + p[0])
    E.write_path(st, m[1], m[2], ("p", ("n", E.fresh()), E.force(st, p[2])))
    return m


@nat(SPP + "::try_unwrap", multi=True)
def sp_try_unwrap(E, st, c):
    out = c.out()
    res = []
    for s, p in E.fork(st, lambda s: E.force(s, c.args[0])):
        if p[0] != "p":
            raise Unknown("try_unwrap of non pointer")
        a = s.copy()
        res.append((a, "ret", ("a", out, 0, (p[2],))))
        res.append((s, "ret", ("a", out, 1, (p,))))
    return res


@nat(SPP + "::as_ptr")
def sp_as_ptr(E, st, c):
    p = deref(E, st, c.args[0])
    if p[0] != "p":
        raise Unknown("as_ptr")
    return ("raw", p[2], p[1])


@nat("core::ptr::null")
def ptr_null(E, st, c):
    return ("raw", None, None)


@nat("*const T::cast")
def ptr_cast(E, st, c):
    return c.args[0]


@nat("*const T::is_null", "*mut T::is_null")
def ptr_is_null(E, st, c):
    a = E.force(st, c.args[0])
    if a[0] != "raw":
        raise Unknown("is_null on " + a[0])
    return B(a[2] is None)


@nat("core::ptr::eq")
def ptr_eq(E, st, c):
    a, b = E.force(st, c.args[0]), E.force(st, c.args[1])
    if a[0] != "raw" or b[0] != "raw":
        raise Unknown("ptr::eq on " + a[0])
    return B(ptreq(E, st, a, b))


def ptreq(E, st, a, b):
    if a[2] is None or b[2] is None:
        return a[2] is None and b[2] is None
    if a[2] == b[2]:
        return True
    x, y = sorted((a, b), key=repr)
    st.notes = st.notes + ((("ptreq", x[2], y[2]), x[1], y[1]),)
    return ("at", ("ptreq", x[2], y[2]))


# ---- mem / intrinsics
@nat("core::mem::swap")
def mem_swap(E, st, c):
    a, b = E.force(st, c.args[0]), E.force(st, c.args[1])
    if a[0] != "m" or b[0] != "m":
        raise Unknown("swap")
    x, y = E.read_path(st, a[1], a[2]), E.read_path(st, b[1], b[2])
    E.write_path(st, a[1], a[2], y)
    E.write_path(st, b[1], b[2], x)
    return UNIT


@nat("core::mem::replace")
def mem_replace(E, st, c):
    a = E.force(st, c.args[0])
    if a[0] != "m":
        raise Unknown("replace")
    x = E.read_path(st, a[1], a[2])
    E.write_path(st, a[1], a[2], c.args[1])
    return x


@nat("core::mem::take", multi=True)
def mem_take(E, st, c):
    a = E.force(st, c.args[0])
    if a[0] != "m":
        raise Unknown("take")
    t = c.d["a"][0]
    x = E.T[t]
    if x["k"] == "adt" and x["p"] == "core::option::Option":
        new = [(st, "ret", ("a", t, 0, ()))]
    elif x["k"] == "adt" and x["p"] in (VEC, "smallvec::SmallVec"):
        new = [(st, "ret", ("q", (), None))]
    elif x["s"] in BITS:
        new = [(st, "ret", I(0))]
    elif x["s"] == "bool":
        new = [(st, "ret", ("b", False))]
    else:
        # the type's own default
        d = [y for y in E.P.insts if y.get("root") and y.get("trait_item") == "core::default::Default::default" and y.get("body")
             and y["body"]["locals"][0] == t]
        if len(d) != 1:
            raise Unknown("default of " + x["s"])
        new = E.call_inst(st, d[0]["id"], [])
    out = []
    for s, k, v in new:
        if k == "ret":
            old = E.read_path(s, a[1], a[2])
            E.write_path(s, a[1], a[2], v)
            v = old
        out.append((s, k, v))
    return out


@nat("core::mem::size_of_val")
def size_of_val(E, st, c):
    t = E.T[c.d["a"][0]]
    if t["s"] in BITS:
        return I(BITS[t["s"]] // 8)
    raise Unknown("size_of_val of " + t["s"])


@nat("core::mem::size_of", "core::intrinsics::size_of")
def size_of(E, st, c):
    t = E.T[c.d["a"][0]]
    if t["s"] in BITS:
        return I(BITS[t["s"]] // 8)
    if t["k"] != "param":
        raise Unknown("size_of " + t["s"])
    return E.uf("size_of", (t["s"],), (0, 1 << 32))     # the caller chooses the type: any size


@nat("core::mem::needs_drop", "core::intrinsics::needs_drop")
def needs_drop(E, st, c):
    t = E.T[c.d["a"][0]]
    if t["k"] != "param":
        raise Unknown("needs_drop " + t["s"])
    return B(("at", ("needs_drop", t["s"])))


@nat("core::intrinsics::integer_min", "core::intrinsics::integer_max", "core::cmp::impls::integer_min", "core::cmp::impls::integer_max")
def integer_min(E, st, c):
    x, y = E.intof(st, c.args[0]), E.intof(st, c.args[1])
    le = E.truth(st, B(mkle(ladd(x, y, -1))))
    return I(x if le == c.n.endswith("min") else y)


@nat(SPP + "::strong_count")
def sp_strong_count(E, st, c):
    # any count is possible for a pointer that came in from outside: other versions may share it
    p = deref(E, st, c.args[0])
    r = E.uf("strong_count", (E.fresh(),), (1, (1 << 63) - 1))
    if p[0] != "p" or (isinstance(p[1], tuple) and p[1] and p[1][0] == "n"):
        st.soft = st.soft + ("reference count",)
    return r


@nat("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def sat(E, st, c):
    x, y = E.intof(st, c.args[0]), E.intof(st, c.args[1])
    lo, hi = RANGES[E.T[c.d["a"][0]]["s"]]
    if c.n.endswith("add"):
        r = ladd(x, y)
        return I(r) if E.truth(st, B(mkle(ladd(r, lconst(-hi))))) else I(hi)
    r = ladd(x, y, -1)
    return I(r) if E.truth(st, B(mkle(ladd(lconst(lo), r, -1)))) else I(lo)


def widths(st, v, w):
    """Bounds on the number of significant bits of v."""
    def least(p):
        lo, hi = 0, w
        while lo < hi:
            m = (lo + hi) // 2
            if p(m):
                hi = m
            else:
                lo = m + 1
        return lo
    hi = least(lambda k: st.decide(mkle(ladd(v, lconst(1 - (1 << k))))) is True)
    # the most k such that v >= 2^(k-1) is known
    lo = least(lambda k: st.decide(mkle(ladd(lconst(1 << k), v, -1))) is not True)
    return lo, hi


def _bitfn(name, f, hi):
    def h(E, st, c):
        v = E.intof(st, c.args[0])
        v = st.nlin(v)
        w = BITS[E.T[c.d["a"][0]]["s"]]
        if not v[1]:
            return I(f(v[0], w))
        k = E.hooks.get(name)
        if k:
            r = k(E, st, v, w)
            if r is not None:
                return r
        r = E.uf(name, (v, w), (0, w))
        if name != "ctpop":
            if name == "ctlz":
                lo, hi = widths(st, v, w)
                if lo == hi:
                    return I(w - lo)
                if hi - lo < 8:
                    # one case per width
                    raise Split([(lambda s, k=k: s.assume(("and", mkle(ladd(v, lconst(1 - (1 << k)))), mkle(ladd(lconst((1 << k) >> 1), v, -1))))) for k in range(lo, hi + 1)])
                st.assume(mkle(ladd(r[1], lconst(lo - w))))
                st.assume(mkle(ladd(lconst(w - hi), r[1], -1)))
            elif st.decide(mkle(ladd(lconst(1), v, -1))) is True:
                st.assume(mkle(ladd(r[1], lconst(1 - w))))
            elif st.decide(mkeq(v)) is True:
                return I(w)
        return r
    return h


NAT["core::intrinsics::ctlz"] = _bitfn("ctlz", lambda v, w: w - v.bit_length(), 64)
NAT["core::intrinsics::cttz"] = _bitfn("cttz", lambda v, w: (v & -v).bit_length() - 1 if v else w, 64)
NAT["core::intrinsics::ctpop"] = _bitfn("ctpop", lambda v, w: bin(v).count("1"), 64)


# ---- Vec / slices / SmallVec
VEC = "alloc::vec::Vec"


@nat(VEC + "::new", VEC + "::with_capacity", "smallvec::SmallVec::new", "smallvec::SmallVec::with_capacity")
def vec_new(E, st, c):
    if c.args:
        alloc(E, st, c, E.intof(st, c.args[0]))
    a = c.d.get("a") or [None]
    t = a[0]
    if c.n.startswith("smallvec"):
        x = E.T[t]
        t = x["t"] if x["k"] == "array" else None
    return ("q", (), t)


@nat("alloc::boxed::box_assume_init_into_vec_unsafe")
def vec_of_array(E, st, c):
    v = c.args[0]
    if v[0] != "q":
        raise Unknown("boxed array")
    return ("q", v[1], (c.d.get("a") or [None])[0])


def claims(x):
    """The claimed lengths a linear expression or atom mentions."""
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == "v" and isinstance(x[1], tuple) and x[1][0].startswith("claimed"):
            return {x}
        r = set()
        for y in x:
            r |= claims(y)
        return r
    return set()


def alloc(E, st, c, amount):
    """An allocation sized by `amount`: a length that the source merely claims must not size it."""
    log = E.hooks.get("alloc")
    if log is None:
        return
    where = E.P.insts[c.inst]["n"] if c.inst is not None else "?"
    a = st.nlin(amount)
    ok = True
    if claims(a[1]):
        ok = st.decide(mkle(ladd(a, lconst(-65536))))
        cl = claims(a[1])
        if ok is not True and all(any(f[1] and dict(f[1]).get(x, 0) > 0 and all(y == x or y[0] == "len" for y, _ in f[1]) for f in map(st.nlin, st.facts)) for x in cl):
            ok = True   # capped by the number of elements delivered
        ok = True if ok is True else (False if not E.imprecise(st) else None)
    log.append((where, c.n, ok, c.t[-1] if c.t else 0))


@nat(VEC + "::reserve", VEC + "::reserve_exact", "smallvec::SmallVec::reserve", "smallvec::SmallVec::reserve_exact", VEC + "::shrink_to_fit")
def vec_reserve(E, st, c):
    if len(c.args) > 1:
        alloc(E, st, c, E.intof(st, c.args[1]))
    return UNIT


def drained(E, st, it):
    """Outcomes (st, kind, value) of stepping an iterator of the crate to its end, None when its step function is not known."""
    import engiter
    if it[0] != "a" or it[1] is None or E.T[it[1]]["k"] != "adt":
        return None
    nxt = [x for x in E.P.insts if x.get("root") and x.get("trait_item") == "core::iter::traits::iterator::Iterator::next" and x.get("body")
           and x.get("impl_head") == E.T[it[1]]["p"] and E.T[E.T[x["body"]["locals"][1]].get("t", 0)]["s"] == E.T[it[1]]["s"]]
    if len(nxt) != 1:
        return None
    i, _ = engiter.drain_inst(E, {"fn": "%s#%d" % (nxt[0]["n"], it[1]), "next": {"n": nxt[0]["n"], "i": nxt[0]["id"]}}, hint=False)
    fr = E.fresh()
    a, b = ("drained", fr, 0), ("drained", fr, 1)
    st.cells[a] = it
    st.cells[b] = ("q", (), None)
    st.cells[(fr, 1)], st.cells[(fr, 2)] = ("m", a, ()), ("m", b, ())
    E.stack.append(i)
    try:
        outs = E.run(st, i, fr, 0, None)
    finally:
        E.stack.pop()
    return [(s, k, s.cells[b][1] if k == "ret" else v) for s, k, v in outs]


@nat("<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter", multi=True)
def vec_collect(E, st, c):
    def conv(s):
        it = E.force(s, c.args[0])
        if it[0] == "it":
            return vec_from_iter(E, s, c)
        return ("#drain", it)
    out = []
    for s, r in E.fork(st, conv):
        if isinstance(r, tuple) and r[0] == "#drain":
            d = drained(E, s, r[1])
            if d is None:
                return NotImplemented
            out += [(q, k, ("q", v, E.T[c.out()]["a"][0]) if k == "ret" else v) for q, k, v in d]
        elif r is NotImplemented:
            return NotImplemented
        else:
            out.append((s, "ret", r))
    return out


def vec_from_iter(E, st, c):
    it = E.force(st, c.args[0])
    if it[0] != "it":
        return NotImplemented
    segs = tuple((g[0], R(g[1])) if g[0] == "e" and it[3] == "ref" else g for g in it[1])
    if it[3] == "ref" and any(g[0] != "e" for g in segs):
        segs = it[1]
    return ("q", segs, it[2])


@nat("core::iter::traits::iterator::Iterator::collect")
def it_collect(E, st, c):
    out = E.T[c.out()]
    if out["k"] == "adt" and out["p"] == VEC:
        return vec_from_iter(E, st, c)
    return NotImplemented


@nat("<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend")
def vec_extend_it(E, st, c):
    q = seqof(E, st, c.args[0])
    it = E.force(st, c.args[1])
    if it[0] != "it":
        return NotImplemented
    store(E, st, c.args[0], ("q", q[1] + it[1], q[2]))
    return UNIT


@nat(VEC + "::push", "smallvec::SmallVec::push")
def vec_push(E, st, c):
    q = seqof(E, st, c.args[0])
    store(E, st, c.args[0], ("q", q[1] + (("e", c.args[1]),), q[2]))
    return UNIT


@nat(VEC + "::pop", "smallvec::SmallVec::pop")
def vec_pop(E, st, c):
    q = seqof(E, st, c.args[0])
    r = E.qfront(st, q, back=True)
    if r is None:
        return opt(E, c.out(), None)
    store(E, st, c.args[0], r[1])
    return opt(E, c.out(), r[0])


@nat(VEC + "::clear")
def vec_clear(E, st, c):
    q = seqof(E, st, c.args[0])
    store(E, st, c.args[0], ("q", (), q[2]))
    return UNIT


@nat(VEC + "::len", "[T]::len", "smallvec::SmallVec::len")
def vec_len(E, st, c):
    return I(st.length(seqof(E, st, c.args[0])[1]))


@nat(VEC + "::is_empty", "[T]::is_empty", "smallvec::SmallVec::is_empty")
def vec_is_empty(E, st, c):
    return B(mkle(st.length(seqof(E, st, c.args[0])[1])))


@nat(f"<{VEC} as core::ops::deref::Deref>::deref", VEC + "::as_slice", "smallvec::SmallVec::as_slice",
     "<smallvec::SmallVec as core::ops::deref::Deref>::deref")
def vec_deref(E, st, c):
    return R(seqof(E, st, c.args[0]))


@nat(f"<{VEC} as core::ops::deref::DerefMut>::deref_mut", "<smallvec::SmallVec as core::ops::deref::DerefMut>::deref_mut", VEC + "::as_mut_slice")
def vec_deref_mut(E, st, c):
    return c.args[0]


@nat(f"<{VEC} as core::clone::Clone>::clone")
def vec_clone(E, st, c):
    q = seqof(E, st, c.args[0])
    return ("q", E.snap(st, q[1]), q[2])


@nat(VEC + "::extend_from_slice")
def vec_extend(E, st, c):
    q, r = seqof(E, st, c.args[0]), seqof(E, st, c.args[1])
    store(E, st, c.args[0], ("q", q[1] + E.snap(st, r[1]), q[2]))
    return UNIT


@nat("[T]::first", "[T]::last")
def sl_first(E, st, c):
    q = seqof(E, st, c.args[0])
    r = E.qfront(st, q, back=c.n.endswith("last"))
    return opt(E, c.out(), None if r is None else R(r[0]))


def elem_cell(E, st, m, before, e, after, ety):
    """Turn an element into a cell of its own and return an exclusive reference to it."""
    cell = ("el", E.fresh())
    st.cells[cell] = E.force(st, e)
    store(E, st, m, ("q", before + (("e", ("c", cell)),) + after, ety))
    return ("m", cell, ())


@nat("[T]::last_mut", "[T]::first_mut")
def sl_last_mut(E, st, c):
    q = seqof(E, st, c.args[0])
    back = c.n.endswith("last_mut")
    r = E.qfront(st, q, back=back)
    if r is None:
        return opt(E, c.out(), None)
    e, rest = r
    m = elem_cell(E, st, c.args[0], rest[1] if back else (), e, () if back else rest[1], q[2])
    return opt(E, c.out(), m)


def inb(E, st, q, ix):
    return mkle(ladd(ladd(ix, lconst(1)), st.length(q[1]), -1))


@nat("[T]::get", "[T]::get_mut", multi=False)
def sl_get(E, st, c):
    q = seqof(E, st, c.args[0])
    ix = E.force(st, c.args[1])
    if ix[0] != "i":
        raise Unknown("slice range")
    if not E.truth(st, B(inb(E, st, q, ix[1]))):
        return opt(E, c.out(), None)
    e, a, b = E.split_at(st, q, ix[1])
    if c.n.endswith("get"):
        return opt(E, c.out(), R(E.qelem(e, q)))
    return opt(E, c.out(), elem_cell(E, st, c.args[0], a, E.qelem(e, q), b, q[2]))


@nat(f"<{VEC} as core::ops::index::Index>::index", f"<{VEC} as core::ops::index::IndexMut>::index_mut")
def vec_index(E, st, c):
    q = seqof(E, st, c.args[0])
    ix = E.force(st, c.args[1])
    if ix[0] != "i":
        raise Unknown("slice range")
    if not E.truth(st, B(inb(E, st, q, ix[1]))):
        return ("!panic", ("bounds", E.P.insts[c.inst]["n"], c.t[-1]))
    e, a, b = E.split_at(st, q, ix[1])
    if c.n.endswith("Index>::index"):
        return R(E.qelem(e, q))
    return elem_cell(E, st, c.args[0], a, E.qelem(e, q), b, q[2])


@nat(VEC + "::remove", VEC + "::insert")
def vec_remove(E, st, c):
    q = seqof(E, st, c.args[0])
    ix = E.intof(st, c.args[1])
    if c.n.endswith("insert"):
        n = st.length(q[1])
        if not E.truth(st, B(mkle(ladd(ix, n, -1)))):
            return ("!panic", ("insert index", E.P.insts[c.inst]["n"], c.t[-1]))
        a, b = E.cut_at(st, q, ix)
        store(E, st, c.args[0], ("q", a + (("e", c.args[2]),) + b, q[2]))
        return UNIT
    if not E.truth(st, B(inb(E, st, q, ix))):
        return ("!panic", ("remove index", E.P.insts[c.inst]["n"], c.t[-1]))
    e, a, b = E.split_at(st, q, ix)
    store(E, st, c.args[0], ("q", a + b, q[2]))
    return E.qelem(e, q)


@nat("[T]::split_at")
def sl_split_at(E, st, c):
    q = seqof(E, st, c.args[0])
    ix = E.intof(st, c.args[1])
    if not E.truth(st, B(mkle(ladd(ix, st.length(q[1]), -1)))):
        return ("!panic", ("split_at", E.P.insts[c.inst]["n"], c.t[-1]))
    a, b = E.cut_at(st, q, ix)
    return ("a", None, 0, (R(("q", a, q[2])), R(("q", b, q[2]))))


# ---- iterators: ("it", segs, elem type, by) with by = 'ref' | 'val'
@nat("[T]::iter", "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter",
     "<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter")
def sl_iter(E, st, c):
    q = seqof(E, st, c.args[0])
    return ("it", E.snap(st, q[1]), q[2], "ref")


@nat(f"<{VEC} as core::iter::traits::collect::IntoIterator>::into_iter")
def vec_into_iter(E, st, c):
    q = E.force(st, c.args[0])
    return ("it", q[1], q[2], "val")


@nat("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(E, st, c):
    v = E.force(st, c.args[0])
    if v[0] == "it":
        return v
    if v[0] == "q":
        return ("it", v[1], v[2], "val")
    if v[0] == "a" and "i" not in c.d:
        return v
    return NotImplemented


NAT["core::array::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter"] = into_iter
NAT["<[T] as core::iter::traits::collect::IntoIterator>::into_iter"] = into_iter
NAT["<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter"] = into_iter


def it_step(back):
    def h(E, st, c):
        m = E.force(st, c.args[0])
        it = deref(E, st, m)
        if it[0] != "it":
            raise Unknown("next on " + it[0])
        r = E.front(st, it[1], back)
        if r is None:
            return opt(E, c.out(), None)
        e = E.qelem(r[0], ("q", (), it[2]))
        store(E, st, m, ("it", r[1], it[2], it[3]))
        return opt(E, c.out(), R(e) if it[3] == "ref" else e)
    h.multi = False
    return h


NAT["core::iter::traits::iterator::Iterator::next"] = it_step(False)
NAT["<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next"] = it_step(False)
NAT["<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next"] = it_step(False)
NAT["<core::slice::iter::Iter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"] = it_step(True)
NAT["<alloc::vec::into_iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"] = it_step(True)
NAT["core::iter::traits::double_ended::DoubleEndedIterator::next_back"] = it_step(True)


@nat("core::iter::traits::iterator::Iterator::size_hint", "<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::size_hint",
     "<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::size_hint",
     "core::iter::traits::exact_size::ExactSizeIterator::len")
def it_size_hint(E, st, c):
    it = deref(E, st, c.args[0])
    if it[0] != "it":
        raise Unknown("size_hint")
    n = st.length(it[1])
    if it[3] == "user":
        # lower bound: any number not above the length; upper bound: anything
        lo = E.newint("hint")
        st.assume(mkle(ladd(lo[1], n, -1)))
        o = c.out()
        return ("a", o, 0, (lo, E.value(st, E.T[o]["a"][1], "claimed")))
    o = c.out()
    return ("a", o, 0, (I(n), opt(E, E.T[o]["a"][1], I(n))))


# ---- caller-supplied trait methods
@nat("core::borrow::Borrow::borrow")
def u_borrow(E, st, c):
    return R(deref(E, st, c.args[0]))


@nat("core::clone::Clone::clone")
def u_clone(E, st, c):
    v = deref(E, st, c.args[0])
    E.count_clone = getattr(E, "count_clone", 0) + 1
    return v


ORD = ("<", "=", ">")


def key2(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def flip(r):
    return {"<": ">", ">": "<", "=": "="}[r]


@nat("core::cmp::Ord::cmp")
def u_cmp(E, st, c):
    a, b = E.canon(st, c.args[0]), E.canon(st, c.args[1])
    r = relation(E, st, a, b)
    return ("a", c.out(), ORD.index(r), ())


def relation(E, st, a, b):
    p = rels(E, st, a, b)
    if len(p) == 1:
        return next(iter(p))

    def alt(r):
        return lambda s: setrel(E, s, a, b, {r})
    raise Split([alt(r) for r in sorted(p)])


def masters(E, st):
    out = []
    for name in E.sorted_roots:
        if isinstance(name, tuple) and name and name[0] == "segs":
            out.append(st.norm(name[1]))
        else:
            out.append(st.norm((("s", name),)))
    return out


def ordgraph(E, st):
    """(union-find representative function, strict edges)"""
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    edges = []
    for (a, b), p in st.order.items():
        if p == frozenset("="):
            par[find(a)] = find(b)
    for (a, b), p in st.order.items():
        if p == frozenset("<"):
            edges.append((a, b))
        elif p == frozenset(">"):
            edges.append((b, a))
    for x, y, q in cutrels(E, st):
        if q == {"<"}:
            edges.append((x, y))
        elif q == {">"}:
            edges.append((y, x))
    for m in masters(E, st):
        prev = None
        for g in m:
            if g[0] == "e":
                k = E.keyof(st, g[1])
                if prev is not None:
                    edges.append((prev, k))
                prev = k
    return find, edges


def rels(E, st, a, b):
    """Possible relations of two keys."""
    if a == b:
        return {"="}
    find, edges = ordgraph(E, st)
    a0, b0 = find(a), find(b)
    if a0 == b0:
        return {"="}
    succ = {}
    for x, y in edges:
        succ.setdefault(find(x), set()).add(find(y))

    def reach(x, y):
        seen, w = {x}, [x]
        while w:
            n = w.pop()
            for m in succ.get(n, ()):
                if m == y:
                    return True
                if m not in seen:
                    seen.add(m)
                    w.append(m)
        return False
    p = set(ORD)
    if reach(a0, b0):
        p = {"<"}
    elif reach(b0, a0):
        p = {">"}
    for (x, y), q in st.order.items():
        x0, y0 = find(x), find(y)
        if (x0, y0) == (a0, b0):
            p &= q
        elif (y0, x0) == (a0, b0):
            p &= {flip(r) for r in q}
    for x, y, q in cutrels(E, st):
        x0, y0 = find(x), find(y)
        if (x0, y0) == (a0, b0):
            p &= q
        elif (y0, x0) == (a0, b0):
            p &= {flip(r) for r in q}
    h = E.hooks.get("distinct")
    if h and "=" in p and h(E, st, a, b):
        p = p - {"="}
    if not p:
        raise Infeasible()
    return p


def cutrels(E, st):
    """Keys on either side of a bound that cuts a sorted sequence."""
    for key, left, right, inleft in E.cuts:
        for segs, q in ((left, {"<", "="} if inleft else {"<"}), (right, {">"} if inleft else {">", "="})):
            for g in st.norm(segs):
                if g[0] == "e":
                    yield E.keyof(st, g[1]), key, q


def setrel(E, st, a, b, p):
    cur = rels(E, st, a, b)
    p = cur & set(p)
    if not p:
        raise Infeasible()
    x, y = key2(a, b)
    if (x, y) != (a, b):
        p = {flip(r) for r in p}
    st.order[(x, y)] = frozenset(p)
    find, edges = ordgraph(E, st)
    succ = {}
    for u, v in edges:
        succ.setdefault(find(u), set()).add(find(v))
    # strict cycle?
    color = {}

    def dfs(n):
        color[n] = 1
        for m in succ.get(n, ()):
            if color.get(m) == 1 or (m not in color and dfs(m)):
                return True
        color[n] = 2
        return False
    for n in list(succ):
        if n not in color and dfs(n):
            raise Infeasible()
    for (u, v), q in st.order.items():
        if q == frozenset(("<", ">")) and find(u) == find(v):
            raise Infeasible()
    h = E.hooks.get("keyrel")
    if h:
        h(E, st, a, b)


def relform(a, b, ps):
    return ("at", ("rel", a, b, "".join(sorted(ps))))


def _rel_value(st, k):
    E = ENGINE[0]
    p = rels(E, st, k[1], k[2])
    want = set(k[3])
    if p <= want:
        return True
    if not (p & want):
        return False
    return None


def _rel_set(st, k, v):
    E = ENGINE[0]
    st.atoms.pop(k, None)
    setrel(E, st, k[1], k[2], set(k[3]) if v else set(ORD) - set(k[3]))


ENGINE = [None]
eng.ATOMS["rel"] = _rel_value
eng.ONATOM["rel"] = _rel_set


def _po(ps):
    def h(E, st, c):
        a, b = E.canon(st, c.args[0]), E.canon(st, c.args[1])
        return B(relform(a, b, ps))
    h.multi = False
    return h


for _n, _p in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    NAT["core::cmp::PartialOrd::" + _n] = _po(_p)


@nat("core::cmp::PartialEq::eq")
def u_eq(E, st, c):
    a, b = E.canon(st, c.args[0]), E.canon(st, c.args[1])
    return B(eqform(E, st, a, b))


@nat("core::cmp::PartialEq::ne")
def u_ne(E, st, c):
    a, b = E.canon(st, c.args[0]), E.canon(st, c.args[1])
    return B(fnot(eqform(E, st, a, b)))


def eqform(E, st, a, b):
    if a == b:
        return True
    if a[0] == "i" and b[0] == "i":
        return mkeq(ladd(a[1], b[1], -1))
    return relform(a, b, "=")


@nat("core::cmp::PartialOrd::partial_cmp")
def u_pcmp(E, st, c):
    raise Unknown("partial_cmp")


@nat("core::hash::Hash::hash")
def u_hash(E, st, c):
    st.trace = st.trace + (("hash", E.canon(st, c.args[0])),)
    return UNIT


@nat("core::hash::Hasher::write_usize")
def u_write_usize(E, st, c):
    st.trace = st.trace + (("usize", st.nlin(E.intof(st, c.args[1]))),)
    return UNIT


@nat("core::default::Default::default")
def u_default(E, st, c):
    return ("t", ("default",))


@nat("<std::hash::random::RandomState as core::default::Default>::default")
def rs_default(E, st, c):
    return ("t", ("randomstate",))


@nat("core::hash::BuildHasher::hash_one")
def u_hash_one(E, st, c):
    k = E.canon(st, c.args[1])
    h = E.hooks.get("hash_one")
    if h:
        return h(E, st, E.canon(st, c.args[0]), k)
    return I(L(0, (("v", ("hash", k), RANGES["u64"]), 1)))


@nat("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new", "core::fmt::rt::Argument::new_display")
def fmt_args(E, st, c):
    return ("t", ("fmt",))
Engine.ptreq = ptreq
