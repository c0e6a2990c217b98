"""Bitmapped vector tries of a given branching (bits) and height: every child but the last is full."""
from eng import *
from engx import *
import eng, engx, engnat
from engcont import Container, Bad, sp_of
from spec import same_view, canons

VEC = "alloc::vec::Vec"


def node_enum(E, n):
    """(branch variant, leaf variant, element type) of an enum of vectors of itself / of elements."""
    x = E.T[n]
    if x["k"] != "adt" or len(x.get("v", ())) != 2:
        return None
    br = lf = ety = None
    for k, v in enumerate(x["v"]):
        if len(v["f"]) != 1:
            return None
        y = E.T[v["f"][0]["t"]]
        if y["k"] != "adt" or y["p"] != VEC:
            return None
        s = sp_of(E, y["a"][0])
        if s is None:
            return None
        if E.T[s]["k"] == "adt" and E.T[s]["p"] == x["p"]:
            br = k
        else:
            lf, ety = k, s
    return None if br is None or lf is None else (br, lf, ety)


def op_flat(st, n):
    """The contents of a sequence of full children."""
    _, c, mult = n
    if c not in st.sbind:
        return (("s", n),)
    E = engnat.ENGINE[0]
    out = ()
    for g in st.norm((("s", c),)):
        if g[0] == "e":
            out += E.vec.node_view(E, st, g[1])
        elif g[0] == "s":
            out += (("s", ("flat", g[1], mult)),)
        else:
            raise Unknown("reversed children")
    return out


def len_flat(st, n):
    r = op_flat(st, n)
    if r != (("s", n),):
        return st.length(r)
    return lscale(L(0, (("len", n[1]), 1)), n[2])


eng.OPS["flat"], eng.OPLEN["flat"] = op_flat, len_flat


def child_value(E, st, k):
    """A fresh full child."""
    _, spt, n, h = k
    w = "w%d" % E.fresh()
    E.kinds[w] = node_enum(E, n)[2]
    st.assume(mkeq(ladd(L(0, (("len", w), 1)), lconst(-E.vec.D ** (h + 1)))))
    return ("p", ("n", E.fresh()), E.sym(n, ("vnode", (("s", w),), h)))


engx.ELEMKINDS["vfull"] = child_value


def mat_vnode(E, st, i, t, pred):
    _, segs, h = pred
    br, lf, ety = node_enum(E, t)
    segs = st.norm(segs)
    vt = E.T[t]["v"][lf if h == 0 else br]["f"][0]["t"]
    spt = E.T[vt]["a"][0]
    if h == 0:
        return ("a", t, lf, (("q", segs, spt),))
    if len(segs) != 1 or segs[0][0] != "s" or not isinstance(segs[0][1], str):
        raise Unknown("trie of a composite sequence")
    name = segs[0][1]
    c, l = "%s.c%d" % (name[:12], E.fresh()), "%s.l%d" % (name[:12], E.fresh())
    E.kinds[c] = ("vfull", spt, t, h - 1)
    E.kinds[l] = ety
    m = E.vec.D ** h
    st.sbind[name] = (("s", ("flat", c, m)), ("s", l))
    ll = L(0, (("len", l), 1))
    st.assume(mkle(ladd(lconst(1), ll, -1)))
    st.facts.append(ladd(ll, lconst(-m)))
    st.assume(mkle(L(1 - E.vec.D, (("len", c), 1))))
    if E.vec.D ** (h + 1) > INF_LEN:
        st.facts.append(L(-INF_LEN, (("len", c), m), (("len", l), 1)))
    st.check()
    last = ("p", ("n", E.fresh()), E.sym(t, ("vnode", (("s", l),), h - 1)))
    return ("a", t, br, (("q", (("s", c), ("e", last)), spt),))


engx.MATERIALISE["vnode"] = mat_vnode


class VecC(Container):
    """The vector struct, for a fixed branching and height."""
    def __init__(self, path, bits, h):
        self.path, self.bits, self.h = path, bits, h
        self.D = 1 << bits
        self.name = path.rsplit("::", 1)[1]

    def roles(self, E, t):
        root = bits = ln = None
        fs = E.T[t]["v"][0]["f"]
        for k, f in enumerate(fs):
            s = sp_of(E, f["t"])
            if s is not None and node_enum(E, s):
                root = k
            elif E.T[f["t"]]["s"] == "u8" and bits is None:
                bits = k
            elif E.T[f["t"]]["s"] == "usize" and ln is None:
                ln = k
            else:
                raise Unknown("vector layout")
        if root is None or ln is None:
            raise Unknown("vector layout")
        return root, bits, ln, fs

    def matches(self, E, t):
        if E.T[t]["k"] != "adt" or E.T[t]["p"] != self.path:
            return False
        try:
            self.roles(E, t)
        except Unknown:
            return False
        return True

    def elemty(self, E, t):
        root, bits, ln, fs = self.roles(E, t)
        return node_enum(E, sp_of(E, fs[root]["t"]))[2]

    def limits(self):
        return (0 if self.h == 0 else self.D ** self.h + 1), self.D ** (self.h + 1)

    def build(self, E, st, t, segs):
        root, bits, ln, fs = self.roles(E, t)
        n = st.length(segs)
        lo, hi = self.limits()
        st.assume(mkle(ladd(lconst(lo), n, -1)))
        f = ladd(n, lconst(-hi))      # kept even where the general bound on lengths implies it, which splitting loses
        if f[1]:
            st.facts.append(f)
        st.check()
        vals = [None] * len(fs)
        nt = sp_of(E, fs[root]["t"])
        vals[root] = ("p", ("n", E.fresh()), E.sym(nt, ("vnode", tuple(segs), self.h)))
        if bits is not None:
            vals[bits] = I(self.bits)
        vals[ln] = I(n)
        return ("a", t, 0, tuple(vals))

    def unknown(self, E, st, t):
        n = "v%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    # ---- views
    def strip(self, E, st, v):
        """A node behind pointers, and whether it is still unexplored."""
        while True:
            if v[0] == "p":
                v = v[2]
            elif v[0] == "r":
                v = v[1]
            elif v[0] == "c":
                v = st.cells[v[1]]
            elif v[0] == "m":
                v = E.read_path(st, v[1], v[2])
            elif v[0] == "sym" and v[1] in st.bind:
                v = st.bind[v[1]]
            elif v[0] == "sym":
                p = E.syms[v[1]][1]
                if p[0] == "vnode":
                    return v, p
                v = E.force(st, v)
            else:
                return v, None

    def node_view(self, E, st, v):
        v, p = self.strip(E, st, v)
        if p is not None:
            return st.norm(p[1])
        br, lf, ety = node_enum(E, v[1])
        q = engnat.seqof(E, st, v[3][0])
        if v[2] == lf:
            return canons(E, st, q[1])
        out = ()
        for g in st.norm(q[1]):
            if g[0] == "e":
                out += self.node_view(E, st, g[1])
            elif g[0] == "s":
                k = E.kinds.get(g[1])
                if not k or k[0] != "vfull":
                    raise Unknown("children")
                out += (("s", ("flat", g[1], self.D ** (k[3] + 1))),)
            else:
                raise Unknown("children")
        return st.norm(out)

    def wellformed(self, E, st, v, h, full, D):
        """Raises Bad unless this is a trie node of height h, full or holding anything up to that."""
        v, p = self.strip(E, st, v)
        n = st.length(p[1]) if p is not None else None

        def need(f, msg):
            d = st.decide(f)
            if d is None:
                raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
            if d is not True:
                raise Bad(msg, False)
        if p is not None:
            if p[2] != h:
                raise Bad("a node of height %d where height %d is expected" % (p[2], h), False)
        else:
            br, lf, ety = node_enum(E, v[1])
            if (v[2] == lf) != (h == 0):
                raise Bad("a %s at height %d" % ("leaf" if v[2] == lf else "branch", h), False)
            q = engnat.seqof(E, st, v[3][0])
            if h > 0:
                segs = st.norm(q[1])
                if not segs:
                    raise Bad("a branch without children", False)
                last = E.front(st, segs, back=True)
                if last is None:
                    raise Bad("a branch without children", False)
                for g in last[1]:
                    if g[0] == "e":
                        self.wellformed(E, st, g[1], h - 1, True, D)
                    elif E.kinds.get(g[1], (None,) * 4)[3] != h - 1:
                        raise Bad("children of another height", False)
                self.wellformed(E, st, last[0], h - 1, False, D)
            n = st.length(self.node_view(E, st, v))
        if full:
            need(mkeq(ladd(n, lconst(-D ** (h + 1)))), "a child before the last is not full")
        else:
            need(mkle(ladd(n, lconst(-D ** (h + 1)))), "a node is overfull")

    def view(self, E, st, v, t=None):
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("vector view")
        root, bits, ln, fs = self.roles(E, v[1] if v[1] is not None else t)
        segs = self.node_view(E, st, v[3][root])
        n = E.intof(st, v[3][ln])
        f = mkeq(ladd(n, st.length(segs), -1))
        d = st.decide(f)
        if d is not True:
            raise Bad("the recorded length is not the number of elements", d is None)
        b = E.fixed(st, E.intof(st, v[3][bits])) if bits is not None else self.bits
        if b is None:
            raise Unknown("branching")
        D = 1 << b
        h = self.height(E, st, v[3][root])
        if h > 0:
            f = mkle(ladd(lconst(D ** h + 1), n, -1))
            if E.truth(st, B(f)) is not True:
                raise Bad("the trie is higher than its length needs", False)
        self.wellformed(E, st, v[3][root], h, False, D)
        return segs

    def height(self, E, st, v):
        v, p = self.strip(E, st, v)
        if p is not None:
            return p[2]
        br, lf, ety = node_enum(E, v[1])
        if v[2] == lf:
            return 0
        r = E.front(st, engnat.seqof(E, st, v[3][0])[1], back=True)
        if r is None:
            raise Bad("a branch without children", False)
        return 1 + self.height(E, st, r[0])


def nth(E, st, segs, ix):
    """The element at a position of a view."""
    pos = lconst(0)
    for g in st.norm(segs):
        if g[0] == "e":
            f = mkeq(ladd(ix, pos, -1))
            d = st.decide(f)
            if d is None:
                raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
            if d:
                return g[1]
            pos = ladd(pos, lconst(1))
            continue
        end = ladd(pos, st.length((g,)))
        f = mkle(ladd(ladd(ix, lconst(1)), end, -1))
        d = st.decide(f)
        if d is None:
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
        if d:
            return None
        pos = end
    return None
