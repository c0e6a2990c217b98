"""Hash array mapped tries of a given degree: nodes are shape predicates with a depth and the hash digits on the way to
them, bitmaps are sets of digits, hashes are sums of digits.  The contents are a bag of entries with distinct keys."""
from eng import *
from engx import *
import eng, engx, engnat
from engcont import Container, Bad, sp_of, opt_of
from engnat import deref

U64 = (0, (1 << 64) - 1)
ONES = (1 << 64) - 1
LIST = "rpds::list::List"
VEC = "alloc::vec::Vec"


# ---------------------------------------------------------------- digits
def ht():
    return engnat.ENGINE[0].ht


class Cfg:
    """Degree 2^k; differences between hashes only at the free levels."""
    def __init__(self, k, free=None, coll=3):
        self.k, self.D = k, 1 << k
        self.max = -(-64 // k)
        self.free = set(range(self.max)) if free is None else set(free)
        self.sizes = tuple(range(2, coll + 1)) if isinstance(coll, int) else coll   # entries of a materialised collision
        self.small = False   # start only from tries without empty subtrees (all reachable ones are)

    def width(self, j):
        return min(self.k, 64 - self.k * j)

    def digit(self, tag, j):
        if j not in self.free:
            tag = "common"
        return L(0, (("v", ("dig", tag, j), (0, (1 << self.width(j)) - 1)), 1))

    def hash(self, digits):
        t = lconst(0)
        for j, d in enumerate(digits):
            t = ladd(t, d, 1 << (self.k * j))
        return t


def digits_of(E, l):
    """The digits of a hash value, if it is one."""
    k, n = E.ht.k, E.ht.max
    if l[0] or not l[1]:
        return None
    out = [lconst(0)] * n
    for a, c in l[1]:
        if a[0] != "v" or a[1][0] not in ("dig", "idx") or c <= 0 or c & (c - 1):
            return None
        s = c.bit_length() - 1
        if s % k or s // k >= n or out[s // k][1]:
            return None
        if a[2][1] >= 1 << E.ht.width(s // k):
            return None
        out[s // k] = L(0, (a, 1))
    return tuple(out)


def deq_value(st, f):
    return st.decide(mkeq(ladd(f[1], f[2], -1)))


def deq_set(st, f, v):
    st.atoms.pop(f, None)
    d = ladd(st.nlin(f[1]), st.nlin(f[2]), -1)
    if not v:
        st.assume(fnot(mkeq(d)))
        return
    if not d[1]:
        if d[0]:
            raise Infeasible()
        return
    for a, c in sorted(d[1], key=lambda x: -age(x[0])):
        if c in (1, -1):
            st.pin(a, lscale(ladd(d, L(0, (a, c)), -1), -c))
            st.check()
            return
    st.assume(mkeq(d))


def age(a):
    """Younger terms are pinned to older ones."""
    return a[1][1] if a[0] == "v" and isinstance(a[1][1], int) else 0


eng.ATOMS["deq"], eng.ONATOM["deq"] = deq_value, deq_set


def deq(a, b):
    d = ladd(a, b, -1)
    return (d[0] == 0) if not d[1] else ("at", ("deq", a, b))


def pairs(st, f):
    return [(x, y) for x, y in ((st.nlin(x), st.nlin(y)) for x, y in zip(f[1], f[2])) if x != y]


def heq_value(st, f):
    out = True
    for x, y in pairs(st, f):
        d = st.decide(mkeq(ladd(x, y, -1)))
        if d is False:
            return False
        if d is None:
            out = None
    return out


def heq_set(st, f, v):
    st.atoms.pop(f, None)
    ps = pairs(st, f)
    if v:
        for x, y in ps:
            st.assume(deq(x, y))
        return
    # the first digit that differs
    ps = [p for p in ps if st.decide(mkeq(ladd(p[0], p[1], -1))) is not True]
    if not ps:
        raise Infeasible()

    def alt(n):
        def g(s):
            for x, y in ps[:n]:
                s.assume(deq(x, y))
            s.assume(fnot(deq(*ps[n])))
        return g
    if len(ps) == 1:
        alt(0)(st)
    else:
        raise Split([alt(n) for n in range(len(ps))])


eng.ATOMS["heq"], eng.ONATOM["heq"] = heq_value, heq_set


def int_eq(E, st, x, y):
    for a, b in ((x, y), (y, x)):
        if b == (0, ()) and a[0] == 0 and len(a[1]) == 1 and a[1][0][0][0] == "v" and a[1][0][0][1][0] == "bm":
            A = lit(st, a)
            if any(g[0] == "x" for g in A):
                return False
            return mkle(L(0, *[(("len", g[1]), 1) for g in A])) if A else True
    a, b = digits_of(E, x), digits_of(E, y)
    if a is None or b is None:
        return None
    return True if a == b else ("at", ("heq", a, b))


# ---------------------------------------------------------------- keys
def digits(E, st, key, builder=None):
    """The digits of a key's hash."""
    key = E.canon(st, key)
    if builder is None:
        builder = E.ht_builder
    m = E.hashof
    k = (builder, key)
    if k not in m:
        for o in members(E, st, key):
            if (builder, o) in m:
                m[k] = m[(builder, o)]
                break
        else:
            n = E.fresh()
            m[k] = tuple(E.ht.digit(n, j) for j in range(E.ht.max))
    return tuple(st.nlin(d) for d in m[k])


def members(E, st, key):
    find, _ = engnat.ordgraph(E, st)
    k = find(key)
    out = {key}
    for p in st.order:
        for x in p:
            if find(x) == k:
                out.add(x)
    return out


def hash_one(E, st, builder, key):
    if builder != E.ht_builder:
        digits(E, st, key, builder)
    return I(E.ht.hash(digits(E, st, key, builder)))


def distinct(E, st, a, b):
    """Two keys are known to differ: entries of one dictionary, or different hashes."""
    A, B_ = members(E, st, a), members(E, st, b)
    ha = {x[1][1] for x in A if x[0] == "t" and isinstance(x[1], tuple) and x[1][0] == "hk"}
    hb = {x[1][1] for x in B_ if x[0] == "t" and isinstance(x[1], tuple) and x[1][0] == "hk"}
    if any(n[0] == m[0] and n != m for n in ha for m in hb):
        return True
    for x in A:
        for y in B_:
            u, v = E.hashof.get((E.ht_builder, x)), E.hashof.get((E.ht_builder, y))
            if u is not None and v is not None and u is not v:
                for p, q in zip(u, v):
                    d = ladd(st.nlin(p), st.nlin(q), -1)
                    if d[1] and st.decide(mkeq(d)) is False or not d[1] and d[0]:
                        return True
    return False


def keyrel(E, st, a, b):
    if engnat.rels(E, st, a, b) != {"="}:
        return
    hs = [E.hashof[(E.ht_builder, x)] for x in sorted(members(E, st, a), key=repr) if (E.ht_builder, x) in E.hashof]
    for h in hs[1:]:
        for x, y in zip(hs[0], h):
            f = deq(st.nlin(x), st.nlin(y))
            if f is not True:
                st.assume(f)


# ---------------------------------------------------------------- bitmaps
# segments: ("s", gap) the digits of a group of children, ("x", digit) one digit, in increasing order
def lit(st, l):
    l = st.nlin(l)
    if not l[1] and 0 <= l[0] <= ONES:
        return tuple(("x", lconst(j)) for j in range(64) if l[0] >> j & 1)
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
        a = l[1][0][0]
        if a[0] == "v" and a[1][0] == "bm":
            return normbm(st, a[1][1])
        if a[0] == "v" and a[1][0] == "bit":
            return (("x", st.nlin(a[1][1])),)
    return None


def normbm(st, segs):
    E = engnat.ENGINE[0]
    out = []
    for g in segs:
        if g[0] == "x":
            out.append(("x", st.nlin(g[1])))
        else:
            for h in st.norm((g,)):
                out.append(h if h[0] == "s" else ("x", st.nlin(E.kidx[h[1][2][1]])))
    return tuple(out)


def bmlin(segs):
    segs = tuple(segs)
    if all(g[0] == "x" and not g[1][1] for g in segs):
        return lconst(sum(1 << g[1][0] for g in segs))
    if len(segs) == 1 and segs[0][0] == "x":
        return L(0, (("v", ("bit", segs[0][1]), (1, 1 << 63)), 1))
    return L(0, (("v", ("bm", segs), (1, ONES) if any(g[0] == "x" for g in segs) else U64), 1))


def maskof(st, l):
    """i when the value is 2^i - 1."""
    l = st.nlin(l)
    if not l[1] and l[0] >= 0 and l[0] & (l[0] + 1) == 0:
        return lconst(l[0].bit_length())
    if l[0] == -1 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0][0] == "v" and l[1][0][0][1][0] == "bit":
        return st.nlin(l[1][0][0][1][1])
    return None


def order3(st, a, b):
    """-1, 0, 1 (splitting)."""
    d = ladd(st.nlin(a), st.nlin(b), -1)
    if not d[1]:
        return (d[0] > 0) - (d[0] < 0)
    e = st.decide(mkeq(d))
    if e is True:
        return 0
    lt, gt = mkle(ladd(d, lconst(1))), mkle(ladd(lconst(1), d, -1))
    if e is None:
        e = ("at", ("deq", a, b))
        raise Split([lambda s: s.assume(lt), lambda s: s.assume(e), lambda s: s.assume(gt)])
    d = st.decide(lt)
    if d is None:
        raise Split([lambda s: s.assume(lt), lambda s: s.assume(gt)])
    return -1 if d else 1


def probe(E, st, segs, i):
    """(digits before, is it a member, digits after), exploring the children as far as needed."""
    for k, g in enumerate(segs):
        if g[0] == "x":
            r = order3(st, i, g[1])
            if r == 0:
                return segs[:k], True, segs[k + 1:]
            if r < 0:
                return segs[:k], False, segs[k:]
            continue
        nxt = segs[k + 1] if k + 1 < len(segs) else None
        if nxt is None:
            r = -1
        elif nxt[0] == "x":
            r = order3(st, i, nxt[1])
            if r == 0:
                continue
        else:
            b = E.gap[g[1]]["hi"]
            if b is None:
                raise Unknown("bound of a group of children")
            r = order3(st, i, b)
            if r == 0:
                return segs[:k + 1], False, segs[k + 1:]
        if r < 0:
            lo = E.gap[g[1]]["lo"]
            if lo is not None and order3(st, i, lo) <= 0:
                return segs[:k], False, segs[k:]
            raise Split([lambda s: cut(E, s, g[1], i, True), lambda s: cut(E, s, g[1], i, False)])
    return segs, False, ()


def cut(E, st, c, i, member):
    """Divide a group of children at digit i."""
    if not member and c in E.full:
        raise Infeasible()
    G = E.gap[c]
    a, b = "%s<%d" % (c[:10], E.fresh()), "%s>%d" % (c[:10], E.fresh())
    E.kinds[a] = E.kinds[b] = E.kinds[c]
    for n, lo, hi in ((a, G["lo"], i), (b, i, G["hi"])):
        newgap(E, n, G["t"], G["spt"], G["depth"], G["path"], lo, hi)
    mid = ()
    if member:
        mid = (("e", child(E, st, G, i)),)
    st.bindseq(c, (("s", a),) + mid + (("s", b),))


def newgap(E, n, t, spt, depth, path, lo, hi):
    E.gap[n] = dict(t=t, spt=spt, depth=depth, path=path, lo=lo, hi=hi)
    E.bag[n] = "%s@" % n
    E.kinds[n] = ("htkid", n)
    E.kinds[n + "@"] = E.ht_ety


def child(E, st, G, i):
    n = "w%d" % E.fresh()
    E.kinds[n] = E.ht_ety
    s = E.sym(G["t"], ("htnode", n, G["depth"] + 1, G["path"] + (i,)))
    E.kidx[s[1]] = i
    return ("p", ("x", E.fresh()), s)


def kid_value(E, st, k):
    G = E.gap[k[1]]
    d = G["depth"]
    if d in E.ht.free:
        i = L(0, (("v", ("idx", E.fresh()), (0, (1 << E.ht.width(d)) - 1)), 1))
    else:
        i = E.ht.digit("common", d)
    return child(E, st, G, i)


engx.ELEMKINDS["htkid"] = kid_value


def on_bind(st, name, segs):
    """A group of children was divided: so is the bag of its contents, and the digits are in order."""
    E = engnat.ENGINE[0]
    gaps = getattr(E, "gap", None)
    if not gaps or name not in gaps:
        return
    G = gaps[name]
    out, lo, need = [], G["lo"], []
    xs = [st.nlin(E.kidx[g[1][2][1]]) if g[0] == "e" else None for g in segs]
    for k, g in enumerate(segs):
        if g[0] == "e":
            x = xs[k]
            if lo is not None:
                need.append(mkle(ladd(ladd(lo, lconst(1)), x, -1)))
            out.append(("s", E.syms[g[1][2][1]][1][1]))
            lo = x
        else:
            n = g[1]
            if n not in gaps or gaps[n] is G:
                hi = xs[k + 1] if k + 1 < len(segs) else G["hi"]
                if k + 1 < len(segs) and hi is None:
                    raise Unknown("bound of a group of children")
                newgap(E, n, G["t"], G["spt"], G["depth"], G["path"], lo, hi)
            out.append(("s", E.bag[n]))
    if lo is not None and G["hi"] is not None and segs and segs[-1][0] == "e":
        need.append(mkle(ladd(ladd(lo, lconst(1)), G["hi"], -1)))
    b = E.bag[name]
    if b in st.sbind:
        if st.sbind[b] != ():
            raise Unknown("children of known contents")
        st.assume(mkeq(ladd(st.length((("s", b),)), st.length(tuple(out)), -1)))
    else:
        st.sbind[b] = tuple(out)
    for f in need:
        st.assume(f)
    if E.ht.small:
        # no subtree below the root is empty
        for g in segs:
            if g[0] == "e":
                st.assume(mkle(ladd(lconst(1), st.length((("s", E.syms[g[1][2][1]][1][1]),)), -1)))
            else:
                st.assume(mkle(ladd(L(0, (("len", g[1]), 1)), st.length((("s", E.bag[g[1]]),)), -1)))


eng.ONBIND[None] = on_bind


def bits_of(x):
    """Does a term mention the bits of a bitmap?"""
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == "v" and isinstance(x[1], tuple) and x[1] and x[1][0] in ("bm", "bit", "bmsr"):
            return True
        return any(bits_of(y) for y in x)
    return False


def split_form(E, st, f):
    # bitmaps are only known by their members: as numbers they are not
    if bits_of(f):
        raise Unknown("a bitmap compared as a number")


def arith(E, st, op, x, y, ty):
    r = bitarith(E, st, op, x, y, ty)
    if r is None and (bits_of(st.nlin(x)) or bits_of(st.nlin(y))):
        raise Unknown("arithmetic (%s) on a bitmap" % op)
    return r


def bitarith(E, st, op, x, y, ty):
    if op == "Shl":
        if x == (1, ()) and st.decide(mkle(lscale(y, -1))) is True and st.decide(mkle(ladd(y, lconst(-63)))) is True:
            return L(0, (("v", ("bit", y), (1, 1 << 63)), 1))
        return None
    if op not in ("BitAnd", "BitOr", "BitXor"):
        if op == "Shr":
            A = lit(st, x)
            if A is not None and (y[1] or 0 <= y[0] < 64):
                return L(0, (("v", ("bmsr", A, y), U64), 1))
        return None
    A, B_ = lit(st, x), lit(st, y)
    if op == "BitAnd":
        if A == () or B_ == ():
            return lconst(0)
        if A is not None and A == B_:
            return bmlin(A)
        for p, q, P, Q in ((x, y, A, B_), (y, x, B_, A)):
            if P is None:
                if p[0] == 0 and len(p[1]) == 1 and p[1][0][0][1][0] == "bmsr" and q == (1, ()):
                    _, A2, i = p[1][0][0][1]
                    return lconst(1 if probe(E, st, normbm(st, A2), i)[1] else 0)
                continue
            if all(g[0] == "x" for g in P) and len(P) > 4:
                continue
            m = maskof(st, q)
            if m is not None:
                return bmlin(probe(E, st, P, m)[0])
            n = lit(st, ladd(lconst(ONES), q, -1)) if q[1] or q[0] > 1 << 63 else None
            if n is not None and all(g[0] == "x" for g in n) and len(n) <= 4:
                for g in n:
                    a, hit, b = probe(E, st, P, g[1])
                    P = a + b
                return bmlin(P)
        if A is not None and B_ is not None:
            if not all(g[0] == "x" for g in B_) or all(g[0] == "x" for g in A) and len(A) < len(B_):
                A, B_ = B_, A
            if all(g[0] == "x" for g in B_) and len(B_) <= 4:
                return bmlin(tuple(g for g in B_ if probe(E, st, A, g[1])[1]))
        return None
    if A is None or B_ is None:
        return None
    if not all(g[0] == "x" for g in B_):
        A, B_ = B_, A
    if not all(g[0] == "x" for g in B_) or len(B_) > 4:
        return None
    for g in B_:
        a, hit, b = probe(E, st, A, g[1])
        if hit:
            A = a + b if op == "BitXor" else A
        else:
            A = a + (g,) + b
    return bmlin(A)


def popcount(E, st, v, w):
    A = lit(st, v)
    if A is None:
        m = maskof(st, v)
        return I(m) if m is not None else None
    return I(L(sum(g[0] == "x" for g in A), *[(("len", g[1]), 1) for g in A if g[0] == "s"]))


def bitnot(E, st, l, ty):
    if ty in ("usize", "u64"):
        return I(ladd(lconst(ONES), l, -1))
    return E.uf("Not", (l,), RANGES[ty])


# ---------------------------------------------------------------- nodes
def fieldty(E, t, k=0):
    return E.T[t]["v"][0]["f"][k]["t"]


class Layout:
    """Which variants, fields and types play which part."""
    def __init__(self, E, t):
        self.ok = False
        self.node = t
        x = E.T[t]
        if x["k"] != "adt" or len(x.get("v", ())) != 2:
            return
        self.branch = self.leaf = None
        for k, v in enumerate(x["v"]):
            if len(v["f"]) != 1:
                return
            f = v["f"][0]["t"]
            y = E.T[f]
            if y["k"] != "adt" or "v" not in y:
                return
            if len(y["v"]) == 1:
                fs = y["v"][0]["f"]
                a = [i for i, g in enumerate(fs) if E.T[g["t"]]["k"] == "adt" and E.T[g["t"]]["p"] == VEC]
                b = [i for i, g in enumerate(fs) if E.T[g["t"]]["s"] in ("usize", "u64")]
                if len(a) != 1 or len(b) != 1 or len(fs) != 2:
                    return
                self.branch, self.sparse, self.arr, self.bm = k, f, a[0], b[0]
                self.spt = E.T[fs[a[0]]["t"]]["a"][0]
                if sp_of(E, self.spt) is None or E.T[sp_of(E, self.spt)].get("p") != x["p"]:
                    return
            elif len(y["v"]) == 2 and all(len(v2["f"]) == 1 for v2 in y["v"]):
                self.leaf, self.bucket = k, f
                for j, v2 in enumerate(y["v"]):
                    if E.T[v2["f"][0]["t"]].get("p") == LIST:
                        self.coll, self.listt = j, v2["f"][0]["t"]
                    else:
                        self.single, self.ewh = j, v2["f"][0]["t"]
            else:
                return
        if self.branch is None or self.leaf is None or not hasattr(self, "coll") or not hasattr(self, "single"):
            return
        fs = E.T[self.ewh]["v"][0]["f"]
        self.ent = self.hash = None
        for k, f in enumerate(fs):
            if sp_of(E, f["t"]) is not None:
                self.ent, self.entsp = k, f["t"]
            elif E.T[f["t"]]["s"] == "u64":
                self.hash = k
        if self.ent is None or self.hash is None or len(fs) != 2:
            return
        self.entry = E.stripty(self.entsp)
        self.ok = True


def layout(E, t):
    c = E.__dict__.setdefault("ht_layouts", {})
    if t not in c:
        c[t] = Layout(E, t)
    return c[t] if c[t].ok else None


def fresh_entry(E, st, lay, path, owner="S"):
    n = E.fresh()
    key = ("t", ("hk", (owner, n)))
    fs = E.T[lay.entry]["v"][0]["f"]
    val = E.value(st, fs[1]["t"], "v")
    ds = tuple(path) + tuple(E.ht.digit(n, j) for j in range(len(path), E.ht.max))
    E.hashof[(E.ht_builder, key)] = ds
    ent = ("a", lay.entry, 0, (E.wrap(key, fs[0]["t"]), val))
    out = [None, None]
    out[lay.ent] = ("p", ("x", E.fresh()), ent)
    out[lay.hash] = I(E.ht.hash(ds))
    return ("a", lay.ewh, 0, tuple(out))


def entry_of(E, st, lay, ewh):
    ewh = E.force(st, ewh)
    return E.canon(st, ewh[3][lay.ent])


def branch_value(E, st, lay, t, depth, path, bind):
    c = "c%d" % E.fresh()
    newgap(E, c, t, lay.spt, depth, path, None, None)
    f = [None, None]
    f[lay.bm] = I(bmlin((("s", c),)))
    f[lay.arr] = ("q", (("s", c),), lay.spt)
    bind((("s", E.bag[c]),))
    st.facts.append(L(-(1 << E.ht.width(depth)), (("len", c), 1)))
    if depth not in E.ht.free and depth > 0:
        # every hash has the same digit here
        G = E.gap[c]
        st.bindseq(c, (("e", child(E, st, G, E.ht.digit("common", depth))),))
    return ("a", t, lay.branch, (("a", lay.sparse, 0, tuple(f)),))


def mat_htnode(E, st, i, t, pred):
    _, name, depth, path = pred
    lay = layout(E, t)
    if name in st.sbind and st.sbind[name] != ():
        raise Unknown("node of known contents")
    owner = E.ht_owner.get(name, "S")
    known_empty = name in st.sbind

    def bind(s):
        def b(segs):
            if known_empty:
                for g in segs:
                    if g[0] == "e":
                        raise Infeasible()
                    s.bindseq(g[1], ())
            else:
                s.bindseq(name, segs)
        return b

    def branch(s):
        if E.ht.small and depth > 0:
            s.assume(mkle(ladd(lconst(2), s.length((("s", name),)), -1)))
        s.bind[i] = branch_value(E, s, lay, t, depth, path, bind(s))

    def leaf(n):
        def f(s):
            es = [fresh_entry(E, s, lay, path, owner) for _ in range(n)]
            if n == 1:
                b = ("a", lay.bucket, lay.single, (es[0],))
            else:
                b = ("a", lay.bucket, lay.coll, (E.listc.build(E, s, lay.listt, tuple(("e", e) for e in es)),))
            s.bind[i] = ("a", t, lay.leaf, (b,))
            bind(s)(tuple(("e", entry_of(E, s, lay, e)) for e in es))
        return f
    alts = []
    if depth < E.ht.max:
        alts.append(branch)
        if depth == 0 or depth - 1 in E.ht.free:
            alts.append(leaf(1))
    else:
        if depth - 1 in E.ht.free:
            alts.append(leaf(1))
        alts += [leaf(n) for n in E.ht.sizes]
    raise Split(alts)


engx.MATERIALISE["htnode"] = mat_htnode
engx.STICKY.add("htnode")


class HtC(Container):
    """The hash trie map."""
    def __init__(self, path):
        self.path = path
        self.name = path.rsplit("::", 1)[1]
        self.cache = {}

    def roles(self, E, t):
        if t in self.cache:
            return self.cache[t]
        x = E.T[t]
        r = None
        if x["k"] == "adt" and x["p"] == self.path:
            root = size = deg = hb = None
            for k, f in enumerate(x["v"][0]["f"]):
                s = sp_of(E, f["t"])
                if s is not None and layout(E, s):
                    root = k
                elif E.T[f["t"]]["s"] == "usize":
                    size = k
                elif E.T[f["t"]]["s"] == "u8":
                    deg = k
                else:
                    hb = k
            if None not in (root, size, hb):
                r = (root, size, deg, hb, layout(E, sp_of(E, x["v"][0]["f"][root]["t"])))
        self.cache[t] = r
        return r

    def matches(self, E, t):
        return self.roles(E, t) is not None

    def elemty(self, E, t):
        return self.roles(E, t)[4].entry

    def build(self, E, st, t, segs):
        root, size, deg, hb, lay = self.roles(E, t)
        segs = st.norm(tuple(segs))
        if len(segs) != 1 or segs[0][0] != "s" or not isinstance(segs[0][1], str):
            raise Unknown("hash map of given contents")
        n = segs[0][1]
        E.ht_ety = lay.entry
        E.ht_owner[n] = n
        vals = [None] * len(E.T[t]["v"][0]["f"])
        s = E.sym(lay.node, ("htnode", n, 0, ()))
        E.ht_roots[n] = s
        vals[root] = ("p", ("n", E.fresh()), s)
        vals[size] = I(st.length(segs))
        if deg is not None:
            vals[deg] = I(E.ht.D)
        vals[hb] = E.ht_builder
        return ("a", t, 0, tuple(vals))

    def unknown(self, E, st, t):
        n = "h%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def strip(self, E, st, v):
        while True:
            if v[0] == "p":
                v = v[2]
            elif v[0] == "r":
                v = v[1]
            elif v[0] == "c":
                v = st.cells[v[1]]
            elif v[0] == "m":
                v = E.read_path(st, v[1], v[2])
            elif v[0] == "sym" and v[1] in st.bind:
                v = st.bind[v[1]]
            elif v[0] == "sym":
                p = E.syms[v[1]][1]
                if p[0] == "htnode":
                    return v, p
                v = E.force(st, v)
            else:
                return v, None

    def entries(self, E, st, lay, v):
        """The entries of a bucket."""
        b = E.force(st, v[3][0])
        x = E.force(st, b[3][0])
        if b[2] == lay.single:
            return [x]
        head, last, ln, fs = E.listc.roles(E, lay.listt)
        return self.chain(E, st, lay, x[3][head], fs[head]["t"]), E.intof(st, x[3][ln]) if ln is not None else None

    def chain(self, E, st, lay, v, t):
        """Entries of an explicit list."""
        out = []
        while True:
            v = E.force(st, v)
            if v[2] == 0:
                return out
            n, ref, kid, rest = E.chain.parts(E, v[1] if v[1] is not None else t)
            p = E.force(st, v[3][0])
            node = E.force(st, p[2] if p[0] == "p" else p[1])
            e = E.force(st, node[3][rest[0]])
            while e[0] in ("p", "r"):
                e = E.force(st, e[2] if e[0] == "p" else e[1])
            out.append(e)
            t = E.T[n]["v"][0]["f"][kid]["t"]
            v = node[3][kid]

    def node_view(self, E, st, v, depth, path, lay):
        """Contents; Bad unless every entry is where its hash leads."""
        v, p = self.strip(E, st, v)
        if p is not None:
            if p[2] != depth:
                raise Bad("a node of depth %d at depth %d" % (p[2], depth))
            for x, y in zip(p[3], path):
                self.digit(E, st, x, y, "a subtree")
            return st.norm((("s", p[1]),))
        if v[0] != "a":
            raise Unknown("node " + v[0])
        if v[2] == lay.branch:
            if depth >= E.ht.max:
                raise Bad("a branch below the maximum depth")
            sp = E.force(st, v[3][0])
            bml = E.intof(st, sp[3][lay.bm])
            bm = lit(st, bml)
            if bm is None:
                raise Unknown("bitmap")
            q = engnat.seqof(E, st, sp[3][lay.arr])
            segs = st.norm(q[1])
            for g in bm + segs:
                if g[0] == "s" and g[1] not in st.sbind and st.decide(mkle(L(0, (("len", g[1]), 1)))) is True:
                    st.bindseq(g[1], ())
            bm = tuple(g for g in bm if g[0] == "x" or st.sbind.get(g[1]) != ())
            segs = st.norm(segs)
            if len(bm) != len(segs) or any((a[0] == "s") != (b[0] == "s") or a[0] == "s" and a != b for a, b in zip(bm, segs)):
                sure = not any(a[0] == "s" for a in bm + segs) or E.length_differs(st, bm, segs)
                raise Bad("the bitmap does not describe the children", not sure)
            out = ()
            for a, b in zip(bm, segs):
                if a[0] == "s":
                    G = E.gap[a[1]]
                    if G["depth"] != depth:
                        raise Bad("children of another depth")
                    for x, y in zip(G["path"], path):
                        self.digit(E, st, x, y, "a group of children")
                    out += st.norm((("s", E.bag[a[1]]),))
                else:
                    out += self.node_view(E, st, b[1], depth + 1, path + (a[1],), lay)
            return out
        b = E.force(st, v[3][0])
        if b[2] == lay.single:
            es = self.entries(E, st, lay, v)
        else:
            es, n = self.entries(E, st, lay, v)
            if depth != E.ht.max:
                raise Bad("a collision above the maximum depth")
            if len(es) < 2:
                raise Bad("a collision of %d entries" % len(es))
            if n is not None and st.decide(mkeq(ladd(n, lconst(-len(es))))) is not True:
                raise Bad("the length of a collision list is wrong")
        for e in es:
            h = E.intof(st, e[3][lay.hash])
            k = E.canon(st, e[3][lay.ent])[3][0]
            ds = digits(E, st, k)
            f = mkeq(ladd(st.nlin(h), st.nlin(E.ht.hash(ds)), -1))
            if st.nlin(h) != st.nlin(E.ht.hash(ds)) and st.decide(f) is not True:
                raise Bad("the recorded hash is not that of the key", st.decide(f) is None)
            for x, y in zip(path, ds):
                self.digit(E, st, x, y, "an entry")
        return tuple(("e", entry_of(E, st, lay, e)) for e in es)

    def digit(self, E, st, x, y, what):
        if x == y:
            return
        f = deq(st.nlin(x), st.nlin(y))
        d = st.decide(f)
        if d is None:
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
        if d is not True:
            raise Bad(what + " is not where its hash leads")

    def parts(self, E, st, v, t=None):
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("map view")
        return v, self.roles(E, v[1] if v[1] is not None else t)

    def view(self, E, st, v, t=None):
        v, (root, size, deg, hb, lay) = self.parts(E, st, v, t)
        st.tighten()
        segs = self.node_view(E, st, v[3][root], 0, (), lay)
        n = E.intof(st, v[3][size])
        f = mkeq(ladd(n, st.length(segs), -1))
        d = st.decide(f)
        if d is not True:
            raise Bad("the recorded size is not the number of entries (%s, %s)" % (show_lin(n), show_lin(st.length(segs))), d is None)
        if deg is not None:
            k = E.fixed(st, E.intof(st, v[3][deg]))
            if k is None:
                raise Unknown("degree")
            if segs and k != E.ht.D:
                raise Bad("the degree changes under the entries")
            if k < 2 or k > 64 or k & (k - 1):
                raise Bad("degree %d" % k)
        if E.canon(st, v[3][hb]) != E.ht_builder and segs:
            raise Bad("the hasher changes under the entries")
        return segs


# ---------------------------------------------------------------- looking up in the contents
def locate(E, st, segs, key):
    """Index in the (re-normalised) contents of the entry with this key, or None."""
    ds = digits(E, st, key)
    segs = st.norm(segs)
    for k, g in enumerate(segs):
        if g[0] == "e":
            p = engnat.rels(E, st, key, E.keyof(st, g[1]))
            if p == {"="}:
                return segs, k
            if "=" in p:
                f = engnat.relform(key, E.keyof(st, g[1]), "=")
                raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
            continue
        n = g[1]
        if n.endswith("@"):
            c = n[:-1]
            G = E.gap[c]
            if not same_path(E, st, G["path"], ds):
                continue
            i = ds[G["depth"]]
            if G["lo"] is not None and order3(st, i, G["lo"]) <= 0 or G["hi"] is not None and order3(st, i, G["hi"]) >= 0:
                continue
            raise Split([lambda s: cut(E, s, c, i, True), lambda s: cut(E, s, c, i, False)])
        s = E.ht_roots.get(n)
        if s is None:
            s = next((("sym", i) for i, (t, p) in E.syms.items() if p[0] == "htnode" and p[1] == n), None)
            E.ht_roots[n] = s
        if s is None:
            raise Unknown("where the contents come from")
        p = E.syms[s[1]][1]
        if not same_path(E, st, p[3], ds):
            continue
        if s[1] in st.bind:
            raise Unknown("explored node")
        E.force(st, s)
    return segs, None


def same_path(E, st, path, ds):
    for x, y in zip(path, ds):
        f = deq(st.nlin(x), st.nlin(y))
        if f is True:
            continue
        d = st.decide(f)
        if d is False or f is False:
            return False
        if d is None:
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
    return True


def same_bag(E, st, got, want):
    """Equality of contents in any order."""
    from spec import canons, drop_empty, same, ground
    got, want = list(drop_empty(st, canons(E, st, got))), list(drop_empty(st, canons(E, st, want)))
    for g in list(got):
        for w in want:
            if g == w or g[0] == w[0] == "e" and same(E, st, g[1], w[1]) is True:
                got.remove(g)
                want.remove(w)
                break
    if not got and not want:
        return True
    for g in got:
        for w in want:
            if g[0] == w[0] == "e" and same(E, st, g[1], w[1]) is None:
                return None
    for g in got + want:
        if g[0] == "e" and not ground(g[1]) or g[0] != "e" and isinstance(g[1], tuple):
            return None
    return False


def show_lin(l):
    return " + ".join([str(l[0])] + ["%s*%s" % (c, a) for a, c in l[1]])


def length_differs(E, st, a, b):
    def n(x):
        return L(sum(g[0] != "s" for g in x), *[(("len", g[1]), 1) for g in x if g[0] == "s"])
    return st.decide(mkeq(ladd(n(a), n(b), -1))) is False


Engine.length_differs = length_differs


def install(E, cfg):
    E.ht = cfg
    E.ht_builder = ("t", ("hasher",))
    E.ht_owner, E.ht_roots, E.ht_ety = {}, {}, None
    E.hashof, E.kidx, E.gap, E.bag, E.full = {}, {}, {}, {}, set()
    E.hooks.update(arith=arith, ctpop=popcount, bitnot=bitnot, hash_one=hash_one, keyrel=keyrel, distinct=distinct, int_eq=int_eq, split=split_form)
    E.same_view = same_bag
    E.nofold = True
    E.rec_limit = 2 * cfg.max + 6
