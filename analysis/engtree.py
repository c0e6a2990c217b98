"""Binary search trees: shape predicates (colour, black height), dictionary operations on their in-order sequence, and
summaries of the recursive functions, inferred by iteration from the class of the input tree to the classes of the
result."""
from eng import *
from engx import *
import eng, engx, engnat
from engcont import Container, Bad, sp_of, opt_of, node_roles
from spec import same_view, same, canons, show, showv, deref_all
import mir


# ---- dictionary operations on sorted sequences
def locate(st, segs, key):
    """(segs, lo, hi, hit): the part of a sorted sequence where the key can be; hit = index of an equal element."""
    E = engnat.ENGINE[0]
    segs = st.norm(segs)
    lo, hi = 0, len(segs)
    for i, g in enumerate(segs):
        if g[0] != "e":
            continue
        p = engnat.rels(E, st, key, E.keyof(st, g[1]))
        if p == {"="}:
            return segs, i, i + 1, i
        if p == {"<"}:
            hi = i
            break
        if p == {">"}:
            lo = i + 1
    return segs, lo, hi, None


def reduce_in(st, k):
    segs, lo, hi, hit = locate(st, k[1], k[2])
    if hit is not None:
        return True
    sub = segs[lo:hi]
    if not sub:
        return False
    E = engnat.ENGINE[0]
    if all(g[0] == "e" and "=" not in engnat.rels(E, st, k[2], E.keyof(st, g[1])) for g in sub):
        return False
    return ("in", sub, k[2])


def contains_seq(big, small):
    n = len(small)
    return any(big[i:i + n] == small for i in range(len(big) - n + 1))


def in_value(st, k):
    r = reduce_in(st, k)
    if r is True or r is False:
        return r
    for k2, v in list(st.atoms.items()):
        if k2[0] != "in" or k2[2] != k[2]:
            continue
        r2 = reduce_in(st, k2)
        if r2 is True or r2 is False:
            continue
        if r2 == r:
            return v
        if v is False and contains_seq(r2[1], r[1]):
            return False
        if v is True and contains_seq(r[1], r2[1]):
            return True
    return None


def in_set(st, k, v):
    st.atoms.pop(k, None)
    r = reduce_in(st, k)
    if r is True or r is False:
        if r != v:
            raise Infeasible()
        return
    st.atoms[r] = v


def in_check(st):
    for k, v in st.atoms.items():
        if k[0] == "in":
            r = reduce_in(st, k)
            if r in (True, False) and r != v:
                raise Infeasible()


eng.ATOMS["in"] = in_value
eng.ONATOM["in"] = in_set
eng.CHECKERS.append(in_check)


def inform(segs, key):
    return ("at", ("in", tuple(segs), key))


def op_ins(st, n):
    _, segs, key, entry = n
    segs, lo, hi, hit = locate(st, segs, key)
    if hit is not None:
        return segs[:hit] + (("e", entry),) + segs[hit + 1:]
    mid = segs[lo:hi]
    if not mid:
        return segs[:lo] + (("e", entry),) + segs[hi:]
    return segs[:lo] + (("s", ("ins", mid, key, entry)),) + segs[hi:]


def op_del(st, n):
    _, segs, key = n
    segs, lo, hi, hit = locate(st, segs, key)
    if hit is not None:
        return segs[:hit] + segs[hit + 1:]
    mid = segs[lo:hi]
    if not mid or in_value(st, ("in", mid, key)) is False:
        return segs
    return segs[:lo] + (("s", ("del", mid, key)),) + segs[hi:]


def known_in(st, segs, key):
    f = inform(segs, key)
    d = st.decide(f)
    if d is None:
        raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
    return d


def len_ins(st, n):
    r = op_ins(st, n)
    if r != (("s", n),):
        return st.length(r)
    t = st.length(n[1])
    return t if known_in(st, n[1], n[2]) else ladd(t, lconst(1))


def len_del(st, n):
    r = op_del(st, n)
    if r != (("s", n),):
        return st.length(r)
    t = st.length(n[1])
    return ladd(t, lconst(-1)) if known_in(st, n[1], n[2]) else t


eng.OPS["ins"], eng.OPLEN["ins"] = op_ins, len_ins
eng.OPS["del"], eng.OPLEN["del"] = op_del, len_del


# ---- trees
class TreeC(Container):
    """Option<SharedPointer<N>> / Option<&N> with N a coloured binary node."""
    name = "tree"

    def __init__(self, swap=False):
        self.swap = swap
        self.cache = {}

    def node_parts(self, E, n):
        if n in self.cache:
            return self.cache[n]
        r = node_roles(E, n)
        out = None
        if r is not None and len(r[0]) == 2:
            fs = E.T[n]["v"][0]["f"]
            col = pay = None
            for k in r[1]:
                y = E.T[fs[k]["t"]]
                if y["k"] == "adt" and len(y.get("v", ())) == 2 and not any(v["f"] for v in y["v"]):
                    col = k
                elif pay is None:
                    pay = k
                else:
                    pay = -1
            if col is not None and pay not in (None, -1):
                vs = [v["n"] for v in E.T[fs[col]["t"]]["v"]]
                black = vs.index("Black") if "Black" in vs else 1
                kids = r[0][::-1] if self.swap else r[0]
                out = (kids, pay, col, black, fs)
        self.cache[n] = out
        return out

    def node_of(self, E, t):
        o = opt_of(E, t)
        if o is None:
            return None, None
        n = sp_of(E, o)
        if n is None:
            x = E.T[o]
            if x["k"] != "ref" or x.get("m"):
                return None, None
            n = x["t"]
            # Option<&SharedPointer<Node>>
            if sp_of(E, n) is not None:
                return None, None
            if self.node_parts(E, n) is None:
                return None, None
            return n, True
        if self.node_parts(E, n) is None:
            return None, None
        return n, False

    def matches(self, E, t):
        return self.node_of(E, t)[0] is not None

    def is_node(self, E, t):
        return E.T[t]["k"] == "adt" and "v" in E.T[t] and len(E.T[t]["v"]) == 1 and self.node_parts(E, t) is not None

    def elemty(self, E, t):
        n = self.node_of(E, t)[0] or t
        kids, pay, col, black, fs = self.node_parts(E, n)
        return E.stripty(fs[pay]["t"])

    def fresh_tree(self, E, st, t, cols="NRB", bh=None):
        n = "t%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),), cols, bh)

    def unknown(self, E, st, t):
        return self.fresh_tree(E, st, t)

    plain = False

    def build(self, E, st, t, segs, cols="NRB", bh=None):
        if self.plain:
            return E.sym(t, ("tree", tuple(segs), None, None))
        if bh is None:
            bh = E.newint("bh", "usize", 0, 1 << 40)[1]
        return E.sym(t, ("tree", tuple(segs), bh, frozenset(cols)))

    def colour(self, E, st, node, n):
        kids, pay, col, black, fs = self.node_parts(E, n)
        c = E.force(st, node[3][col])
        if c[0] != "a":
            raise Unknown("colour")
        return "B" if c[2] == black else "R"

    def node(self, E, st, v, t=None):
        """(node value, node type) of a materialised tree, None when empty."""
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("tree view of " + v[0])
        if v[2] == 0:
            return None
        p = E.force(st, v[3][0])
        x = E.force(st, p[2] if p[0] == "p" else p[1])
        if x[0] != "a":
            raise Unknown("node " + x[0])
        return x

    def pending(self, E, st, v):
        """The shape predicate of a tree that has not been inspected yet."""
        while v[0] == "sym" and v[1] in st.bind:
            v = st.bind[v[1]]
        if v[0] == "c":
            return self.pending(E, st, st.cells[v[1]])
        if v[0] == "sym":
            p = E.syms[v[1]][1]
            if p[0] != "tree":
                raise Unknown("tree expected")
            return p
        return None

    def view(self, E, st, v, t=None):
        p = self.pending(E, st, v)
        if p is not None:
            return st.norm(p[1])
        x = self.node(E, st, v)
        if x is None:
            return ()
        return self.node_view(E, st, x)

    def node_view(self, E, st, x):
        if x[1] is None:
            raise Unknown("untyped node")
        kids, pay, col, black, fs = self.node_parts(E, x[1])
        return (self.view(E, st, x[3][kids[0]]) + (("e", E.canon(st, x[3][pay])),) + self.view(E, st, x[3][kids[1]]))

    def bh(self, E, st, v):
        p = self.pending(E, st, v)
        if p is not None:
            return p[2]
        x = self.node(E, st, v)
        return lconst(0) if x is None else self.node_bh(E, st, x)

    def node_bh(self, E, st, x):
        kids, pay, col, black, fs = self.node_parts(E, x[1])
        return ladd(self.bh(E, st, x[3][kids[0]]), lconst(1 if self.colour(E, st, x, x[1]) == "B" else 0))

    # skeletons: ("t", colours, offset) a valid tree, ("n", colour, left, right) a node that is not (yet) valid
    def skel(self, E, st, v, base):
        p = self.pending(E, st, v)
        if p is not None:
            return ("t", p[3], self.offset(E, st, p[2], base))
        x = self.node(E, st, v)
        if x is None:
            return ("t", frozenset("N"), self.offset(E, st, lconst(0), base))
        return self.node_skel(E, st, x, base)

    def node_skel(self, E, st, x, base):
        kids, pay, col, black, fs = self.node_parts(E, x[1])
        c = self.colour(E, st, x, x[1])
        ks = []
        for k in kids:
            s = self.skel(E, st, x[3][k], base)
            if c == "R" and s[0] == "t" and "R" in s[1] and len(s[1]) > 1:
                E.force(st, x[3][k])      # splits on the colour
                s = self.skel(E, st, x[3][k], base)
            ks.append(s)
        return fold(c, ks[0], ks[1])

    def offset(self, E, st, bh, base):
        d = ladd(bh, base, -1)
        if not d[1]:
            return d[0]
        for k in (0, -1, 1, -2, 2, -3, 3, -4, 4):
            if st.decide(mkeq(ladd(d, lconst(-k)))) is True:
                return k
        raise Unknown("black height")

    def build_skel(self, E, st, t, sk, base):
        """(value, view) of a tree of this class over fresh contents."""
        if sk[0] == "t":
            if sk[1] == frozenset("N"):
                st.assume(mkeq(ladd(base, lconst(sk[2]))))
                return ("a", t, 0, ()), ()
            n = "f%d" % E.fresh()
            E.kinds[n] = self.elemty(E, t)
            return self.build(E, st, t, (("s", n),), sk[1], ladd(base, lconst(sk[2]))), (("s", n),)
        n, ref = self.node_of(E, t)
        x, segs = self.build_node(E, st, n, sk, base)
        return ("a", t, 1, (R(x) if ref else ("p", ("n", E.fresh()), x),)), segs

    def build_node(self, E, st, n, sk, base):
        kids, pay, col, black, fs = self.node_parts(E, n)
        l, ls = self.build_skel(E, st, fs[kids[0]]["t"], sk[2], base)
        r, rs = self.build_skel(E, st, fs[kids[1]]["t"], sk[3], base)
        e = E.value(st, E.stripty(fs[pay]["t"]), "e")
        vals = [None] * len(fs)
        vals[kids[0]], vals[kids[1]] = l, r
        vals[pay] = E.qelem(e, ("q", (), fs[pay]["t"]))
        vals[col] = ("a", fs[col]["t"], black if sk[1] == "B" else 1 - black, ())
        return ("a", n, 0, tuple(vals)), ls + (("e", E.canon(st, e)),) + rs


def fold(c, l, r):
    if l[0] == "t" and r[0] == "t" and l[2] == r[2]:
        if c == "B":
            return ("t", frozenset("B"), l[2] + 1)
        if "R" not in l[1] and "R" not in r[1]:
            return ("t", frozenset("R"), l[2])
    return ("n", c, l, r)


def showskel(s):
    if s[0] == "t":
        return "valid(%s%+d)" % ("/".join(sorted(s[1])), s[2])
    return "%s[%s, %s]" % (s[1], showskel(s[2]), showskel(s[3]))


def depth(s):
    return 0 if s[0] == "t" else 1 + max(depth(s[2]), depth(s[3]))


def mat_tree(E, st, i, t, pred):
    C = E.tree
    _, segs, bh, cols = pred
    segs = st.norm(segs)
    if bh is None:
        return mat_plain(E, st, i, t, segs)
    if segs == ():
        st.assume(mkeq(bh))
        if "N" not in cols:
            raise Infeasible()
        return ("a", t, 0, ())
    if len(segs) != 1 or segs[0][0] != "s" or not isinstance(segs[0][1], str):
        raise Unknown("tree of a composite sequence")
    name = segs[0][1]
    n, ref = C.node_of(E, t)
    kids, pay, col, black, fs = C.node_parts(E, n)

    def nil(s):
        s.assume(mkeq(bh))
        s.bind[i] = ("a", t, 0, ())
        s.bindseq(name, ())

    def node(c):
        def f(s):
            cb = ladd(bh, lconst(-1)) if c == "B" else bh
            s.assume(mkle(lscale(cb, -1)))
            e = E.value(s, E.stripty(fs[pay]["t"]), "e")
            a, b = "%s.l%d" % (name[:12], E.fresh()), "%s.r%d" % (name[:12], E.fresh())
            E.kinds[a] = E.kinds[b] = E.kinds[name]
            kc = frozenset("NRB") if c == "B" else frozenset("NB")
            vals = [None] * len(fs)
            vals[kids[0]] = C.build(E, s, fs[kids[0]]["t"], (("s", a),), kc, cb)
            vals[kids[1]] = C.build(E, s, fs[kids[1]]["t"], (("s", b),), kc, cb)
            vals[pay] = E.qelem(e, ("q", (), fs[pay]["t"]))
            vals[col] = ("a", fs[col]["t"], black if c == "B" else 1 - black, ())
            x = ("a", n, 0, tuple(vals))
            s.bind[i] = ("a", t, 1, (R(x) if ref else ("p", ("x", E.fresh()), x),))
            s.bindseq(name, (("s", a), ("e", E.canon(s, e)), ("s", b)))
        return f
    raise Split([nil if c == "N" else node(c) for c in sorted(cols)])


engx.MATERIALISE["tree"] = mat_tree


def cuts(E, st, segs):
    """Every way to cut a sequence in two: functions on the state giving (before, after)."""
    segs = st.norm(segs)
    out = []
    for k in range(len(segs) + 1):
        if k == len(segs) or segs[k][0] == "e" or k == 0 or segs[k - 1][0] == "e":
            # between two symbols the cut is inside one of them
            if not (k < len(segs) and segs[k][0] != "e") and not (k > 0 and segs[k - 1][0] != "e"):
                out.append(lambda s, k=k: (segs[:k], segs[k:]))
        if k < len(segs) and segs[k][0] != "e":
            g = segs[k]
            if not isinstance(g[1], str):
                raise Unknown("cut of a derived sequence")

            def f(s, k=k, g=g):
                name = g[1]
                a, b = "%s[%d" % (name[:14], E.fresh()), "%s]%d" % (name[:14], E.fresh())
                E.kinds[a] = E.kinds[b] = E.kinds[name]
                x, y = (("s", a),), (("s", b),)
                s.bindseq(name, x + y)
                if g[0] == "rs":
                    x, y = (("rs", b),), (("rs", a),)
                return segs[:k] + x, y + segs[k + 1:]
            out.append(f)
    return out


def plain_node(E, st, n, left, entry, right):
    """A node value with these contents; its colour is arbitrary."""
    C = E.tree
    kids, pay, col, black, fs = C.node_parts(E, n)
    vals = [None] * len(fs)
    vals[kids[0]] = E.sym(fs[kids[0]]["t"], ("tree", tuple(left), None, None))
    vals[kids[1]] = E.sym(fs[kids[1]]["t"], ("tree", tuple(right), None, None))
    vals[pay] = E.wrap(entry, fs[pay]["t"])
    vals[col] = E.value(st, fs[col]["t"], "col")
    return ("a", n, 0, tuple(vals))


def mat_plain(E, st, i, t, segs):
    """A tree whose shape is of no interest: any entry may be at its root."""
    C = E.tree
    n, ref = C.node_of(E, t)
    if segs == ():
        return ("a", t, 0, ())

    def put(s, l, e, r):
        x = plain_node(E, s, n, l, e, r)
        s.bind[i] = ("a", t, 1, (R(x) if ref else ("p", ("x", E.fresh()), x),))
    alts = []
    if all(g[0] != "e" for g in segs):
        def nil(s):
            for g in segs:
                s.bindseq(g[1], ())
            s.bind[i] = ("a", t, 0, ())
        alts.append(nil)
    for k, g in enumerate(segs):
        if g[0] == "e":
            alts.append(lambda s, k=k, g=g: put(s, segs[:k], g[1], segs[k + 1:]))
        elif isinstance(g[1], str):
            def f(s, k=k, g=g):
                name = g[1]
                a, b = "%s<%d" % (name[:14], E.fresh()), "%s>%d" % (name[:14], E.fresh())
                E.kinds[a] = E.kinds[b] = E.kinds[name]
                e = E.canon(s, E.elem(s, name))
                s.bindseq(name, (("s", a), ("e", e), ("s", b)))
                x, y = (("s", a),), (("s", b),)
                if g[0] == "rs":
                    x, y = (("rs", b),), (("rs", a),)
                put(s, segs[:k] + x, e, y + segs[k + 1:])
            alts.append(f)
        else:
            raise Unknown("tree of a derived sequence")
    raise Split(alts)


class MapC(Container):
    """A struct of a tree and a size."""
    root_cols = "NB"

    def __init__(self, path):
        self.path = path
        self.name = path.rsplit("::", 1)[1]

    def roles(self, E, t):
        fs = E.T[t]["v"][0]["f"]
        tree = size = None
        for k, f in enumerate(fs):
            if E.tree.matches(E, f["t"]):
                if tree is not None:
                    raise Unknown("map layout")
                tree = k
            elif E.T[f["t"]]["s"] == "usize":
                size = k
        if tree is None:
            raise Unknown("map layout")
        return tree, size, fs

    def matches(self, E, t):
        if E.T[t]["k"] != "adt" or E.T[t]["p"] != self.path:
            return False
        try:
            self.roles(E, t)
        except Unknown:
            return False
        return True

    def elemty(self, E, t):
        tree, size, fs = self.roles(E, t)
        return E.tree.elemty(E, fs[tree]["t"])

    def build(self, E, st, t, segs):
        tree, size, fs = self.roles(E, t)
        for g in segs:
            if g[0] == "s" and g[1] not in E.sorted_roots:
                E.sorted_roots = tuple(E.sorted_roots) + (g[1],)
        vals = []
        for k, f in enumerate(fs):
            if k == tree:
                vals.append(E.tree.build(E, st, f["t"], segs, self.root_cols))
            elif k == size:
                vals.append(I(st.length(segs)))
            else:
                vals.append(E.value(st, f["t"], f["n"]))
        return ("a", t, 0, tuple(vals))

    def unknown(self, E, st, t):
        n = "m%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def view(self, E, st, v, t=None):
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("map view")
        tree, size, fs = self.roles(E, v[1] if v[1] is not None else t)
        segs = E.tree.view(E, st, v[3][tree])
        if size is not None:
            f = mkeq(ladd(E.intof(st, v[3][size]), st.length(segs), -1))
            d = st.decide(f)
            if d is not True:
                raise Bad("the recorded size is not the number of entries", d is None)
        return segs

    def shape(self, E, st, v, t=None):
        """(verdict, text) of the balance of the tree."""
        v = E.force(st, v)
        tree, size, fs = self.roles(E, v[1] if v[1] is not None else t)
        base = E.tree.bh(E, st, v[3][tree])
        sk = E.tree.skel(E, st, v[3][tree], base)
        if sk[0] == "t":
            E.root_seen |= sk[1]
            return True, ""
        return False, "the resulting tree is unbalanced: " + showskel(sk)


# ---- summaries of recursive functions
def is_param(E, t):
    x = E.T[t]
    return x["k"] in ("param", "alias", "opaque") or (x["k"] == "tuple" and not x["a"])


def signature(E, i):
    """What kind of tree operation a function's signature suggests: (kind, roles of the arguments)."""
    b = E.P.insts[i]["body"]
    tys = b["locals"][:1 + b["argc"]]
    roles = []
    for t in tys[1:]:
        x = E.T[t]
        C = E.tree
        if x["k"] == "ref":
            y = x["t"]
            if C.matches(E, y):
                roles.append("slot" if x.get("m") else "optr")
            elif C.is_node(E, y):
                roles.append("nm" if x.get("m") else "nr")
            elif is_param(E, y):
                roles.append("key")
            else:
                roles.append("?")
        elif C.matches(E, t):
            roles.append("opt" if not C.node_of(E, t)[1] else "optn")
        elif x["k"] == "bool":
            roles.append("flag")
        elif is_param(E, t):
            roles.append("val")
        elif x["k"] == "adt" and "v" in x and len(x["v"]) == 1 and len(x["v"][0]["f"]) == 2 and all(is_param(E, f["t"]) for f in x["v"][0]["f"]):
            roles.append("entry")
        else:
            roles.append("?")
    r = sorted(x for x in roles if x != "flag")
    out = E.T[tys[0]]
    kind = None
    if "?" in r:
        pass
    elif r == ["slot", "val", "val"] or r == ["entry", "slot"]:
        kind = "ins"
    elif r == ["key", "slot"]:
        kind = "del"
    elif r == ["nm", "opt", "opt"]:
        kind = "fuse"
    elif r == ["key", "nr"]:
        kind = "find"
    elif r == ["key", "nm"]:
        kind = "findm"
    elif r == ["nr"]:
        kind = "end"
    if kind in ("ins", "del", "fuse") and out["k"] != "bool":
        kind = None
    if kind in ("find", "findm") and not (out["k"] == "adt" and out["p"].endswith("option::Option")):
        kind = None
    return kind, roles


class Summaries:
    def __init__(self, E):
        self.E = E
        P = E.P
        if not hasattr(P, "summaries"):
            P.summaries = {}
        # the tables depend on the program alone: shared by all engines that read the children the same way
        sh = P.summaries.setdefault(E.tree.swap, dict(table={}, status={}, demand=[], dir={}, deps={}, version={}, done=set(), flipped={}, used=set()))
        self.sig = {}
        self.table = sh["table"]       # key -> list of results
        self.status = sh["status"]     # key -> dict(unk, bad, panics)
        self.demand = sh["demand"]
        self.first = None
        self.dir = sh["dir"]
        self.rec = self.recursive()
        self.failed = set()
        self.deps = sh["deps"]
        self.seen_version = sh["version"]
        self.done = sh["done"]
        self.flipped = sh["flipped"]
        self.shared_used = sh["used"]

    def recursive(self):
        """Instances through which every cycle of the call graph that passes a tree is entered."""
        P = self.E.P
        key = "_rec_entries"
        if hasattr(P, key):
            return getattr(P, key)
        comp = {}
        for c in mir.sccs(list(range(len(P.insts))), P.callee_ids):
            if len(c) > 1 or c[0] in P.callee_ids(c[0]):
                for x in c:
                    comp[x] = c[0]
        entered = set()
        for i in range(len(P.insts)):
            for j in P.callee_ids(i):
                if j in comp and comp.get(i) != comp[j]:
                    entered.add(j)
        out = {i for i in comp if i in entered and P.insts[i].get("body") and P.insts[i]["kind"] == "item"}
        setattr(P, key, out)
        return out

    def kind(self, i):
        if i not in self.sig:
            k = (None, None)
            if i in self.rec:
                k = signature(self.E, i)
            self.sig[i] = k
        return self.sig[i]

    def __call__(self, st, i, args):
        if i not in self.rec or i in self.failed:
            return None
        if self.first == i:
            self.first = None
            return None
        kind, roles = self.kind(i)
        if kind is None:
            return None
        h = getattr(self, "use_" + kind)
        outs = []
        for s, key in self.E.fork(st, lambda s: self.key(s, i, kind, roles, args)):
            try:
                if self.measure and self.measure[0] == i:
                    self.smaller(s, kind, roles, args, key)
                outs += h(s, i, roles, args, key)
            except Unknown as e:
                outs.append((s, "unk", ("summary: %s" % e, self.E.P.insts[i]["n"], 0)))
        return outs

    measure = None

    def smaller(self, st, kind, roles, args, key):
        """Recursion must be on fewer entries (else it need not end)."""
        if kind in ("find", "findm"):
            w = key[3]
        elif kind == "end":
            w = self.E.tree.node_view(self.E, st, self.nodeof(st, roles, args))
        else:
            w = sum(key[2], ())
        d = ladd(st.nlin(st.length(w)), st.nlin(self.measure[1]), -1)
        if st.decide(mkle(ladd(d, lconst(1)))) is not True:
            self.status[self.current].setdefault("grow", []).append("recursion that is not on fewer entries")

    # the class of the input
    def trees(self, st, roles, args):
        E, C = self.E, self.E.tree
        out = []
        for r, a in zip(roles, args):
            if r == "slot":
                m = E.force(st, a)
                if m[0] != "m":
                    raise Unknown("slot")
                v = E.read_path(st, m[1], m[2])
                out.append(E.force(st, v))
            elif r == "opt":
                out.append(E.force(st, a))
        return out

    def key(self, st, i, kind, roles, args):
        E, C = self.E, self.E.tree
        flags = []
        for r, a in zip(roles, args):
            if r == "flag":
                flags.append(E.truth(st, a))
        flags = tuple(flags)
        if kind in ("find", "findm"):
            x = self.nodeof(st, roles, args)
            k = E.canon(st, args[roles.index("key")])
            segs = C.node_view(E, st, x)
            return (i, flags, known_in(st, segs, k), segs, k)
        if kind == "end":
            return (i, flags)
        ts = self.trees(st, roles, args)
        base = C.bh(E, st, ts[0])
        sks = tuple(C.skel(E, st, v, base) for v in ts)
        segs = tuple(C.view(E, st, v) for v in ts)
        inn = None
        k = None
        if kind in ("ins", "del"):
            k = self.keyarg(st, roles, args)
            inn = known_in(st, segs[0], k)
        return (i, sks, flags, inn), base, segs, k

    def keyarg(self, st, roles, args):
        E = self.E
        if "key" in roles:
            return E.canon(st, args[roles.index("key")])
        if "entry" in roles:
            return E.keyof(st, args[roles.index("entry")])
        return E.canon(st, args[roles.index("val")])

    def entryarg(self, st, roles, args):
        E = self.E
        if "entry" in roles:
            return E.canon(st, args[roles.index("entry")])
        vs = [E.canon(st, a) for r, a in zip(roles, args) if r == "val"]
        return ("a", None, 0, tuple(vs))

    def nodeof(self, st, roles, args):
        E = self.E
        a = args[roles.index("nr" if "nr" in roles else "nm")]
        x = engnat.deref(E, st, a)
        if x[0] != "a":
            raise Unknown("node")
        return x

    def lookup(self, key):
        if key not in self.table:
            if any(depth(s) > 4 for s in key[1] if isinstance(s, tuple)):
                raise Unknown("deep shape")
            self.demand_plain(key[0], key)
        self.note(key)
        return self.table[key]

    def note(self, key):
        if self.current is not None:
            self.deps.setdefault(self.current, set()).add(key)

    def apply_tree(self, st, i, roles, args, key, rhs):
        """Outcomes of an operation that replaces a tree by another one."""
        E, C = self.E, self.E.tree
        k, base, segs, _ = key
        outs = []
        before = [0]
        rows = self.lookup(k)
        for ret, post in rows:
            s = st.copy()
            if len(rows) > 1 and not self.proving:
                s.soft = s.soft + ("one of several shapes",)
            try:
                where = next(j for j, r in enumerate(roles) if r in ("slot", "nm"))
                m = E.force(s, args[where])
                if roles[where] == "slot":
                    t = E.P.insts[i]["body"]["locals"][1 + where]
                    v, w = C.build_skel(E, s, E.T[t]["t"], post, base)
                    E.write_path(s, m[1], m[2], v)
                elif post is not None:
                    t = E.T[E.P.insts[i]["body"]["locals"][1 + where]]["t"]
                    if post[0] == "t":
                        ot = next(y for j, y in enumerate(E.P.insts[i]["body"]["locals"][1:]) if roles[j] == "opt")
                        v, w = C.build_skel(E, s, ot, post, base)
                        # the contents are unfolded once: the colour is known
                        for q, x in E.fork(s, lambda q: C.node(E, q, v)):
                            if x is None:
                                continue
                            E.write_path(q, m[1], m[2], x)
                            outs += self.finish_tree(q, ret, w, rhs)
                        continue
                    v, w = C.build_node(E, s, t, post, base)
                    E.write_path(s, m[1], m[2], v)
                else:
                    w = None
                outs += self.finish_tree(s, ret, w, rhs)
            except Infeasible:
                pass
        if self.broken(k) and not self.proving:
            outs.append((st.copy(), "unk", ("summary of %s: %s" % (E.P.insts[i]["n"], self.broken(k)), E.P.insts[i]["n"], 0)))
        for p in self.status[k]["panic"]:
            outs.append((st.copy(), "panic", p))
        return outs

    def finish_tree(self, s, ret, w, rhs):
        if w is not None:
            s.eqs = s.eqs + ((tuple(w), tuple(rhs)),)
            out = []
            for q, _ in self.E.fork(s, lambda q: (q.assume(mkeq(ladd(q.length(w), q.length(rhs), -1))), q.check())):
                out.append((q, "ret", B(ret)))
            return out
        return [(s, "ret", B(ret))]

    def use_ins(self, st, i, roles, args, key):
        e = self.entryarg(st, roles, args)
        return self.apply_tree(st, i, roles, args, key, (("s", ("ins", key[2][0], key[3], e)),))

    def use_del(self, st, i, roles, args, key):
        return self.apply_tree(st, i, roles, args, key, (("s", ("del", key[2][0], key[3])),))

    def use_fuse(self, st, i, roles, args, key):
        return self.apply_tree(st, i, roles, args, key, key[2][0] + key[2][1])

    proving = False

    def element(self, st, segs, k):
        """Bind the sequence so that the element with this (present) key is explicit; returns (before, element, after)."""
        E = self.E
        segs, lo, hi, hit = locate(st, segs, k)
        if hit is not None:
            return segs[:hit], segs[hit][1], segs[hit + 1:]
        for g in segs[lo:hi]:
            if g[0] == "e":
                engnat.relation(E, st, k, E.keyof(st, g[1]))     # splits
                raise Unknown("relation")
        sub = segs[lo:hi]
        if len(sub) != 1 or not isinstance(sub[0][1], str):
            raise Unknown("element of a composite sequence")
        name = sub[0][1]

        def cut(s):
            e = E.value(s, E.kinds[name], "e")
            a, b = "%s<%d" % (name[:12], E.fresh()), "%s>%d" % (name[:12], E.fresh())
            E.kinds[a] = E.kinds[b] = E.kinds[name]
            s.bindseq(name, (("s", a), ("e", E.canon(s, e)), ("s", b)))
            engnat.setrel(E, s, k, E.keyof(s, e), {"="})
        raise Split([cut])

    def demand_plain(self, i, key):
        if key not in self.table:
            self.table[key] = []
            self.status[key] = dict(unk=[], bad=[], panic=[])
            self.demand.append(key)
            if not self.proving:
                self.infer()
        self.note(key)

    def use_find(self, st, i, roles, args, key):
        E = self.E
        kk = (i, key[1], key[2])
        self.demand_plain(i, kk)
        self.check_status(kk)
        o = E.P.insts[i]["body"]["locals"][0]
        if not key[2]:
            return [(st, "ret", ("a", o, 0, ()))]
        out = []
        for s, (a, e, b) in E.fork(st, lambda s: self.element(s, key[3], key[4])):
            inner = E.T[o]["a"][0]
            out.append((s, "ret", ("a", o, 1, (self.as_type(e, inner),))))
        return out

    def as_type(self, e, t):
        """A canonical entry as a reference to it / the value part of it."""
        E = self.E
        x = E.T[t]
        if x["k"] == "ref":
            return R(self.as_type(e, x["t"]))
        if x["k"] == "adt" and x["p"].endswith("SharedPointer"):
            return ("p", ("w", e), self.as_type(e, x["a"][0]))
        if x["k"] == "adt":
            return ("a", t, 0, e[3]) if e[0] == "a" else e
        raise Unknown("lookup result type")

    def check_status(self, kk):
        if self.broken(kk) and not self.proving:
            raise Unknown("summary: %s" % self.broken(kk))

    def dump(self):
        for k in self.demand:
            print(self.E.P.insts[k[0]]["n"], [showskel(s) for s in k[1]] if k[1] and isinstance(k[1][0], tuple) else k[1:], k[2:] )
            for r, p in self.table[k]:
                print("      ->", r, p and showskel(p))
            for a, b in self.status[k].items():
                for m in b[:3]:
                    print("      !!", a, m)

    def broken(self, k):
        s = self.status[k]
        return (s["bad"] or s["unk"] or s.get("rest") or [None])[0]

    def use_findm(self, st, i, roles, args, key):
        E, C = self.E, self.E.tree
        kk = (i, key[1], key[2])
        self.demand_plain(i, kk)
        self.check_status(kk)
        o = E.P.insts[i]["body"]["locals"][0]
        if not key[2]:
            return [(st, "ret", ("a", o, 0, ()))]
        out = []
        m0 = E.force(st, args[roles.index("nm")])

        def f(s):
            a, e, b = self.element(s, key[3], key[4])
            x = self.nodeof(s, roles, args)
            kids, pay, col, black, fs = C.node_parts(E, x[1])
            ety = E.stripty(fs[pay]["t"])
            cell = ("tn", E.fresh())
            s.cells[cell] = ("a", ety, 0, e[3]) if e[0] == "a" else e
            vals = list(x[3])
            own = E.canon(s, x[3][pay])
            if same(E, s, own, e) is True and own == e:
                vals[pay] = E.qelem(("c", cell), ("q", (), None)) if not C_sp(E, fs[pay]["t"]) else ("p", ("n", E.fresh()), ("c", cell))
            else:
                done = False
                for kid in kids:
                    segs = C.view(E, s, x[3][kid])
                    if ("e", e) in segs:
                        j = segs.index(("e", e))
                        p = C.pending(E, s, x[3][kid])
                        bh = C.bh(E, s, x[3][kid])
                        if p is None:
                            raise Unknown("unfolded child")
                        vals[kid] = C.build(E, s, fs[kid]["t"], segs[:j] + (("e", ("c", cell)),) + segs[j + 1:], p[3], bh)
                        done = True
                if not done:
                    raise Unknown("element not found")
            E.write_path(s, m0[1], m0[2], ("a", x[1], 0, tuple(vals)))
            inner = E.T[o]["a"][0]
            return ("a", o, 1, (("m", cell, ()),))
        for s, v in E.fork(st, f):
            out.append((s, "ret", v))
        return out

    def use_end(self, st, i, roles, args, key):
        E, C = self.E, self.E.tree
        self.demand_plain(i, key)
        self.check_status(key)
        d = self.dir.get(i)
        if d is None:
            self.dir[i] = d = "first"
        o = E.P.insts[i]["body"]["locals"][0]

        def f(s):
            x = self.nodeof(s, roles, args)
            r = E.front(s, C.node_view(E, s, x), back=(d == "last"))
            return self.as_type(r[0], o)
        return [(s, "ret", v) for s, v in E.fork(st, f)]

    # ---- inference
    current = None

    def infer(self, limit=15):
        """Iterate until the summaries are stable."""
        E = self.E
        save = E.stack, E.steps, self.first, self.measure
        E.stack, self.first, self.measure = [], None, None
        self.proving = True
        try:
            for rnd in range(limit):
                changed = False
                for key in list(self.demand):
                    if key in self.done and not self.dirty(key):
                        continue
                    E.steps = 0
                    if self.run(key):
                        changed = True
                if not changed and all(k in self.done for k in self.demand):
                    break
            else:
                for key in self.demand:
                    self.status[key]["unk"].append("no fixpoint")
            # an assumption that does not hold spoils everything that rests on it
            ch = True
            for k in self.demand:
                self.status[k]["rest"] = []
            while ch:
                ch = False
                for k in self.demand:
                    if self.broken(k):
                        continue
                    for d in self.deps.get(k, ()):
                        if self.broken(d):
                            self.status[k]["rest"].append("rests on %s" % E.P.insts[d[0]]["n"])
                            ch = True
                            break
        finally:
            self.proving = False
            E.stack, E.steps, self.first, self.measure = save

    def dirty(self, key):
        return self.seen_version.get(key) != tuple((d, len(self.table[d]), len(self.status[d]["panic"])) for d in sorted(self.deps.get(key, ()), key=repr))

    def run(self, key):
        E, C = self.E, self.E.tree
        i = key[0]
        kind, roles = self.kind(i)
        self.done.add(key)
        self.current = key
        old = (list(self.table[key]), {k: list(v) for k, v in self.status[key].items()})
        res = []
        stt = dict(unk=[], bad=[], panic=[])
        st = St()
        b = E.P.insts[i]["body"]
        tys = b["locals"][1:1 + b["argc"]]
        save = E.sorted_roots
        try:
            self.prove(i, kind, roles, key, st, tys, res, stt)
        except (Unknown, Split) as e:
            stt["unk"].append(str(e))
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            stt["unk"].append("engine: %r" % (e,))
        E.sorted_roots = save
        self.current = None
        for r in res:
            if r not in self.table[key]:
                self.table[key].append(r)
        self.status[key] = stt
        self.seen_version[key] = tuple((d, len(self.table[d]), len(self.status[d]["panic"])) for d in sorted(self.deps.get(key, ()), key=repr))
        return (self.table[key], self.status[key]["panic"]) != (old[0], old[1]["panic"])

    def fresh(self, st, t, sk, base):
        E, C = self.E, self.E.tree
        v, segs = C.build_skel(E, st, t, sk, base)
        for g in segs:
            if g[0] == "s":
                E.sorted_roots = tuple(E.sorted_roots) + (("segs", segs),)
        return v, segs

    def prove(self, i, kind, roles, key, st, tys, res, stt):
        E, C = self.E, self.E.tree
        args = []
        base = E.newint("h", "usize", 0, 1 << 40)[1]
        segs = []
        cellv = None
        fl = list(key[2] if kind in ("ins", "del", "fuse") else key[1])
        sks = list(key[1]) if kind in ("ins", "del", "fuse") else []
        kterm = ("t", ("key", E.fresh()))
        vterm = ("t", ("val", E.fresh()))
        vals = [kterm, vterm]
        node0 = None
        for r, t in zip(roles, tys):
            if r == "flag":
                args.append(B(fl.pop(0)))
            elif r == "slot":
                cell = ("slot", E.fresh())
                v, w = self.fresh(st, E.T[t]["t"], sks.pop(0), base)
                st.cells[cell] = v
                segs.append(w)
                args.append(("m", cell, ()))
                cellv = cell
            elif r == "opt":
                v, w = self.fresh(st, t, sks.pop(0), base)
                segs.append(w)
                args.append(v)
            elif r == "val":
                args.append(vals.pop(0))
            elif r == "entry":
                args.append(("a", t, 0, (kterm, vterm)))
            elif r == "key":
                args.append(R(kterm))
            elif r == "nm" and kind == "fuse":
                cell = ("node", E.fresh())
                st.cells[cell] = E.value(st, E.T[t]["t"], "garbage")
                cellv = cell
                args.append(("m", cell, ()))
            elif r in ("nm", "nr"):
                args.append(("node", t))
        entry = ("a", None, 0, (kterm, vterm))
        if kind == "ins":
            rhs = (("s", ("ins", segs[0], kterm, entry)),)
        elif kind == "del":
            rhs = (("s", ("del", segs[0], kterm)),)
        elif kind == "fuse":
            rhs = segs[0] + segs[1]
            # the two halves are parts of one sorted sequence
            E.sorted_roots = tuple(E.sorted_roots) + (("segs", segs[0] + segs[1]),)
        starts = [(st, args)]
        if any(isinstance(a, tuple) and a[0] == "node" for a in args):
            j = next(j for j, a in enumerate(args) if a[0] == "node")
            nt = E.T[tys[j]]["t"]
            ot = next(t for t in range(len(E.T)) if C.matches(E, t) and C.node_of(E, t) == (nt, False))
            v, w = self.fresh(st, ot, ("t", frozenset("RB"), 0), base)
            segs = [w]
            starts = []
            for s, x in E.fork(st, lambda s: C.node(E, s, v)):
                if x is None:
                    continue
                a2 = list(args)
                cell = ("node", E.fresh())
                s.cells[cell] = x
                cellv = cell
                a2[j] = ("m", cell, ()) if roles[j] == "nm" else R(x)
                starts.append((s, a2))
        inn = key[3] if kind in ("ins", "del") else (key[2] if kind in ("find", "findm") else None)
        for s, a in starts:
            measure = lconst(0)
            for w in segs:
                measure = ladd(measure, s.length(w))
            try:
                if inn is not None:
                    f = inform(segs[0], kterm)
                    s.assume(f if inn else fnot(f))
                s.check()
            except Infeasible:
                continue
            cell = a[j][1] if kind == "findm" else cellv
            self.first = i
            self.measure = (i, measure)
            E.stack.append(("prove", i))
            try:
                outs = E.call_inst(s, i, a)
            finally:
                E.stack.pop()
                self.first = self.measure = None
            stt["unk"] += self.status[key].pop("grow", [])
            for q, k, v in outs:
                if k == "unk":
                    stt["unk"].append("%s (%s:%s)" % v)
                elif k == "panic":
                    if E.imprecise(q):
                        stt["unk"].append("may panic: %s" % (v,))
                    elif v not in stt["panic"]:
                        stt["panic"].append(v)
                else:
                    for q2, _ in E.fork(q, lambda q2: self.post(q2, i, kind, key, inn, v, cell, segs, rhs if kind in ("ins", "del", "fuse") else None, kterm, base, res, stt)):
                        pass

    def post(self, q, i, kind, key, inn, v, cell, segs, rhs, kterm, base, res, stt):
        E, C = self.E, self.E.tree

        def say(r, msg):
            if r is True:
                return
            (stt["bad"] if r is False and not E.imprecise(q) else stt["unk"]).append(msg)
        if kind in ("ins", "del"):
            ret = E.truth(q, v)
            say(ret == (inn if kind == "del" else not inn), "returns %s for a key that is %s" % (ret, "present" if inn else "absent"))
            t = q.cells[cell]
            got = C.view(E, q, t)
            sk = C.skel(E, q, t, base)
            say(same_view(E, q, got, rhs), "%s instead of %s" % (show(canons(E, q, got)), show(canons(E, q, rhs))))
            self.add(res, (ret, sk))
        elif kind == "fuse":
            ret = E.truth(q, v)
            x = E.force(q, q.cells[cell])
            empty = not q.norm(rhs)
            if not ret:
                say(empty, "reports nothing to fuse")
                self.add(res, (False, None))
                return
            got = C.node_view(E, q, x)
            say(same_view(E, q, got, rhs), "%s instead of %s" % (show(canons(E, q, got)), show(canons(E, q, rhs))))
            self.add(res, (True, C.node_skel(E, q, x, base)))
        elif kind in ("find", "findm"):
            v = E.force(q, v)
            if v[2] == 0:
                say(not inn, "a present key is not found")
                return
            if not inn:
                say(False, "an absent key is found")
                return
            ent = deref_all(E, q, v[3][0])
            sg, lo, hi, hit = locate(q, segs[0], kterm)
            if hit is None:
                say(None, "no entry with this key is known")
                return
            say(same(E, q, E.canon(q, ent), sg[hit][1]), "finds another entry")
            if kind == "findm":
                m = E.force(q, v[3][0])
                if m[0] != "m":
                    raise Unknown("mutable lookup")
                w = ("t", ("new", E.fresh()))
                E.write_path(q, m[1], m[2] + (1,), w)
                want = sg[:hit] + (("e", ("a", None, 0, (sg[hit][1][3][0], w))),) + sg[hit + 1:]
                got = C.node_view(E, q, E.force(q, q.cells[cell]))
                say(same_view(E, q, got, want), "writing through the result changes %s" % show(canons(E, q, got)))
                self.findm_shape(q, cell, base, stt)
        elif kind == "end":
            ent = E.canon(q, v)
            r = E.front(q, segs[0], back=(self.dir[i] == "last"))
            x = same(E, q, ent, E.canon(q, r[0]))
            if x is not True and self.dir[i] == "first" and not self.flipped.get(i):
                self.flipped[i] = True
                self.dir[i] = "last"
                self.done.discard(key)
                stt["unk"].append("direction")
                return
            say(x, "yields %s" % showv(ent))

    def findm_shape(self, q, cell, base, stt):
        E, C = self.E, self.E.tree
        sk = C.node_skel(E, q, E.force(q, q.cells[cell]), base)
        if sk[0] != "t":
            stt["bad"].append("shape changed by a lookup")

    def add(self, res, r):
        if r[1] is not None and depth(r[1]) > 4:
            raise Unknown("deep shape")
        if r not in res:
            res.append(r)


def C_sp(E, t):
    return sp_of(E, t) is not None

