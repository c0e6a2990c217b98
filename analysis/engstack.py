"""Iterators over search trees: stacks of node references, and steps from an arbitrary point of an iteration.

A stack of node references stands for what it still has to deliver: forwards, the entry of the top node, then its right
subtree, then the rest of the stack; backwards the mirror image."""
from eng import *
from engx import *
import engnat, engtree
from engtree import cuts, plain_node
from spec import same_view, same, canons, show, showv, check_int, showlin
import mir

VECS = ("alloc::vec::Vec", "smallvec::SmallVec")


def stack_parts(E, t):
    """(index of the vector, index of the direction flag, node type) of a stack-of-nodes struct."""
    x = E.T[t]
    if x["k"] != "adt" or len(x.get("v", ())) != 1:
        return None
    v = d = n = None
    for k, f in enumerate(x["v"][0]["f"]):
        y = E.T[f["t"]]
        if y["k"] == "adt" and y["p"] in VECS:
            a = y["a"][0]
            if E.T[a]["k"] == "array":
                a = E.T[a]["t"]
            z = E.T[a]
            if z["k"] == "ref" and E.tree.is_node(E, z["t"]) and v is None:
                v, n = k, z["t"]
            else:
                return None
        elif y["k"] == "bool" and d is None:
            d = k
        else:
            return None
    return None if v is None or d is None else (v, d, n)


def new_stack(E, n, rest, back):
    """A symbol for node references that deliver rest."""
    g = "G%d" % E.fresh()
    E.kinds[g] = ("noderef", n)
    E.rem[g] = (tuple(rest), back, n)
    E.symhooks[g] = split_stack
    return g


def split_stack(E, st, name, back):
    """Case split on a stack symbol: empty, or its top node is the entry delivered next over any part of what follows."""
    rest, rev_, n = E.rem[name]
    if not back:
        raise Unknown("the bottom of a stack of nodes")
    r = E.front(st, rest)
    if r is None:
        raise Split([lambda s: s.bindseq(name, ())])
    e, tail = r
    alts = []
    for cut in cuts(E, st, tail):
        def f(s, cut=cut):
            mid, after = cut(s)
            junk = "J%d" % E.fresh()
            E.kinds[junk] = E.elemkind
            inner = (("s", junk),)
            if rev_:
                x = plain_node(E, s, n, rev(mid), e, inner)
            else:
                x = plain_node(E, s, n, inner, e, mid)
            g2 = new_stack(E, n, after, rev_)
            s.bindseq(name, (("s", g2), ("e", R(x))))
        alts.append(f)
    raise Split(alts)


def deliver(E, st, q, back):
    """What a stack still delivers."""
    out = ()
    kids = None
    for g in reversed(st.norm(q[1])):
        if g[0] == "s" and g[1] in E.rem:
            if E.rem[g[1]][1] != back:
                raise Unknown("stack of the other direction")
            out += st.norm(E.rem[g[1]][0])
        elif g[0] == "e":
            x = E.force(st, g[1])
            while x[0] in ("r", "c"):
                x = E.force(st, x[1] if x[0] == "r" else x)
            if x[0] != "a":
                raise Unknown("stack element")
            kids, pay, col, black, fs = E.tree.node_parts(E, x[1])
            sub = E.tree.view(E, st, x[3][kids[0 if back else 1]])
            out += (("e", E.canon(st, x[3][pay])),) + (rev(sub) if back else sub)
        else:
            raise Unknown("stack of nodes")
    return st.norm(out)


def tree_type(E, n):
    return next(t for t in range(len(E.T)) if E.tree.matches(E, t) and E.tree.node_of(E, t) == (n, False))


class StackSums:
    """Contracts of the recursive functions that extend a stack of nodes: each is proved once per class by running its body
    with its own recursive calls replaced by the contract (on a smaller subtree)."""

    def __init__(self, E):
        self.E = E
        self.sums = engtree.Summaries(E)
        self.state = E.P.__dict__.setdefault("stack_summaries", {})
        self.first = None
        self.measure = None
        self.sig = {}

    def kind(self, i):
        if i in self.sig:
            return self.sig[i]
        E = self.E
        b = E.P.insts[i].get("body")
        k = None
        if b and 1 <= b["argc"] <= 4:
            tys = b["locals"][1:1 + b["argc"]]
            x = E.T[tys[0]]
            if x["k"] == "ref" and x.get("m") and stack_parts(E, x["t"]):
                if b["argc"] == 1:
                    k = "dig"
                elif b["argc"] == 4 and E.T[tys[1]]["k"] == "ref" and E.tree.is_node(E, E.T[tys[1]]["t"]):
                    k = "digto"
        if k and not any(i in E.P.reach(j) for j in E.P.callee_ids(i)):
            k = None
        self.sig[i] = k
        return k

    def __call__(self, st, i, args):
        k = self.kind(i)
        if k is None:
            return None
        if self.first == i:
            self.first = None
            return None
        E = self.E
        out = []
        for s, cls in E.fork(st, lambda s: self.cls(s, k, args)):
            if cls is None:
                out.append((s, "ret", UNIT))
                continue
            key, top, segs, q, v, m = cls
            if self.measure and self.measure[0] == i:
                d = ladd(s.nlin(s.length(segs)), s.nlin(self.measure[1]), -1)
                if s.decide(mkle(ladd(d, lconst(1)))) is not True:
                    out.append((s, "unk", ("recursion not on a smaller subtree", E.P.insts[i]["n"], 0)))
                    continue
            bad = self.status(i, k, key)
            if bad:
                out.append((s, "unk", ("summary of %s: %s" % (E.P.insts[i]["n"], bad), E.P.insts[i]["n"], 0)))
                continue
            n = stack_parts(E, v[1])[2]
            add = self.post(s, k, key, segs, args)
            g = new_stack(E, n, add, key[0])
            vi = stack_parts(E, v[1])[0]
            vals = list(v[3])
            vals[vi] = ("q", q[1] + (("s", g),), q[2])
            E.write_path(s, m[1], m[2], ("a", v[1], v[2], tuple(vals)))
            out.append((s, "ret", UNIT))
        return out

    def bounds(self, st, args):
        """The bounds arguments, as ('U',) or (variant, key)."""
        E = self.E
        out = []
        for a in args[2:4]:
            a = E.force(st, a)
            nm = E.T[a[1]]["v"][a[2]]["n"]
            out.append(("U",) if nm == "Unbounded" else (nm, E.canon(st, a[3][0])))
        return out

    def cls(self, st, k, args):
        E = self.E
        m = E.force(st, args[0])
        if m[0] != "m":
            raise Unknown("stack argument")
        v = E.force(st, E.read_path(st, m[1], m[2]))
        vi, di, n = stack_parts(E, v[1])
        back = E.truth(st, v[3][di])
        q = engnat.seqof(E, st, v[3][vi])
        C = E.tree
        if k == "dig":
            r = E.front(st, q[1], back=True)
            if r is None:
                return None
            x = E.force(st, r[0])
            while x[0] == "r":
                x = E.force(st, x[1])
            kids, pay, col, black, fs = C.node_parts(E, x[1])
            segs = C.view(E, st, x[3][kids[1 if back else 0]])
            return (back,), x, segs, q, v, m
        x = engnat.deref(E, st, args[1])
        segs = C.node_view(E, st, x)
        lo, hi = self.bounds(st, args)
        return (back, lo[0], hi[0]), x, segs, q, v, m

    def post(self, st, k, key, segs, args):
        """What the pushed nodes deliver."""
        E = self.E
        back = key[0]
        if k == "dig":
            return rev(segs) if back else segs
        lo, hi = self.bounds(st, args)
        b = hi if back else lo
        if b[0] == "U":
            return rev(segs) if back else segs
        a, z = split_at_bound(E, st, segs, b[1])
        return rev(a) if back else z

    def status(self, i, k, key):
        s = self.state
        if (i, key) in s:
            return s[(i, key)]
        s[(i, key)] = ""        # assumed while proving
        try:
            s[(i, key)] = self.prove(i, k, key)
        except (Unknown, Split, Budget) as e:
            s[(i, key)] = str(e) or "undecided"
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            s[(i, key)] = "engine: %r" % (e,)
        return s[(i, key)]

    def prove(self, i, k, key):
        E, C = self.E, self.E.tree
        st = St()
        b = E.P.insts[i]["body"]
        tys = b["locals"][1:1 + b["argc"]]
        t = E.T[tys[0]]["t"]
        vi, di, n = stack_parts(E, t)
        save = E.cuts, E.sorted_roots, E.stack, self.first, self.measure, E.steps
        back = key[0]
        try:
            lo, mid, hi = ["%s%d" % (x, E.fresh()) for x in "LMH"]
            for x in (lo, mid, hi):
                E.kinds[x] = E.elemkind
            segs = (("s", lo), ("s", mid), ("s", hi))
            E.sorted_roots = E.sorted_roots + (("segs", segs),)
            args = []
            if k == "digto":
                E.cuts, bs = bound_values(E, key[1:], segs)
            nts = tree_type(E, n)
            under = ["U%d" % E.fresh()]
            E.kinds[under[0]] = E.elemkind
            g = new_stack(E, n, (("s", under[0]),), back)
            low = (("s", g),)
            tree = E.sym(nts, ("tree", segs, None, None))
            starts = []
            if k == "dig":
                def mk(s):
                    out = "O%d" % E.fresh()
                    E.kinds[out] = E.elemkind
                    e = E.canon(s, E.value(s, E.elemkind, "e"))
                    x = plain_node(E, s, n, segs if not back else (("s", out),), e, segs if back else (("s", out),))
                    return low + (("e", R(x)),)
                starts = [(st, mk(st), None)]
            else:
                for s, x in E.fork(st, lambda s: C.node(E, s, tree)):
                    if x is not None:
                        starts.append((s, low, x))
            for s, q0, x in starts:
                cell = ("stk", E.fresh())
                vals = [None] * len(E.T[t]["v"][0]["f"])
                vals[vi] = ("q", q0, None)
                vals[di] = B(back)
                s.cells[cell] = ("a", t, 0, tuple(vals))
                a = [("m", cell, ())]
                if k == "digto":
                    a += [R(x)] + [self.bound(E, ty, b) for ty, b in zip(tys[2:], bs)]
                measure = s.length(segs)
                self.first, self.measure = i, (i, measure)
                E.stack = [("prove", i)]
                outs = E.call_inst(s, i, a)
                self.first = self.measure = None
                for q, kind, v in outs:
                    if kind == "unk":
                        return "%s (%s:%s)" % v
                    if kind == "panic":
                        return "may panic: %s" % (v,)

                    def post(q):
                        w = E.force(q, q.cells[cell])
                        qq = engnat.seqof(E, q, w[3][vi])
                        got = q.norm(qq[1])
                        old = q.norm(q0)
                        if got[:len(old)] != old:
                            return "the stack below changed"
                        if E.truth(q, w[3][di]) != back:
                            return "direction changed"
                        have = deliver(E, q, ("q", got[len(old):], None), back)
                        want = self.post(q, k, key, segs, a)
                        r = same_view(E, q, have, want)
                        return "" if r is True else "delivers %s instead of %s" % (show(canons(E, q, have)), show(canons(E, q, want)))
                    for q2, msg in E.fork(q, post):
                        if msg:
                            return msg
            return ""
        finally:
            E.cuts, E.sorted_roots, E.stack, self.first, self.measure, E.steps = save

    @staticmethod
    def bound(E, ty, b):
        vs = [v["n"] for v in E.T[ty]["v"]]
        k = vs.index(b[0] if b[0] != "U" else "Unbounded")
        return ("a", ty, k, () if b[0] == "U" else (R(b[1]),))


def bound_values(E, kinds, segs):
    """Bound terms and the cuts they make in [before, inside, after]."""
    lo, mid, hi = ((segs[0],), (segs[1],), (segs[2],))
    cs, bs = [], []
    for k, left, right, start in ((kinds[0], lo, mid + hi, True), (kinds[1], lo + mid, hi, False)):
        if k == "U":
            bs.append(("U",))
            continue
        key = ("t", ("bound", E.fresh()))
        bs.append((k, key))
        inleft = (k == "Excluded") if start else (k == "Included")
        cs.append((key, left, right, inleft))
    return E.cuts + tuple(cs), bs


def split_at_bound(E, st, segs, key):
    """Cut a sequence at a bound (of which every symbol lies on one side)."""
    for k, left, right, inleft in E.cuts:
        if k == key:
            ls, rs = set(st.norm(left)), set(st.norm(right))
            out = ([], [])
            for g in st.norm(segs):
                h = ("s", g[1]) if g[0] == "rs" else g
                if h[0] == "e":
                    p = engnat.rels(E, st, E.keyof(st, h[1]), key)
                    lset = {"<", "="} if inleft else {"<"}
                    if p <= lset:
                        out[0].append(g)
                    elif not (p & lset):
                        out[1].append(g)
                    else:
                        raise Unknown("element on neither side")
                elif h in ls:
                    out[0].append(g)
                elif h in rs:
                    out[1].append(g)
                else:
                    raise Unknown("sequence on neither side")
            return tuple(out[0]), tuple(out[1])
    raise Unknown("unknown bound")
