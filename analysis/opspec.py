"""Bulk construction and (de)serialisation, with the maps, sets and the vector seen through their own one-element
operations: the abstract value of such a collection is the list of the elements added to it, in order."""
from eng import *
from spec import *
import engnat
from engnat import NAT, opt, deref, store

OPS = {
    "rpds::vector::Vector": ("push_back", 1),
    "rpds::map::red_black_tree_map::RedBlackTreeMap": ("insert", 2),
    "rpds::map::hash_trie_map::HashTrieMap": ("insert", 2),
    "rpds::set::red_black_tree_set::RedBlackTreeSet": ("insert", 1),
    "rpds::set::hash_trie_set::HashTrieSet": ("insert", 1),
}


class OpC(Container):
    def __init__(self, path):
        self.path = path
        self.name = path.rsplit("::", 1)[1]

    def matches(self, E, t):
        return E.T[t]["k"] == "adt" and E.T[t]["p"] == self.path

    def elemty(self, E, t):
        a = [x for x in E.T[t]["a"] if x is not None]
        return ("pair", a[0], a[1]) if OPS[self.path][1] == 2 else a[0]

    def build(self, E, st, t, segs):
        return ("a", t, 0, (("q", tuple(segs), None),))

    def unknown(self, E, st, t):
        n = "o%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def view(self, E, st, v, t=None):
        v = E.force(st, v)
        if v[0] != "a" or len(v[3]) != 1 or v[3][0][0] != "q":
            raise Unknown("view")
        return st.norm(v[3][0][1])


def pair(a, b):
    return ("a", None, 0, (a, b))


def op_natives(P):
    N = {}
    for path, (verb, ar) in OPS.items():
        def add(E, st, old, c, ar=ar):
            if old[0] != "a":
                raise Unknown("insertion into " + old[0])
            e = c.args[1] if ar == 1 else pair(c.args[1], c.args[2])
            return ("a", old[1], 0, (("q", old[3][0][1] + (("e", E.canon(st, e)),), None),))

        def put(E, st, c, add=add):
            m = E.force(st, c.args[0])
            if m[0] != "m":
                raise Unknown("insertion into " + m[0])
            E.write_path(st, m[1], m[2], add(E, st, E.force(st, E.read_path(st, m[1], m[2])), c))
            return UNIT

        def puti(E, st, c, add=add):
            return add(E, st, deref(E, st, c.args[0]), c)

        def segs_of(E, st, c):
            v = deref(E, st, c.args[0])
            if v[0] != "a":
                raise Unknown("collection expected")
            return st.norm(v[3][0][1])

        def member(E, st, c, segs_of=segs_of, ar=ar):
            # whether an equal key or element was added before: both are possible unless nothing was
            segs = segs_of(E, st, c)
            if not segs:
                return B(False)
            if not any(g[0] == "e" for g in segs) and st.decide(mkle(st.length(segs))) is not False:
                E.split_form(st, mkle(st.length(segs)))
            if ar == 1:
                st.soft = st.soft + ("re-adding an equal element is not observable",)
            return B(("at", ("member", E.fresh())))

        def pick(E, st, c, segs_of=segs_of, ar=ar, path=path):
            segs = segs_of(E, st, c)
            o = c.out()
            if not segs:
                return opt(E, o, None)
            if st.decide(mkle(st.length(segs))) is None:
                E.split_form(st, mkle(st.length(segs)))
            if c.n.rsplit("::", 1)[1] in ("get", "get_key_value"):
                st.soft = st.soft + ("lookup",)
            if path.endswith("Vector"):
                st.soft = st.soft + ("vector element",)
            inner = E.T[o]["a"][0]
            return opt(E, o, E.value(st, inner, "peek"))

        def size(E, st, c, segs_of=segs_of, ar=ar, path=path):
            segs = segs_of(E, st, c)
            n = st.length(segs)
            if path.endswith("Vector") or not segs:
                return I(n)
            if len(segs) == 1 and segs[0][0] == "e":
                return I(1)
            r = E.uf("size", (segs,), (0, (1 << 64) - 1))
            st.assume(mkle(ladd(r[1], n, -1)))
            if st.decide(mkle(n)) is None:
                E.split_form(st, mkle(n))
            if st.decide(mkle(n)) is False:
                st.assume(mkle(ladd(lconst(1), r[1], -1)))
            return r

        def empty(E, st, c, segs_of=segs_of):
            return B(mkle(st.length(segs_of(E, st, c))))
        for m in ("contains_key", "contains"):
            N["%s::%s" % (path, m)] = member
        for m in ("first", "last", "get", "get_key_value"):
            N["%s::%s" % (path, m)] = pick
        N[path + "::is_empty"] = empty

        def new(E, st, c):
            return ("a", c.out(), 0, (("q", (), None),))
        N["%s::%s_mut" % (path, verb)] = put
        N["%s::%s" % (path, verb)] = puti
        N["<%s as core::clone::Clone>::clone" % path] = lambda E, st, c: deref(E, st, c.args[0])
        N["%s::%s" % (path, "len" if verb == "push_back" else "size")] = size
        for x in P.insts:
            n = x["n"]
            if n.startswith(path + "::new") or n == "<%s as core::default::Default>::default" % path:
                N[n] = new
    return N


# ---- serde
SEQ, MAP = "serde_core::de::SeqAccess::", "serde_core::de::MapAccess::"


def result_of(E, c):
    out = c.out()
    if E.T[out]["k"] != "adt" or not E.T[out]["p"].endswith("result::Result"):
        raise Unknown("result type")
    return out, E.T[out]["a"][0]


def fail(E, s, out):
    e = ("t", ("err", E.fresh()))
    s.notes = s.notes + (("err", e),)
    return (s, "ret", ("a", out, 1, (e,)))


def stream_step(E, st, c, pick):
    """The input either fails here, ends, or delivers one more element."""
    out, o = result_of(E, c)
    res = [fail(E, st.copy(), out)]

    def f(s):
        m = E.force(s, c.args[0])
        it = deref(E, s, m)
        if it[0] != "it":
            raise Unknown("next on " + it[0])
        r = E.front(s, it[1])
        if r is None:
            return ("a", out, 0, (opt(E, o, None),))
        store(E, s, m, ("it", r[1], it[2], it[3]))
        return ("a", out, 0, (opt(E, o, pick(E, s, r[0])),))
    for s, v in E.fork(st, f):
        res.append((s, "ret", v))
    return res


def next_element(E, st, c):
    return stream_step(E, st, c, lambda E, s, e: e)


def next_key(E, st, c):
    def pick(E, s, e):
        s.notes = s.notes + (("pending", e[3][1]),)
        return e[3][0]
    return stream_step(E, st, c, pick)


def next_value(E, st, c):
    out, o = result_of(E, c)
    pend = [n for n in st.notes if n[0] == "pending"]
    if not pend:
        raise Unknown("next_value without a key")
    res = [fail(E, st.copy(), out)]
    s = st.copy()
    s.notes = tuple(n for n in s.notes if n is not pend[-1])
    res.append((s, "ret", ("a", out, 0, (pend[-1][1],))))
    return res


next_element.multi = next_key.multi = next_value.multi = True


def any_hint(E, st, c):
    """A claimed length: absent or anything."""
    out = c.out()
    s = st.copy()
    return [(s, "ret", ("a", out, 0, ())), (st, "ret", ("a", out, 1, (E.newint("claimed"),)))]


any_hint.multi = True


def deser(kind):
    def h(E, st, c):
        # deserialize_seq(self, visitor): the format calls the visitor with the input's elements, or fails
        out = c.out()
        res = [fail(E, st.copy(), out)]
        vis = c.args[-1]
        v = E.force(st, vis)
        if v[0] != "a" or v[1] is None:
            raise Unknown("visitor")
        name = "<%s as serde_core::de::Visitor>::visit_%s" % (E.T[v[1]]["p"], kind)
        x = E.P.root(name)
        if x is None:
            raise Unknown("no " + name)
        b = x["body"]
        n = "U"
        E.kinds[n] = E.hooks["stream"]
        return res + E.call_inst(st, x["id"], [vis, ("it", (("s", n),), None, "serde")])
    h.multi = True
    return h


def collect(E, st, c):
    """collect_seq / collect_map: serialises everything the argument iterates over."""
    out, o = result_of(E, c)
    segs = iterable(E, st, c.args[1])
    st.trace = st.trace + (("ser", segs),)
    ok = ("t", ("done", E.fresh()))
    s = st.copy()
    return [fail(E, s, out), (st, "ret", ("a", out, 0, (ok,)))]


collect.multi = True


def iterable(E, st, v):
    w = v
    while w[0] in ("r", "m"):
        if w[0] == "r":
            w = w[1]
        else:
            w = E.read_path(st, w[1], w[2])
    if w[0] == "it":
        return w[1]
    c, t = engloop.container_of(E, w if w[0] == "sym" else E.force(st, w))
    if c is None:
        raise Unknown("serialises an iterator")
    return c.view(E, st, w, t)


def ser_begin(E, st, c):
    out, o = result_of(E, c)
    st.trace = st.trace + (("begin",),)
    return [fail(E, st.copy(), out), (st, "ret", ("a", out, 0, (("t", ("serializer", E.fresh())),)))]


def ser_elem(E, st, c):
    out, o = result_of(E, c)
    vals = [E.canon(st, a) for a in c.args[1:]]
    st.trace = st.trace + (("elem", vals[0] if len(vals) == 1 else ("a", None, 0, tuple(vals))),)
    return [fail(E, st.copy(), out), (st, "ret", ("a", out, 0, (UNIT,)))]


def ser_end(E, st, c):
    out, o = result_of(E, c)
    st.trace = st.trace + (("end",),)
    return [fail(E, st.copy(), out), (st, "ret", ("a", out, 0, (("t", ("done", E.fresh())),)))]


ser_begin.multi = ser_elem.multi = ser_end.multi = True
SER = "serde_core::ser::"
SERDE = {
    SEQ + "next_element": next_element, MAP + "next_entry": next_element, MAP + "next_key": next_key, MAP + "next_value": next_value,
    SEQ + "size_hint": any_hint, MAP + "size_hint": any_hint,
    "serde_core::de::Deserializer::deserialize_seq": deser("seq"), "serde_core::de::Deserializer::deserialize_map": deser("map"),
    SER + "Serializer::collect_seq": collect, SER + "Serializer::collect_map": collect,
    SER + "Serializer::serialize_seq": ser_begin, SER + "Serializer::serialize_map": ser_begin,
    SER + "SerializeSeq::serialize_element": ser_elem, SER + "SerializeMap::serialize_entry": ser_elem,
    SER + "SerializeSeq::end": ser_end, SER + "SerializeMap::end": ser_end,
}


def op_engine(P, queue_order=1, budget=60000):
    E = engine(P, queue_order, budget)
    E.natives.update(op_natives(P))
    E.natives.update(SERDE)
    E.containers = [OpC(p) for p in OPS] + E.containers
    old = E.value

    def value(st, t, hint="x"):
        if isinstance(t, tuple) and t[0] == "pair":
            return pair(old(st, t[1], hint + ".k"), old(st, t[2], hint + ".v"))
        return old(st, t, hint)
    E.value = value
    E.natives["serde_core::de::Deserialize::deserialize"] = NotImplementedError
    del E.natives["serde_core::de::Deserialize::deserialize"]
    return E


SEQS = ["rpds::list::List", "rpds::stack::Stack", "rpds::queue::Queue", "rpds::vector::Vector"]


def streamarg(E, x, t):
    for c in E.containers:
        if c.matches(E, t):
            return c.elemty(E, t)
    raise Unknown("element type")


def bulk_specs(H):
    """from_iter and extend."""
    for p in list(OPS) + SEQS[:3]:
        H.spec("<%s as core::iter::traits::collect::FromIterator>::from_iter" % p, lambda c: dict(ret=("view", (("s", "U"),))))
        n = "<%s as core::iter::traits::collect::Extend>::extend" % p
        if H.P.root(n):
            H.spec(n, lambda c: dict(self=c.view + (("s", "U"),)))
        for x in H.P.insts:
            if x.get("root") and x["n"].startswith("<%s as core::convert::From" % p) and x.get("body"):
                pass


def err_of(st):
    es = [n[1] for n in st.notes if n[0] == "err"]
    return es


def de_want(view):
    def want(c):
        def custom(E, q, v, args, out):
            r = deref_all(E, q, v)
            es = err_of(q)
            if r[0] != "a" or r[2] not in (0, 1):
                out.append(("ret", "unk", "result"))
                return
            if r[2] == 1:
                got = E.canon(q, r[3][0])
                ok = got in es
                out.append(("err", "ok" if ok else "bad" if not es else "unk", "returns an error of its own" if not es else "returns %s instead of the input's error" % showv(got)))
                return
            if es:
                out.append(("err", "bad", "an error raised by the input is swallowed: the result is a collection"))
                return
            match(E, q, r[3][0], ("view", view), out, "the deserialized collection")
        return dict(custom=custom)
    return want


def ser_want(c):
    view = c.view

    def custom(E, q, v, args, out):
        r = deref_all(E, q, v)
        es = err_of(q)
        if r[0] != "a" or r[2] not in (0, 1):
            out.append(("ret", "unk", "result"))
            return
        if r[2] == 1:
            got = E.canon(q, r[3][0])
            out.append(("err", "ok" if got in es else "unk", "error result %s" % showv(got)))
            return
        if es:
            out.append(("err", "bad", "an error of the serializer is swallowed"))
            return
        segs = emitted(E, q, q.trace)
        if segs is None:
            out.append(("ser", "unk", "serialisation pattern %s" % (q.trace,)))
            return
        r = same_view(E, q, segs, view)
        out.append(("ser", {True: "ok", False: "bad", None: "unk"}[r], "serialises %s, expected %s" % (show(canons(E, q, segs)), show(canons(E, q, view)))))
    return dict(custom=custom)


def emitted(E, st, trace):
    if len(trace) == 1 and trace[0][0] == "ser":
        return trace[0][1]
    if len(trace) >= 2 and trace[0] == ("begin",) and trace[-1] == ("end",):
        out = ()
        for ev in trace[1:-1]:
            if ev[0] == "elem":
                out += (("e", ev[1]),)
            elif ev[0] == "each" and len(ev[3]) == 1 and ev[3][0] == ("elem", ("$",)):
                out += ev[1] if ev[2] == "front" else rev(ev[1])
            else:
                return None
        return out
    return None


def serde_specs(H):
    for p in list(OPS) + SEQS[:3]:
        H.spec("<%s as serde_core::ser::Serialize>::serialize" % p, ser_want)
        H.spec("<%s as serde_core::de::Deserialize>::deserialize" % p, de_want((("s", "U"),)), setup=de_setup)
    for x in H.P.insts:
        if x.get("root") and "serde_core::de::Visitor>::visit_" in x["n"]:
            H.spec(x["n"], de_want((("s", "U"),)), setup=visit_setup)


def okty(E, x):
    out = x["body"]["locals"][0]
    return E.T[out]["a"][0]


def de_setup(E, st, x, tys):
    E.hooks["stream"] = streamarg(E, x, okty(E, x))
    v = E.value(st, tys[0], "deserializer")
    return [v], [v], None


def visit_setup(E, st, x, tys):
    E.kinds["U"] = streamarg(E, x, okty(E, x))
    args = [E.value(st, tys[0], "visitor"), ("it", (("s", "U"),), None, "serde")]
    return args, args, None


if __name__ == "__main__":
    import sys, common, mir
    P = mir.Prog(common.dump("all"))
    for f in (bulk_specs, serde_specs):
        H = Harness(P, op_engine)
        f(H)
        t = time.time()
        H.run((lambda n: sys.argv[1] in n) if len(sys.argv) > 1 else None)
        print(f.__name__, time.time() - t, H.missing, {k: (len(v) if isinstance(v, set) else v) for k, v in H.stats.items()})
        cnt = {}
        for r in H.results:
            cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
            if r.verdict != "ok":
                print("  ", r)
        print(cnt)
