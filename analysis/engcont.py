"""Containers: concrete representations with a view as a sequence of abstract elements."""
from eng import *
from engx import *
import engx

SP = "archery::shared_pointer::SharedPointer"
OPT = "core::option::Option"


def sp_of(E, t):
    x = E.T[t]
    return x["a"][0] if x["k"] == "adt" and x["p"] == SP else None


def opt_of(E, t):
    x = E.T[t]
    return x["a"][0] if x["k"] == "adt" and x["p"] in (OPT, "std::option::Option") else None


def node_roles(E, t):
    """(child field indices, other field indices) of a struct whose fields include Option<SharedPointer<itself>>."""
    x = E.T[t]
    if x["k"] != "adt" or "v" not in x or len(x["v"]) != 1:
        return None
    kids, rest = [], []
    for k, f in enumerate(x["v"][0]["f"]):
        o = opt_of(E, f["t"])
        s = sp_of(E, o) if o is not None else None
        if s is not None and E.T[s]["k"] == "adt" and E.T[s]["p"] == x["p"]:
            kids.append(k)
        else:
            rest.append(k)
    return (kids, rest) if kids else None


class Container:
    scan = True

    def matches(self, E, t):
        return False

    def unknown(self, E, st, t):
        return None

    def view(self, E, st, v, t=None):
        raise Unknown("no view")

    def build(self, E, st, t, segs):
        raise Unknown("no build")


def elems_of(E, name):
    pass


class Chain(Container):
    """Option<SharedPointer<N>> / Option<&N> with N a singly linked node."""
    name = "chain"

    def matches(self, E, t):
        o = opt_of(E, t)
        if o is None:
            return False
        x = E.T[o]
        n = sp_of(E, o) if sp_of(E, o) is not None else (x["t"] if x["k"] == "ref" and not x.get("m") else None)
        if n is None:
            return False
        r = node_roles(E, n)
        return r is not None and len(r[0]) == 1

    def parts(self, E, t):
        o = opt_of(E, t)
        n = sp_of(E, o)
        ref = n is None
        if ref:
            n = E.T[o]["t"]
        kids, rest = node_roles(E, n)
        return n, ref, kids[0], rest

    def elemty(self, E, t):
        n, ref, kid, rest = self.parts(E, t)
        if len(rest) != 1:
            raise Unknown("list node with several payload fields")
        return E.stripty(E.T[n]["v"][0]["f"][rest[0]]["t"])

    def unknown(self, E, st, t):
        n = "c%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def build(self, E, st, t, segs):
        return E.sym(t, ("chain", tuple(segs)))

    def view(self, E, st, v, t=None):
        out = []
        while True:
            if v[0] == "sym" and v[1] not in st.bind:
                ty, pred = E.syms[v[1]]
                if pred[0] != "chain":
                    raise Unknown("chain view of " + pred[0])
                out += pred[1]
                return st.norm(tuple(out))
            v = E.force(st, v)
            if v[0] != "a":
                raise Unknown("chain view of " + v[0])
            if v[2] == 0:
                return st.norm(tuple(out))
            p = E.force(st, v[3][0])
            node = E.force(st, p[2] if p[0] == "p" else p[1])
            n, ref, kid, rest = self.parts(E, v[1] if v[1] is not None else t)
            out.append(("e", E.canon(st, node[3][rest[0]])))
            t = E.T[n]["v"][0]["f"][kid]["t"]
            v = node[3][kid]


def mat_chain(E, st, i, t, pred):
    C = E.chain
    r = E.front(st, pred[1])
    if r is None:
        return ("a", t, 0, ())
    e, rest = r
    n, ref, kid, pay = C.parts(E, t)
    fs = E.T[n]["v"][0]["f"]
    vals = [None] * len(fs)
    vals[pay[0]] = E.qelem(e, ("q", (), fs[pay[0]]["t"]))
    vals[kid] = E.sym(fs[kid]["t"], ("chain", rest))
    node = ("a", n, 0, tuple(vals))
    return ("a", t, 1, (R(node) if ref else ("p", ("x", E.fresh()), node),))


def mat_last(E, st, i, t, pred):
    r = E.front(st, pred[1], back=True)
    if r is None:
        return ("a", t, 0, ())
    return ("a", t, 1, (E.qelem(r[0], ("q", (), opt_of(E, t))),))


engx.MATERIALISE["chain"] = mat_chain
engx.MATERIALISE["last"] = mat_last


class ListC(Container):
    """rpds::list::List: a chain, a pointer to the last element, a length."""
    name = "list"
    path = "rpds::list::List"

    def matches(self, E, t):
        return E.T[t]["k"] == "adt" and E.T[t]["p"] == self.path

    def roles(self, E, t):
        fs = E.T[t]["v"][0]["f"]
        head = last = ln = None
        for k, f in enumerate(fs):
            if E.chain.matches(E, f["t"]):
                if head is not None:
                    raise Unknown("list layout")
                head = k
            elif opt_of(E, f["t"]) is not None:
                last = k
            elif E.T[f["t"]]["s"] == "usize":
                ln = k
            else:
                raise Unknown("list layout")
        if head is None:
            raise Unknown("list layout")
        return head, last, ln, fs

    def build(self, E, st, t, segs):
        head, last, ln, fs = self.roles(E, t)
        vals = [None] * len(fs)
        vals[head] = E.chain.build(E, st, fs[head]["t"], segs)
        if last is not None:
            vals[last] = E.sym(fs[last]["t"], ("last", tuple(segs)))
        if ln is not None:
            vals[ln] = I(st.length(segs))
        return ("a", t, 0, tuple(vals))

    def unknown(self, E, st, t):
        n = "l%d" % E.fresh()
        head, last, ln, fs = self.roles(E, t)
        E.kinds[n] = E.chain.elemty(E, fs[head]["t"])
        return self.build(E, st, t, (("s", n),))

    def view(self, E, st, v, t=None):
        """View, raising Bad when the representation is inconsistent."""
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("list view")
        head, last, ln, fs = self.roles(E, v[1])
        segs = E.chain.view(E, st, v[3][head], fs[head]["t"])
        if ln is not None:
            d = st.decide(mkeq(ladd(E.intof(st, v[3][ln]), st.length(segs), -1)))
            if d is not True:
                raise Bad("length field is not the number of elements", d is None)
        if last is not None:
            lv = v[3][last]
            if lv[0] == "sym" and lv[1] not in st.bind and E.syms[lv[1]][1][0] == "last" and st.norm(E.syms[lv[1]][1][1]) == segs:
                return segs
            lv = E.force(st, lv)
            r = E.front(st, segs, back=True)
            want = None if r is None else E.canon(st, r[0])
            got = None if lv[2] == 0 else E.canon(st, lv[3][0])
            if want != got:
                raise Bad("last element pointer does not match the sequence")
        return segs


class Bad(Exception):
    def __init__(self, msg, unsure=False):
        Exception.__init__(self, msg)
        self.unsure = unsure
