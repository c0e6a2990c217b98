"""Abstract behaviour of the vector, one branching and height at a time."""
from eng import *
from spec import *
import engvec, engnat
from engvec import nth

V = "rpds::vector::Vector"


def vec_engine(P, bits=1, h=0, budget=60000):
    E = engine(P, 1, budget)
    E.vec = engvec.VecC(V, bits, h)
    E.containers = [E.vec] + E.containers
    E.rec_limit = h + 3
    return E


def at(c, ix):
    """(in range, element) with the state split on it."""
    if not c.split(mkle(ladd(ladd(ix, lconst(1)), c.length(), -1))):
        return False, None
    e = nth(c.E, c.st, c.view, ix)
    if e is None:
        raise Unknown("the element at the index is not exposed")
    return True, e


def replaced(c, ix, e):
    """The view with one element replaced."""
    segs = c.st.norm(c.view)
    pos = lconst(0)
    out = []
    done = False
    for g in segs:
        if g[0] == "e" and c.st.decide(mkeq(ladd(ix, pos, -1))) is True:
            out.append(("e", e))
            done = True
        else:
            out.append(g)
        pos = ladd(pos, c.st.length((g,)))
    if not done:
        raise Unknown("the element at the index is not exposed")
    return tuple(out)


def vec_specs(H, M=V):
    S = M + "::"
    for n in ("new_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::default::Default>::default" % M, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::clone::Clone>::clone" % M, lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec(S + "len", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)

    def idx(c):
        return c.E.intof(c.st, c.args[1])

    def get(c):
        ok, e = at(c, idx(c))
        return dict(ret=("some", ("elem", e)) if ok else ("none",))
    H.spec(S + "get", get, observer=True)

    def end(back):
        def f(c):
            if not c.split(mkle(ladd(lconst(1), c.length(), -1))):
                return dict(ret=("none",))
            r = c.back() if back else c.front()
            return dict(ret=("some", ("elem", r[0])))
        return f
    H.spec(S + "first", end(False), observer=True)
    H.spec(S + "last", end(True), observer=True)

    def sett(c):
        ok, e = at(c, idx(c))
        if not ok:
            return dict(ret=("none",), self=c.view)
        return dict(ret=("some", ("view", replaced(c, idx(c), c.args[2]))), self=c.view)
    H.spec(S + "set", sett)

    def set_mut(c):
        ok, e = at(c, idx(c))
        return dict(ret=("bool", ok), self=replaced(c, idx(c), c.args[2]) if ok else c.view)
    H.spec(S + "set_mut", set_mut)
    H.spec(S + "push_back", lambda c: dict(ret=("view", c.view + (("e", c.args[1]),)), self=c.view))
    H.spec(S + "push_back_mut", lambda c: dict(self=c.view + (("e", c.args[1]),)))

    def drop(c):
        r = c.back()
        return r

    def drop_last(c):
        if not c.split(mkle(ladd(lconst(1), c.length(), -1))):
            return dict(ret=("none",), self=c.view)
        r = c.back()
        return dict(ret=("some", ("view", r[1])), self=c.view)
    H.spec(S + "drop_last", drop_last)

    def drop_last_mut(c):
        if not c.split(mkle(ladd(lconst(1), c.length(), -1))):
            return dict(ret=("bool", False), self=c.view)
        r = c.back()
        return dict(ret=("bool", True), self=r[1])
    H.spec(S + "drop_last_mut", drop_last_mut)

    def mutable(index):
        def f(c):
            def custom(E, q, v, args, out):
                q0 = Ctx(E, q, c.view, c.args)
                ok, e = at(q0, idx(q0))
                w = E.force(q, v)
                if not index:
                    if (w[2] == 1) != ok:
                        out.append(("ret", "bad", "result is %s for an index %s" % ("Some" if w[2] else "None", "in range" if ok else "out of range")))
                        return
                    out.append(("ret", "ok", ""))
                    if not ok:
                        match(E, q, args[0], ("view", c.view), out, "the vector afterwards")
                        return
                    m = E.force(q, w[3][0])
                else:
                    if not ok:
                        out.append(("ret", "bad", "no panic for an index out of range"))
                        return
                    m = w
                if m[0] != "m":
                    raise Unknown("mutable lookup")
                match(E, q, m, ("elem", e), out)
                n = ("t", ("written", E.fresh()))
                E.write_path(q, m[1], m[2], n)
                match(E, q, args[0], ("view", replaced(q0, idx(q0), n)), out, "the vector after writing through the result")
            return dict(custom=custom)
        return f
    H.spec(S + "get_mut", mutable(False))

    def outside(c):
        return not c.split(mkle(ladd(ladd(idx(c), lconst(1)), c.length(), -1)))

    def index(c):
        ok, e = at(c, idx(c))
        return dict(ret=("elem", e) if ok else ("any",), custom=lambda E, q, v, args, out: out.append(("ret", "ok" if ok else "bad", "no panic for an index out of range")))
    H.spec("<%s as core::ops::index::Index>::index" % M, index, panics=outside)
    H.spec("<%s as core::ops::index::IndexMut>::index_mut" % M, mutable(True), panics=outside)


if __name__ == "__main__":
    import sys, common, mir
    sys.setrecursionlimit(100000)
    P = mir.Prog(common.dump("all"))
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    confs = [tuple(map(int, a.split(","))) for a in sys.argv[2:]] or [(b, h) for b in (1, 2, 5) for h in (0, 1, 2)]
    for b, h in confs:
        t = time.time()
        H = Harness(P, vec_engine, bits=b, h=h)
        vec_specs(H)
        H.run(lambda n: n.endswith(only))
        cnt = {}
        for r in H.results:
            cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
        print(b, h, "%.1fs" % (time.time() - t), H.missing, {k: (len(v) if isinstance(v, set) else v) for k, v in H.stats.items()}, cnt)
        for r in [r for r in H.results if r.verdict != "ok"][:8]:
            print("  ", str(r)[:400])
