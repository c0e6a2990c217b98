"""Abstract behaviour of the ordered map and set."""
from eng import *
from spec import *
import engtree, engnat
from engtree import known_in, inform, locate

MAPS = {"rb": ("rpds::map::red_black_tree_map::RedBlackTreeMap", "rpds::set::red_black_tree_set::RedBlackTreeSet")}


def tree_engine(P, swap=False, cols="NB", budget=60000, unroll=0):
    E = engine(P, 1, budget)
    E.tree = engtree.TreeC(swap)
    m, s = MAPS["rb"]
    mc = engtree.MapC(m)
    mc.root_cols = cols
    E.root_seen = set()
    E.containers = [mc, SetC(s)] + E.containers + [E.tree]
    E.hooks["keyrel"] = lambda E, st, a, b: engtree.in_check(st)
    if unroll:
        E.rec_limit = unroll
    else:
        E.contracts = engtree.Summaries(E)
    return E


class SetC(Newtype):
    """A struct around a map to nothing; its elements are the keys."""
    def shape(self, E, st, v, t=None):
        v = E.force(st, v)
        k, ft, c = self.inner(E, v[1] if v[1] is not None else t)
        return c.shape(E, st, v[3][k], ft) if hasattr(c, "shape") else (True, "")


def entry(k, v=UNIT):
    return ("a", None, 0, (k, v))


def ins(c, k, v):
    return (("s", ("ins", c.view, k, entry(k, v))),)


def dele(c, k):
    return (("s", ("del", c.view, k)),)


def find(c, k):
    """The entry with this key, or None (splitting on its presence)."""
    if not known_in(c.st, c.view, k):
        return None
    segs, lo, hi, hit = locate(c.st, c.view, k)
    if hit is None:
        raise Unknown("no entry with this key is known")
    return segs, hit, segs[hit][1]


def kk(c, n=1):
    return c.E.canon(c.st, c.args[n])


def opt_entry(c, back, f):
    r = c.back() if back else c.front()
    if r is None:
        return ("none",)
    return ("some", f(c.E.canon(c.st, r[0])))


def map_specs(H, M):
    S = M + "::"
    for n in ("new_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::default::Default>::default" % M, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::clone::Clone>::clone" % M, lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec(S + "size", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)
    H.spec(S + "insert", lambda c: dict(ret=("view", ins(c, kk(c), kk(c, 2))), self=c.view))
    H.spec(S + "insert_mut", lambda c: dict(self=ins(c, kk(c), kk(c, 2))))
    H.spec(S + "remove", lambda c: dict(ret=("view", dele(c, kk(c))), self=c.view), shares=lambda c: not known_in(c.st, c.view, kk(c)))
    H.spec(S + "remove_mut", lambda c: dict(ret=("bool", known_in(c.st, c.view, kk(c))), self=dele(c, kk(c))))
    H.spec(S + "contains_key", lambda c: dict(ret=("bool", known_in(c.st, c.view, kk(c)))), observer=True)

    def get(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("elem", r[2][3][1])))
    H.spec(S + "get", get, observer=True)

    def get_kv(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("tuple", [("elem", r[2][3][0]), ("elem", r[2][3][1])])))
    H.spec(S + "get_key_value", get_kv, observer=True)
    ends = lambda back: (lambda c: dict(ret=opt_entry(c, back, lambda e: ("tuple", [("elem", e[3][0]), ("elem", e[3][1])]))))
    H.spec(S + "first", ends(False), observer=True)
    H.spec(S + "last", ends(True), observer=True)

    def get_mut(c):
        def custom(E, q, v, args, out):
            q0 = Ctx(E, q, c.view, c.args)
            r = find(q0, kk(q0))
            w = E.force(q, v)
            if (w[2] == 1) != (r is not None):
                out.append(("ret", "bad", "result is %s for a key that is %s" % ("Some" if w[2] else "None", "present" if r else "absent")))
                return
            out.append(("ret", "ok", ""))
            if r is None:
                match(E, q, args[0], ("view", c.view), out, "the collection afterwards")
                return
            m = E.force(q, w[3][0])
            if m[0] != "m":
                raise Unknown("mutable lookup")
            match(E, q, m, ("elem", r[2][3][1]), out)
            n = ("t", ("written", E.fresh()))
            E.write_path(q, m[1], m[2], n)
            want = r[0][:r[1]] + (("e", entry(r[2][3][0], n)),) + r[0][r[1] + 1:]
            match(E, q, args[0], ("view", want), out, "the collection after writing through the result")
        return dict(custom=custom)
    H.spec(S + "get_mut", get_mut)

    def index(c):
        r = find(c, kk(c))
        return dict(ret=("any",) if r is None else ("elem", r[2][3][1]))
    H.spec("<%s as core::ops::index::Index>::index" % M, index, panics=lambda c: not known_in(c.st, c.view, kk(c)))


def set_specs(H, M):
    S = M + "::"
    for n in ("new_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::default::Default>::default" % M, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::clone::Clone>::clone" % M, lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec(S + "size", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)
    H.spec(S + "insert", lambda c: dict(ret=("view", ins(c, kk(c), UNIT)), self=c.view))
    H.spec(S + "insert_mut", lambda c: dict(self=ins(c, kk(c), UNIT)))
    H.spec(S + "remove", lambda c: dict(ret=("view", dele(c, kk(c))), self=c.view), shares=lambda c: not known_in(c.st, c.view, kk(c)))
    H.spec(S + "remove_mut", lambda c: dict(ret=("bool", known_in(c.st, c.view, kk(c))), self=dele(c, kk(c))))
    H.spec(S + "contains", lambda c: dict(ret=("bool", known_in(c.st, c.view, kk(c)))), observer=True)

    def get(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("elem", r[2][3][0])))
    H.spec(S + "get", get, observer=True)
    ends = lambda back: (lambda c: dict(ret=opt_entry(c, back, lambda e: ("elem", e[3][0]))))
    H.spec(S + "first", ends(False), observer=True)
    H.spec(S + "last", ends(True), observer=True)


if __name__ == "__main__":
    import sys, common, mir
    P = mir.Prog(common.dump("all"))
    for f, m in ((map_specs, MAPS["rb"][0]), (set_specs, MAPS["rb"][1])):
        t = time.time()
        H = Harness(P, tree_engine)
        f(H, m)
        H.run((lambda n: sys.argv[1] in n) if len(sys.argv) > 1 else None)
        print(f.__name__, time.time() - t, H.missing, {k: (len(v) if isinstance(v, set) else v) for k, v in H.stats.items()})
        cnt = {}
        for r in H.results:
            cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
            if r.verdict != "ok":
                print("  ", str(r)[:400])
        print(cnt)
        if len(sys.argv) > 2:
            H.last.contracts.dump()
