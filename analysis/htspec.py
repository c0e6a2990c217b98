"""Abstract behaviour of the hash map and set."""
from eng import *
from spec import *
import enght, engnat
from enght import locate
from mapspec import SetC, entry, kk

M, S_ = "rpds::map::hash_trie_map::HashTrieMap", "rpds::set::hash_trie_set::HashTrieSet"


def ht_engine(P, k=6, free=None, coll=3, budget=60000):
    E = engine(P, 1, budget)
    E.containers = [enght.HtC(M), SetC(S_)] + E.containers
    enght.install(E, enght.Cfg(k, free, coll))
    return E


def find(c, k):
    segs, i = locate(c.E, c.st, c.view, k)
    return None if i is None else (segs, i, segs[i][1])


def ins(c, k, v):
    segs, i = locate(c.E, c.st, c.view, k)
    e = (("e", entry(k, v)),)
    return segs + e if i is None else segs[:i] + e + segs[i + 1:]


def dele(c, k):
    segs, i = locate(c.E, c.st, c.view, k)
    return segs if i is None else segs[:i] + segs[i + 1:]


def common(H, M):
    S = M + "::"
    for n in ("new_with_hasher_and_ptr_kind" if M.endswith("Map") else "new_with_hasher_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::default::Default>::default" % M, lambda c: dict(ret=("view", ())))
    H.spec("<%s as core::clone::Clone>::clone" % M, lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec(S + "size", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)


def map_specs(H, M=M):
    S = M + "::"
    common(H, M)

    def get(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("elem", r[2][3][1])))
    H.spec(S + "get", get, observer=True)

    def get_kv(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("tuple", [("elem", r[2][3][0]), ("elem", r[2][3][1])])))
    H.spec(S + "get_key_value", get_kv, observer=True)
    H.spec(S + "contains_key", lambda c: dict(ret=("bool", find(c, kk(c)) is not None)), observer=True)
    H.spec(S + "insert", lambda c: dict(ret=("view", ins(c, kk(c), kk(c, 2))), self=c.view))
    H.spec(S + "insert_mut", lambda c: dict(self=ins(c, kk(c), kk(c, 2))))
    H.spec(S + "remove", lambda c: dict(ret=("view", dele(c, kk(c))), self=c.view), shares=lambda c: find(c, kk(c)) is None)
    H.spec(S + "remove_mut", lambda c: dict(ret=("bool", find(c, kk(c)) is not None), self=dele(c, kk(c))))

    def get_mut(c):
        def custom(E, q, v, args, out):
            q0 = Ctx(E, q, c.view, c.args)
            r = find(q0, kk(q0))
            w = E.force(q, v)
            if (w[2] == 1) != (r is not None):
                out.append(("ret", "bad", "result is %s for a key that is %s" % ("Some" if w[2] else "None", "present" if r else "absent")))
                return
            out.append(("ret", "ok", ""))
            if r is None:
                match(E, q, args[0], ("view", c.view), out, "the collection afterwards")
                return
            m = E.force(q, w[3][0])
            if m[0] != "m":
                raise Unknown("mutable lookup")
            match(E, q, m, ("elem", r[2][3][1]), out)
            n = ("t", ("written", E.fresh()))
            E.write_path(q, m[1], m[2], n)
            want = r[0][:r[1]] + (("e", entry(r[2][3][0], n)),) + r[0][r[1] + 1:]
            match(E, q, args[0], ("view", want), out, "the collection after writing through the result")
        return dict(custom=custom)
    H.spec(S + "get_mut", get_mut)

    def index(c):
        r = find(c, kk(c))
        return dict(ret=("any",) if r is None else ("elem", r[2][3][1]))
    H.spec("<%s as core::ops::index::Index>::index" % M, index, panics=lambda c: find(c, kk(c)) is None)


def set_specs(H, M=S_):
    S = M + "::"
    common(H, M)
    H.spec(S + "insert", lambda c: dict(ret=("view", ins(c, kk(c), UNIT)), self=c.view))
    H.spec(S + "insert_mut", lambda c: dict(self=ins(c, kk(c), UNIT)))
    H.spec(S + "remove", lambda c: dict(ret=("view", dele(c, kk(c))), self=c.view), shares=lambda c: find(c, kk(c)) is None)
    H.spec(S + "remove_mut", lambda c: dict(ret=("bool", find(c, kk(c)) is not None), self=dele(c, kk(c))))
    H.spec(S + "contains", lambda c: dict(ret=("bool", find(c, kk(c)) is not None)), observer=True)

    def get(c):
        r = find(c, kk(c))
        return dict(ret=("none",) if r is None else ("some", ("elem", r[2][3][0])))
    H.spec(S + "get", get, observer=True)


SPECS = {"map": map_specs, "set": set_specs}

if __name__ == "__main__":
    import sys, common as cm, mir, time
    sys.setrecursionlimit(100000)
    P = mir.Prog(cm.dump("all"))
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    kw = eval("dict(%s)" % sys.argv[2]) if len(sys.argv) > 2 else {}
    for f, m in ((map_specs, M), (set_specs, S_)):
        H = Harness(P, ht_engine, **kw)
        f(H)
        for n in H.specs:
            if not n.endswith(only):
                continue
            t = time.time()
            k = len(H.results)
            H.run(lambda x: x == n)
            cnt = {}
            for r in H.results[k:]:
                cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
            print("%-75s %.1fs %s %s" % (n, time.time() - t, cnt, H.last.steps if hasattr(H, "last") else ""))
            for r in [r for r in H.results[k:] if r.verdict != "ok"][:6]:
                print("    ", str(r)[:500])
        print(H.missing)
