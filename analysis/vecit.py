"""Iteration over vectors: from any point of an iteration (l delivered from the front, n - r from the back), either step
yields the proper end of what is left and leaves such a point again; the initial value is such a point.  The stacks are a
function of the point: the path of nodes and child numbers to the next element."""
from eng import *
from engx import *
import engnat, engvec, engiter, spec, vecspec
from engcont import opt_of
from iterspec import IterCheck, getp, setp, s_it
from spec import same_view, same, canons, showv, check_int, showlin, Result

USZ = (0, (1 << 64) - 1)


def elem_parts(E, t):
    """(element struct, node field, index field) when the type is a vector of structs of a node reference and an integer."""
    x = E.T[t]
    if x["k"] != "adt" or x["p"] != engvec.VEC:
        return None
    t = x["a"][0]
    y = E.T[t]
    if y["k"] != "adt" or len(y.get("v", ())) != 1 or len(y["v"][0]["f"]) != 2:
        return None
    node = idx = None
    for k, f in enumerate(y["v"][0]["f"]):
        z = E.T[f["t"]]
        if z["k"] == "ref" and engvec.node_enum(E, z["t"]):
            node = k
        elif z["s"] in RANGES:
            idx = k
    return None if node is None or idx is None else (t, node, idx)


def locate(E, st, v, h, pos):
    """[(node, child number)] from the root down to an element, and the element."""
    vec = E.vec
    out = []
    for k in range(h, -1, -1):
        q = E.fdiv(st, pos, vec.D ** k)
        pos = ladd(pos, lscale(q, vec.D ** k), -1)
        n, p = vec.strip(E, st, v)
        if p is not None:
            n = E.force(st, n)
        s = engnat.seqof(E, st, n[3][0])
        if not E.truth(st, B(mkle(ladd(ladd(q, lconst(1)), st.length(s[1]), -1)))):
            raise Unknown("position outside its node")
        e, a, b = E.split_at(st, s, q)
        out.append((n, q))
        v = E.qelem(e, s)
    return out, v


class VecIter(IterCheck):
    def __init__(self, P, fn, bits=5, h=0, budget=60000):
        IterCheck.__init__(self, P, fn)
        self.bits, self.h, self.budget = bits, h, budget
        self.trusted = True

    def start(self):
        """A fresh engine, the vector, the iterator and the number of elements."""
        E = vecspec.vec_engine(self.P, self.bits, self.h, self.budget)
        self.E = E
        x = self.P.root(self.fn)
        t = x["body"]["locals"][1]
        base = E.T[t]["t"]
        if not E.vec.matches(E, base):
            raise Unknown("not a vector")
        st = St()
        self.name = "S"
        E.kinds["S"] = E.vec.elemty(E, base)
        m = E.vec.build(E, st, base, (("s", "S"),))
        self.root = m[3][E.vec.roles(E, base)[0]]
        outs = E.call_inst(st, x["id"], [R(m)])
        return E, outs

    def n(self, st):
        return st.length((("s", "S"),))

    def components(self, v, path=()):
        E = self.E
        out = []
        if v[0] == "a" and v[1] is not None:
            o = opt_of(E, v[1])
            if o is not None and elem_parts(E, o):
                return [("stack", path, v[1])]
            if E.vec.matches(E, v[1]):
                return []
            for k, y in enumerate(v[3]):
                out += self.components(y, path + (k,))
        elif v[0] == "i":
            out.append(("int", path, v))
        return out

    def run(self, tier="quick"):
        if self.P.root(self.fn) is None or self.steps is None:
            self.missing.append(self.fn)
            return
        self.case = "branching 2^%d, height %d" % (self.bits, self.h)
        try:
            self.prove()
        except (Unknown, Split, Budget, Infeasible) as e:
            self.add("order", None, "%s: %s" % (self.case, str(e) or "undecided"))
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError, StopIteration) as e:
            self.add("order", None, "%s: engine %r" % (self.case, e))
        if any(r.verdict != "ok" for r in self.results) and not any(r.verdict == "bad" for r in self.results):
            self.refute(tier)

    def prove(self):
        E, outs = self.start()
        its = []
        for s, kind, v in outs:
            self.stats["paths"] += 1
            if kind == "unk":
                raise Unknown("%s (%s:%s)" % v)
            self.add("panic", kind == "ret", "panics: %s in %s (line %s)" % tuple(v) if kind != "ret" else "", not E.imprecise(s))
            if kind == "ret":
                its.append((s, self.resolve(E, s, v)))
        if not its:
            return
        s, it = its[0]
        cs = self.components(it)
        self.comps = [c[1:] for c in cs if c[0] == "stack"]
        n = self.n(s)
        ints = [(c[1], E.intof(s, c[2])) for c in cs if c[0] == "int"]
        lo = [p for p, l in ints if l == lconst(0)]
        hi = [p for p, l in ints if l[1] and s.decide(mkeq(ladd(l, n, -1))) is True]
        if len(self.comps) != 2 or len(lo) != 1 or len(hi) != 1 or len(ints) != 2:
            raise Unknown("iterator layout")
        self.lo, self.hi = lo[0], hi[0]
        self.fwd, self.bwd = self.direction()
        # from the beginning first: that confirms that the state is what it is taken for
        for near, far in (("none", "none"), ("none", "some"), ("some", "none"), ("some", "some")):
            for back in (False, True):
                for nonempty in (True, False):
                    self.point(near, far, back, nonempty)
            if (near, far) == ("none", "none") and any(r.verdict != "ok" and r.aspect == "order" for r in self.results):
                self.trusted = False

    def add(self, aspect, r, msg, precise=True):
        IterCheck.add(self, aspect, r, msg, precise and self.trusted)

    def direction(self):
        got = []
        for back in (False, True):
            E, outs = self.start()
            seen = set()
            for s, kind, v in outs:
                s.cells[("it", 0)] = self.resolve(E, s, v)
                for s2, k2, v2 in E.call_inst(s, self.step_inst(back), [("m", ("it", 0), ())]):
                    if k2 == "unk":
                        raise Unknown("%s (%s:%s)" % v2)
                    it = self.resolve(E, s2, ("c", ("it", 0)))
                    for k, (p, t) in enumerate(self.comps):
                        if E.force(s2, getp(it, p))[2] == 1:
                            seen.add(k)
            if len(seen) != 1:
                raise Unknown("no single stack per direction")
            got.append(seen.pop())
        if set(got) != {0, 1}:
            raise Unknown("one stack for both directions")
        return got

    def stack(self, E, st, t, pos, inside):
        """The stack leading to a position."""
        o = opt_of(E, t)
        et, node, idx = elem_parts(E, o)
        segs = []
        if inside:
            path, e = locate(E, st, self.root, self.h, pos)
            for n, q in path:
                f = [None, None]
                f[node], f[idx] = R(n), I(q)
                segs.append(("e", ("a", et, 0, tuple(f))))
        return ("a", t, 1, (("q", tuple(segs), E.T[o]["a"][0]),))

    def point(self, near, far, back, nonempty):
        E, outs = self.start()
        self.stats["states"] += 1
        for s, kind, v in outs:
            if kind != "ret":
                continue
            it0 = self.resolve(E, s, v)
            n = self.n(s)
            l = I(lconst(0)) if (near if not back else far) == "none" else ("i", L(0, (("v", ("l", 0), USZ), 1)))
            r = I(n) if (near if back else far) == "none" else ("i", L(0, (("v", ("r", 0), USZ), 1)))

            def place(q):
                for f in (mkle(l[1] and lscale(l[1], -1)), mkle(ladd(r[1], n, -1))):
                    q.assume(f)
                q.assume(mkle(ladd(ladd(l[1], lconst(1)), r[1], -1)) if nonempty else mkeq(ladd(l[1], r[1], -1)))
                q.check()
                it = setp(setp(it0, self.lo, l), self.hi, r)
                for k, bk, how in ((self.fwd, False, near if not back else far), (self.bwd, True, near if back else far)):
                    p, t = self.comps[k]
                    if how == "none":
                        continue
                    if bk != back:
                        it = setp(it, p, ("a", t, 1, (("t", ("farstack", k)),)))
                        continue
                    pos = l[1] if not bk else ladd(r[1], lconst(1), -1)
                    inside = nonempty or self.within(E, q, pos, bk, q.length((("s", "S"),)))
                    it = setp(it, p, self.stack(E, q, t, pos, inside))
                return it
            for q, it in E.fork(s, place):
                q.cells[("it", 0)] = it
                bad = []
                for what in ("size_hint", "len"):
                    self.check_hint(E, q, (l[1], r[1]), self.case, "", what, bad)
                    if "i" in (self.steps.get(what) or {}):
                        self.add("hint", not bad, bad[0].msg if bad else "", True)
                outs2 = E.call_inst(q, self.step_inst(back), [("m", ("it", 0), ())])
                self.stats["instances"] |= E.used
                for q2, k2, v2 in outs2:
                    self.stats["paths"] += 1
                    if k2 == "unk":
                        raise Unknown("%s (%s:%s)" % v2)
                    if k2 == "panic":
                        self.add("panic", False, "%s: a step panics: %s in %s (line %s)" % ((self.case,) + tuple(v2)), not E.imprecise(q2))
                        continue
                    for q3, out in E.fork(q2, lambda z: self.post(E, z, v2, near, far, back, l[1], r[1], it)):
                        for aspect, ok, msg in out:
                            if ok is None and self.trusted and not E.imprecise(q3):
                                # a state other than the expected one: does it show?
                                bad = []
                                z = q3.copy()
                                l2, r2 = self.after(z, l[1], r[1], back)
                                self.walk(E, z, (l2, r2), self.case, "B" if back else "F", 2, bad)
                                self.results += bad
                                if bad:
                                    continue
                            self.add(aspect, ok, "%s, %s step: %s" % (self.case, "back" if back else "front", msg), not E.imprecise(q3))

    def within(self, E, q, pos, bk, n):
        return E.truth(q, B(mkle(lscale(pos, -1)) if bk else mkle(ladd(ladd(pos, lconst(1)), n, -1))))

    def after(self, q, l, r, back):
        if q.decide(mkle(ladd(ladd(l, lconst(1)), r, -1))) is not True:
            return l, r
        return (l, ladd(r, lconst(1), -1)) if back else (ladd(l, lconst(1)), r)

    def element(self, E, q, pos):
        segs = E.vec.node_view(E, q, self.root)
        e = engvec.nth(E, q, segs, pos)
        if e is None:
            _, e = locate(E, q, self.root, self.h, pos)
            return E.canon(q, e)
        return E.canon(q, e)

    def result(self, E, q, v, lr, back):
        l, r = lr
        v = E.force(q, v)
        if v[0] != "a":
            raise Unknown("step result")
        if not E.truth(q, B(mkle(ladd(ladd(l, lconst(1)), r, -1)))):
            return v[2] == 0, "yields %s at the end" % ("Some" if v[2] else "None"), lr
        left = (l, ladd(r, lconst(1), -1)) if back else (ladd(l, lconst(1)), r)
        pos = left[1] if back else l
        if v[2] == 0:
            return False, "ends before the element at %s" % showlin(pos), left
        want = self.element(E, q, pos)
        got = E.canon(q, v[3][0])
        ok = same(E, q, got, want)
        if not ok:
            q.tighten()
            q.check()
        return ok, "yields %s, expected %s" % (showv(got), showv(want)), left

    def length_of(self, s, mid):
        return ladd(mid[1], mid[0], -1)

    def post(self, E, q, v, near, far, back, l, r, it0):
        out = []
        ok, msg, (l2, r2) = self.result(E, q, v, (l, r), back)
        out.append(("order", ok, msg))
        it = self.resolve(E, q, ("c", ("it", 0)))
        for p, w, nm in ((self.lo, l2, "front"), (self.hi, r2, "back")):
            x = E.intof(q, getp(it, p))
            out.append(("order", True if q.decide(mkeq(ladd(x, w, -1))) is True else None, "the %s position is %s, expected %s" % (nm, showlin(q.nlin(x)), showlin(q.nlin(w)))))
        for k, bk in ((self.fwd, False), (self.bwd, True)):
            p, t = self.comps[k]
            o = E.force(q, getp(it, p))
            if bk != back:
                out.append(("order", True if o == getp(it0, p) else None, "the other stack changes"))
                continue
            if o[2] == 0:
                out.append(("order", None, "no stack after a step"))
                continue
            pos = l2 if not bk else ladd(r2, lconst(1), -1)
            n = self.n(q)
            if not E.truth(q, B(mkle(ladd(ladd(l2, lconst(1)), r2, -1)))):
                # nothing is left: the stack is not looked at again unless it lies about the end
                inside = self.within(E, q, pos, bk, n)
                if not inside:
                    out.append(("order", True, ""))
                    continue
            w = self.stack(E, q, t, pos, True)
            et, node, idx = elem_parts(E, opt_of(E, t))
            a = q.norm(engnat.seqof(E, q, o[3][0])[1])
            b = w[3][0][1]
            good = len(a) == len(b) and all(x[0] == "e" for x in a)
            if good:
                for x, y in zip(a, b):
                    x, y = E.force(q, x[1]), y[1]
                    if q.decide(mkeq(ladd(E.intof(q, x[3][idx]), E.intof(q, y[3][idx]), -1))) is not True:
                        good = False
                        break
                    m, _ = E.vec.strip(E, q, x[3][node])
                    k2, _ = E.vec.strip(E, q, y[3][node])
                    if m != k2 and (E.vec.height(E, q, m) != E.vec.height(E, q, k2) or
                                    same_view(E, q, E.vec.node_view(E, q, m), E.vec.node_view(E, q, k2)) is not True):
                        good = False
                        break
            out.append(("order", True if good else None, "the stack does not lead to the next element"))
        return out

    def refute(self, tier):
        bad = []
        try:
            self.trusted = True
            E, outs = self.start()
            for s, kind, v in outs:
                if kind == "unk" or E.imprecise(s):
                    continue
                if kind == "panic":
                    bad.append(Result(self.fn, "panic", "bad", "%s: panics: %s in %s (line %s)" % ((self.case,) + tuple(v))))
                    continue
                s.cells[("it", 0)] = self.resolve(E, s, v)
                self.walk(E, s, (lconst(0), self.n(s)), self.case, "", 3 if tier == "quick" else 4, bad)
        except (Budget, Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError):
            pass
        self.results += bad[:1]


def iterators():
    V = vecspec.V
    return [V + "::iter", V + "::iter_ptr", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % V]


QUICK = [(2, 2), (5, 2), (1, 3), (1, 2), (2, 1), (5, 1), (32, 1), (1, 1), (1, 0), (5, 0), (63, 0)]
DEEP = [(1, 4), (3, 2), (4, 2), (16, 1), (31, 1), (3, 1), (8, 2), (2, 0), (3, 0), (31, 0), (32, 0)]
_work = {}


def _job(k):
    fn, (b, h) = _work["jobs"][k]
    C = VecIter(_work["P"], fn, b, h, 100000 if _work["tier"] == "quick" else 1000000)
    C.run(_work["tier"])
    return k, C.results, C.stats, C.missing


def parallel(P, tier):
    """One merged result set, configurations spread over the processors."""
    import multiprocessing, os
    confs = QUICK if tier == "quick" else DEEP + QUICK
    jobs = [(fn, c) for c in confs for fn in iterators()]
    _work.update(P=P, jobs=jobs, tier=tier)
    H = IterCheck(P, None)
    H.confs = confs
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for k, res, stats, missing in sorted(pool.imap_unordered(_job, range(len(jobs)), chunksize=1), key=lambda x: x[0]):
            H.results += res
            H.missing += [m for m in missing if m not in H.missing]
            for n in ("paths", "states", "loops"):
                H.stats[n] += stats[n]
            H.stats["instances"] |= stats["instances"]
    return H


if __name__ == "__main__":
    import sys, time, common, mir, collections
    sys.setrecursionlimit(100000)
    P = mir.Prog(common.dump("all"))
    for a in sys.argv[2:]:
        b, h = map(int, a.split(","))
        for fn in iterators():
            if sys.argv[1] not in fn:
                continue
            t = time.time()
            C = VecIter(P, fn, b, h)
            C.run()
            print(fn, b, h, "%.1fs" % (time.time() - t), C.missing, collections.Counter((r.aspect, r.verdict) for r in C.results), C.stats["paths"], C.stats["states"])
            for r in [r for r in C.results if r.verdict != "ok"][:6]:
                print("    ", str(r)[:500])
