"""Iteration over ordered maps and sets: from any point of an iteration, either step yields the proper end of what is left
and leaves such a point again; the initial value is such a point."""
import itertools, os
from eng import *
from engx import *
import engnat, engtree, engstack, engiter, mapspec, spec
from engtree import plain_node
from engstack import stack_parts, new_stack, deliver, StackSums
from spec import same_view, same, canons, show, showv, check_int, showlin, Result
from engcont import opt_of

RB = ("core::ops::range::RangeBounds::start_bound", "core::ops::range::RangeBounds::end_bound")


def bound_native(E, st, c):
    if getattr(E, "rangecase", None) is None:
        raise Unknown("bounds of a range")
    b = E.rangecase[RB.index(c.n)]
    ty = c.out()
    k = [v["n"] for v in E.T[ty]["v"]].index("Unbounded" if b[0] == "U" else b[0])
    return ("a", ty, k, () if b[0] == "U" else (R(b[1]),))


for _n in RB:
    engnat.NAT[_n] = bound_native


def iter_engine(P, unroll=0, budget=60000):
    E = mapspec.tree_engine(P, unroll=unroll, budget=budget)
    E.tree.plain = True
    E.rem = {}
    E.contracts = None if unroll else StackSums(E)
    return E


def proj(fn, e):
    """What the iterator yields for an entry."""
    if fn.endswith("::keys") or "::set::" in fn:
        return e[3][0]
    if fn.endswith("::values"):
        return e[3][1]
    return e


class Case:
    """Bounds (kind, kind) and their relation."""
    def __init__(self, lo="U", hi="U", rel=None):
        self.lo, self.hi, self.rel = lo, hi, rel

    def __str__(self):
        if (self.lo, self.hi) == ("U", "U"):
            return "unbounded"
        return "%s..%s%s" % (self.lo.lower(), self.hi.lower(), "" if not self.rel else " start%send" % self.rel)

    def refused(self):
        return self.rel == ">" or (self.rel == "=" and self.lo == self.hi == "Excluded")

    def inside(self):
        """Possible contents: any, at most one (with the bound's key), none."""
        if self.rel != "=":
            return "any"
        return "one" if self.lo == self.hi == "Included" else "none"


def cases(fn):
    if not fn.endswith("::range"):
        return [Case()]
    out = []
    for lo in ("U", "Included", "Excluded"):
        for hi in ("U", "Included", "Excluded"):
            if "U" in (lo, hi):
                out.append(Case(lo, hi))
            else:
                out += [Case(lo, hi, r) for r in "<=>"]
    return out


class Run:
    """A fresh engine with the collection Before ++ parts ++ After and the iterator over it."""
    def __init__(self, P, fn, case, parts, unroll=0, budget=60000):
        self.P, self.fn, self.case = P, fn, case
        self.E = E = iter_engine(P, unroll, budget)
        self.x = x = P.root(fn)
        tys = x["body"]["locals"][1:1 + x["body"]["argc"]]
        base = E.T[tys[0]]["t"]
        c = next(c for c in E.containers if c.matches(E, base))
        self.kind = E.elemkind = c.elemty(E, base)
        self.st = st = St()
        self.parts = {}
        lo = hi = None
        keys = []
        for k in (case.lo, case.hi):
            keys.append(("U",) if k == "U" else (k, ("t", ("bound", E.fresh()))))
        E.rangecase = keys
        if case.rel:
            engnat.setrel(E, st, keys[0][1], keys[1][1], {case.rel})
        segs = ()
        for p in "P" + parts + "Q":
            if (p == "P" and case.lo == "U") or (p == "Q" and case.hi == "U"):
                s = ()
            elif p == "e":
                e = E.canon(st, E.value(st, self.kind, "e"))
                if case.inside() == "one":
                    engnat.setrel(E, st, E.keyof(st, e), keys[0][1], {"="})
                s = (("e", e),)
            else:
                n = "%s%d" % (p, E.fresh())
                E.kinds[n] = self.kind
                s = (("s", n),)
            self.parts[p] = s
            segs += s
        self.segs = segs
        E.sorted_roots = (("segs", segs),)
        if case.rel != ">":
            inner = sum((self.parts[p] for p in parts), ())
            before, after = self.parts["P"], self.parts["Q"]
            cs = []
            if case.lo != "U":
                cs.append((keys[0][1], before, inner + after, case.lo == "Excluded"))
            if case.hi != "U":
                cs.append((keys[1][1], before + inner, after, case.hi == "Included"))
            E.cuts = tuple(cs)
        m = c.build(E, st, base, segs)
        st.check()
        args = [R(m)]
        for t in tys[1:]:
            args.append(("t", ("range", E.fresh())))
        self.outs = E.call_inst(st, x["id"], args)

    def components(self, v, path=()):
        """(path, direction-less) of the optional stacks and the integers in an iterator."""
        E = self.E
        out = []
        if v[0] == "a" and v[1] is not None:
            o = opt_of(E, v[1])
            if o is not None and stack_parts(E, o):
                return [("stack", path, v[1])]
            if E.tree.matches(E, v[1]):
                return []
            for k, y in enumerate(v[3]):
                out += self.components(y, path + (k,))
        elif v[0] == "i":
            out.append(("int", path, v))
        return out


def getp(v, path):
    for k in path:
        v = v[3][k]
    return v


def setp(v, path, w):
    if not path:
        return w
    k = path[0]
    vals = list(v[3])
    vals[k] = setp(vals[k], path[1:], w)
    return ("a", v[1], v[2], tuple(vals))


class IterCheck:
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.steps = engiter.steps_of(P, fn) if fn else None
        self.results = []
        self.stats = dict(paths=0, states=0, instances=set(), loops=0)
        self.missing = []

    def add(self, aspect, r, msg, precise=True):
        v = {True: "ok", False: "bad" if precise else "unk", None: "unk"}[r]
        self.results.append(Result(self.fn, aspect, v, msg))

    def length_of(self, s, mid):
        return s.length(mid)

    def step_inst(self, back):
        d = self.steps.get("next_back" if back else "next")
        if d is None or "i" not in d or not self.P.insts[d["i"]].get("body"):
            return None
        return d["i"]

    def run(self, tier="quick", only=None):
        if self.P.root(self.fn) is None or self.steps is None:
            self.missing.append(self.fn)
            return
        for case in cases(self.fn) if only is None else [only]:
            n0 = len(self.results)
            try:
                self.case(case)
            except (Unknown, Split, Budget, Infeasible) as e:
                self.add("order", None, "%s: %s" % (case, str(e) or "undecided"))
            except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError, StopIteration) as e:
                self.add("order", None, "%s: engine %r" % (case, e))
            if any(r.verdict != "ok" for r in self.results[n0:]):
                self.results[n0:] = [r for r in self.results[n0:] if r.verdict != "bad"]
                self.refute(case, tier)

    # ---- proof
    def case(self, case):
        ins = case.inside()
        r = Run(self.P, self.fn, case, "M" if not case.refused() and ins == "any" else "" if ins == "none" or case.refused() else "e")
        for s, kind, v in r.outs:
            self.stats["paths"] += 1
            if kind == "unk":
                raise Unknown("%s (%s:%s)" % v)
            self.add("panic", (kind == "panic") == case.refused(), "%s: %s" % (case, "panics: %s in %s (line %s)" % tuple(v) if kind == "panic" else "the range is accepted"), not r.E.imprecise(s))
        if case.refused():
            return
        s, v = [(s, v) for s, k, v in r.outs if k == "ret"][0]
        it = self.resolve(r.E, s, v)
        comps = [c for c in r.components(it) if c[0] == "stack"]
        total = s.length(r.segs)
        ints = [c[1] for c in r.components(it) if c[0] == "int" and s.decide(mkeq(ladd(c[2][1], total, -1))) is True]
        if len(comps) != 2:
            raise Unknown("iterator layout")
        self.ints = ints
        self.comps = [c[1:] for c in comps]
        f = self.direction(case)
        self.fwd, self.bwd = f
        mids = {"any": ["e M", "M e", ""], "one": ["e", ""], "none": [""]}[ins]
        for back in (False, True):
            for fs in ("none", "some", "rest"):
                for bs in ("none", "some", "rest"):
                    if ins != "none":
                        if fs != "rest" and bs != "rest":
                            self.state(case, "M" if ins == "any" else "", fs, bs, back, True, ins)
                    self.state(case, "", fs, bs, back, False, ins)

    def resolve(self, E, st, v):
        v = E.force(st, v)
        if v[0] == "a":
            return ("a", v[1], v[2], tuple(self.resolve(E, st, x) if x[0] in ("a", "sym", "c") and not self.opaque(E, st, x) else x for x in v[3]))
        return v

    def opaque(self, E, st, x):
        y = x
        while y[0] == "sym" and y[1] in st.bind:
            y = st.bind[y[1]]
        return y[0] == "sym"

    def direction(self, case):
        """Which component serves steps from the front, and which from the back."""
        got = []
        ins = case.inside()
        for back in (False, True):
            r = Run(self.P, self.fn, case, "M" if ins == "any" else "e" if ins == "one" else "")
            seen = set()
            for s, kind, v in r.outs:
                if kind != "ret":
                    continue
                s.cells[("it", 0)] = self.resolve(r.E, s, v)
                for s2, k2, v2 in r.E.call_inst(s, self.step_inst(back), [("m", ("it", 0), ())]):
                    if k2 == "unk":
                        raise Unknown("%s (%s:%s)" % v2)
                    it = self.resolve(r.E, s2, ("c", ("it", 0)))
                    for k, (p, t) in enumerate(self.comps):
                        if r.E.force(s2, getp(it, p))[2] == 1:
                            seen.add(k)
            if len(seen) != 1:
                raise Unknown("no single stack per direction")
            got.append(seen.pop())
        if set(got) != {0, 1}:
            raise Unknown("one stack for both directions")
        return got

    def state(self, case, mid, fs, bs, back, nonempty, ins):
        """A step from one kind of point: mid is what is left; fs/bs: the stacks not yet built, as they should be, or used up."""
        if ins == "one" and (fs == "rest" and bs == "rest"):
            pass
        mp = ("e" + mid if not back else mid + "e") if nonempty else ""
        A = "" if fs == "none" or ins == "none" else "A"
        Bp = "" if bs == "none" or ins == "none" else "B"
        if ins == "one":
            # at most one entry in all
            if nonempty:
                A = Bp = ""
            elif fs != "none" or bs != "none":
                for w in ("A", "B", ""):
                    a = "a" if w == "A" and fs != "none" else ""
                    b = "b" if w == "B" and bs != "none" else ""
                    if w and not (a or b):
                        continue
                    self.state2(case, a, "", b, fs, bs, back)
                return
        self.state2(case, A, mp, Bp, fs, bs, back)

    def state2(self, case, A, mp, Bp, fs, bs, back):
        parts = A + mp + Bp
        E = None
        ps = parts.replace("a", "e").replace("b", "e")
        r = Run(self.P, self.fn, case, ps)
        E = r.E
        name = lambda ch: "e" if ch in "ab" else ch
        seg = lambda w: sum((r.parts[name(ch)] for ch in w), ())
        sA, sM, sB = seg(A), seg(mp), seg(Bp)
        P_, Q_ = r.parts["P"], r.parts["Q"]
        self.stats["states"] += 1
        for s, kind, v in r.outs:
            if kind != "ret":
                continue
            it = self.resolve(E, s, v)
            alts = E.fork(s, lambda q: self.place(E, q, it, fs, bs, P_, sA, sM, sB, Q_, mp))
            for q, (it2, left_b, left_a) in alts:
                if it2 is None:
                    continue
                q.cells[("it", 0)] = it2
                self.hints(E, q, sM, case)
                outs = E.call_inst(q, self.step_inst(back), [("m", ("it", 0), ())])
                self.stats["instances"] |= E.used
                for q2, k2, v2 in outs:
                    self.stats["paths"] += 1
                    if k2 == "unk":
                        raise Unknown("%s (%s:%s)" % v2)
                    if k2 == "panic":
                        self.add("panic", False, "%s: a step panics: %s in %s (line %s)" % ((case,) + tuple(v2)), not E.imprecise(q2))
                        continue
                    for q3, out in E.fork(q2, lambda z: self.post(E, z, v2, case, back, sM, P_, sA, sB, Q_, left_a, left_b)):
                        for aspect, ok, msg in out:
                            self.add(aspect, ok, "%s, %s step: %s" % (case, "back" if back else "front", msg), not E.imprecise(q3))

    def place(self, E, q, it, fs, bs, P_, sA, sM, sB, Q_, mp):
        """The iterator with its stacks set; also what is left of A and B in used-up stacks."""
        it2 = it
        la, lb = sA, sB
        for k, how, mine, theirs, bk in ((self.fwd, fs, sM + sB, sB + Q_, False), (self.bwd, bs, sA + sM, P_ + sA, True)):
            p, t = self.comps[k]
            if how == "none":
                continue
            inner = opt_of(E, t)
            vi, di, n = stack_parts(E, inner)
            if how == "some":
                full = sM + sB + Q_ if not bk else rev(P_ + sA + sM)
                if E.front(q, mine, back=bk) is None:
                    full = ()
            elif how == "rest":
                # some of the other side has been passed already
                own = sB if not bk else sA
                f = E.front(q, own, back=bk)
                if f is None:
                    full = ()
                else:
                    rest = f[1]
                    if E.front(q, rest, back=bk) is None:
                        full = ()
                        rest = ()
                    else:
                        full = rest + Q_ if not bk else rev(P_ + rest)
                    if bk:
                        la = rest
                    else:
                        lb = rest
            full = q.norm(full)
            sgs = ()
            if full:
                sgs = (("s", new_stack(E, n, full, bk)),)
            vals = [None] * len(E.T[inner]["v"][0]["f"])
            vals[vi], vals[di] = ("q", sgs, None), B(bk)
            if any(x is None for x in vals):
                raise Unknown("stack layout")
            it2 = setp(it2, p, ("a", t, 1, (("a", inner, 0, tuple(vals)),)))
        for p in self.ints:
            it2 = setp(it2, p, I(q.length(sM)))
        return it2, lb, la

    def hints(self, E, st, sM, case):
        rem = st.length(sM)
        exact = "len" in self.steps
        for what in ("size_hint", "len"):
            d = self.steps.get(what)
            if d is None or "i" not in d or not self.P.insts[d["i"]].get("body"):
                continue
            for s, k, v in E.call_inst(st.copy(), d["i"], [R(s_it(st))]):
                if k != "ret":
                    self.add("hint", None if k == "unk" else False, "%s: %s" % (what, v))
                    continue
                v = E.force(s, v)
                if what == "len":
                    self.add("hint", check_int(E, s, v[1], rem), "len is %s, remaining %s" % (showlin(v[1]), showlin(rem)), not E.imprecise(s))
                    continue
                lo = E.intof(s, v[3][0])
                u = E.force(s, v[3][1])
                if exact:
                    self.add("hint", check_int(E, s, lo, rem), "lower bound %s, remaining %s" % (showlin(lo), showlin(rem)), not E.imprecise(s))
                else:
                    self.add("hint", s.decide(mkle(ladd(lo, rem, -1))), "lower bound %s, remaining %s" % (showlin(lo), showlin(rem)), not E.imprecise(s))
                if u[2] == 1:
                    up = E.intof(s, u[3][0])
                    ok = check_int(E, s, up, rem) if exact else s.decide(mkle(ladd(rem, up, -1)))
                    self.add("hint", ok, "upper bound %s, remaining %s" % (showlin(up), showlin(rem)), not E.imprecise(s))

    def result(self, E, q, v, sM, back):
        """(ok, message, what is left afterwards)"""
        v = E.force(q, v)
        r = E.front(q, sM, back)
        if v[0] != "a":
            raise Unknown("step result")
        if r is None:
            return v[2] == 0, "yields %s at the end" % ("Some" if v[2] else "None"), ()
        want = proj(self.fn, E.canon(q, r[0]))
        if v[2] == 0:
            return False, "ends before %s" % showv(want), r[1]
        got = E.canon(q, v[3][0])
        return same(E, q, got, want), "yields %s, expected %s" % (showv(got), showv(want)), r[1]

    def post(self, E, q, v, case, back, sM, P_, sA, sB, Q_, la, lb):
        out = []
        before = E.front(q, sM, back)
        ok, msg, left = self.result(E, q, v, sM, back)
        out.append(("order", ok, msg))
        it = self.resolve(E, q, ("c", ("it", 0)))
        if not back:
            nA, nB = (sA + ((("e", before[0]),) if before else ())), sB
        else:
            nA, nB = sA, (((("e", before[0]),) if before else ()) + sB)
        for p in self.ints:
            out.append(("hint", check_int(E, q, E.intof(q, getp(it, p)), q.length(left)), "the remaining count"))
        for k, bk, mine, near in ((self.fwd, False, left + nB, nB), (self.bwd, True, nA + left, nA)):
            p, t = self.comps[k]
            o = E.force(q, getp(it, p))
            if o[2] == 0:
                # not built yet: nothing may have been delivered from that end
                gone = nA if not bk else nB
                if E.front(q, gone) is not None:
                    out.append(("order", None, "the stack was dropped"))
                continue
            w = E.force(q, o[3][0])
            vi, di, n = stack_parts(E, w[1])
            if E.truth(q, w[3][di]) != bk:
                out.append(("order", None, "direction flag"))
                continue
            got = canons(E, q, deliver(E, q, engnat.seqof(E, q, w[3][vi]), bk))
            full = (left + nB + Q_) if not bk else rev(P_ + nA + left)
            if E.front(q, left) is not None:
                r = same_view(E, q, got, full)
                out.append(("order", True if r is True else None, "a stack delivers %s instead of %s" % (show(got), show(canons(E, q, full)))))
                continue
            # nothing is left: the stack may hold any end of the other side, or nothing
            r = not got
            rest = near
            n_ = 0
            lim = 4
            while not r and lim:
                lim -= 1
                f = E.front(q, rest, back=bk)
                if f is None:
                    break
                cand = rest + Q_ if not bk else rev(P_ + rest)
                if same_view(E, q, got, cand) is True:
                    r = True
                    break
                rest = f[1]
                if len(got) and lim == 1:
                    break
            out.append(("order", True if r else None, "after the end a stack delivers %s" % show(got)))
        return out

    # ---- refutation: follow the code itself from the start, a few levels of recursion deep
    def refute(self, case, tier):
        depths = (1, 2) if tier == "quick" else (1, 2, 3)
        for u in depths:
            bad = []
            try:
                ins = case.inside() if not case.refused() else "none"
                for parts in (["M"] if ins == "any" else ["e", ""] if ins == "one" else [""]):
                    r = Run(self.P, self.fn, case, parts, unroll=u, budget=40000 if tier == "quick" else 400000)
                    self.follow(r, parts, case, bad, 3)
            except Budget:
                pass
            except (Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
                pass
            if bad:
                self.results += bad
                return

    def follow(self, r, parts, case, bad, n):
        E = r.E
        mid = sum((r.parts[ch] for ch in parts), ())
        for s, kind, v in r.outs:
            if kind == "unk" or E.imprecise(s):
                continue
            if kind == "panic":
                if not case.refused():
                    bad.append(Result(self.fn, "panic", "bad", "%s: panics: %s in %s (line %s)" % ((case,) + tuple(v))))
                continue
            if case.refused():
                bad.append(Result(self.fn, "panic", "bad", "%s: the range is accepted" % case))
                continue
            s.cells[("it", 0)] = v
            self.walk(E, s, mid, case, "", n, bad)

    def walk(self, E, st, mid, case, trail, n, bad):
        if bad:
            return
        for what in ("size_hint", "len"):
            self.check_hint(E, st, mid, case, trail, what, bad)
        if not n:
            return
        for back in (False, True):
            i = self.step_inst(back)
            if i is None:
                continue
            try:
                outs = E.call_inst(st.copy(), i, [("m", ("it", 0), ())])
            except (Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError):
                continue
            t2 = trail + ("B" if back else "F")
            for s, k, v in outs:
                self.stats["paths"] += 1
                if k == "unk" or E.imprecise(s):
                    continue
                if k == "panic":
                    bad.append(Result(self.fn, "panic", "bad", "%s, steps %s: panics: %s in %s (line %s)" % ((case, t2) + tuple(v))))
                    return
                try:
                    rs = E.fork(s, lambda q: self.result(E, q, v, mid, back))
                except (Unknown, AssertionError, KeyError, TypeError, IndexError):
                    continue
                for q, (ok, msg, left) in rs:
                    if E.imprecise(q):
                        continue
                    if ok is False:
                        bad.append(Result(self.fn, "order", "bad", "%s, steps %s (F front, B back): %s" % (case, t2, msg)))
                        return
                    if ok:
                        self.walk(E, q, left, case, t2, n - 1, bad)
                        if bad:
                            return

    def check_hint(self, E, st, mid, case, trail, what, bad):
        d = self.steps.get(what)
        if d is None or "i" not in d or not self.P.insts[d["i"]].get("body"):
            return
        exact = "len" in self.steps
        try:
            outs = E.call_inst(st.copy(), d["i"], [R(("c", ("it", 0)))])
        except (Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError):
            return
        for s, k, v in outs:
            if E.imprecise(s) or k == "unk":
                continue
            if k == "panic":
                bad.append(Result(self.fn, "panic", "bad", "%s, after steps %s: %s panics: %s in %s (line %s)" % ((case, trail, what) + tuple(v))))
                return
            try:
                rem = self.length_of(s, mid)
                v = E.force(s, v)
                vals = [v[1]] if what == "len" else [E.intof(s, v[3][0])]
                if what != "len":
                    u = E.force(s, v[3][1])
                    if u[2] == 1:
                        vals.append(E.intof(s, u[3][0]))
                for j, x in enumerate(vals):
                    if exact:
                        r = check_int(E, s, x, rem)
                    else:
                        r = s.decide(mkle(ladd(x, rem, -1))) if j == 0 else s.decide(mkle(ladd(rem, x, -1)))
                    if r is False:
                        bad.append(Result(self.fn, "hint", "bad", "%s, after steps %s: announces %s, remaining %s" % (case, trail, showlin(s.nlin(x)), showlin(s.nlin(rem)))))
                        return
            except (Unknown, Split, KeyError, TypeError, IndexError):
                continue


def s_it(st):
    return ("c", ("it", 0))


def iterators():
    M, S = mapspec.MAPS["rb"]
    return ([M + "::iter", M + "::iter_ptr", M + "::keys", M + "::values", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % M,
             S + "::iter", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % S], [M + "::range", S + "::range"])


_work = {}


def _job(k):
    C = IterCheck(_work["P"], _work["jobs"][k][0])
    C.run(_work["tier"], _work["jobs"][k][1])
    return k, C.results, C.stats, C.missing


def parallel(P, fns, tier):
    """One merged result set, cases spread over the processors."""
    import multiprocessing
    jobs = [(fn, c) for fn in fns for c in cases(fn)]
    _work.update(P=P, jobs=jobs, tier=tier)
    H = IterCheck(P, None)
    with multiprocessing.get_context("fork").Pool(min(8, len(jobs), os.cpu_count() or 1)) as pool:
        for k, res, stats, missing in sorted(pool.imap_unordered(_job, range(len(jobs))), key=lambda x: x[0]):
            H.results += res
            H.missing += missing
            for n in ("paths", "states", "loops"):
                H.stats[n] += stats[n]
            H.stats["instances"] |= stats["instances"]
    return H


if __name__ == "__main__":
    import sys, time, common, mir, collections
    sys.setrecursionlimit(100000)
    P = mir.Prog(common.dump("all"))
    M, S = mapspec.MAPS["rb"]
    for fn in (M + "::iter", M + "::iter_ptr", M + "::keys", M + "::values", M + "::range", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % M,
               S + "::iter", S + "::range", "<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % S):
        if len(sys.argv) > 1 and not fn.endswith(sys.argv[1]):
            continue
        t = time.time()
        C = IterCheck(P, fn)
        C.run()
        print(fn, "%.1fs" % (time.time() - t), C.missing, collections.Counter((r.aspect, r.verdict) for r in C.results), C.stats["paths"], C.stats["states"])
        for r in [r for r in C.results if r.verdict != "ok"][:6]:
            print("    ", str(r)[:500])
    print({k[1]: v for k, v in getattr(P, "stack_summaries", {}).items()})
