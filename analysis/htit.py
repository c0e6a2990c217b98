"""Iteration over hash maps and sets.  What an iteration state still delivers is the bag of entries held by the things on its
stack.  From an arbitrary such state a step delivers one entry of the bag and leaves a state that holds the others, or ends
with nothing left; turns of the stepping loop that deliver nothing leave the bag as it is (induction over the turns)."""
from eng import *
from engx import *
import eng, engx, engnat, enght, htspec
from engcont import opt_of, sp_of
from enght import layout, newgap, same_bag, entry_of
from iterspec import IterCheck, getp, setp, proj
from spec import same, canons, show, showv, Result

DEBUG = False
ITER = "core::slice::iter::Iter"
KEEP = ("next", "size_hint", "len")


# ---------------------------------------------------------------- values that hold entries
def pointee(E, t):
    """The type behind references and shared pointers."""
    while True:
        x = E.T[t]
        if x["k"] == "ref":
            t = x["t"]
        elif sp_of(E, t) is not None:
            t = sp_of(E, t)
        else:
            return t


def role(E, t):
    """'node', 'entry', 'held' (entry with its hash) or None, for the type behind pointers."""
    t = pointee(E, t)
    lay = E.htl
    return "node" if t == lay.node or layout(E, t) else "entry" if t == lay.entry else "held" if t == lay.ewh else None


def bag_of(E, st, v, t=None):
    """The entries held by a value."""
    lay = E.htl
    while v[0] in ("p", "r", "c", "m") or v[0] == "sym" and v[1] in st.bind:
        v = v[2] if v[0] == "p" else v[1] if v[0] == "r" else st.cells[v[1]] if v[0] == "c" else E.read_path(st, v[1], v[2]) if v[0] == "m" else st.bind[v[1]]
    if v[0] == "sym":
        p = E.syms[v[1]][1]
        if p[0] in ("htnode", "htel"):
            return st.norm((("s", p[1]),))
        if p[0] == "chain":
            return held(E, st, st.norm(p[1]))
        v = E.force(st, v)
        return bag_of(E, st, v, t)
    if v[0] in ("i", "t", "b"):
        return ()
    if v[0] in ("it", "q"):
        return held(E, st, st.norm(v[1]))
    if v[0] != "a":
        raise Unknown("what a value of kind %s holds" % v[0])
    t = v[1] if v[1] is not None else t
    if t is not None:
        if t == lay.entry:
            return (("e", E.canon(st, v)),)
        if t == lay.ewh:
            return (("e", entry_of(E, st, lay, v)),)
        if E.chain.matches(E, t):
            if v[2] == 0:
                return ()
            n, ref, kid, rest = E.chain.parts(E, t)
            p = E.force(st, v[3][0])
            node = E.force(st, p[2] if p[0] == "p" else p[1])
            return sum((bag_of(E, st, node[3][r]) for r in rest), ()) + bag_of(E, st, node[3][kid], E.T[n]["v"][0]["f"][kid]["t"])
        if t == lay.listt:
            head, last, ln, fs = E.listc.roles(E, t)
            return bag_of(E, st, v[3][head], fs[head]["t"])
        if t == lay.sparse:
            return bag_of(E, st, v[3][lay.arr])
    out = ()
    ints = []
    for x in v[3]:
        while x[0] == "sym" and x[1] in st.bind:
            x = st.bind[x[1]]
        if x[0] == "i":
            ints.append(x)
        out += bag_of(E, st, x)
    if ints:
        counts(E, st, v, ints)
    return out


def counts(E, st, v, ints):
    """Numbers kept beside a list are its length."""
    n = [c for c in (chain_len(E, st, x) for x in v[3]) if c is not None]
    for x in ints if n else ():
        if len(n) != 1 or st.decide(mkeq(ladd(x[1], n[0], -1))) is not True:
            raise Unknown("a number beside a list of entries")


def chain_len(E, st, v, t=None):
    """Length of the list inside an iterator."""
    while v[0] == "sym" and v[1] in st.bind:
        v = st.bind[v[1]]
    if v[0] == "sym":
        p = E.syms[v[1]][1]
        return st.length(p[1]) if p[0] == "chain" else None
    if v[0] != "a":
        return None
    t = v[1] if v[1] is not None else t
    if t is not None and E.chain.matches(E, t):
        if v[2] == 0:
            return lconst(0)
        n, ref, kid, rest = E.chain.parts(E, t)
        p = E.force(st, v[3][0])
        node = E.force(st, p[2] if p[0] == "p" else p[1])
        return ladd(chain_len(E, st, node[3][kid], E.T[n]["v"][0]["f"][kid]["t"]), lconst(1))
    ls = [c for c in (chain_len(E, st, x) for x in v[3]) if c is not None]
    if len(ls) > 1:
        raise Unknown("several lists in one iterator")
    return ls[0] if ls else None


def held(E, st, segs):
    out = ()
    for g in segs:
        if g[0] == "e":
            out += bag_of(E, st, g[1])
        elif g[0] in ("s", "rs") and g[1] in E.bag:
            out += st.norm((("s", E.bag[g[1]]),))
        elif g[0] in ("s", "rs") and g[1] in E.content:
            out += st.norm((("s", g[1]),))
        else:
            raise Unknown("what a sequence holds")
    return out


def part(E, n, kind):
    """A sequence of things that hold entries."""
    E.bag[n] = n + "@"
    E.kinds[n + "@"] = E.ht_ety
    E.content.add(n + "@")
    E.kinds[n] = kind
    E.parts[n] = kind


def on_bind(st, name, segs):
    E = engnat.ENGINE[0]
    ps = getattr(E, "parts", None)
    if ps is None or name not in ps:
        return enght.on_bind(st, name, segs)
    for g in segs:
        if g[0] != "e" and g[1] not in ps:
            part(E, g[1], ps[name])
    out = ()
    for g in segs:
        out += bag_of(E, st, g[1]) if g[0] == "e" else (("s", E.bag[g[1]]),)
    b = E.bag[name]
    if b not in st.sbind:
        st.sbind[b] = out
    elif st.sbind[b] == ():
        st.assume(mkeq(st.length(out)))
    else:
        raise Unknown("a part of known contents")


eng.ONBIND[None] = on_bind


def kid(E, st, k):
    n = "w%d" % E.fresh()
    E.kinds[n] = E.ht_ety
    E.content.add(n)
    s = E.sym(E.htl.node, ("htnode", n, None, ()))
    return ("p", ("x", E.fresh()), s)


def element(E, st, k):
    n = "e%d" % E.fresh()
    E.kinds[n] = E.ht_ety
    E.content.add(n)
    return E.sym(E.ht_elty, ("htel", n))


engx.ELEMKINDS["htany"] = kid
engx.ELEMKINDS["htstk"] = element
engx.STICKY.add("htel")

_mat = engx.MATERIALISE["htnode"]


def mat_node(E, st, i, t, pred):
    _, name, depth, path = pred
    if depth is not None:
        return _mat(E, st, i, t, pred)
    lay = layout(E, t)

    def alt(mk):
        def f(s):
            v, segs = mk(s)
            s.bind[i] = v
            s.bindseq(name, segs)
        return f

    def branch(s):
        c = "c%d" % E.fresh()
        part(E, c, ("htany",))
        f = [None, None]
        f[lay.bm] = ("i", L(0, (("v", ("bits", c), (0, (1 << 64) - 1)), 1)))
        f[lay.arr] = ("q", (("s", c),), lay.spt)
        return ("a", t, lay.branch, (("a", lay.sparse, 0, tuple(f)),)), (("s", c + "@"),)

    def single(s):
        v = E.value(s, lay.ewh, "h")
        return ("a", t, lay.leaf, (("a", lay.bucket, lay.single, (v,)),)), (("e", entry_of(E, s, lay, v)),)

    def coll(s):
        c = "c%d" % E.fresh()
        part(E, c, lay.ewh)
        s.facts.append(L(2, (("len", c), -1)))
        return ("a", t, lay.leaf, (("a", lay.bucket, lay.coll, (E.listc.build(E, s, lay.listt, (("s", c),)),)),)), (("s", c + "@"),)
    raise Split([alt(branch), alt(single), alt(coll)])


engx.MATERIALISE["htnode"] = mat_node


def shapes(E, st, t):
    """Ways to build an arbitrary value of a type out of parts: functions of the state returning (value, bag)."""
    x = E.T[t]
    if x["k"] == "adt" and x["p"] == ITER:
        a = [y for y in x["a"] if isinstance(y, int)]
        r = role(E, a[0])

        def f(s):
            c = "c%d" % E.fresh()
            part(E, c, ("htany",) if r == "node" else E.stripty(a[0]))
            return ("it", (("s", c),), a[0], "ref"), (("s", c + "@"),)
        if r is None:
            raise Unknown("iteration over something else")
        return [f]
    if E.chain.matches(E, t):
        def f(s):
            c = "c%d" % E.fresh()
            part(E, c, E.chain.elemty(E, t))
            return E.chain.build(E, s, t, (("s", c),)), (("s", c + "@"),)
        return [f]
    if role(E, t) in ("entry", "held") and (x["k"] == "ref" or sp_of(E, t) is not None):
        def f(s):
            v = E.value(s, t, "h")
            return v, bag_of(E, s, v, t)
        return [f]
    if role(E, t) == "node":
        def f(s):
            n = "w%d" % E.fresh()
            E.kinds[n] = E.ht_ety
            E.content.add(n)
            v = E.sym(E.htl.node, ("htnode", n, None, ()))
            def wrap(y):
                if y == E.htl.node:
                    return v
                z = E.T[y]
                return R(wrap(z["t"])) if z["k"] == "ref" else ("p", ("x", E.fresh()), wrap(sp_of(E, y)))
            w = wrap(t)
            return w, (("s", n),)
        return [f]
    if x["s"] == "usize":
        return [lambda s: (None, None)]
    if x["k"] == "adt" and "v" in x:
        out = []
        for k, var in enumerate(x["v"]):
            import itertools
            for combo in itertools.product(*[shapes(E, st, f["t"]) for f in var["f"]]):
                def f(s, k=k, combo=combo):
                    vals, segs = [], ()
                    for g in combo:
                        v, b = g(s)
                        vals.append(v)
                        segs += b or ()
                    for j, v in enumerate(vals):
                        if v is None:
                            chains = [w for w in vals if w is not None and w[0] == "sym" and E.syms[w[1]][1][0] == "chain"]
                            if len(chains) != 1:
                                raise Unknown("a number inside an iteration element")
                            vals[j] = I(s.length(E.syms[chains[0][1]][1][1]))
                    return ("a", t, k, tuple(vals)), segs
                out.append(f)
        return out
    raise Unknown("an iteration element of type " + x["s"])


def mat_el(E, st, i, t, pred):
    name = pred[1]

    def alt(mk):
        def f(s):
            v, segs = mk(s)
            s.bind[i] = v
            s.bindseq(name, segs)
        return f
    raise Split([alt(mk) for mk in shapes(E, st, t)])


engx.MATERIALISE["htel"] = mat_el


# ---------------------------------------------------------------- checking
class HtIter(IterCheck):
    def __init__(self, P, fn, budget=200000):
        IterCheck.__init__(self, P, fn)
        self.budget = budget

    def start(self, k=6, free=None):
        E = htspec.ht_engine(self.P, k, free, 3, self.budget)
        E.parts, E.content = {}, set()
        self.E = E
        x = self.P.root(self.fn)
        base = E.T[x["body"]["locals"][1]]["t"]
        c = next((c for c in E.containers if c.matches(E, base)), None)
        if c is None:
            raise Unknown("not a hash collection")
        st = St()
        E.kinds["S"] = c.elemty(E, base)
        m = c.build(E, st, base, (("s", "S"),))
        self.root = next(iter(E.ht_roots.values()))
        E.htl = layout(E, E.syms[self.root[1]][0])
        E.content.add("S")
        E.content |= {n for n in E.bag.values()}
        outs = E.call_inst(st, x["id"], [R(m)])
        return E, outs

    def run(self, tier="quick"):
        if self.P.root(self.fn) is None or self.steps is None:
            self.missing.append(self.fn)
            return
        try:
            self.prove()
        except (Unknown, Split, Budget, Infeasible) as e:
            self.add("order", None, str(e) or "undecided")
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError, StopIteration) as e:
            self.add("order", None, "engine %r" % (e,))
        if any(r.verdict != "ok" for r in self.results):
            self.results = [r for r in self.results if r.verdict != "bad"]
            self.refute(tier)

    def layout(self, E, v, path=()):
        """Paths of the stacks and of the integers."""
        q, n = [], []
        if v[0] == "q":
            return [path], []
        if v[0] == "i":
            return [], [path]
        if v[0] == "a":
            for k, y in enumerate(v[3]):
                a, b = self.layout(E, y, path + (k,))
                q += a
                n += b
        return q, n

    def length_of(self, s, mid):
        return s.length(mid)

    def prove(self):
        E, outs = self.start()
        step = self.step_inst(False)
        if step is None:
            raise Unknown("no step function")
        seen = False
        for s, kind, v in outs:
            self.stats["paths"] += 1
            if kind == "unk":
                raise Unknown("%s (%s:%s)" % v)
            self.add("panic", kind == "ret", "panics: %s in %s (line %s)" % tuple(v) if kind != "ret" else "", not E.imprecise(s))
            if kind != "ret":
                continue
            for s2, (ok, sz) in E.fork(s, lambda q: self.agrees(E, q, self.resolve(E, q, v), (("s", "S"),))):
                self.add("order", True if ok else None, "the initial state does not hold the contents")
                self.add("order", True if sz else None, "the initial state does not count the contents")
                if not seen:
                    seen = True
                    self.general(E, s2, self.resolve(E, s2, v), step)
        if not seen:
            raise Unknown("no initial state")

    def agrees(self, E, q, it, want):
        got = bag_of(E, q, it)
        ok = same_bag(E, q, got, want) is True
        if not ok and DEBUG:
            print(show(got), "WANT", show(q.norm(want)))
        qs, ns = self.layout(E, it)
        n = q.length(want)
        sz = len(ns) == 1 and q.decide(mkeq(ladd(E.intof(q, getp(it, ns[0])), n, -1))) is True
        return ok, sz

    def general(self, E, s, it0, step):
        qs, ns = self.layout(E, it0)
        if len(qs) != 1 or len(ns) != 1:
            raise Unknown("iterator layout")
        ety = getp(it0, qs[0])[2]
        E.ht_elty = ety
        g = St()
        part(E, "stk", ("htstk",))
        D0 = (("s", "stk@"),)
        it = setp(setp(it0, qs[0], ("q", (("s", "stk"),), ety)), ns[0], I(g.length(D0)))
        g.cells[("it", 0)] = it
        self.stats["states"] += 1
        bad = []
        for what in ("size_hint", "len"):
            self.check_hint(E, g, D0, "", "", what, bad)
            if "i" in (self.steps.get(what) or {}):
                self.add("hint", not bad, bad[0].msg if bad else "", True)
        turns = []

        def loop(E, s, i, fr, head, body):
            cur = self.resolve(E, s, ("c", ("it", 0)))
            if cur != it:
                return None
            before = {c: v for c, v in s.cells.items() if c[0] == fr}
            from engloop import live
            out = []
            for s2, k, v in E.run(s, i, fr, head, (head, body)):
                if k != "head":
                    out.append((s2, k, v))
                    continue
                for c in set(before) | {c for c in s2.cells if c[0] == fr}:
                    if before.get(c) != s2.cells.get(c) and live(E, i, head, c[1]):
                        raise Unknown("a turn of the loop changes a local variable")
                turns.append(s2)
            return out
        E.hooks["loop"] = loop
        outs = E.call_inst(g, step, [("m", ("it", 0), ())])
        del E.hooks["loop"]
        self.stats["instances"] |= E.used
        if not turns:
            pass
        for s2 in turns:
            self.stats["paths"] += 1
            self.stats["loops"] = 1
            for q, (ok, sz) in E.fork(s2, lambda q: self.agrees(E, q, self.resolve(E, q, ("c", ("it", 0))), D0)):
                self.add("order", True if ok else None, "a turn of the stepping loop loses or repeats entries")
                self.add("order", True if sz else None, "a turn of the stepping loop changes the count")
        for s2, kind, v in outs:
            self.stats["paths"] += 1
            if kind == "unk":
                raise Unknown("%s (%s:%s)" % v)
            if kind == "panic":
                self.add("panic", False, "a step panics: %s in %s (line %s)" % tuple(v), not E.imprecise(s2))
                continue

            def post(q):
                w = E.force(q, v)
                new = self.resolve(E, q, ("c", ("it", 0)))
                if w[2] == 0:
                    return [("order", True if q.decide(mkle(q.length(D0))) is True else None, "a step ends with entries left"),
                            ("order", True if self.agrees(E, q, new, D0) == (True, True) else None, "the state after the end holds entries")]
                ok, msg, left = self.result(E, q, v, D0, False)
                return [("order", ok or None, msg), ("order", True if self.agrees(E, q, new, left) == (True, True) else None, "the state after a step does not hold the other entries")]
            for q, out in E.fork(s2, post):
                for a, ok, msg in out:
                    self.add(a, ok, msg, not E.imprecise(q))

    def result(self, E, q, v, mid, back):
        """(ok, message, what is left)."""
        mid = tuple((g[0], E.canon(q, g[1])) if g[0] == "e" else g for g in q.norm(mid))
        w = E.force(q, v)
        if w[0] != "a":
            raise Unknown("step result")
        if w[2] == 0:
            if E.truth(q, B(mkle(q.length(mid)))):
                return True, "", mid
            return False, "ends with entries left", mid
        got = E.canon(q, w[3][0])
        unsure = False
        for k, g in enumerate(mid):
            if g[0] == "e":
                r = self.same_item(E, q, got, g[1])
                if r is True:
                    return True, "", mid[:k] + mid[k + 1:]
                unsure = unsure or r is None
        return None if unsure else False, "yields %s, which is not among the entries left" % showv(got), mid

    def same_item(self, E, q, got, e):
        want = proj(self.fn, e)
        if got[0] == "a" and want[0] == "a" and len(got[3]) == len(want[3]):
            rs = [same(E, q, E.canon(q, a), b) for a, b in zip(got[3], want[3])]
            return False if False in rs else None if None in rs else True
        return same(E, q, got, want)

    def refute(self, tier):
        """Steps from the initial state over a lazily explored map."""
        bad = []
        for free, n in (((0,), 3), ((0, 10), 4)):
            try:
                self.budget = 60000 if tier == "quick" else 400000
                E, outs = self.start(6, free)
                E.hooks["loop"] = self.unroll
                for s, kind, v in outs:
                    if kind == "unk" or E.imprecise(s):
                        continue
                    if kind == "panic":
                        bad.append(Result(self.fn, "panic", "bad", "panics: %s in %s (line %s)" % tuple(v)))
                        continue
                    s.cells[("it", 0)] = self.resolve(E, s, v)
                    self.walk(E, s, (("s", "S"),), "", "", n, bad)
            except (Budget, Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError):
                pass
            if bad:
                break
        self.results += bad[:1]

    def unroll(self, E, s, i, fr, head, body, turns=16):
        out, work = [], [(s, 0)]
        while work:
            s1, n = work.pop()
            for s2, k, v in E.run(s1, i, fr, head, (head, body)):
                if k == "head":
                    if n < turns:
                        work.append((s2, n + 1))
                elif k != "unk":
                    out.append((s2, k, v))
        return out


def iterators():
    M, S = htspec.M, htspec.S_
    I_ = "core::iter::traits::collect::IntoIterator>::into_iter"
    return [M + "::iter", M + "::iter_ptr", M + "::keys", M + "::values", "<&%s as %s" % (M, I_), S + "::iter", "<&%s as %s" % (S, I_)]


_work = {}


def _job(k):
    C = HtIter(_work["P"], _work["jobs"][k])
    C.run(_work["tier"])
    return k, C.results, C.stats, C.missing


def parallel(P, tier):
    import multiprocessing, os
    jobs = iterators()
    _work.update(P=P, jobs=jobs, tier=tier)
    H = IterCheck(P, None)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for k, res, stats, missing in sorted(pool.imap_unordered(_job, range(len(jobs)), chunksize=1), key=lambda x: x[0]):
            H.results += res
            H.missing += [m for m in missing if m not in H.missing]
            for n in ("paths", "states", "loops"):
                H.stats[n] += stats[n]
            H.stats["instances"] |= stats["instances"]
    return H


if __name__ == "__main__":
    import sys, time, common, mir, collections
    sys.setrecursionlimit(100000)
    DEBUG = len(sys.argv) > 2
    P = mir.Prog(common.dump("all"))
    for fn in iterators():
        if len(sys.argv) > 1 and sys.argv[1] not in fn:
            continue
        t = time.time()
        C = HtIter(P, fn)
        C.run()
        print(fn, "%.1fs" % (time.time() - t), C.missing, collections.Counter((r.aspect, r.verdict) for r in C.results), C.stats["paths"], C.stats["states"])
        for r in [r for r in C.results if r.verdict != "ok"][:6]:
            print("    ", str(r)[:500])
