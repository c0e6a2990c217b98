"""Parallel iteration (P17).  The producer handed to the thread pool holds the contents; splitting a producer divides what it
holds; folding delivers what the producer holds, each entry once, or stops after the consumer said it is full.  What is still
to deliver is tracked as a bag: recursive functions by the contract "delivers the entries below the argument", loops by the
invariant "to deliver = held by the loop's iterators + the rest"."""
from eng import *
from engx import *
import itertools
import eng, engx, engnat, enght, htspec, htit
from htit import part, bag_of, role, pointee, HtIter
from enght import layout
from engloop import live
from iterspec import proj
from spec import same, show, showv, Result

FOLDER = "rayon::iter::plumbing::Folder::"
PRODUCER = "rayon::iter::plumbing::UnindexedProducer::"
TODO = ("todo", 0)
FULL = ("full", 0)
ITEM = htspec.M + "::iter"


def clean(E, q, segs):
    """Without the contents of empty parts."""
    return tuple(g for g in q.norm(segs) if not (g[0] == "s" and isinstance(g[1], str) and g[1].endswith("@") and g[1][:-1] in E.parts
                                                 and q.decide(mkle(q.length((("s", g[1][:-1]),)))) is True))


def same_bag(E, q, got, want):
    return enght.same_bag(E, q, clean(E, q, got), clean(E, q, want))


def is_folder(v):
    return v[0] == "t" and v[1][0] == "folder"


def find_item(E, q, item, todo):
    """(verdict, what is left) for an item delivered."""
    want = None
    todo = q.norm(todo)
    unsure = False
    item = E.canon(q, item)
    for k, g in enumerate(todo):
        if g[0] != "e":
            continue
        e = E.canon(q, g[1])
        if item[0] == "a" and e[0] == "a" and len(item[3]) == len(e[3]):
            rs = [same(E, q, E.canon(q, a), E.canon(q, b)) for a, b in zip(item[3], e[3])]
            r = False if False in rs else None if None in rs else True
        else:
            r = same(E, q, item, e)
        if r is True:
            return True, todo[:k] + todo[k + 1:]
        unsure = unsure or r is None
    return (None if unsure else False), todo


def consume(E, st, c):
    f, item = E.force(st, c.args[0]), c.args[1]
    if not is_folder(f) or TODO not in st.cells:
        raise Unknown("an item given to something else")
    r, left = find_item(E, st, item, st.cells[TODO][1])
    if r is None or r is False and not E.par_exact:
        raise Unknown("an item that is not known to be left")
    if r is False:
        return ("!panic", ("delivers %s, which is not among the entries left" % showv(E.canon(st, item)), E.P.insts[c.inst]["n"], c.t[-1]))
    st.cells[TODO] = ("q", left, None)
    return ("t", ("folder", E.fresh()))


def full(E, st, c):
    if not is_folder(deref_(E, st, c.args[0])) or TODO not in st.cells:
        raise Unknown("fullness of something else")
    if E.par_exact:
        return [(st, "ret", FALSE_)]    # a consumer that is never full has to get everything
    s = st.copy()
    s.cells[FULL] = TRUE_
    return [(s, "ret", TRUE_), (st, "ret", FALSE_)]


full.multi = True
TRUE_, FALSE_ = B(True), B(False)


def deref_(E, st, v):
    v = E.force(st, v)
    while v[0] in ("r", "m", "c"):
        v = E.force(st, v[1] if v[0] == "r" else E.read_path(st, v[1], v[2]) if v[0] == "m" else st.cells[v[1]])
    return v


def bridge(E, st, c):
    n = 0
    while ("produced", n) in st.cells:
        n += 1
    st.cells[("produced", n)] = c.args[0]
    return ("t", ("bridged", n))


engnat.NAT[FOLDER + "consume"] = consume
engnat.NAT[FOLDER + "full"] = full
engnat.NAT["rayon::iter::plumbing::bridge_unindexed"] = bridge


class Contracts:
    """Recursive functions over nodes: with a folder, they deliver the entries below their other arguments; without, their
    result holds those entries."""
    def __init__(self, E, first=None, args=None):
        self.E, self.first, self.args, self.seen = E, first, args, set()
        self.entered = False

    def kind(self, i, args):
        b = self.E.P.insts[i].get("body")
        if not b or not recursive(self.E.P, i):
            return None
        if sum(is_folder(a) for a in args) == 1:
            return "fold"
        t = self.E.T[b["locals"][0]]
        return "build" if t["k"] == "adt" and not any(is_folder(a) for a in args) and t["p"].startswith("rpds::") and role(self.E, b["locals"][0]) is None else None

    def __call__(self, st, i, args):
        k = self.kind(i, args)
        if k is None or k == "fold" and TODO not in st.cells:
            return None
        if i == self.first and not self.entered:
            self.entered = True
            return None
        E = self.E
        out = []

        def go(s):
            b = sum((bag_of(E, s, a) for a in args if not is_folder(a)), ())
            if self.args is not None:
                own = [ident(s, E, a) for a in self.args]
                if any(ident(s, E, a) in own for a in args if not is_folder(a)):
                    raise Unknown("recursion on the same thing")
            if k == "fold":
                s.cells[TODO] = ("q", minus(E, s, s.cells[TODO][1], b), None)
                return ("t", ("folder", E.fresh()))
            n = "b%d" % E.fresh()
            E.kinds[n] = E.ht_ety
            E.content.add(n)
            s.sbind[n] = b
            return E.sym(E.P.insts[i]["body"]["locals"][0], ("htel", n))
        for s, v in E.fork(st, go):
            self.seen.add(i)
            out.append((s, "ret", v))
        return out


def ident(s, E, v):
    """Which thing a pointer leads to."""
    last = None
    while True:
        if v[0] in ("p", "r", "c", "m"):
            v = v[2] if v[0] == "p" else v[1] if v[0] == "r" else s.cells[v[1]] if v[0] == "c" else E.read_path(s, v[1], v[2])
        elif v[0] == "sym":
            last = v
            if v[1] not in s.bind:
                return v
            w = s.bind[v[1]]
            if w[0] in ("a", "q", "t", "i", "b"):
                return v
            v = w
        elif v[0] == "q":
            return ("q", s.norm(v[1]))
        else:
            return last or v


def recursive(P, i):
    return any(i in P.reach(j) for j in P.callee_ids(i))


def minus(E, q, todo, b):
    todo = list(q.norm(todo))
    for g in clean(E, q, b):
        for w in todo:
            if g == w or g[0] == w[0] == "e" and same(E, q, E.canon(q, g[1]), E.canon(q, w[1])) is True:
                todo.remove(w)
                break
        else:
            raise Unknown("entries that are not known to be left")
    return tuple(todo)


def shapes(E, t):
    """Ways to build an arbitrary value that holds entries: functions of the state returning (value, bag)."""
    lay = E.htl
    x = E.T[t]
    if t == lay.bucket:
        def single(s):
            v = E.value(s, lay.ewh, "h")
            return ("a", t, lay.single, (v,)), bag_of(E, s, v, lay.ewh)

        def coll(s):
            c = "c%d" % E.fresh()
            part(E, c, lay.ewh)
            s.facts.append(L(2, (("len", c), -1)))
            return ("a", t, lay.coll, (E.listc.build(E, s, lay.listt, (("s", c),)),)), (("s", c + "@"),)
        return [single, coll]
    if x["k"] == "ref":
        y = E.T[x["t"]]
        if y["k"] == "slice":
            r = role(E, y["t"] if "t" in y else y["a"][0])
            ety = y["t"] if "t" in y else y["a"][0]

            def f(s):
                c = "c%d" % E.fresh()
                part(E, c, ("htany",) if r == "node" else E.stripty(ety))
                return R(("q", (("s", c),), ety)), (("s", c + "@"),)
            if r is None:
                raise Unknown("a slice of something else")
            return [f]
        if role(E, t) is None and not E.chain.matches(E, t) and not x.get("m"):
            def wrap(g):
                def f(s):
                    v, b = g(s)
                    return R(v), b
                return f
            return [wrap(g) for g in shapes(E, x["t"])]
    if x["k"] == "adt" and x["p"] not in (htit.ITER,) and not E.chain.matches(E, t) and role(E, t) is None and "v" in x:
        out = []
        for k, var in enumerate(x["v"]):
            for combo in itertools.product(*[shapes(E, f["t"]) for f in var["f"]]):
                def f(s, k=k, combo=combo):
                    vs = [g(s) for g in combo]
                    return ("a", t, k, tuple(v for v, _ in vs)), sum((b for _, b in vs), ())
                out.append(f)
        return out
    if x["k"] == "adt" and "PhantomData" in x["p"]:
        return [lambda s: (E.value(s, t, "ph"), ())]
    return [lambda s, g=g: g(s) for g in htit.shapes(E, St(), t)]


class ParCheck(HtIter):
    def __init__(self, P, budget=100000):
        self.P = P
        self.budget = budget
        self.fn = "parallel iteration"
        self.results, self.missing = [], []
        self.stats = dict(paths=0, states=0, instances=set(), loops=0)
        self.split = self.fold = self.drive = None
        self.done = set()

    def insts(self, trait_item, head=None):
        return [x for x in self.P.insts if x and x.get("root") and x.get("trait_item") == trait_item and x.get("body") and (head is None or x["impl_head"] == head)]

    def begin(self, src, k=6, free=None, most=None):
        """A producer over a whole map: [(engine, state, producer)]."""
        E = htspec.ht_engine(self.P, k, free, (2, 3, 5, 9, 17, 33, 65) if free == () else 3, self.budget)
        E.parts, E.content = {}, set()
        E.par_exact = free is not None
        self.E = E
        base = E.T[src["body"]["locals"][1]]["t"]
        c = next((c for c in E.containers if c.matches(E, base)), None)
        if c is None:
            raise Unknown("not a hash collection")
        st = St()
        E.kinds["S"] = c.elemty(E, base)
        m = c.build(E, st, base, (("s", "S"),))
        if most is not None:
            E.ht.small = True
            st.assume(mkle(ladd(st.length((("s", "S"),)), lconst(most), -1)))
        self.root = next(iter(E.ht_roots.values()))
        E.htl = layout(E, E.syms[self.root[1]][0])
        E.content.add("S")
        E.content |= set(E.bag.values())
        if free is None:
            # any node, wherever it is
            k = c.roles(E, base)[0]
            m = m[:3] + (m[3][:k] + (("p", ("x", E.fresh()), E.sym(E.htl.node, ("htnode", "S", None, ()))),) + m[3][k + 1:],)
            E.contracts = Contracts(E)
        self.seen = set()
        out = []
        for s, kind, v in E.call_inst(st, src["id"], [R(m)]):
            if kind != "ret":
                out.append((s, kind, v))
                continue
            v = E.force(s, v)
            drives = [d for d in self.insts("rayon::iter::ParallelIterator::drive_unindexed") if d["body"]["locals"][1] == src["body"]["locals"][0]
                      or E.T[d["body"]["locals"][1]].get("p") == E.T[src["body"]["locals"][0]].get("p")]
            if len(drives) != 1:
                raise Unknown("no single way to drive the parallel iterator")
            self.opt_len(E, s, v)
            for s2, k2, v2 in E.call_inst(s, drives[0]["id"], [v, ("t", ("consumer", 0))]):
                out.append((s2, k2, v2))
        if E.contracts:
            self.seen |= E.contracts.seen
            E.contracts = None
        return E, out

    def opt_len(self, E, s, v):
        for d in self.insts("rayon::iter::ParallelIterator::opt_len"):
            for s2, k, w in E.call_inst(s.copy(), d["id"], [R(v)]):
                if k == "unk":
                    self.add("hint", None, str(w))
                    continue
                if k == "panic":
                    self.add("panic", False, "opt_len panics", not E.imprecise(s2))
                    continue
                w = E.force(s2, w)
                ok = w[2] == 0 or s2.decide(mkeq(ladd(E.intof(s2, w[3][0]), s2.length((("s", "S"),)), -1)))
                self.add("hint", ok, "opt_len is not the number of entries", not E.imprecise(s2))

    def run(self, tier="quick"):
        srcs = self.insts("rayon::iter::IntoParallelIterator::into_par_iter")
        if not srcs:
            self.missing.append("into_par_iter")
            return self
        for src in srcs:
            self.fn = src["n"]
            n0 = len(self.results)
            try:
                self.prove(src)
            except (Unknown, Split, Budget, Infeasible) as e:
                self.add("order", None, str(e) or "undecided")
            except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError, StopIteration) as e:
                self.add("order", None, "engine %r" % (e,))
            if any(r.verdict != "ok" for r in self.results[n0:]):
                self.results[n0:] = [r for r in self.results[n0:] if r.verdict != "bad"]
                self.refute(src, tier)
        return self

    # ---- proof
    def prove(self, src):
        E, outs = self.begin(src)
        prods = set()
        for s, kind, v in outs:
            self.stats["paths"] += 1
            if kind == "unk":
                raise Unknown("%s (%s:%s)" % v)
            self.add("panic", kind == "ret", "panics: %s in %s (line %s)" % tuple(v) if kind != "ret" else "", not E.imprecise(s))
            if kind != "ret":
                continue
            w = E.force(s, v)
            self.add("result", True if w == ("t", ("bridged", 0)) and ("produced", 1) not in s.cells else None, "the result is not that of the thread pool")
            p = s.cells[("produced", 0)]
            if p[0] == "sym" and p[1] not in s.bind:
                prods.add(E.syms[p[1]][0])
            else:
                p = self.resolve(E, s, p)
                if p[0] != "a":
                    raise Unknown("producer")
                prods.add(p[1])
            ok = E.fork(s, lambda q: same_bag(E, q, bag_of(E, q, p), (("s", "S"),)))
            for q, r in ok:
                self.add("initial", True if r is True else None, "the producer does not hold the contents")
        self.stats["instances"] |= E.used
        if len(prods) != 1:
            raise Unknown("producers of several types")
        pt = E.T[prods.pop()]
        self.find(pt)
        builders = set(self.seen)
        self.contract(src, [self.fold["id"]])
        builders |= self.splits(src)
        self.contract(src, list(builders))

    def find(self, pt):
        for name in ("split", "fold_with"):
            xs = [x for x in self.insts(PRODUCER + name) if self.P.types[x["body"]["locals"][1]].get("p") == pt["p"]]
            if len(xs) != 1:
                raise Unknown("no single " + name)
            setattr(self, name.split("_")[0], xs[0])

    def contract(self, src, todo):
        """Prove that functions deliver, or pass on, what their arguments hold; then the recursive functions they rely on."""
        while todo:
            i = todo.pop()
            if i not in self.done:
                self.done.add(i)
                todo += self.prove_fn(src, i)

    def prove_fn(self, src, i):
        E, _ = self.begin(src)
        body = self.P.insts[i]["body"]
        tys = body["locals"][1:1 + body["argc"]]
        slots = []
        nf = 0
        for t in tys:
            if E.T[t]["k"] in ("param", "alias"):
                slots.append([lambda s: (("t", ("folder", E.fresh())), ())])
                nf += 1
            else:
                slots.append(shapes(E, t))
        if nf > 1:
            raise Unknown("signature of " + self.P.insts[i]["n"])
        seen = set()
        for combo in itertools.product(*slots):
            g = St()
            args, b = [], ()
            for f in combo:
                v, x = f(g)
                args.append(v)
                b += x
            if nf:
                g.cells[TODO] = ("q", b, None)
            self.stats["states"] += 1
            E.contracts = Contracts(E, i if recursive(E.P, i) else None,
                                    [a for a in args if not is_folder(a)] if recursive(E.P, i) else None)
            E.hooks["loop"] = self.invariant
            outs = E.call_inst(g, i, args)
            self.stats["instances"] |= E.used
            seen |= E.contracts.seen
            for s, kind, v in outs:
                self.stats["paths"] += 1
                if kind == "unk":
                    raise Unknown("%s (%s:%s)" % v)
                if kind == "panic":
                    self.add("panic", None, "panics: %s in %s (line %s)" % tuple(v))
                    continue
                if not nf:
                    for q, r in E.fork(s, lambda q: same_bag(E, q, bag_of(E, q, v), b)):
                        self.add("fold", True if r is True else None, "the result of %s does not hold what its arguments hold" % self.P.insts[i]["n"])
                    continue
                for q, r in E.fork(s, lambda q: self.finished(E, q, v)):
                    self.add("fold", True if r else None, "%s returns with entries left to deliver" % self.P.insts[i]["n"])
        E.contracts = None
        return seen

    def finished(self, E, q, v):
        if not is_folder(E.force(q, v)):
            return False
        if FULL in q.cells:
            return True
        return q.decide(mkle(q.length(clean(E, q, q.cells[TODO][1])))) is True

    def regen(self, E, s, v):
        """An iterator with other contents of the same kind; (value, bag now, bag then) or None if it holds nothing."""
        if v[0] == "it":
            now = htit.held(E, s, s.norm(v[1]))
            c = "c%d" % E.fresh()
            part(E, c, ("htany",) if role(E, v[2]) == "node" else E.stripty(v[2]))
            return ("it", (("s", c),)) + v[2:], now, (("s", c + "@"),)
        if v[0] == "sym" and v[1] not in s.bind and E.syms[v[1]][1][0] == "chain" or v[0] == "a" and v[1] is not None and E.chain.matches(E, v[1]):
            t = v[1] if v[0] == "a" else E.syms[v[1]][0]
            now = bag_of(E, s, v, t)
            c = "c%d" % E.fresh()
            part(E, c, E.chain.elemty(E, t))
            w = E.chain.build(E, s, t, (("s", c),))
            self.chains.append(c)
            return w, now, (("s", c + "@"),)
        if v[0] == "sym" and v[1] in s.bind:
            return self.regen(E, s, s.bind[v[1]])
        if v[0] == "a":
            vals, now, then, ints, n0 = list(v[3]), (), (), [], len(self.chains)
            hit = False
            for k, y in enumerate(v[3]):
                if y[0] == "i":
                    ints.append(k)
                    continue
                r = self.regen(E, s, y)
                if r:
                    vals[k] = r[0]
                    now += r[1]
                    then += r[2]
                    hit = True
            if not hit:
                return None
            htit.counts(E, s, v, [v[3][k] for k in ints])
            for k in ints:
                if len(self.chains) != n0 + 1:
                    raise Unknown("a number in an iterator")
                vals[k] = I(s.length((("s", self.chains[n0]),)))
            return ("a", v[1], v[2], tuple(vals)), now, then
        return None

    def invariant(self, E, s, i, fr, head, body):
        if TODO not in s.cells:
            return None
        self.chains = []
        cells = {c: self.resolve(E, s, v) for c, v in s.cells.items() if c[0] == fr and live(E, i, head, c[1])}
        g = s.copy()
        now, then = (), ()
        its = {}
        for c, v in cells.items():
            r = self.regen(E, g, v)
            if r:
                its[c] = r[0]
                now += r[1]
                then += r[2]
        rest = minus(E, g, g.cells[TODO][1], now)
        for c, v in its.items():
            g.cells[c] = v
        g.cells[TODO] = ("q", then + rest, None)
        before = dict(cells)
        out = []
        for s2, k, v in E.run(g, i, fr, head, (head, body)):
            if k != "head":
                out.append((s2, k, v))
                continue
            self.stats["loops"] += 1

            def back(q):
                held = ()
                for c in cells:
                    w = self.resolve(E, q, q.cells.get(c, ("t", ("none", 0))))
                    if c in its:
                        held += bag_of(E, q, w)
                    elif not (w == before[c] or is_folder(w) and is_folder(before[c])):
                        raise Unknown("a turn of the loop changes a local variable")
                left = q.cells[TODO][1]
                if FULL in q.cells:
                    minus(E, q, left, held + rest)
                    return True
                return same_bag(E, q, left, held + rest)
            for q, r in E.fork(s2, back):
                if r is not True:
                    raise Unknown("a turn of the loop loses or repeats entries")
        return out

    def splits(self, src):
        E, _ = self.begin(src)
        x = self.split
        pt = x["body"]["locals"][1]
        E.contracts = Contracts(E)
        for f in shapes(E, pt):
            g = St()
            v, b = f(g)
            self.stats["states"] += 1
            for s, kind, w in E.call_inst(g, x["id"], [v]):
                self.stats["paths"] += 1
                if kind == "unk":
                    raise Unknown("%s (%s:%s)" % w)
                if kind == "panic":
                    self.add("panic", None, "splitting panics: %s in %s (line %s)" % tuple(w))
                    continue

                def post(q):
                    return same_bag(E, q, bag_of(E, q, w), b)
                for q, r in E.fork(s, post):
                    self.add("split", True if r is True else None, "the two halves do not hold what the whole held")
        self.stats["instances"] |= E.used
        return E.contracts.seen

    # ---- refutation: fold the producer over a lazily explored map, whole or split
    def refute(self, src, tier):
        bad = []
        for most, plan, free in [(100, p, ()) for p in ("whole", "halves")] + list(itertools.product((2, 3, 4), ("whole", "halves", "quarters"), ((0,), (0, 10)))):
            if True:
                try:
                    self.budget = 60000 if tier == "quick" else 400000
                    self.follow(src, plan, free, bad, most)
                except (Budget, Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError, StopIteration):
                    pass
                if bad:
                    self.results += bad[:1]
                    return

    def follow(self, src, plan, free, bad, most):
        n0 = len(self.results)
        E, outs = self.begin(src, 6, free, most)
        self.results += [r for r in self.results[n0:] if r.verdict == "bad"][:0]
        E.hooks["loop"] = self.unroll
        for s, kind, v in outs:
            if kind == "unk" or E.imprecise(s):
                continue
            if kind == "panic":
                bad.append(Result(self.fn, "panic", "bad", "panics: %s in %s (line %s)" % tuple(v)))
                return
            w = E.force(s, v)
            if ("produced", 0) not in s.cells:
                bad.append(Result(self.fn, "result", "bad", "nothing is handed to the thread pool"))
                return
            if w != ("t", ("bridged", 0)):
                bad.append(Result(self.fn, "result", "bad", "the result is not that of the thread pool"))
                return
            p = self.resolve(E, s, s.cells[("produced", 0)])
            self.find(E.T[p[1]])
            s.cells[TODO] = ("q", (("s", "S"),), None)
            for q, parts in self.divide(E, s, [p], dict(whole=0, halves=1, quarters=2)[plan], bad):
                if bad:
                    return
                self.deliver(E, q, parts, plan, bad)
                if bad:
                    return

    def divide(self, E, s, parts, n, bad):
        if n == 0:
            return [(s, parts)]
        out = []
        work = [(s, [], parts)]
        while work:
            s1, done, rest = work.pop()
            if not rest:
                out += self.divide(E, s1, done, n - 1, bad)
                continue
            for s2, kind, v in E.call_inst(s1.copy(), self.split["id"], [rest[0]]):
                if kind == "unk" or E.imprecise(s2):
                    continue
                if kind == "panic":
                    bad.append(Result(self.fn, "panic", "bad", "splitting panics: %s in %s (line %s)" % tuple(v)))
                    return out

                def halves(q):
                    w = E.force(q, v)
                    o = E.force(q, w[3][1])
                    return [w[3][0]] + ([o[3][0]] if o[2] == 1 else [])
                for q, ps in E.fork(s2, halves):
                    work.append((q, done + ps, rest[1:]))
        return out

    def deliver(self, E, s, parts, plan, bad):
        work = [(s, list(parts))]
        while work:
            s1, rest = work.pop()
            if not rest:
                if FULL in s1.cells or E.imprecise(s1):
                    continue
                try:
                    rs = E.fork(s1, lambda q: E.truth(q, B(mkle(q.length(q.cells[TODO][1])))))
                except (Unknown, AssertionError, KeyError, TypeError, IndexError):
                    continue
                for q, r in rs:
                    self.stats["paths"] += 1
                    if r is False and not E.imprecise(q):
                        bad.append(Result(self.fn, "fold", "bad", "%s folded: entries are never delivered although the consumer never was full: %s" % (plan, show(q.norm(q.cells[TODO][1])))))
                        return
                continue
            for s2, kind, v in E.call_inst(s1.copy(), self.fold["id"], [rest[0], ("t", ("folder", E.fresh()))]):
                if kind == "unk" or E.imprecise(s2):
                    continue
                if kind == "panic":
                    bad.append(Result(self.fn, "fold", "bad", "%s folded: %s in %s (line %s)" % ((plan,) + tuple(v))))
                    return
                work.append((s2, rest[1:]))


if __name__ == "__main__":
    import sys, time, common, mir, collections
    sys.setrecursionlimit(100000)
    P = mir.Prog(common.dump("all"))
    t = time.time()
    C = ParCheck(P).run()
    print("%.1fs" % (time.time() - t), C.missing, collections.Counter((r.aspect, r.verdict) for r in C.results), C.stats["paths"], C.stats["states"], C.stats["loops"])
    for r in [r for r in C.results if r.verdict != "ok"][:6]:
        print("    ", str(r)[:500])
