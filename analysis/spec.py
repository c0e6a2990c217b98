"""Specification harness: runs a function of the crate on a symbolic collection and compares every outcome with
the abstract result."""
import itertools, time
from eng import *
import eng, engx, engnat, engcont, engloop, engfold
from engx import *
from engcont import Bad, Container


class Newtype(Container):
    """A struct around one container (all other fields are zero sized or irrelevant to the view)."""
    def __init__(self, path):
        self.path = path
        self.name = path.rsplit("::", 1)[1]

    def matches(self, E, t):
        return E.T[t]["k"] == "adt" and E.T[t]["p"] == self.path and self.field(E, t) is not None

    def field(self, E, t):
        fs = E.T[t]["v"][0]["f"]
        c = [k for k, f in enumerate(fs) if any(o.matches(E, f["t"]) for o in E.containers if o is not self)]
        return c[0] if len(c) == 1 else None

    def inner(self, E, t):
        k = self.field(E, t)
        ft = E.T[t]["v"][0]["f"][k]["t"]
        return k, ft, next(o for o in E.containers if o is not self and o.matches(E, ft))

    def elemty(self, E, t):
        k, ft, c = self.inner(E, t)
        return c.elemty(E, ft)

    def build(self, E, st, t, segs):
        k, ft, c = self.inner(E, t)
        fs = E.T[t]["v"][0]["f"]
        return ("a", t, 0, tuple(c.build(E, st, ft, segs) if i == k else E.value(st, f["t"], f["n"]) for i, f in enumerate(fs)))

    def unknown(self, E, st, t):
        n = "n%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def view(self, E, st, v, t=None):
        v = E.force(st, v)
        if v[0] != "a":
            raise Unknown("view")
        k, ft, c = self.inner(E, v[1] if v[1] is not None else t)
        return c.view(E, st, v[3][k], ft)


class TwoLists(Container):
    """A struct of two lists whose view is one list followed by the reverse of the other."""
    def __init__(self, path, order):
        self.path, self.order = path, order
        self.name = path.rsplit("::", 1)[1]

    def fields(self, E, t):
        fs = E.T[t]["v"][0]["f"]
        c = [k for k, f in enumerate(fs) if E.listc.matches(E, f["t"])]
        if len(c) != 2:
            return None
        return c if not self.order else c[::-1]

    def matches(self, E, t):
        return E.T[t]["k"] == "adt" and E.T[t]["p"] == self.path and self.fields(E, t) is not None

    def build(self, E, st, t, segs):
        # any split of the sequence over the two lists: a fresh cut when the sequence is one symbol
        fs = E.T[t]["v"][0]["f"]
        a, b = self.fields(E, t)
        segs = st.norm(tuple(segs))
        if len(segs) == 1 and segs[0][0] == "s" and isinstance(segs[0][1], str):
            n = segs[0][1]
            x, y = "%s.o%d" % (n, E.fresh()), "%s.i%d" % (n, E.fresh())
            E.kinds[x] = E.kinds[y] = E.kinds[n]
            st.bindseq(n, (("s", x), ("rs", y)))
            A, B_ = (("s", x),), (("s", y),)
        elif not segs:
            A, B_ = (), ()
        else:
            raise Unknown("build of a queue")
        vals = [None] * len(fs)
        vals[a] = E.listc.build(E, st, fs[a]["t"], A)
        vals[b] = E.listc.build(E, st, fs[b]["t"], B_)
        for k, f in enumerate(fs):
            if vals[k] is None:
                if E.T[f["t"]]["s"] == "usize":
                    vals[k] = I(st.length(segs))
                else:
                    vals[k] = E.value(st, f["t"], f["n"])
        return ("a", t, 0, tuple(vals))

    def elemty(self, E, t):
        fs = E.T[t]["v"][0]["f"]
        head, last, ln, lf = E.listc.roles(E, fs[self.fields(E, t)[0]]["t"])
        return E.chain.elemty(E, lf[head]["t"])

    def unknown(self, E, st, t):
        n = "q%d" % E.fresh()
        E.kinds[n] = self.elemty(E, t)
        return self.build(E, st, t, (("s", n),))

    def view(self, E, st, v, t=None):
        v = E.force(st, v)
        t = v[1] if v[1] is not None else t
        fs = E.T[t]["v"][0]["f"]
        a, b = self.fields(E, t)
        A = E.listc.view(E, st, v[3][a], fs[a]["t"])
        B_ = E.listc.view(E, st, v[3][b], fs[b]["t"])
        r = st.norm(A + rev(B_))
        for k, f in enumerate(fs):
            if k not in (a, b) and E.T[f["t"]]["s"] == "usize":
                if st.decide(mkeq(ladd(E.intof(st, v[3][k]), st.length(r), -1))) is not True:
                    raise Bad("length field is not the number of elements", st.decide(mkeq(ladd(E.intof(st, v[3][k]), st.length(r), -1))) is None)
        return r


def listc_elemty(self, E, t):
    head, last, ln, fs = self.roles(E, t)
    return E.chain.elemty(E, fs[head]["t"])


engcont.ListC.elemty = listc_elemty


def engine(P, queue_order=0, budget=60000):
    E = Engine(P, budget)
    E.natives = dict(engnat.NAT)
    engnat.ENGINE[0] = E
    E.chain = engcont.Chain()
    E.listc = engcont.ListC()
    E.containers = [E.listc, Newtype("rpds::stack::Stack"), TwoLists("rpds::queue::Queue", queue_order), E.chain]
    return E


class Ctx:
    """What a specification sees: the symbolic arguments and the post state."""
    def __init__(self, E, st, view, args):
        self.E, self.st, self.view, self.args = E, st, view, args

    def front(self, segs=None):
        return self.E.front(self.st, self.view if segs is None else segs)

    def back(self, segs=None):
        return self.E.front(self.st, self.view if segs is None else segs, back=True)

    def empty(self, segs=None):
        return self.front(segs) is None

    def length(self, segs=None):
        return self.st.length(self.view if segs is None else segs)

    def split(self, f):
        d = self.st.decide(f)
        if d is None:
            self.E.split_form(self.st, f)
        return d


def deref_all(E, st, v):
    v = E.force(st, v)
    while v[0] in ("r", "m", "p"):
        if v[0] == "m":
            v = E.force(st, E.read_path(st, v[1], v[2]))
        else:
            v = E.force(st, v[2] if v[0] == "p" else v[1])
    return v


def ground(v):
    """Only generic terms and integers: two different ground values denote different things."""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in ("sym", "f", "u", "raw"):
        return False
    if v[0] == "a":
        return all(ground(x) for x in v[3])
    if v[0] == "q":
        return all(ground(g[1]) if g[0] == "e" else not isinstance(g[1], tuple) for g in v[1])
    return v[0] in ("t", "i", "b")


def same(E, st, a, b):
    """True / False / None for two canonical values."""
    if a == b:
        return True
    if a[0] == "i" and b[0] == "i":
        return st.decide(mkeq(ladd(a[1], b[1], -1)))
    if a[0] == "b" and b[0] == "b":
        x, y = st.decide(a[1]), st.decide(b[1])
        return None if x is None or y is None else x == y
    if a[0] == "a" and b[0] == "a" and a[2] == b[2] and len(a[3]) == len(b[3]):
        rs = [same(E, st, x, y) for x, y in zip(a[3], b[3])]
        return False if False in rs else (True if all(r is True for r in rs) else None)
    if a[0] == "t" and b[0] == "t":
        find, _ = engnat.ordgraph(E, st)
        if find(a) == find(b):
            return True
        return False
    if a[0] == "q" and b[0] == "q":
        return same_view(E, st, a[1], b[1])
    if ground(a) and ground(b):
        return False
    return None


def rewrite(E, st, segs):
    """Replace fragments that a summary equated with another sequence."""
    if not st.eqs:
        return segs
    rules = []
    for l, r in st.eqs:
        l, r = canons(E, st, l), canons(E, st, r)
        if l and l != r:
            rules.append((l, r))
    for _ in range(20):
        for l, r in rules:
            n = len(l)
            i = next((i for i in range(len(segs) - n + 1) if segs[i:i + n] == l), None)
            if i is not None:
                segs = canons(E, st, segs[:i] + r + segs[i + n:])
                break
        else:
            break
    return segs


def drop_empty(st, segs):
    out = []
    for g in segs:
        if g[0] != "e":
            try:
                if st.decide(mkle(st.length((g,)))) is True:
                    continue
            except (Split, Unknown):
                pass
        out.append(g)
    return tuple(out)


def same_view(E, st, got, want):
    if hasattr(E, "same_view"):
        return E.same_view(E, st, got, want)
    got = drop_empty(st, rewrite(E, st, canons(E, st, got)))
    want = drop_empty(st, rewrite(E, st, canons(E, st, want)))
    if got == want:
        return True
    # cancel common ends
    while got and want:
        x, y = got[0], want[0]
        if x == y or (x[0] == y[0] == "e" and same(E, st, x[1], y[1]) is True):
            got, want = got[1:], want[1:]
        else:
            break
    while got and want:
        x, y = got[-1], want[-1]
        if x == y or (x[0] == y[0] == "e" and same(E, st, x[1], y[1]) is True):
            got, want = got[:-1], want[:-1]
        else:
            break
    if not got and not want:
        return True
    if any(g[0] != "e" and isinstance(g[1], tuple) for g in got + want):
        return None
    for g in got + want:
        if g[0] == "e" and not ground(g[1]):
            return None
    if all(g[0] == "e" for g in got + want) and len(got) == len(want):
        rs = [same(E, st, x[1], y[1]) for x, y in zip(got, want)]
        return False if False in rs else (True if all(rs) else None)
    return False


def show(segs):
    out = []
    for g in segs:
        if g[0] == "e":
            out.append(showv(g[1]))
        else:
            out.append(("" if g[0] == "s" else "rev ") + str(g[1] if isinstance(g[1], str) else g[1][0]) + "..")
    return "[" + ", ".join(out) + "]"


def showv(v):
    if v is None:
        return "-"
    if v[0] == "t":
        return "%s" % (v[1][0] if isinstance(v[1], tuple) and len(v[1]) < 2 else "%s#%s" % v[1][:2] if isinstance(v[1], tuple) else v[1],)
    if v[0] == "a":
        return "(" + ", ".join(showv(x) for x in v[3]) + ")" + ("" if not v[2] else "@%s" % (v[2],))
    if v[0] == "i":
        return showlin(v[1])
    return str(v)[:60]


def showlin(l):
    s = [str(l[0])] if l[0] or not l[1] else []
    for a, k in l[1]:
        n = "|%s|" % a[1] if a[0] == "len" else str(a[1])[:40]
        s.append(("" if k == 1 else "%d*" % k) + n)
    return " + ".join(s)


class Result:
    __slots__ = ("fn", "aspect", "verdict", "msg", "rep")

    def __init__(self, fn, aspect, verdict, msg="", rep=False):
        self.fn, self.aspect, self.verdict, self.msg, self.rep = fn, aspect, verdict, msg, rep

    def __repr__(self):
        return "%s %s %s %s" % (self.verdict, self.fn, self.aspect, self.msg)


def intmodel(E, st, extra):
    """A small integer model of the facts and the extra constraint exists?"""
    cons = [st.nlin(e) for e in extra]
    sysm = st.system(cons)
    atoms = sorted({a for l in sysm for a, _ in l[1]}, key=repr)
    if len(atoms) > 4:
        return False
    for vals in itertools.product(range(0, 5), repeat=len(atoms)):
        m = dict(zip(atoms, vals))
        if all(l[0] + sum(m[a] * k for a, k in l[1]) <= 0 for l in sysm):
            return True
    return False


def check_int(E, st, got, want):
    d = ladd(got, want, -1)
    r = st.decide(mkeq(d))
    if r is None:
        if intmodel(E, st, [ladd(d, lconst(1))]) or intmodel(E, st, [ladd(lconst(1), d, -1)]):
            return False
    return r


def match(E, st, v, exp, out, what="result"):
    """Append (aspect, verdict, msg)."""
    k = exp[0]

    def add(aspect, r, msg):
        out.append((aspect, {True: "ok", False: "bad", None: "unk"}[r], msg))
    if k == "any":
        return
    if k == "unit":
        return
    if k == "elem":
        got = E.canon(st, v)
        want = E.canon(st, exp[1])
        add("ret", same(E, st, got, want), "%s is %s, expected %s" % (what, showv(got), showv(want)))
        return
    if k == "view":
        w = deref_all(E, st, v)
        c, t = engloop.container_of(E, w)
        if c is None:
            if w[0] in ("q", "it"):
                got = w[1]
            else:
                add("view", None, "%s: no view of this value" % what)
                return
        else:
            try:
                got = c.view(E, st, w, t)
            except Bad as b:
                out.append(("rep", "unk" if b.unsure else "bad", "%s: %s" % (what, b), (t, w, exp[1])))
                return
        if c is not None and hasattr(c, "shape"):
            r, msg = c.shape(E, st, w, t)
            add("shape", r, "%s: %s" % (what, msg))
        add("view", same_view(E, st, got, exp[1]), "%s has contents %s, expected %s" % (what, show(canons(E, st, got)), show(canons(E, st, exp[1]))))
        return
    if k == "bool":
        v = deref_all(E, st, v)
        if v[0] != "b":
            add("ret", None, what)
            return
        f, w = v[1], exp[1]
        if w not in (True, False):
            w = st.decide(w)
            if w is None:
                raise Split([lambda s: s.assume(exp[1]), lambda s: s.assume(fnot(exp[1]))])
        d = st.decide(f)
        if d is None:
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
        add("ret", d == w, "%s is %s, expected %s" % (what, d, w))
        return
    if k == "int":
        v = deref_all(E, st, v)
        if v[0] != "i":
            add("len", None, what)
            return
        add("len", check_int(E, st, v[1], exp[1]), "%s is %s, expected %s" % (what, showlin(st.nlin(v[1])), showlin(st.nlin(exp[1]))))
        return
    if k in ("none", "some"):
        v = deref_all(E, st, v)
        if v[0] != "a" or v[2] not in (0, 1):
            add("ret", None, what)
            return
        if (v[2] == 1) != (k == "some"):
            add("ret", False, "%s is %s, expected %s" % (what, "Some" if v[2] else "None", "Some" if k == "some" else "None"))
            return
        add("ret", True, "")
        if k == "some":
            match(E, st, v[3][0], exp[1], out, what)
        return
    if k == "tuple":
        v = deref_all(E, st, v)
        if v[0] != "a" or len(v[3]) != len(exp[1]):
            add("ret", None, what)
            return
        for i, (x, e) in enumerate(zip(v[3], exp[1])):
            match(E, st, x, e, out, "%s.%d" % (what, i))
        return
    if k == "variant":
        v = deref_all(E, st, v)
        if v[0] != "a":
            add("ret", None, what)
            return
        add("ret", v[2] == exp[1], "%s is variant %s, expected %s" % (what, v[2], exp[1]))
        return
    raise AssertionError(k)


def storage(E, st, v):
    """The shared pointers a collection holds directly, by identity."""
    v = E.force(st, v)
    while v[0] in ("r", "m"):
        v = E.force(st, v[1] if v[0] == "r" else E.read_path(st, v[1], v[2]))
    if v[0] == "p":
        return [v[1]]
    if v[0] == "a":
        return [p for x in v[3] for p in storage(E, st, x)]
    return []


def same_storage(E, st, v, w, out):
    a, b = storage(E, st, v), storage(E, st, w)
    out.append(("share", "ok" if a == b else "bad", "the key is absent, yet the version returned does not share the storage of the original: it was copied"))


def canons(E, st, segs):
    return tuple((g[0], E.canon(st, g[1])) if g[0] == "e" else g for g in st.norm(segs))


class Harness:
    sharing = False     # decide only which results share the storage of their source

    def __init__(self, P, mk=engine, **kw):
        self.P, self.mk, self.kw = P, mk, kw
        self.results = []
        self.stats = dict(functions=0, paths=0, loops=0, instances=set(), steps=0)
        self.specs = {}
        self.missing = []

    def spec(self, name, want, args=None, group=None, panics=None, observer=False, setup=None, prep=None, shares=None):
        if self.sharing and not shares:
            return
        self.specs[name] = dict(shares=shares, name=name, want=want, args=args, group=group, panics=panics, observer=observer, setup=setup, prep=prep)

    def run(self, only=None):
        for n, sp in self.specs.items():
            if only and not only(n):
                continue
            self.run_one(sp)

    def run_one(self, sp):
        t0 = time.time()
        x = self.P.root(sp["name"])
        if x is None or not x.get("body"):
            self.missing.append(sp["name"])
            return
        E = self.mk(self.P, **self.kw)
        E.hooks["alloc"] = self.allocs = getattr(self, "allocs", [])
        if sp["prep"]:
            sp["prep"](E)
        st = St()
        try:
            args, ctxargs, view = self.arguments(E, st, x, sp)
            outs = E.call_inst(st, x["id"], args)
            self.last = E
        except Budget:
            self.results.append(Result(sp["name"], "all", "unk", "budget exhausted"))
            return
        except (Unknown, Split) as e:
            self.results.append(Result(sp["name"], "all", "unk", str(e)))
            return
        except Infeasible:
            outs = []
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            self.results.append(Result(sp["name"], "all", "unk", "engine: %r" % (e,)))
            return
        self.stats["functions"] += 1
        self.stats["loops"] += E.loops_done
        self.stats["instances"] |= E.used
        self.stats["steps"] += E.steps
        for s, kind, v in outs:
            self.stats["paths"] += 1
            self.outcome(E, s, kind, v, sp, args, ctxargs, view)
        if hasattr(self, "roots"):
            self.roots |= E.root_seen

    def iteration(self, name, want, exact=True, prep=None):
        """The iterator returned by `name` yields exactly want(view), announcing its length correctly."""
        import engiter
        x = self.P.root(name)
        steps = engiter.steps_of(self.P, name)
        if x is None or steps is None:
            self.missing.append(name)
            return
        sp = dict(name=name, want=None, args=None, group=None, panics=None, observer=False, setup=None, prep=prep)
        E = self.mk(self.P, **self.kw)
        if prep:
            prep(E)
        st = St()
        self.stats["functions"] += 1
        try:
            args, ctxargs, view = self.arguments(E, st, x, sp)
            outs = E.call_inst(st, x["id"], args)
            for s, kind, it in outs:
                self.stats["paths"] += 1
                if kind != "ret":
                    self.outcome(E, s, kind, it, sp, args, ctxargs, view)
                    continue
                total = s.length(want(view))
                for s2, k2, v in engiter.drain(E, s, it, steps, total):
                    self.stats["paths"] += 1
                    if k2 != "ret":
                        self.outcome(E, s2, k2, v, sp, args, ctxargs, view)
                        continue
                    got = s2.cells[("drain", 1)][1]
                    rs = E.fork(s2, lambda q: same_view(E, q, got, want(view)))
                    for q, r in rs:
                        ver = {True: "ok", False: "bad" if not E.imprecise(q) else "unk", None: "unk"}[r]
                        self.results.append(Result(name, "order", ver, "yields %s, expected %s" % (show(canons(E, q, got)), show(canons(E, q, want(view))))))
        except Budget:
            self.results.append(Result(name, "order", "unk", "budget exhausted"))
        except (Unknown, Split, Infeasible, AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            self.results.append(Result(name, "order", "unk", "%r" % (e,)))
        for what, r, msg in E.hooks.get("hints", []):
            self.results.append(Result(name, "hint", {True: "ok", False: "bad", None: "unk"}[r], what + ": " + msg))
        self.stats["loops"] += E.loops_done
        self.stats["instances"] |= E.used

    def arguments(self, E, st, x, sp):
        b = x["body"]
        args, ctxargs, view = [], [], None
        tys = b["locals"][1:1 + b["argc"]]
        if sp["setup"]:
            return sp["setup"](E, st, x, tys)
        for k, t in enumerate(tys):
            how = (sp["args"] or {}).get(k)
            if how == "iter" or (how is None and E.T[t]["k"] == "param" and k == len(tys) - 1 and E.T[t]["s"] in ("I",)):
                n = "U"
                ety = sp.get("ety") or self.iterty(E, x, sp)
                E.kinds[n] = ety
                v = ("it", (("s", n),), None if isinstance(ety, tuple) else ety, "user")
                args.append(v)
                ctxargs.append(v)
                continue
            base = t
            y = E.T[t]
            if y["k"] == "ref":
                base = y["t"]
            c = next((c for c in E.containers if c.matches(E, base)), None)
            if c is not None:
                n = "S" if view is None else "S%d" % k
                E.kinds[n] = c.elemty(E, base)
                inner = c.build(E, st, base, (("s", n),))
                if view is None:
                    view = (("s", n),)
            else:
                inner = E.value(st, base, "a%d" % k)
                n = None
            if y["k"] == "ref" and y.get("m"):
                cell = ("arg", k)
                st.cells[cell] = inner
                v = ("m", cell, ())
            elif y["k"] == "ref":
                v = R(inner)
            else:
                v = inner
            args.append(v)
            ctxargs.append((("s", n),) if n else inner)
        return args, ctxargs, view

    def iterty(self, E, x, sp):
        out = x["body"]["locals"][0]
        for c in E.containers:
            if c.matches(E, out):
                return c.elemty(E, out)
        t0 = x["body"]["locals"][1]
        if E.T[t0]["k"] == "ref":
            t0 = E.T[t0]["t"]
        for c in E.containers:
            if c.matches(E, t0):
                return c.elemty(E, t0)
        raise Unknown("element type of the iterator")

    def outcome(self, E, s, kind, v, sp, args, ctxargs, view):
        name = sp["name"]
        res = self.results
        if kind == "unk":
            res.append(Result(name, "all", "unk", "%s (%s:%s)" % v))
            return
        precise = not E.imprecise(s)
        if kind == "panic":
            ok = False
            if sp["panics"]:
                try:
                    rs = E.fork(s, lambda q: sp["panics"](Ctx(E, q, view, ctxargs)))
                    ok = all(r for _, r in rs)
                except Unknown as e:
                    res.append(Result(name, "panic", "unk", str(e)))
                    return
            if ok:
                res.append(Result(name, "panic", "ok"))
            else:
                res.append(Result(name, "panic", "bad" if precise else "unk", "can panic: %s in %s (line %s)" % v))
            return

        def post(q):
            out = []
            try:
                q.tighten()
                w = sp["want"](Ctx(E, q, view, ctxargs))
            except Unknown as e:
                return [("all", "unk", "spec: %s" % e)]
            if "ret" in w:
                match(E, q, v, w["ret"], out)
            if "self" in w:
                a = args[0]
                match(E, q, a, ("view", w["self"]), out, "the collection afterwards")
            if "custom" in w:
                w["custom"](E, q, v, args, out)
            return out

        def share(q):
            q.tighten()
            out = []
            if sp["shares"](Ctx(E, q, view, ctxargs)):
                same_storage(E, q, v, args[0], out)
            return out
        try:
            rs = E.fork(s, share if self.sharing else post)
        except Unknown as e:
            res.append(Result(name, "all", "unk", str(e)))
            return
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            res.append(Result(name, "all", "unk", "engine: %r" % (e,)))
            return
        for q, out in rs:
            for o in out:
                a, ver, msg = o[:3]
                if ver == "bad" and not precise:
                    ver = "unk"
                if a == "rep" and ver == "bad":
                    self.confirm(E, q, sp, o[3], msg)
                    continue
                res.append(Result(name, a, ver, msg))

    def confirm(self, E, st, sp, tw, msg):
        """A representation that breaks its own bookkeeping: is the difference observable?"""
        t, value, segs = tw
        found = self.observe(E, st, t, value, segs, 2, "")
        if found:
            self.results.append(Result(sp["name"], found[0], "bad", "%s; observable: %s" % (msg, found[1]), True))
        else:
            self.results.append(Result(sp["name"], "rep", "unk", msg, True))

    def observe(self, E, st, t, value, segs, depth, trail):
        for n, sp in self.specs.items():
            x = self.P.root(n)
            if x is None or sp["setup"] or sp["prep"]:
                continue
            b = x["body"]
            tys = b["locals"][1:1 + b["argc"]]
            if not tys:
                continue
            y = E.T[tys[0]]
            base = y["t"] if y["k"] == "ref" else tys[0]
            if E.T[base].get("p") != E.T[t].get("p"):
                continue
            if not sp["observer"] and depth < 2:
                continue
            s = st.copy()
            args, ctxargs = [], []
            bad = False
            for k, ty in enumerate(tys):
                if k == 0:
                    if y["k"] == "ref" and y.get("m"):
                        s.cells[("obs", depth)] = value
                        args.append(("m", ("obs", depth), ()))
                    else:
                        args.append(R(value) if y["k"] == "ref" else value)
                    ctxargs.append(segs)
                elif E.T[ty]["k"] == "param" and E.T[ty]["s"] in ("T", "K", "V"):
                    a = E.value(s, ty, "z%d" % k)
                    args.append(a)
                    ctxargs.append(a)
                elif E.T[ty]["k"] == "ref" and not E.T[ty].get("m") and E.T[E.T[ty]["t"]]["k"] == "param" and E.T[E.T[ty]["t"]]["s"] in ("Q", "K", "T"):
                    a = E.value(s, E.T[ty]["t"], "z%d" % k)
                    args.append(R(a))
                    ctxargs.append(a)
                else:
                    bad = True
            if bad:
                continue
            try:
                outs = E.call_inst(s, x["id"], args)
            except (Unknown, Split, Infeasible, Budget, AssertionError, KeyError):
                continue
            for s2, kind, v in outs:
                if E.imprecise(s2):
                    continue
                if kind == "panic" and not sp["panics"]:
                    return ("panic", "%s%s then panics: %s in %s (line %s)" % ((trail, n.rsplit("::", 1)[1]) + tuple(v)))
                if kind != "ret":
                    continue

                def post(q):
                    out = []
                    w = sp["want"](Ctx(E, q, segs, ctxargs))
                    if "ret" in w:
                        match(E, q, v, w["ret"], out)
                    if "self" in w:
                        match(E, q, args[0], ("view", w["self"]), out, "the collection afterwards")
                    return out
                try:
                    rs = E.fork(s2, post)
                except (Unknown, AssertionError, KeyError):
                    continue
                for q, out in rs:
                    for o in out:
                        if o[1] == "bad" and o[0] != "rep":
                            return (o[0], "%s%s: %s" % (trail, n.rsplit("::", 1)[1], o[2]))
                        if o[1] == "bad" and o[0] == "rep" and depth > 1:
                            r = self.observe(E, q, o[3][0], o[3][1], o[3][2], depth - 1, trail + n.rsplit("::", 1)[1] + " then ")
                            if r:
                                return r
        return None
