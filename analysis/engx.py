"""Executor of the shape analysis: places, statements, calls, loops."""
import itertools
from eng import *
import eng

RANGES = {"usize": (0, (1 << 64) - 1), "u64": (0, (1 << 64) - 1), "u32": (0, (1 << 32) - 1), "u16": (0, 65535), "u8": (0, 255),
          "isize": (-(1 << 63), (1 << 63) - 1), "i64": (-(1 << 63), (1 << 63) - 1), "i32": (-(1 << 31), (1 << 31) - 1),
          "i8": (-128, 127), "i16": (-32768, 32767), "char": (0, 0x10FFFF), "u128": (0, (1 << 128) - 1), "i128": (-(1 << 127), (1 << 127) - 1)}
BITS = {"usize": 64, "u64": 64, "u32": 32, "u16": 16, "u8": 8, "isize": 64, "i64": 64, "i32": 32, "i8": 8, "i16": 16, "u128": 128, "i128": 128}


def divided(st, x, c):
    """x // c when the facts determine it."""
    k = tuple((t, k // c) for t, k in x[1] if k % c == 0)
    for a in {(0, k), (x[0] // c, k)}:
        b = ladd(x, lscale(a, c), -1)
        if st.decide(mkle(lscale(b, -1))) is True and st.decide(mkle(ladd(b, lconst(1 - c)))) is True:
            return a
    return None


def redivide(st):
    """Quotients that the facts now determine."""
    for f in list(st.facts):
        for a, _ in f[1]:
            if a[0] == "uf" and a[1][0] == "fdiv" and a not in st.fix:
                _, b, c = a[1]
                x = st.nlin(b)
                if x == b or any(t == a for t, _ in x[1]):
                    continue
                v = divided(st, x, c) if x[1] else lconst(x[0] // c)
                if v is not None:
                    r = ("uf", ("frem", b, c), (0, c - 1))
                    if any(t in (a, r) for t, _ in v[1]):
                        continue
                    st.pin(a, v)
                    st.pin(r, ladd(x, lscale(v, c), -1))


eng.SIMPLIFY.append(redivide)
ELEMKINDS = {}    # kind of element -> (E, st, kind) -> value


def opaque(x):
    """Does a term mention a result of arithmetic that is only bounded, not computed?  Both outcomes of a condition on it
    may then be assumed where only one can happen."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "uf" and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str):
            n = x[1][0]
            if n in ("Not", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem") or n.startswith(("cast:", "w")):
                return True
        return any(opaque(y) for y in x)
    return False


class Engine:
    def __init__(self, prog, budget=60000):
        self.P = prog
        self.T = prog.types
        self.ctr = itertools.count(1)
        self.syms = {}
        self.kinds = {}          # sequence name -> element type id
        self.natives = {}
        self.containers = []     # containers.Container objects
        self.stack = []
        self.contracts = None    # handler(st, inst, args) -> outcomes or None
        self.budget = budget
        self.steps = 0
        self.used = set()        # instances entered
        self.cfg = {}
        self.loops_done = 0
        self.unk = {}
        self.hooks = {}
        self.panics = {}
        self.on_loop = None
        self.rec_limit = 1
        self.constcache = {}
        self.symhooks = {}
        self.cuts = ()

    def fresh(self):
        return next(self.ctr)

    # ---- forking
    def fork(self, st, fn):
        work, out = [st], []
        while work:
            s = work.pop()
            t = s.copy()
            mark = self.fresh()
            try:
                out.append((t, fn(t)))
            except Split as e:
                # what was looked into on the way stays looked into (a case may be about its parts)
                new = [k for k in t.bind if k not in s.bind and k < mark and k in self.syms and self.syms[k][1][0] in STICKY]
                if new:
                    n = s.copy()
                    try:
                        for k in new:
                            if k not in n.bind:
                                self.materialise(n, ("sym", k))
                        work.append(n)
                    except Infeasible:
                        pass
                    continue
                for a in e.alts:
                    n = s.copy()
                    try:
                        try:
                            a(n)
                        except Split as e2:
                            # nested split: keep the outer state and let the alternatives refine it
                            work2 = [(s, lambda q, a=a, b=b: (b(q), a(q))) for b in e2.alts]
                            for q, f in work2:
                                m = q.copy()
                                try:
                                    f(m)
                                    work.append(m)
                                except Infeasible:
                                    pass
                            continue
                        work.append(n)
                    except Infeasible:
                        pass
            except Infeasible:
                pass
            if len(out) + len(work) > 4000:
                raise Unknown("too many cases")
        return out

    # ---- types
    def tk(self, t):
        return self.T[t]

    def is_adt(self, t, path):
        x = self.T[t]
        return x["k"] == "adt" and x["p"] == path

    def fty(self, ty, variant, i):
        return self.T[ty]["v"][variant]["f"][i]["t"]

    def prim_range(self, t):
        x = self.T[t]
        s = x["s"]
        if s in RANGES:
            return RANGES[s]
        return None

    # ---- fresh values
    def newint(self, name, ty="usize", lo=None, hi=None):
        r = RANGES[ty]
        return I(L(0, (("v", (name, self.fresh()), (r[0] if lo is None else lo, r[1] if hi is None else hi)), 1)))

    def value(self, st, t, hint="x"):
        """A completely unknown (but valid) value of type t."""
        x = self.T[t]
        k = x["k"]
        for c in self.containers:
            if c.matches(self, t):
                v = c.unknown(self, st, t)
                if v is not None:
                    return v
        if k == "bool":
            return B(("at", ("b", hint, self.fresh())))
        if x["s"] in RANGES:
            return self.newint(hint, x["s"])
        if k == "ref":
            inner = self.value(st, x["t"], hint)
            if x.get("m"):
                c = ("obj", self.fresh())
                st.cells[c] = inner
                return ("m", c, ())
            return R(inner)
        if k == "tuple":
            return ("a", t, 0, tuple(self.value(st, y, hint) for y in x["a"]))
        if k in ("param", "alias", "dyn", "str", "opaque"):
            return ("t", (hint, self.fresh()))
        if k == "adt":
            if x["p"] == "archery::shared_pointer::SharedPointer":
                return ("p", ("x", self.fresh()), self.value(st, x["a"][0], hint))
            if x["p"] == "alloc::vec::Vec":
                n = "v%d" % self.fresh()
                self.kinds[n] = x["a"][0]
                return ("q", (("s", n),), x["a"][0])
            if "v" in x and len(x["v"]) == 1:
                return ("a", t, 0, tuple(self.value(st, f["t"], hint) for f in x["v"][0]["f"]))
            if "v" in x and len(x["v"]) > 1:
                return self.sym(t, ("any", hint))
            return ("t", (hint, self.fresh()))
        if k in ("fndef", "fnptr"):
            return ("t", (hint, self.fresh()))
        raise Unknown("value of type " + x["s"])

    def sym(self, t, pred):
        i = self.fresh()
        self.syms[i] = (t, pred)
        return ("sym", i)

    def elem(self, st, name):
        """A fresh element of the sequence called name."""
        k = self.kinds.get(name)
        if k is None:
            raise Unknown("elements of %r" % (name,))
        if isinstance(k, tuple) and k[0] in ELEMKINDS:
            return ELEMKINDS[k[0]](self, st, k)
        return self.value(st, k, "e")

    # ---- canonical elements
    def canon(self, st, v):
        while True:
            t = v[0]
            if t in ("c", "sym"):
                v = self.force(st, v)
            elif t == "p":
                v = v[2]
            elif t == "r":
                v = v[1]
            elif t == "m":
                v = self.read_path(st, v[1], v[2])
            else:
                break
        if v[0] == "a":
            return ("a", None, v[2], tuple(self.canon(st, x) for x in v[3]))
        if v[0] == "i":
            return ("i", st.nlin(v[1]))
        if v[0] == "q":
            return ("q", tuple((g[0], self.canon(st, g[1])) if g[0] == "e" else g for g in st.norm(v[1])), None)
        return v

    def wrap(self, v, t):
        x = self.T[t]
        if x["k"] == "ref":
            return R(self.wrap(v, x["t"]))
        if x["k"] == "adt" and x["p"] == "archery::shared_pointer::SharedPointer":
            return ("p", ("x", self.fresh()), self.wrap(v, x["a"][0]))
        return v

    def stripty(self, t):
        while True:
            x = self.T[t]
            if x["k"] == "ref":
                t = x["t"]
            elif x["k"] == "adt" and x["p"] == "archery::shared_pointer::SharedPointer":
                t = x["a"][0]
            else:
                return t

    # ---- sequences
    def symfront(self, st, name, back=False):
        """Split alternatives: the symbol is empty, or starts (ends) with a fresh element."""
        h = self.symhooks.get(name)
        if h:
            h(self, st, name, back)
        def empty(s):
            s.bindseq(name, ())

        def cons(s):
            e = self.elem(s, name)
            n2 = "%s'%d" % (name if isinstance(name, str) else "o", self.fresh())
            self.kinds[n2] = self.kinds[name]
            s.bindseq(name, ((("s", n2), ("e", e)) if back else (("e", e), ("s", n2))))
        raise Split([empty, cons])

    def front(self, st, segs, back=False):
        """None if empty, else (element, rest)."""
        segs = st.norm(segs)
        if not segs:
            return None
        g = segs[-1] if back else segs[0]
        rest = segs[:-1] if back else segs[1:]
        if g[0] == "e":
            return g[1], rest
        if isinstance(g[1], tuple):
            raise Unknown("front of a derived sequence")
        if g[0] in ("s", "rs"):
            self.symfront(st, g[1], back=(back != (g[0] == "rs")))
        raise Unknown("front of segment")

    def qfront(self, st, q, back=False):
        r = self.front(st, q[1], back)
        if r is None:
            return None
        e, rest = r
        return e, ("q", rest, q[2])

    def qelem(self, e, q):
        """Elements unfolded from symbols are canonical: wrap them as the container stores them."""
        return e

    # ---- forcing / memory
    def force(self, st, v):
        while True:
            t = v[0]
            if t == "sym":
                if v[1] in st.bind:
                    v = st.bind[v[1]]
                    continue
                v = self.materialise(st, v)
            elif t == "c":
                v = st.cells[v[1]]
            else:
                return v

    def bindsym(self, st, i, v):
        st.bind[i] = v

    def materialise(self, st, v):
        t, pred = self.syms[v[1]]
        h = MATERIALISE.get(pred[0])
        if h is None:
            raise Unknown("materialise %s" % pred[0])
        r = h(self, st, v[1], t, pred)
        st.bind[v[1]] = r
        return r

    def read_path(self, st, cell, path):
        if cell not in st.cells:
            raise Unknown("dangling cell %s%s" % cell[:2])
        v = st.cells[cell]
        for p in path:
            v = self.force(st, v)
            v = self.proj1(st, v, p)
        return v

    def proj1(self, st, v, p):
        if p == "sp":
            if v[0] != "p":
                raise Unknown("deref of non-pointer")
            return v[2]
        if v[0] == "a":
            if p >= len(v[3]):
                raise Unknown("field")
            return v[3][p]
        raise Unknown("field of %s" % v[0])

    def write_path(self, st, cell, path, new):
        def go(v, path):
            if not path:
                return new
            v = self.force(st, v)
            p = path[0]
            if p == "sp":
                if v[0] != "p":
                    raise Unknown("write through non-pointer")
                return ("p", v[1], go(v[2], path[1:]))
            if v[0] != "a":
                raise Unknown("write field of %s" % v[0])
            fs = list(v[3])
            fs[p] = go(fs[p], path[1:])
            return ("a", v[1], v[2], tuple(fs))
        if cell not in st.cells and path:
            raise Unknown("dangling cell")
        st.cells[cell] = go(st.cells.get(cell, UNDEF), path)

    def lookup(self, st, fr, place):
        """Resolve a place to (cell, path) or to a value (when it lies behind a shared reference)."""
        cell, path = (fr, place[0]), ()
        val = None
        for pr in place[1:]:
            if pr == "*":
                v = self.force(st, val if val is not None else self.read_path(st, cell, path))
                if v[0] == "m":
                    cell, path, val = v[1], v[2], None
                elif v[0] == "r":
                    val = v[1]
                elif v[0] == "raw":
                    val = v[1]
                else:
                    if v[0] == "t" and isinstance(v[1], tuple) and v[1][0] == "opaque":
                        val = ("t", ("opaque", "*" + v[1][1]))
                        continue
                    raise Unknown("deref of %s" % v[0])
            elif pr[0] == "f":
                if val is not None:
                    val = self.proj1(st, self.force(st, val), pr[1])
                else:
                    path = path + (pr[1],)
            elif pr[0] == "v":
                v = self.force(st, val if val is not None else self.read_path(st, cell, path))
                if v[0] == "a" and v[2] != pr[1]:
                    raise Infeasible()
            elif pr[0] == "i":
                ix = self.force(st, st.cells[(fr, pr[1])])
                v = self.force(st, val if val is not None else self.read_path(st, cell, path))
                val = self.index(st, v, ix[1])
            else:
                raise Unknown("projection %s" % pr[0])
        return cell, path, val

    def read(self, st, fr, place):
        cell, path, val = self.lookup(st, fr, place)
        if val is not None:
            return val
        return self.read_path(st, cell, path)

    def write(self, st, fr, place, v):
        cell, path, val = self.lookup(st, fr, place)
        if val is not None:
            raise Unknown("write through shared reference")
        self.write_path(st, cell, path, v)

    def index(self, st, q, ix):
        if q[0] == "r":
            q = self.force(st, q[1])
        if q[0] != "q":
            raise Unknown("index into %s" % q[0])
        e, _, _ = self.split_at(st, q, ix)
        return e

    def split_at(self, st, q, ix):
        """(element at ix, segs before, segs after); the index is in bounds."""
        segs = st.norm(q[1])
        pos = lconst(0)
        for k, g in enumerate(segs):
            n = st.length((g,))
            here = st.decide(mkeq(ladd(ix, pos, -1)))
            if g[0] == "e":
                if here is True:
                    return g[1], segs[:k], segs[k + 1:]
                if here is None:
                    f = mkeq(ladd(ix, pos, -1))
                    raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
                pos = ladd(pos, n)
                continue
            end = ladd(pos, n)
            inside = st.decide(mkle(ladd(ladd(ix, lconst(1)), end, -1)))
            if inside is False:
                pos = end
                continue
            if inside is None:
                f = mkle(ladd(ladd(ix, lconst(1)), end, -1))
                raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
            if g[0] != "s" or isinstance(g[1], tuple):
                raise Unknown("index into derived sequence")
            name = g[1]
            off = ladd(ix, pos, -1)

            atend = st.decide(mkeq(ladd(ladd(off, lconst(1)), L(0, (("len", name), 1)), -1)))
            atstart = st.decide(mkeq(off))

            def cut(s):
                a, b = "%s<%d" % (name, self.fresh()), "%s>%d" % (name, self.fresh())
                self.kinds[a] = self.kinds[b] = self.kinds[name]
                e = self.elem(s, name)
                if atend is True or atstart is True:
                    s.bindseq(name, (("e", e), ("s", a)) if atstart is True else (("s", a), ("e", e)))
                    s.check()
                    return
                s.sbind[name] = (("s", a), ("e", e), ("s", b))
                h = ONBIND.get(None)
                if h:
                    h(s, name, s.sbind[name])
                s.assume(mkeq(ladd(L(0, (("len", a), 1)), off, -1)))
                s.check()
            raise Split([cut])
        raise Infeasible()

    # ---- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read(st, fr, o[1])
        if k == "int":
            t = self.T[o[1]]
            if t["k"] == "bool":
                return B(bool(o[2]))
            return I(o[2])
        if k == "fn":
            return ("f", id(o[2])) if False else ("f", Desc.of(o[2]))
        if k == "str":
            return R(("t", ("str", o[2])))
        if k == "zst":
            return ("a", o[1], 0, ())
        if k == "agg":
            return ("a", o[1], o[2] or 0, tuple(self.operand(st, fr, x) for x in (o[3] or ())))
        if k == "konst":
            v = self.const_value(o[2])
            return v if v is not None else ("t", ("konst", o[1], o[2]))
        if k == "opaque":
            return ("t", ("opaque", str(o[2])))
        if k == "rtc":
            # whether the build checks for undefined behaviour / overflow: as in a debug build, without the former
            return B("Overflow" in o[1])
        raise Unknown("operand " + k)

    def const_value(self, k):
        """A constant whose body is straight-line code without calls."""
        if k in self.constcache:
            return self.constcache[k]
        v = None
        b = self.P.consts[k].get("body")
        if b and len(b["blocks"]) < 8:
            s, fr, bb = St(), self.fresh(), 0
            try:
                for _ in range(8):
                    for x in b["blocks"][bb]["s"]:
                        self.stmt(s, fr, x, None)
                    t = b["blocks"][bb]["t"]
                    if t[0] == "ret":
                        v = self.deep(s, s.cells[(fr, 0)])
                        break
                    if t[0] != "goto":
                        break
                    bb = t[1]
            except (Unknown, Split, Infeasible, KeyError):
                v = None
        if v is not None and has_cell(v):
            v = None
        self.constcache[k] = v
        return v

    def intof(self, st, v):
        v = self.force(st, v)
        if v[0] == "i":
            return v[1]
        if v[0] == "b":
            raise Unknown("bool as int")
        raise Unknown("int expected, got " + v[0])

    def uf(self, op, args, rng):
        return I(L(0, (("uf", (op,) + tuple(args), rng), 1)))

    def binop(self, st, op, a, b, ty):
        a, b = self.force(st, a), self.force(st, b)
        t = self.T[ty]
        if a[0] == "b" and b[0] == "b":
            if op in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor"):
                x, y = st.decide(a[1]), st.decide(b[1])
                if op == "BitAnd":
                    return B(False if x is False or y is False else (b[1] if x is True else (a[1] if y is True else ("and", a[1], b[1]))))
                if op == "BitOr":
                    return B(True if x is True or y is True else (b[1] if x is False else (a[1] if y is False else ("or", a[1], b[1]))))
                if x is None:
                    self.split_form(st, a[1])
                f = b[1] if x else fnot(b[1])
                return B(f if op == "Eq" else fnot(f))
            if op in ("Lt", "Le", "Gt", "Ge"):
                raise Unknown("bool order")
        if a[0] == "i" and b[0] == "i":
            x, y = st.nlin(a[1]), st.nlin(b[1])
            d = ladd(x, y, -1)
            if op in ("Eq", "Ne"):
                h = self.hooks.get("int_eq")
                f = h(self, st, x, y) if h else None
                f = mkeq(d) if f is None else f
                return B(f if op == "Eq" else fnot(f))
            if op == "Lt":
                return B(mkle(ladd(d, lconst(1))))
            if op == "Le":
                return B(mkle(d))
            if op == "Gt":
                return B(mkle(ladd(lscale(d, -1), lconst(1))))
            if op == "Ge":
                return B(mkle(lscale(d, -1)))
            rng = RANGES.get(t["s"])
            if rng is None:
                raise Unknown("arith on " + t["s"])
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            r = self.arith(st, base, x, y, t["s"], rng)
            if op.endswith("WithOverflow"):
                lo, hi = rng
                if r is None:
                    r = self.uf(base, (x, y), (None, None))[1]
                of = ("or", mkle(ladd(r, lconst(1 - lo))), mkle(ladd(lconst(hi + 1), r, -1)))
                dl, dh = st.decide(of[1]), st.decide(of[2])
                f = True if dl is True or dh is True else (False if dl is False and dh is False else (of[2] if dl is False else (of[1] if dh is False else of)))
                return ("a", None, 0, (I(r), B(f)))
            if r is None:
                return self.uf(base, (x, y), rng)
            if base in ("Add", "Sub", "Mul"):
                # wrapping: only exact when it cannot overflow
                if st.decide(mkle(ladd(lconst(rng[0]), r, -1))) is not True or st.decide(mkle(ladd(r, lconst(-rng[1])))) is not True:
                    return self.uf("w" + base, (x, y), rng)
            return I(r)
        if op in ("Eq", "Ne") and a[0] == "raw" and b[0] == "raw":
            return B(self.ptreq(st, a, b) if op == "Eq" else fnot(self.ptreq(st, a, b)))
        raise Unknown("binop %s on %s,%s" % (op, a[0], b[0]))

    def arith(self, st, op, x, y, ty, rng):
        cx, cy = (x[0] if not x[1] else None), (y[0] if not y[1] else None)
        if op == "Add":
            return ladd(x, y)
        if op == "Sub":
            return ladd(x, y, -1)
        if op == "Mul":
            if cx is not None:
                return lscale(y, cx)
            if cy is not None:
                return lscale(x, cy)
            return self.uf("Mul", tuple(sorted((x, y), key=repr)), (0 if rng[0] == 0 else None, None))[1]
        if cx is not None and cy is not None:
            w = BITS[ty]
            mask = (1 << w) - 1
            if op == "BitAnd":
                return lconst(cx & cy)
            if op == "BitOr":
                return lconst(cx | cy)
            if op == "BitXor":
                return lconst(cx ^ cy)
            if op == "Shl":
                return lconst((cx << (cy % w)) & mask)
            if op == "Shr":
                return lconst(cx >> (cy % w))
            if op == "Div" and cy:
                return lconst(int(cx / cy) if cx < 0 or cy < 0 else cx // cy)
            if op == "Rem" and cy:
                return lconst(cx % cy)
        h = self.hooks.get("arith")
        if h:
            r = h(self, st, op, x, y, ty)
            if r is not None:
                return r
        if rng[0] == 0 and cy is not None and cy > 0:
            # division by a constant, exactly: c*q <= x <= c*q + c - 1
            if op == "Div":
                return self.fdiv(st, x, cy)
            if op == "Rem":
                return ladd(x, self.fdiv(st, x, cy), -cy)
            if op == "BitAnd" and cy & (cy + 1) == 0:
                return ladd(x, self.fdiv(st, x, cy + 1), -(cy + 1))
        if rng[0] == 0 and cy is not None and 0 <= cy < BITS[ty]:
            if op == "Shr":
                return self.fdiv(st, x, 1 << cy)
            if op == "Shl" and st.decide(mkle(ladd(lscale(x, 1 << cy), lconst(-rng[1])))) is True:
                return lscale(x, 1 << cy)
        if op in ("BitAnd", "BitOr", "BitXor", "Shl") and cy == 0:
            return lconst(0) if op == "BitAnd" else x
        return None

    def fdiv(self, st, x, c):
        """x divided by a constant, rounded down: x = c*q + r with 0 <= r < c."""
        if c == 1:
            return x
        x = st.nlin(x)
        if not x[1]:
            return lconst(x[0] // c)
        a = (x[0] // c, tuple((t, k // c) for t, k in x[1] if k % c == 0))
        lo = hi = x[0] % c
        for t, k in x[1]:
            if k % c:
                r = t[2] if t[0] in ("v", "uf") else (0, INF_LEN)
                if None in r:
                    break
                lo += k * r[0 if k > 0 else 1]
                hi += k * r[1 if k > 0 else 0]
        else:
            if 0 <= lo and hi < c:
                return a
        v = divided(st, x, c)
        if v is not None:
            return v
        a = (x[0] // c, tuple((t, k // c) for t, k in x[1] if k % c == 0))
        b = ladd(x, lscale(a, c), -1)
        q = L(0, (("uf", ("fdiv", b, c), (None, None)), 1))
        r = L(0, (("uf", ("frem", b, c), (0, c - 1)), 1))
        f = ladd(ladd(b, lscale(q, c), -1), r, -1)
        if f not in st.facts:
            st.facts.append(f)
            st.facts.append(lscale(f, -1))
            if st.decide(mkle(lscale(b, -1))) is True:
                st.facts.append(lscale(q, -1))
            if b[0] == 0 and len(b[1]) == 1 and b[1][0][1] == 1 and b[1][0][0][0] != "len":
                st.pin(b[1][0][0], ladd(lscale(q, c), r))
        if any(t[0] == "uf" and t[1][0] == "ctlz" for t, _ in x[1]):
            k = self.fixed(st, ladd(a, q), 64)
            if k is not None:
                return lconst(k)
        return ladd(a, q)

    def fixed(self, st, l, top=None):
        """The constant a term must be equal to, if there is one (searched up to top)."""
        l = st.nlin(l)
        if not l[1]:
            return l[0]
        if top is None or st.decide(mkle(ladd(l, lconst(-top)))) is not True or st.decide(mkle(lscale(l, -1))) is not True:
            return None
        lo, hi = 0, top
        while lo < hi:
            m = (lo + hi) // 2
            d = st.decide(mkle(ladd(l, lconst(-m))))
            if d is None:
                return None
            if d:
                hi = m
            else:
                lo = m + 1
        return lo

    EXACT = ("strong_count", "size", "fdiv", "frem")

    def instance(self, st):
        """Some small numbers that make the arithmetic facts of this path true (bit operations evaluated for real)."""
        les = [st.plain(f) for f in st.facts]
        nes = [st.plain(f) for f in st.ne]
        lens, vals = set(), set()

        def walk(l):
            for a, _ in l[1]:
                if a[0] == "len":
                    lens.add(a)
                elif a[0] == "uf" and a[1][0] in FUN:
                    for x in a[1][1:]:
                        if isinstance(x, tuple):
                            walk(st.plain(x))
                else:
                    vals.add(a)
        for f in les + nes:
            walk(f)
        atoms = sorted(lens, key=repr) + sorted(vals, key=repr)
        if len(atoms) > 4:
            return False
        n = {0: 1, 1: 80, 2: 34, 3: 12, 4: 6}[len(atoms)]

        def ev(l, env):
            t = l[0]
            for a, k in l[1]:
                if a in env:
                    t += k * env[a]
                else:
                    xs = [ev(st.plain(x), env) if isinstance(x, tuple) else x for x in a[1][1:]]
                    r = FUN[a[1][0]](*xs)
                    if r is None:
                        raise ValueError
                    lo, hi = a[2]
                    if lo is not None and r < lo or hi is not None and r > hi:
                        raise ValueError
                    t += k * r
            return t
        doms = []
        for a in atoms:
            lo = 0 if a[0] == "len" or a[2][0] is None else a[2][0]
            hi = lo + n
            if a[0] != "len" and a[2][1] is not None:
                hi = min(hi, a[2][1])
            doms.append(range(lo, hi + 1))
        for vs in itertools.product(*doms):
            env = dict(zip(atoms, vs))
            try:
                if all(ev(f, env) <= 0 for f in les) and all(ev(f, env) != 0 for f in nes):
                    return True
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        return False

    def imprecise(self, st):
        """Does this path rest on something the domain only approximates?"""
        if st.soft:
            return True
        for f in list(st.facts) + list(st.ne):
            for a, _ in f[1]:
                if a[0] == "uf" and a[1][0] not in self.EXACT:
                    if not self.instance(st):
                        return True
        h = self.hooks.get("imprecise")
        return bool(h and h(self, st))

    def split_form(self, st, f):
        if opaque(f):
            raise Unknown("a condition on the result of bit arithmetic")
        h = self.hooks.get("split")
        if h:
            h(self, st, f)
        raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])

    def truth(self, st, v):
        """Concrete truth of a boolean value, splitting when undecided."""
        v = self.force(st, v)
        if v[0] != "b":
            raise Unknown("bool expected, got " + v[0])
        d = st.decide(v[1])
        if d is None:
            self.split_form(st, v[1])
        return d

    def discr(self, st, v, ty):
        v = self.force(st, v)
        if v[0] == "a":
            return v[2]
        raise Unknown("discriminant of %s" % v[0])

    def only_variant(self, t):
        """The single inhabited variant of a type whose other variants hold a value of the never type."""
        x = self.T[t]
        if "v" not in x:
            return None
        vs = [i for i, v in enumerate(x["v"]) if not any(self.T[f["t"]]["k"] == "never" for f in v["f"])]
        if len(vs) == 1 and not x["v"][vs[0]]["f"]:
            return vs[0]
        return None

    def init_zst(self, st, fr, place, inst):
        if (fr, place[0]) not in st.cells and inst is not None:
            ls = self.P.insts[inst]["body"]["locals"]
            if place[0] < len(ls):
                o = self.only_variant(ls[place[0]])
                if o is not None:
                    st.cells[(fr, place[0])] = ("a", ls[place[0]], o, ())

    def rvalue(self, st, fr, r, inst):
        k = r[0]
        if k == "discr" and len(r[1]) == 1:
            self.init_zst(st, fr, r[1], inst)
        elif k == "use" and r[1][0] in ("c", "m"):
            self.init_zst(st, fr, r[1][1], inst)
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("&", "&fake"):
            if k == "&fake":
                return UNDEF
            cell, path, val = self.lookup(st, fr, r[1])
            return R(val if val is not None else self.read_path(st, cell, path))
        if k == "&mut":
            cell, path, val = self.lookup(st, fr, r[1])
            if val is not None:
                raise Unknown("&mut behind &")
            return ("m", cell, path)
        if k == "raw":
            cell, path, val = self.lookup(st, fr, r[1])
            if val is not None:
                return ("raw", val)
            return ("m", cell, path)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == "un":
            v = self.force(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                if v[0] == "b":
                    return B(fnot(v[1]))
                if v[0] == "i":
                    h = self.hooks.get("bitnot")
                    if h:
                        return h(self, st, v[1], self.T[r[3]]["s"])
                    return self.uf("Not", (v[1],), RANGES[self.T[r[3]]["s"]])
            if r[1] == "PtrMetadata":
                q = self.force(st, v[1] if v[0] == "r" else v)
                if q[0] == "q":
                    return I(st.length(q[1]))
            raise Unknown("unop " + r[1])
        if k == "discr":
            cell, path, val = self.lookup(st, fr, r[1])
            v = val if val is not None else self.read_path(st, cell, path)
            n = self.discr(st, v, r[2])
            vs = self.T[r[2]]["v"]
            d = vs[n]["d"]
            return I(d - 256 if d >= 128 and self.T[r[2]]["p"].endswith("cmp::Ordering") else d)
        if k == "agg":
            ops = tuple(self.operand(st, fr, x) for x in r[4])
            if r[1] == "array":
                return ("q", tuple(("e", x) for x in ops), None)
            if r[1] == "rawptr":
                raise Unknown("raw pointer aggregate")
            if r[1] == "closure":
                return ("a", r[3], ("clo", r[5]), ops)
            return ("a", r[3], r[2] or 0, ops)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "IntToInt":
                v = self.force(st, v)
                if v[0] == "b":
                    d = st.decide(v[1])
                    if d is None:
                        self.split_form(st, v[1])
                    return I(1 if d else 0)
                to = self.T[r[3]]["s"]
                if v[0] == "i" and to in RANGES:
                    lo, hi = RANGES[to]
                    l = v[1]
                    a, b = st.decide(mkle(ladd(lconst(lo), l, -1))), st.decide(mkle(ladd(l, lconst(-hi))))
                    if a is True and b is True:
                        return v
                    if not l[1] and RANGES[to][0] == 0:
                        return I(l[0] & ((1 << BITS[to]) - 1))
                    return self.uf("cast:" + to, (l,), RANGES[to])
                if v[0] == "a" and not v[3]:
                    vs = self.T[v[1]]["v"]
                    d = vs[v[2]]["d"]
                    return I(d - 256 if d >= 128 and self.T[v[1]]["p"].endswith("cmp::Ordering") else d)
                raise Unknown("cast of " + v[0])
            if "ClosureFnPointer" in r[1]:
                return v
            if "PointerCoercion" in r[1]:
                return v
            raise Unknown("cast " + r[1])
        if k == "repeat":
            raise Unknown("array repeat")
        raise Unknown("rvalue " + k)

    # ---- CFG
    def cfginfo(self, i):
        if i in self.cfg:
            return self.cfg[i]
        b = self.P.insts[i]["body"]["blocks"]
        n = len(b)
        sc = []
        for bb in b:
            t = bb["t"]
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [x for _, x in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]]
            elif t[0] == "call":
                s = [t[4]] if t[4] is not None else []
            elif t[0] == "assert":
                s = [t[4]]
            else:
                s = []
            sc.append([x for x in s if x is not None])
        # natural loops via DFS back edges
        color, heads, back = {}, set(), []
        st = [(0, iter(sc[0]))]
        color[0] = 1
        while st:
            v, it = st[-1]
            for w in it:
                if color.get(w) == 1:
                    heads.add(w)
                    back.append((v, w))
                elif w not in color:
                    color[w] = 1
                    st.append((w, iter(sc[w])))
                    break
            else:
                color[v] = 2
                st.pop()
        pred = [[] for _ in range(n)]
        for v in range(n):
            for w in sc[v]:
                pred[w].append(v)
        loops = {}
        for v, h in back:
            body = loops.setdefault(h, {h})
            wl = [v]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl += pred[x]
        self.cfg[i] = loops
        return loops

    # ---- running
    def call_inst(self, st, i, args):
        x = self.P.insts[i]
        b = x.get("body")
        if not b:
            raise Unknown("no body: " + x["n"])
        if self.contracts:
            r = self.contracts(st, i, args)
            if r is not None:
                return r
        if self.stack.count(i) > self.rec_limit:
            raise Unknown("recursion: " + x["n"])
        fr = self.fresh()
        self.used.add(i)
        args = list(args)
        for k in range(len(b["locals"])):
            pass
        if x["kind"] == "closure" and len(args) == 2 and b["argc"] != 2:
            pass
        if b.get("spread"):
            # arguments after the spread local arrive as one tuple
            s = b["spread"]
            if len(args) != b["argc"]:
                args = args[:s - 1] + [("a", None, 0, tuple(args[s - 1:]))]
        for k, a in enumerate(args):
            st.cells[(fr, k + 1)] = a
        self.stack.append(i)
        try:
            outs = self.run(st, i, fr, 0, None)
        finally:
            self.stack.pop()
        res = []
        for s, kind, val in outs:
            if kind == "ret":
                v = s.cells.get((fr, 0), UNIT)
                for c in [c for c in s.cells if c[0] == fr]:
                    del s.cells[c]
                res.append((s, "ret", v))
            else:
                res.append((s, kind, val))
        return res

    def run(self, st, i, fr, blk, loop):
        """Run from a block; loop=(head, body) limits the run to one iteration of that loop."""
        loops = self.cfginfo(i)
        work = [(st, blk, True)]
        outs = []
        body = self.P.insts[i]["body"]
        while work:
            s, b, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            if loop is not None and not first:
                if b == loop[0]:
                    outs.append((s, "head", b))
                    continue
                if b not in loop[1]:
                    outs.append((s, "exit", b))
                    continue
            if b in loops and not (loop is not None and b == loop[0]):
                try:
                    h = self.hooks.get("loop")
                    rs = h(self, s, i, fr, b, loops[b]) if h else None
                    if rs is None:
                        rs = self.loop(s, i, fr, b, loops[b])
                except Unknown as e:
                    outs.append((s, "unk", (str(e), self.P.insts[i]["n"], body["blocks"][b]["t"][-1])))
                    continue
                for s2, kind, v in rs:
                    if kind == "exit":
                        work.append((s2, v, False))
                    else:
                        outs.append((s2, kind, v))
                continue
            try:
                for s2, kind, v in self.block(s, i, fr, body["blocks"][b]):
                    if kind == "goto":
                        work.append((s2, v, False))
                    else:
                        outs.append((s2, kind, v))
            except Unknown as e:
                outs.append((s, "unk", (str(e), self.P.insts[i]["n"], body["blocks"][b]["t"][-1])))
        return outs

    def block(self, st, i, fr, bb):
        states = [st]
        for stmt in bb["s"]:
            if stmt[0] == "dead":
                continue
            nxt = []
            for s in states:
                nxt += [t for t, _ in self.fork(s, lambda q: self.stmt(q, fr, stmt, i))]
            states = nxt
        out = []
        for s in states:
            out += self.term(s, i, fr, bb["t"])
        return out

    def stmt(self, st, fr, stmt, inst):
        if stmt[0] == "=":
            v = self.rvalue(st, fr, stmt[2], inst)
            self.write(st, fr, stmt[1], v)
        elif stmt[0] == "setd":
            raise Unknown("set discriminant")
        elif stmt[0] == "assume":
            if not self.truth(st, self.operand(st, fr, stmt[1])):
                raise Infeasible()

    def term(self, st, i, fr, t):
        k = t[0]
        if k == "goto":
            return [(st, "goto", t[1])]
        if k == "ret":
            return [(st, "ret", None)]
        if k == "unreachable":
            try:
                st.check()
            except Infeasible:
                return []
            return [(st, "unk", ("unreachable code reached", self.P.insts[i]["n"], t[-1]))]
        if k == "drop":
            h = self.hooks.get("drop")
            if h:
                h(self, st, fr, t, i)
            return [(st, "goto", t[2])]
        if k == "switch":
            def f(s):
                v = self.force(s, self.operand(s, fr, t[1]))
                if v[0] == "b":
                    d = self.truth(s, v)
                    for c, b in t[2]:
                        if c == int(d):
                            return b
                    return t[3]
                if v[0] != "i":
                    raise Unknown("switch on " + v[0])
                h = self.hooks.get("int_eq")
                for c, b in t[2]:
                    g = h(self, s, s.nlin(v[1]), lconst(c)) if h else None
                    if g is None:
                        g = mkeq(ladd(v[1], lconst(-c)))
                    d = s.decide(g)
                    if d is True:
                        return b
                    if d is None:
                        self.split_form(s, g)
                return t[3]
            return [(s, "goto", b) for s, b in self.fork(st, f)]
        if k == "assert":
            def f(s):
                return self.truth(s, self.operand(s, fr, t[1]))
            out = []
            for s, d in self.fork(st, f):
                if d == t[2]:
                    out.append((s, "goto", t[4]))
                else:
                    out.append((s, "panic", (t[3], self.P.insts[i]["n"], t[-1])))
            return out
        if k == "call":
            return self.term_call(st, i, fr, t)
        if k == "resume":
            return []
        raise Unknown("terminator " + k)

    def term_call(self, st, i, fr, t):
        outs = []
        pre = self.fork(st, lambda s: (self.callee(s, fr, t[1]), [self.operand(s, fr, a) for a in t[2]]))
        for s, (desc, args) in pre:
            dty = None
            for s2, kind, v in self.call(s, desc, args, i, t):
                if kind == "ret":
                    if t[4] is None:
                        continue

                    def put(q):
                        self.write(q, fr, t[3], v)
                    for s3, _ in self.fork(s2, put):
                        outs.append((s3, "goto", t[4]))
                else:
                    outs.append((s2, kind, v))
        return outs

    def callee(self, st, fr, f):
        if f[0] == "fn":
            return f[2]
        v = self.force(st, self.operand(st, fr, f))
        return ("value", v)

    def call_value(self, st, f, args):
        """Call a closure / fn value with an argument list."""
        f = self.force(st, f)
        while f[0] in ("r",):
            f = self.force(st, f[1])
        if f[0] == "m":
            tgt = self.force(st, self.read_path(st, f[1], f[2]))
            if tgt[0] == "m" or tgt[0] == "f":
                return self.call_value(st, tgt, args)
            if tgt[0] == "a" and isinstance(tgt[2], tuple):
                return self.call_closure(st, tgt[2][1], f, args)
            raise Unknown("call of " + tgt[0])
        if f[0] == "f":
            return self.call(st, f[1].d, args, None, None)
        if f[0] == "a" and isinstance(f[2], tuple) and f[2][0] == "clo":
            return self.call_closure(st, f[2][1], f, args)
        if f[0] == "t":
            return [(st, "ret", self.apply(st, f, args))]
        raise Unknown("call of " + f[0])

    def apply(self, st, f, args):
        raise Unknown("call of an opaque function")

    def call_closure(self, st, i, f, args):
        x = self.P.insts[i]
        b = x.get("body")
        if not b:
            raise Unknown("closure without body")
        t1 = self.T[b["locals"][1]]
        if t1["k"] == "ref":
            if t1.get("m"):
                if f[0] != "m":
                    c = ("clo", self.fresh())
                    st.cells[c] = f
                    f = ("m", c, ())
            else:
                if f[0] == "m":
                    f = R(self.read_path(st, f[1], f[2]))
                elif f[0] != "r":
                    f = R(f)
        else:
            if f[0] == "m":
                f = self.read_path(st, f[1], f[2])
            elif f[0] == "r":
                f = f[1]
        return self.call_inst(st, i, [f] + list(args))

    def call(self, st, desc, args, i, t):
        if isinstance(desc, tuple) and desc[0] == "value":
            return self.call_value(st, desc[1], args)
        if desc.get("ctor") is not None and desc.get("ctor") is not False:
            out = desc.get("out")
            return [(st, "ret", ("a", out, desc.get("variant") or 0, tuple(args)))]
        n = desc["n"]
        ii = desc.get("i")
        h = None
        if n.startswith("core::iter::traits::") and args and self.is_stream(st, args[0]):
            h = self.natives.get(n)
        elif ii is not None:
            x = self.P.insts[ii]
            h = self.natives.get(x["n"])
            if x["n"].startswith("core::iter::traits::") and x.get("body"):
                h = None
            if h is None and not x.get("body") and x["kind"] not in ("fnptr_shim", "closure"):
                h = self.natives.get(n)
        else:
            h = self.natives.get(n)
        if h is not None:
            c = Call(self, desc, args, i, t)
            if getattr(h, "multi", False):
                r = h(self, st, c)
                if r is not NotImplemented:
                    return r
            else:
                rs = self.fork(st, lambda s: self._nat(h, s, c))
                if not any(r is NotImplemented for _, r in rs):
                    return [(s, "panic", r[1]) if isinstance(r, tuple) and r and r[0] == "!panic" else (s, "ret", r) for s, r in rs]
        if ii is not None:
            x = self.P.insts[ii]
            if x["kind"] == "fnptr_shim":
                tup = self.force(st, args[1])
                return self.call_value(st, args[0], list(tup[3]))
            if x["kind"] == "closure":
                tup = self.force(st, args[1])
                if tup[0] == "a" and len(args) == 2 and n.startswith("core::ops::function::"):
                    return self.call_closure(st, ii, self.force(st, args[0]), list(tup[3]))
            if x.get("body"):
                return self.call_inst(st, ii, args)
        if n.startswith("core::panicking::") or n in PANIC_FNS:
            return [(st, "panic", (n.rsplit("::", 1)[1], self.P.insts[i]["n"] if i is not None else "?", t[-1] if t else 0))]
        if n.startswith("core::ops::function::Fn") and "i" not in desc:
            tup = self.force(st, args[1])
            return self.call_value(st, args[0], list(tup[3]))
        raise Unknown("call to " + n)

    def is_stream(self, st, v):
        try:
            v = self.force(st, v)
            while v[0] in ("r", "m"):
                v = self.force(st, v[1] if v[0] == "r" else self.read_path(st, v[1], v[2]))
        except (Split, Unknown):
            return False
        return v[0] == "it"

    def _nat(self, h, s, c):
        return h(self, s, c)

    # ---- loops: see engloop
    def loop(self, st, i, fr, head, body):
        import engloop
        return engloop.summarise(self, st, i, fr, head, body)


PANIC_FNS = {"core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed"}


class Budget(Exception):
    pass


class Call:
    __slots__ = ("E", "d", "args", "inst", "t")

    def __init__(self, E, d, args, inst, t):
        self.E, self.d, self.args, self.inst, self.t = E, d, args, inst, t

    @property
    def n(self):
        i = self.d.get("i")
        return self.d["n"] if i is None else self.E.P.insts[i]["n"]

    def out(self):
        """Type of the destination."""
        b = self.E.P.insts[self.inst]["body"]
        t = self.t[3]
        ty = b["locals"][t[0]]
        for p in t[1:]:
            if p == "*":
                ty = self.E.T[ty]["t"]
            elif p[0] == "f":
                ty = p[2]
        return ty


class Desc:
    """Hashable wrapper of a callee descriptor."""
    cache = {}
    __slots__ = ("d", "k")

    def __init__(self, d, k):
        self.d, self.k = d, k

    @staticmethod
    def of(d):
        k = (d["n"], tuple(d.get("a") or ()), d.get("i"))
        if k not in Desc.cache:
            Desc.cache[k] = Desc(d, k)
        return Desc.cache[k]

    def __repr__(self):
        return "fn:" + self.d["n"]

    def __eq__(self, o):
        return isinstance(o, Desc) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


def nn(f):
    return lambda x, y: f(x, y) if x >= 0 and y >= 0 else None


# what uninterpreted arithmetic stands for (None: not evaluated)
FUN = {"ctpop": lambda v, w: bin(v).count("1") if v >= 0 else None,
       "ctlz": lambda v, w: w - v.bit_length() if v >= 0 else None,
       "cttz": lambda v, w: ((v & -v).bit_length() - 1 if v else w) if v >= 0 else None,
       "fdiv": nn(lambda x, y: x // y), "frem": nn(lambda x, y: x % y), "Div": nn(lambda x, y: x // y), "Rem": nn(lambda x, y: x % y),
       "Mul": lambda x, y: x * y, "BitAnd": nn(lambda x, y: x & y), "BitOr": nn(lambda x, y: x | y), "BitXor": nn(lambda x, y: x ^ y),
       "Shr": nn(lambda x, y: x >> y if y < 64 else None), "Shl": nn(lambda x, y: x << y if y < 64 else None)}


def mat_any(E, st, i, t, pred):
    x = E.T[t]
    if "v" not in x:
        raise Unknown("materialise opaque")

    def alt(k):
        def f(s):
            s.bind[i] = ("a", t, k, tuple(E.value(s, f["t"], pred[1]) for f in x["v"][k]["f"]))
        return f
    if len(x["v"]) == 1:
        return ("a", t, 0, tuple(E.value(st, f["t"], pred[1]) for f in x["v"][0]["f"]))
    raise Split([alt(k) for k in range(len(x["v"]))])


STICKY = {"vnode"}
MATERIALISE = {"any": mat_any}


# ---- more Engine methods
def _snap(E, st, segs):
    out = []
    for g in segs:
        if g[0] == "e" and has_cell(g[1]):
            out.append(("e", E.deep(st, g[1])))
        else:
            out.append(g)
    return tuple(out)


def has_cell(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "c":
            return True
        return any(has_cell(x) for x in v if isinstance(x, tuple))
    return False


def _deep(E, st, v):
    """Replace element cells by their contents."""
    if v[0] == "c":
        return E.deep(st, st.cells[v[1]])
    if v[0] == "a":
        return ("a", v[1], v[2], tuple(E.deep(st, x) for x in v[3]))
    if v[0] == "p":
        return ("p", v[1], E.deep(st, v[2]))
    if v[0] == "r":
        return R(E.deep(st, v[1])) if v[1] is not None else v
    if v[0] == "q":
        return ("q", E.snap(st, v[1]), v[2])
    if v[0] == "it":
        return ("it", E.snap(st, v[1])) + v[2:]
    return v


def _canon_shallow(E, st, v):
    """A form in which a value and its clone are equal: pointers are transparent, cells and binds resolved."""
    v = E.force(st, v) if v[0] in ("c",) else v
    if v[0] == "sym":
        if v[1] in st.bind:
            return E.canon_shallow(st, st.bind[v[1]])
        return v
    if v[0] == "p":
        return ("p", E.canon_shallow(st, v[2]))
    if v[0] == "r":
        return ("r", E.canon_shallow(st, v[1]))
    if v[0] == "a":
        return ("a", None, v[2], tuple(E.canon_shallow(st, x) for x in v[3]))
    if v[0] == "i":
        return ("i", st.nlin(v[1]))
    if v[0] in ("q", "it"):
        return (v[0], tuple((g[0], E.canon_shallow(st, g[1])) if g[0] == "e" else g for g in st.norm(v[1])))
    if v[0] == "m":
        return ("m", E.canon_shallow(st, E.read_path(st, v[1], v[2])))
    return v


def _clone_of(E, st, ty, v):
    """Outcomes of running the type's own Clone implementation on v, or None when the type has none here."""
    x = E.T[ty]
    n = "<%s as core::clone::Clone>::clone" % x["p"]
    ks = [i for i in E.P.by_name.get(n, [])]
    if not ks:
        return None
    if E.stack.count(ks[0]):
        return None
    outs = E.call_inst(st.copy(), ks[0], [R(v)])
    for s, k, r in outs:
        if k == "unk":
            raise Unknown("clone: %s" % (r,))
    return outs


def _cut_at(E, st, q, ix):
    segs = st.norm(q[1])
    pos = lconst(0)
    for k, g in enumerate(segs):
        d = st.decide(mkeq(ladd(ix, pos, -1)))
        if d is True:
            return segs[:k], segs[k:]
        if d is None:
            f = mkeq(ladd(ix, pos, -1))
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
        end = ladd(pos, st.length((g,)))
        if g[0] == "e":
            pos = end
            continue
        f = mkle(ladd(end, ix, -1))
        d = st.decide(f)
        if d is True:
            pos = end
            continue
        if d is None:
            raise Split([lambda s: s.assume(f), lambda s: s.assume(fnot(f))])
        if g[0] != "s" or isinstance(g[1], tuple):
            raise Unknown("cut of derived sequence")
        name, off = g[1], ladd(ix, pos, -1)

        def cut(s):
            a, b = "%s<%d" % (name, E.fresh()), "%s>%d" % (name, E.fresh())
            E.kinds[a] = E.kinds[b] = E.kinds[name]
            s.bindseq(name, (("s", a), ("s", b)))
            s.assume(mkeq(ladd(L(0, (("len", a), 1)), off, -1)))
            s.check()
        raise Split([cut])
    return segs, ()


def _qelem(E, e, q):
    if q[2] is None or e[0] in ("c", "sym"):
        return e
    t = E.T[q[2]]
    if t["k"] == "adt" and t["p"] == "archery::shared_pointer::SharedPointer" and e[0] != "p":
        return ("p", ("w", e), _qelem(E, e, ("q", (), t["a"][0])))
    if t["k"] == "ref" and e[0] not in ("r", "m"):
        return R(_qelem(E, e, ("q", (), t["t"])))
    return e


def _qfront(E, st, q, back=False):
    r = E.front(st, q[1], back)
    if r is None:
        return None
    return E.qelem(r[0], q), ("q", r[1], q[2])


Engine.snap = _snap
Engine.deep = _deep
Engine.canon_shallow = _canon_shallow
Engine.clone_of = _clone_of
Engine.cut_at = _cut_at
Engine.qelem = _qelem
Engine.qfront = _qfront


def keyof(E, st, v):
    v = E.canon(st, v)
    h = E.hooks.get("keyof")
    if h:
        return h(E, st, v)
    if v[0] == "a" and len(v[3]) == 2:
        return v[3][0]
    return v


Engine.keyof = keyof
Engine.sorted_roots = ()
