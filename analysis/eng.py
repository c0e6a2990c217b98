"""Shape analysis of the dumped MIR.

An abstract interpreter over polymorphic MIR.  Heap shapes are inductive predicates (list chains, trees)
described by *views* (sequences of abstract elements, with named unknown parts); they are unfolded only
where the code inspects them, loops are summarised by one generic iteration, recursive functions by
contracts.  Integers live in a small linear-inequality domain.  Three-valued: a path that the domain
cannot follow ends as 'unk' and never counts as proved or as a violation.
"""
import itertools, sys
from math import gcd
from mir import Prog, sccs

sys.setrecursionlimit(20000)

INF_LEN = 1 << 48
ROWS = 600            # where an elimination gives up


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


class Infeasible(Exception):
    pass


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


# ---------------------------------------------------------------- linear integers
def L(c, *terms):
    d = {}
    for a, k in terms:
        d[a] = d.get(a, 0) + k
    return (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def lconst(c):
    return (c, ())


def ladd(x, y, k=1):
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        n = d.get(a, 0) + k * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return (x[0] + k * y[0], tuple(sorted(d.items(), key=repr)))


def lscale(x, k):
    if k == 0:
        return (0, ())
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    t = f[0]
    if t == "le":
        return mkle(ladd(lconst(1), f[1], -1))
    if t == "eq":
        return ("ne", f[1])
    if t == "ne":
        return ("eq", f[1])
    if t == "at":
        return ("nat", f[1])
    if t == "nat":
        return ("at", f[1])
    if t == "and":
        return ("or",) + tuple(fnot(x) for x in f[1:])
    if t == "or":
        return ("and",) + tuple(fnot(x) for x in f[1:])
    raise Unknown("formula " + t)


def mkle(l):
    if not l[1]:
        return l[0] <= 0
    return ("le", l)


def mkeq(l):
    if not l[1]:
        return l[0] == 0
    if l[1][0][1] < 0:
        l = lscale(l, -1)
    return ("eq", l)


def introw(r):
    """The row divided by the common factor of its coefficients, rounded for integers."""
    g = 0
    for _, k in r[1]:
        g = gcd(g, k)
        if g == 1:
            return r
    return (-((-r[0]) // g), tuple((q, k // g) for q, k in r[1]))


def fm_unsat(cons):
    """cons: list of lin <= 0.  Fourier-Motzkin with rows tightened to integers, first in the cheapest order; when that
    is inconclusive and an elimination lost integer information, again with the lossless ones first."""
    ids = {}
    rows = {}
    for c, items in cons:
        if not items:
            if c > 0:
                return True
            continue
        for a, _ in items:
            if a not in ids:
                ids[a] = len(ids)
        if _addrow(rows, c, sorted([(ids[a], k) for a, k in items])):
            return True
    r, rows, lossy = _substitute(rows)
    if r:
        return True
    r, exact = _eliminate(dict(rows), False)
    if r or exact:
        return r
    return _eliminate(rows, True)[0]


def _addrow(rows, c, items):
    """Keeps the strongest row of a left-hand side; true at a contradiction."""
    if not items:
        return c > 0
    g = 0
    for _, k in items:
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        c = -((-c) // g)
        items = [(a, k // g) for a, k in items]
    items = tuple(items)
    o = rows.get(items)
    if o is None or c > o:
        rows[items] = c
        n = rows.get(tuple([(a, -k) for a, k in items]))
        if n is not None and n + c > 0:
            return True
    return False


def _combine(x, kx, y, ky):
    """kx * x + ky * y of sorted rows."""
    out = []
    i = j = 0
    n, m = len(x), len(y)
    while i < n and j < m:
        a, b = x[i], y[j]
        if a[0] == b[0]:
            k = a[1] * kx + b[1] * ky
            if k:
                out.append((a[0], k))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append((a[0], a[1] * kx))
            i += 1
        else:
            out.append((b[0], b[1] * ky))
            j += 1
    while i < n:
        out.append((x[i][0], x[i][1] * kx))
        i += 1
    while j < m:
        out.append((y[j][0], y[j][1] * ky))
        j += 1
    return out


def _substitute(rows):
    """Equalities with a unit coefficient are substituted (exact over the integers)."""
    while True:
        eq = None
        for it, c in rows.items():
            n = rows.get(tuple([(a, -k) for a, k in it]))
            if n is not None and n == -c:
                for a, k in it:
                    if k in (1, -1):
                        eq = (it, c, a, k)
                        break
                if eq:
                    break
        if not eq:
            return False, rows, False
        it, c, a, k = eq
        new = {}
        for x, cx in rows.items():
            ka = 0
            for b, kb in x:
                if b == a:
                    ka = kb
                    break
            if ka:
                f = -ka * k
                y = _combine(x, 1, it, f)
                if _addrow(new, cx + f * c, y):
                    return True, new, False
            elif _addrow(new, cx, x):
                return True, new, False
        rows = new


def _eliminate(rows, careful):
    """(contradiction found, no integer information lost)"""
    exact = True
    while rows:
        occ = {}
        for it in rows:
            for a, k in it:
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0, 1, 1]
                if k > 0:
                    p[1] += 1
                    if k > p[3]:
                        p[3] = k
                else:
                    p[0] += 1
                    if -k > p[2]:
                        p[2] = -k
        best = None
        for a, p in occ.items():
            lossy = p[0] and p[1] and p[2] > 1 and p[3] > 1
            key = (bool(lossy) if careful else False, p[0] * p[1], a)
            if best is None or key < best[0]:
                best = (key, a, lossy)
        a = best[1]
        if best[2]:
            exact = False
        pos, neg, rest = [], [], {}
        for it, c in rows.items():
            for b, k in it:
                if b == a:
                    (pos if k > 0 else neg).append((it, c, abs(k)))
                    break
            else:
                rest[it] = c
        for x, cx, kp in pos:
            for y, cy, kn in neg:
                if _addrow(rest, cx * kn + cy * kp, _combine(x, kn, y, kp)):
                    return True, exact
        rows = rest
        if len(rows) > ROWS:
            return False, False
    return False, exact


# ---------------------------------------------------------------- values
UNIT = ("a", None, 0, ())
UNDEF = ("u",)


def I(l):
    return ("i", l if isinstance(l, tuple) else lconst(l))


def B(f):
    return ("b", f)


def R(v):
    return ("r", v)


class St:
    __slots__ = ("cells", "bind", "sbind", "facts", "ne", "atoms", "order", "trace", "soft", "forall", "notes", "eqs", "fix")

    def __init__(self):
        self.fix = {}
        self.cells = {}
        self.bind = {}
        self.sbind = {}
        self.facts = []
        self.ne = []
        self.atoms = {}
        self.order = {}
        self.trace = ()
        self.soft = ()
        self.forall = ()
        self.notes = ()
        self.eqs = ()

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.bind = dict(self.bind)
        s.sbind = dict(self.sbind)
        s.facts = list(self.facts)
        s.ne = list(self.ne)
        s.atoms = dict(self.atoms)
        s.order = dict(self.order)
        s.trace = self.trace
        s.soft = self.soft
        s.forall = self.forall
        s.notes = self.notes
        s.eqs = self.eqs
        s.fix = self.fix
        return s

    # ---- sequences
    def norm(self, segs):
        out = []
        for g in segs:
            if g[0] == "e":
                out.append(g)
                continue
            n = g[1]
            if n in self.sbind:
                sub = self.norm(self.sbind[n])
                if g[0] == "rs":
                    sub = rev(sub)
                elif g[0] == "s":
                    pass
                else:
                    sub = tuple(map_seg(x, g[2]) for x in sub)
                out.extend(sub)
            elif isinstance(n, tuple) and n[0] in OPS:
                r = OPS[n[0]](self, n)
                if r is None:
                    out.append(g)
                elif r == (("s", n),):
                    out.append(g)
                else:
                    r = self.norm(r)
                    out.extend(rev(r) if g[0] == "rs" else r)
            else:
                out.append(g)
        return tuple(out)

    def length(self, segs):
        t = lconst(0)
        for g in self.norm(segs):
            if g[0] == "e":
                t = ladd(t, lconst(1))
            else:
                n = g[1]
                if isinstance(n, tuple) and n[0] in OPLEN:
                    t = ladd(t, OPLEN[n[0]](self, n))
                else:
                    t = ladd(t, L(0, (("len", n), 1)))
        return t

    def nlin(self, l):
        """Rewrite length atoms of bound symbols."""
        for a, _ in l[1]:
            if a in self.fix or (a[0] == "len" and (a[1] in self.sbind or isinstance(a[1], tuple))):
                break
        else:
            return l
        t = lconst(l[0])
        for a, k in l[1]:
            if a[0] == "len" and (a[1] in self.sbind or (isinstance(a[1], tuple) and a[1][0] in OPLEN)):
                x = self.length((("s", a[1]),))
                t = ladd(t, self.nlin(x) if self.fix else x, k)
            elif a in self.fix:
                t = ladd(t, self.nlin(self.fix[a]), k)
            else:
                t = ladd(t, L(0, (a, 1)), k)
        return t

    def plain(self, l):
        """Like nlin, without the pinned constants (which may belong to symbols bound later)."""
        x, self.fix = self.fix, {}
        l = self.nlin(l)
        self.fix = x
        return l

    def bounds(self, atoms):
        out = []
        for a in atoms:
            if a[0] == "len":
                out.append(L(0, (a, -1)))
                out.append(L(-INF_LEN, (a, 1)))
            elif a[0] in ("v", "uf"):
                lo, hi = a[2]
                if lo is not None:
                    out.append(L(lo, (a, -1)))
                if hi is not None:
                    out.append(L(-hi, (a, 1)))
        return out

    def system(self, extra):
        """facts connected to the extra constraints."""
        ex = [self.nlin(e) for e in extra]
        atoms = {a for e in ex for a, _ in e[1]}
        rest = [self.nlin(f) for f in self.facts]
        use = list(ex)
        ch = True
        while ch:
            ch = False
            keep = []
            for f in rest:
                fa = {a for a, _ in f[1]}
                if fa & atoms:
                    use.append(f)
                    atoms |= fa
                    ch = True
                elif not fa and f[0] > 0:
                    use.append(f)
                else:
                    keep.append(f)
            rest = keep
        return use + self.bounds(atoms)

    def unsat(self, extra):
        return fm_unsat(self.system(extra))

    def decide(self, f):
        if f is True or f is False:
            return f
        t = f[0]
        if t == "le":
            l = self.nlin(f[1])
            if not l[1]:
                return l[0] <= 0
            if self.unsat([ladd(lconst(1), l, -1)]):
                return True
            if self.unsat([l]):
                return False
            return None
        if t in ("eq", "ne"):
            l = self.nlin(f[1])
            if not l[1]:
                return (l[0] == 0) == (t == "eq")
            if l in [self.nlin(x) for x in self.ne] or lscale(l, -1) in [self.nlin(x) for x in self.ne]:
                return t == "ne"
            lt = self.unsat([ladd(l, lconst(1))])      # l <= -1 impossible
            gt = self.unsat([ladd(lconst(1), l, -1)])  # l >= 1 impossible
            if lt and gt:
                return t == "eq"
            if self.unsat([l]) or self.unsat([lscale(l, -1)]):
                return t == "ne"
            return None
        if t in ("at", "nat"):
            k = f[1]
            v = self.atom_value(k)
            if v is None:
                return None
            return v if t == "at" else not v
        if t == "and":
            vs = [self.decide(x) for x in f[1:]]
            return False if False in vs else (True if all(v is True for v in vs) else None)
        if t == "or":
            vs = [self.decide(x) for x in f[1:]]
            return True if True in vs else (False if all(v is False for v in vs) else None)
        raise Unknown("decide")

    def atom_value(self, k):
        if k in self.atoms:
            return self.atoms[k]
        h = ATOMS.get(k[0])
        return h(self, k) if h else None

    def assume(self, f):
        v = self.decide(f)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        t = f[0]
        if t == "le":
            self.facts.append(self.plain(f[1]))
            self.tighten()
        elif t == "eq":
            l = self.plain(f[1])
            self.facts.append(l)
            self.facts.append(lscale(l, -1))
            self.tighten()
        elif t == "ne":
            l = self.nlin(f[1])
            if self.unsat([ladd(l, lconst(1))]):
                self.facts.append(ladd(lconst(1), l, -1))
            elif self.unsat([ladd(lconst(1), l, -1)]):
                self.facts.append(ladd(l, lconst(1)))
            else:
                self.ne.append(l)
        elif t == "at":
            self.atoms[f[1]] = True
            self.atom_set(f[1], True)
        elif t == "nat":
            self.atoms[f[1]] = False
            self.atom_set(f[1], False)
        elif t == "and":
            for x in f[1:]:
                self.assume(x)
        elif t == "or":
            alts = [x for x in f[1:] if self.decide(x) is not False]
            if not alts:
                raise Infeasible()
            if len(alts) == 1:
                self.assume(alts[0])
            else:
                raise Split([(lambda s, x=x: s.assume(x)) for x in alts])
        for l in list(self.ne):
            n = self.nlin(l)
            if not n[1]:
                if n[0] == 0:
                    raise Infeasible()
                self.ne.remove(l)

    def atom_set(self, k, v):
        h = ONATOM.get(k[0])
        if h:
            h(self, k, v)

    def constants(self):
        """Terms that the facts pin to one constant."""
        rows = {introw(f) for f in map(self.nlin, self.facts) if f[1]}
        lo, hi = {}, {}
        for a in {a for f in rows for a, _ in f[1]}:
            x, y = (0, INF_LEN) if a[0] == "len" else a[2] if a[0] in ("v", "uf") else (None, None)
            if x is not None:
                lo[a] = x
            if y is not None:
                hi[a] = y
        for _ in range(6):
            ch = False
            for c, it in rows:
                # sum k*a <= -c: each term is bounded by the least value of the others
                s, miss = c, None
                for a, k in it:
                    v = (lo if k > 0 else hi).get(a)
                    if v is None:
                        if miss is not None:
                            break
                        miss = a
                    else:
                        s += k * v
                else:
                    if miss is None and s > 0:
                        raise Infeasible()
                    for a, k in it:
                        if miss is not None and a != miss:
                            continue
                        r = s if miss is not None else s - k * (lo if k > 0 else hi)[a]
                        if k > 0:
                            v = (-r) // k
                            if a not in hi or v < hi[a]:
                                hi[a] = v
                                ch = True
                        else:
                            v = -((-r) // -k)
                            if a not in lo or v > lo[a]:
                                lo[a] = v
                                ch = True
            if not ch:
                break
        for a, v in lo.items():
            if hi.get(a) == v and a not in self.fix:
                self.pin(a, lconst(v))
        for h in SIMPLIFY:
            h(self)

    def pin(self, a, l):
        """The term a is equal to l."""
        if l[1]:
            for b in self.bounds([a]):
                self.facts.append((b[0] + b[1][0][1] * l[0], tuple((t, k * b[1][0][1]) for t, k in l[1])))
        self.fix = dict(self.fix)
        self.fix[a] = l

    def tighten(self):
        """Bind length-zero symbols."""
        self.constants()
        for a, l in list(self.fix.items()):
            if l == (0, ()) and a[0] == "len" and a[1] not in self.sbind and not isinstance(a[1], tuple):
                self.bindseq(a[1], ())
        for a in {a for f in self.facts for a, _ in self.nlin(f)[1] if a[0] == "len"}:
            if a[1] not in self.sbind and not isinstance(a[1], tuple) and self.unsat([L(1, (a, -1))]):
                self.bindseq(a[1], ())
        for l in list(self.ne):
            n = self.nlin(l)
            if not n[1]:
                if n[0] == 0:
                    raise Infeasible()
                self.ne.remove(l)

    def check(self):
        fs = [self.nlin(f) for f in self.facts]
        if fm_unsat(fs + self.bounds({a for f in fs for a, _ in f[1]})):
            raise Infeasible()
        for l in self.ne:
            n = self.nlin(l)
            if not n[1] and n[0] == 0:
                raise Infeasible()
        for c in CHECKERS:
            c(self)

    def bindseq(self, name, segs):
        assert name not in self.sbind
        self.sbind[name] = segs
        h = ONBIND.get(name[0] if isinstance(name, tuple) else None)
        if h:
            h(self, name, segs)
        self.check()


OPS = {}      # op name -> (st, name) -> segs or None
OPLEN = {}
ATOMS = {}    # atom kind -> (st, key) -> bool/None
ONATOM = {}
ONBIND = {}
SIMPLIFY = []  # (st): pins terms that later facts determine
CHECKERS = []  # (st) -> raises Infeasible


def rev(segs):
    out = []
    for g in reversed(segs):
        if g[0] == "e":
            out.append(g)
        elif g[0] == "s":
            out.append(("rs",) + g[1:])
        elif g[0] == "rs":
            out.append(("s",) + g[1:])
        else:
            raise Unknown("reverse of mapped segment")
    return tuple(out)


def map_seg(g, f):
    raise Unknown("mapped segment")


def subst(t, m):
    """Structural substitution of terms (tuples) by a dict."""
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass
    if isinstance(t, tuple):
        n = tuple(subst(x, m) for x in t)
        return n if n != t else t
    return t
