"""Loop summaries: two trial iterations suggest a closed form for every changed location, one generic
iteration (an unknown processed part D, an unknown rest R) verifies it, and the exits are taken from the
generic state.  Nothing is unrolled except iterations that consume explicitly known elements."""
from eng import *
from engx import *
import engfold
from engcont import Bad, Container, opt_of


class NoTemplate(Exception):
    pass


def container_of(E, v):
    t = None
    if v[0] == "a":
        t = v[1]
    elif v[0] == "sym":
        t = E.syms[v[1]][0]
    if t is None:
        return None, None
    for c in E.containers:
        if c.matches(E, t):
            return c, t
    return None, None


def view(E, st, v):
    """(container, type, view) when v is a well formed container, else (None, None, None)."""
    c, t = container_of(E, v)
    if c is None:
        return None, None, None
    try:
        return c, t, tuple((g[0], E.canon(st, g[1])) if g[0] == "e" else g for g in c.view(E, st, v, t))
    except Bad:
        return None, None, None


def view0(E, st, v):
    try:
        return view(E, st, v)
    except Split:
        return None, None, None


def canons(E, st, segs):
    return tuple((g[0], E.canon(st, g[1])) if g[0] == "e" else g for g in st.norm(segs))


def drop_dead(E, st, i, fr, head):
    """Remove locals that are dead at the loop head."""
    for c in [c for c in st.cells if c[0] == fr and not live(E, i, head, c[1])]:
        # a dead local may still be borrowed by a live one
        st.cells.pop(c) if not borrowed(st, c) else None
    return st


def borrowed(st, c):
    def m(v):
        if isinstance(v, tuple):
            if len(v) >= 2 and v[0] in ("m", "c") and v[1] == c:
                return True
            return any(m(x) for x in v)
        return False
    return any(m(v) for k, v in st.cells.items() if k != c)


def iterate(E, st, i, fr, head, body):
    """One iteration; states back at the head are folded, and those covered by a more general one dropped."""
    res = E.run(st.copy(), i, fr, head, (head, body))
    heads, outs = [], []
    for s, k, v in res:
        if k == "head":
            heads.append(drop_dead(E, s, i, fr, head))
        else:
            outs.append((s, k, v))
    if not any(n not in st.sbind for h in heads for n in h.sbind):
        return outs + [(h, "head", head) for h in heads]
    folded = []
    for h in heads:
        new = [n for n in h.sbind if n not in st.sbind]
        f, done = engfold.fold_state(E, h, new, fact=False)
        folded.append((h, f, done))
    keep = []
    dropped = set()
    for a, (h, f, done) in enumerate(folded):
        if not done:
            continue
        general = True
        for n in done:
            sib = [b for b, (g, _, _) in enumerate(folded) if b != a and g.sbind.get(n) == ()]
            ok = False
            for b in sib:
                if covers(E, f, n, folded[b][0]):
                    dropped.add(b)
                    ok = True
            if not ok:
                f.facts.append(L(1, (("len", n), -1)))
    for a, (h, f, done) in enumerate(folded):
        if a not in dropped:
            keep.append(f)
    return outs + [(h, "head", head) for h in keep]


def covers(E, f, n, h):
    q = f.copy()
    try:
        q.bindseq(n, ())
        for c, v in q.cells.items():
            if c not in h.cells or not eqv2(E, q, v, h, h.cells[c]):
                return False
    except (Infeasible, Unknown, Split):
        return False
    return q.trace == h.trace and set(q.facts) <= set(h.facts) | set(h.nlin(x) for x in h.facts) | set(q.facts) and q.atoms == h.atoms and q.order == h.order


def eqv2(E, q, v, h, w):
    m = h.copy()
    for k, b in q.bind.items():
        m.bind.setdefault(k, b)
    return eqv(E, m, v, w)


def summarise(E, st, i, fr, head, body, depth=0):
    outs = []
    st = drop_dead(E, st.copy(), i, fr, head)
    st, _ = engfold.fold_state(E, st)
    queue = [(st, 0)]
    while queue:
        s0, n = queue.pop()
        if n > 14:
            raise Unknown("loop does not make progress on a known structure")
        known = set(E.kinds)
        res = iterate(E, s0, i, fr, head, body)
        heads = [s for s, k, _ in res if k == "head"]
        if not heads:
            outs += res
            continue
        sym = [h for h in heads if any(k in known for k in h.sbind if k not in s0.sbind)]
        if not sym:
            if len(heads) > 6:
                raise Unknown("loop forks without progress")
            outs += [r for r in res if r[1] != "head"]
            queue += [(h, n + 1) for h in heads]
            continue
        try:
            outs += general(E, s0, i, fr, head, body, known, heads, depth)
            continue
        except (NoTemplate, Unknown) as e:
            why = str(e)
        if n >= 2:
            # no closed form: the exits of the first iterations stand, longer runs stay undecided
            outs += [r for r in res if r[1] != "head"]
            outs.append((s0, "unk", ("loop: " + why, E.P.insts[i]["n"], head)))
            continue
        # peel one iteration
        outs += [r for r in res if r[1] != "head"]
        queue += [(h, n + 1) for h in heads]
    return outs


def consumed(s0, s1, known):
    return [k for k in s1.sbind if k not in s0.sbind and k in known]


def shape(segs):
    """(element, rest name, direction) of a binding S := x ++ S' or S' ++ x."""
    if len(segs) == 2 and segs[0][0] == "e" and segs[1][0] == "s":
        return segs[0][1], segs[1][1], "front"
    if len(segs) == 2 and segs[1][0] == "e" and segs[0][0] == "s":
        return segs[1][1], segs[0][1], "back"
    raise NoTemplate("consumption pattern")


def general(E, s0, i, fr, head, body, known, heads, depth=0):
    try:
        return general1(E, s0, i, fr, head, body, known, heads, depth, True)
    except NoTemplate as e:
        if str(e) != "rest may be empty":
            raise
    # the rest was known to be non-empty for reasons of its own (a size test before the loop)
    return general1(E, s0, i, fr, head, body, known, heads, depth, False)


def general1(E, s0, i, fr, head, body, known, heads, depth, may_ne):
    s1 = s2 = None
    for h in heads:
        cs = consumed(s0, h, known)
        if len(cs) != 1:
            continue
        S = cs[0]
        try:
            x1, S1, way = shape(h.sbind[S])
        except NoTemplate:
            continue
        known2 = set(E.kinds)
        for r, k, _ in iterate(E, h, i, fr, head, body):
            if k == "head" and consumed(h, r, known2) == [S1] and len(r.sbind[S1]) == 2:
                s1, s2 = h, r
                break
        if s2 is not None:
            break
    if s2 is None:
        raise NoTemplate("no second iteration")
    x2, S2, way2 = shape(s2.sbind[S1])
    if way2 != way:
        raise NoTemplate("direction changes")
    x1c, x2c = E.canon(s2, x1), E.canon(s2, x2)
    D, Rn = "D%d" % E.fresh(), "R%d" % E.fresh()
    E.kinds[D] = E.kinds[Rn] = E.kinds[S]
    X = dict(S=S, D=D, R=Rn, x1=x1c, x2=x2c, way=way, s0=s0, s1=s1, s2=s2)
    tmpl, drop = {}, []
    for c, v0 in s0.cells.items():
        if c not in s1.cells or c not in s2.cells:
            drop.append(c)
            continue
        v1, v2 = s1.cells[c], s2.cells[c]
        if v1 == v0 and v2 == v0:
            # unchanged; but a lazily known source may still be shared
            continue
        try:
            f = infer(E, X, v0, v1, v2)
        except NoTemplate as e:
            if c[0] == fr and not live(E, i, head, c[1]):
                drop.append(c)
                continue
            raise NoTemplate("%s: local %s" % (e, c))
        if f is not SAME:
            tmpl[c] = f
    # generic state
    g = s0.copy()
    g.sbind[S] = (("s", D), ("s", Rn)) if way == "front" else (("s", Rn), ("s", D))
    for c in drop:
        g.cells.pop(c, None)
    for c, f in tmpl.items():
        g.cells[c] = f(E, g, (("s", D),), (("s", Rn),))
    tr = trace_template(E, X)
    if tr is not None:
        g.trace = s0.trace + ((("each", (("s", D),), way, tr),))
    nonempty = lambda s, n: s.decide(mkle(L(1, (("len", n), -1)))) is True
    ne = may_ne and nonempty(s0, S) and nonempty(s1, S1)
    if ne:
        g.facts.append(L(1, (("len", Rn), -1)))
    g.forall = g.forall + ((D, x1c, facts_about(E, s0, s1, x1c)),)
    g.check()
    E.loops_done += 1
    if E.on_loop:
        E.on_loop(E, s0, i, head)
    res = iterate(E, g, i, fr, head, body)
    outs = []
    nofacts = False
    for s, k, v in res:
        if k != "head":
            outs.append((s, k, v))
            continue
        if consumed(g, s, set(E.kinds)) and Rn not in s.sbind:
            raise NoTemplate("generic iteration consumes something else")
        if Rn not in s.sbind:
            raise NoTemplate("generic iteration without progress")
        if s.sbind[Rn] == ():
            # the symbolic part is used up and the loop goes on with what follows it
            if depth > 6:
                raise NoTemplate("too many consecutive parts")
            outs += summarise(E, s, i, fr, head, body, depth + 1)
            continue
        x, R2, w = shape(s.sbind[Rn])
        if w != way:
            raise NoTemplate("direction")
        if s.decide(mkle(L(0, (("len", R2), 1)))) is True or (ne and not nonempty(s, R2)):
            if s.decide(mkle(L(0, (("len", R2), 1)))) is not True:
                raise NoTemplate("rest may be empty")
            if depth > 6:
                raise NoTemplate("too many consecutive parts")
            outs += summarise(E, s, i, fr, head, body, depth + 1)
            continue
        Dn = (("s", D), ("e", x)) if way == "front" else (("e", x), ("s", D))
        if way == "back":
            pass
        def verify(q):
            for c in tmpl:
                if c not in s.cells:
                    raise NoTemplate("cell vanished")
                want = tmpl[c](E, q, Dn, (("s", R2),))
                if not eqv(E, q, s.cells[c], want):
                    raise NoTemplate("closed form of %s not preserved" % (c,))
            for c, v0 in g.cells.items():
                if c in tmpl or c not in s.cells:
                    continue
                if s.cells[c] != v0 and not eqv(E, q, s.cells[c], v0):
                    if c[0] == fr and not live(E, i, head, c[1]):
                        continue
                    raise NoTemplate("location %s changes" % (c,))
            return True
        E.fork(s, verify)
        if (tr is None) != (s.trace == g.trace):
            raise NoTemplate("trace")
        if tr is not None:
            new = s.trace[len(g.trace):]
            if subst_ev(new, E.canon(s, x)) != tr:
                raise NoTemplate("trace")
        fa = facts_about(E, g, s, E.canon(s, x))
        want = subst(dict_get(g.forall[-1][2]), {x1c: E.canon(s, x)})
        if not set(want) <= set(fa):
            nofacts = True
    if nofacts:
        # some path continues without the recorded facts: redo without them
        outs2 = []
        for s, k, v in outs:
            s.forall = tuple(f for f in s.forall if f[0] != D)
            outs2.append((s, k, v))
        outs = outs2
    return outs


def dict_get(x):
    return x


def facts_about(E, s0, s1, x):
    """Key relations and atoms recorded between the states that mention x."""
    out = []
    leaves = set()

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] in ("t", "i"):
                leaves.add(t)
            for y in t:
                walk(y)
    walk(x)
    for k, v in s1.order.items():
        if s0.order.get(k) != v and (k[0] in leaves or k[1] in leaves):
            out.append(("rel", k[0], k[1], v))
    for k, v in s1.atoms.items():
        if k not in s0.atoms and any(mentions(k, y) for y in leaves):
            out.append(("at", k, v))
    for l in s1.facts[len(s0.facts):] if s1.facts[:len(s0.facts)] == s0.facts else ():
        pass
    for l in s1.ne:
        if l not in s0.ne and any(mentions(l, a) for y in leaves if y[0] == "i" for a, _ in y[1][1]):
            out.append(("ne", l))
    return tuple(out)


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def subst_ev(ev, x):
    return subst(ev, {x: ("$",)})


def trace_template(E, X):
    s0, s1, s2 = X["s0"], X["s1"], X["s2"]
    if s1.trace == s0.trace and s2.trace == s0.trace:
        return None
    e1, e2 = s1.trace[len(s0.trace):], s2.trace[len(s1.trace):]
    a, b = subst_ev(e1, X["x1"]), subst_ev(e2, X["x2"])
    if a != b or s1.trace[:len(s0.trace)] != s0.trace:
        raise NoTemplate("trace pattern")
    return a


def live(E, i, blk, local):
    """Is the local possibly read from blk on before being overwritten?"""
    key = ("live", i)
    if key not in E.cfg:
        E.cfg[key] = liveness(E.P.insts[i]["body"])
    return local in E.cfg[key][blk]


def liveness(body):
    n = len(body["blocks"])
    use, deff, sc = [], [], []

    def places(o, out):
        if isinstance(o, list):
            if o and o[0] in ("c", "m") and len(o) == 2 and isinstance(o[1], list):
                out.append((o[1], True))
                return
            for e in o:
                places(e, out)
    for bb in body["blocks"]:
        u, d = set(), set()

        def rd(l):
            if l not in d:
                u.add(l)

        def rdplace(p):
            rd(p[0])
            for pr in p[1:]:
                if isinstance(pr, list) and pr[0] == "i":
                    rd(pr[1])
        for s in bb["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("&", "&mut", "&fake", "raw", "discr"):
                    rdplace(r[1])
                else:
                    ps = []
                    places(r, ps)
                    for p, _ in ps:
                        rdplace(p)
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    rdplace(s[1])
            elif s[0] == "assume":
                ps = []
                places(s[1], ps)
                for p, _ in ps:
                    rdplace(p)
        t = bb["t"]
        succ = []
        if t[0] == "goto":
            succ = [t[1]]
        elif t[0] == "switch":
            ps = []
            places(t[1], ps)
            for p, _ in ps:
                rdplace(p)
            succ = [x for _, x in t[2]] + [t[3]]
        elif t[0] == "drop":
            succ = [t[2]]
        elif t[0] == "call":
            ps = []
            places(t[1], ps)
            places(t[2], ps)
            for p, _ in ps:
                rdplace(p)
            if len(t[3]) == 1:
                d.add(t[3][0])
            else:
                rdplace(t[3])
            succ = [t[4]] if t[4] is not None else []
        elif t[0] == "assert":
            ps = []
            places(t[1], ps)
            for p, _ in ps:
                rdplace(p)
            succ = [t[4]]
        elif t[0] == "ret":
            u.add(0) if 0 not in d else None
        use.append(u)
        deff.append(d)
        sc.append([x for x in succ if x is not None])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for x in sc[b]:
                o |= live[x]
            v = use[b] | (o - deff[b])
            if v != live[b]:
                live[b] = v
                ch = True
    return live


def SAME(E, st, D, R):
    raise AssertionError


def infer(E, X, v0, v1, v2):
    s2 = X["s2"]
    if v0 == v1 == v2:
        return SAME
    for k, h in enumerate(E.loop_templates):
        f = h(E, X, v0, v1, v2)
        if f is not None:
            return f
    c, t = container_of(E, v0)
    if c is not None:
        a, b, d = (view0(E, s2, v) for v in (v0, v1, v2))
        if a[0] is not None and b[0] is not None and d[0] is not None and view0(E, X["s0"], v0)[0] is not None:
            vt = view0(E, X["s0"], v0)
            f = infer_seq(E, X, a[2], b[2], d[2], vt[2])
            if f is SAME:
                return SAME
            return lambda E, st, D, R: c.build(E, st, t, f(E, st, D, R))
    w0, w1, w2 = (force0(E, s2, v) for v in (v0, v1, v2))
    if w0[0] != w1[0] or w1[0] != w2[0]:
        raise NoTemplate("changes kind")
    k = w0[0]
    if k == "i":
        a, b, d = s2.nlin(w0[1]), s2.nlin(w1[1]), s2.nlin(w2[1])
        p, q = ladd(b, a, -1), ladd(d, b, -1)
        if p == q == lconst(0):
            return SAME
        if p[1] or p != q:
            raise NoTemplate("integer step")
        l0, c0 = w0[1], p[0]
        return lambda E, st, D, R: I(ladd(l0, st.length(D), c0))
    if k == "b":
        if w0 == w1 == w2:
            return SAME
        raise NoTemplate("boolean changes")
    if k == "a":
        if w0[2] != w1[2] or w1[2] != w2[2]:
            raise NoTemplate("variant changes")
        if len(w0[3]) != len(w1[3]):
            raise NoTemplate("arity")
        fs = [infer(E, X, a, b, d) for a, b, d in zip(w0[3], w1[3], w2[3])]
        if all(f is SAME for f in fs):
            return SAME
        return lambda E, st, D, R: ("a", w0[1], w0[2], tuple(x if f is SAME else f(E, st, D, R) for f, x in zip(fs, w0[3])))
    if k == "r":
        f = infer(E, X, w0[1], w1[1], w2[1])
        if f is SAME:
            return SAME
        return lambda E, st, D, R: R_(f(E, st, D, R))
    if k in ("q", "it"):
        f = infer_seq(E, X, canons(E, s2, w0[1]), canons(E, s2, w1[1]), canons(E, s2, w2[1]), canons(E, X["s0"], w0[1]))
        if f is SAME:
            return SAME
        return lambda E, st, D, R: (k, f(E, st, D, R)) + w0[2:]
    if k == "p":
        f = infer(E, X, w0[2], w1[2], w2[2])
        if f is SAME:
            return SAME
        return lambda E, st, D, R: ("p", w0[1], f(E, st, D, R))
    raise NoTemplate("changes (%s)" % k)


def R_(v):
    return ("r", v)


def force0(E, st, v):
    if v[0] == "sym" and v[1] in st.bind:
        return force0(E, st, st.bind[v[1]])
    if v[0] == "c":
        return force0(E, st, st.cells[v[1]])
    return v


def infer_seq(E, X, a, b, d, orig):
    """a, b, d: views before, after one and after two iterations (normalised in the last state)."""
    if a == b == d:
        return SAME
    x1, x2 = ("e", X["x1"]), ("e", X["x2"])
    way = X["way"]
    S = X["S"]
    for sname, flipped in (("s", False), ("rs", True)):
        fr = (way == "front") != flipped
        # the source: loses the consumed element
        if fr and a and a[0] == x1 and b == a[1:] and b and b[0] == x2 and d == b[1:] and orig and orig[0] == (sname, S):
            rest = orig[1:]
            return lambda E, st, D, R: flipseq(R, flipped) + rest
        if not fr and a and a[-1] == x1 and b == a[:-1] and b and b[-1] == x2 and d == b[:-1] and orig and orig[-1] == (sname, S):
            rest = orig[:-1]
            return lambda E, st, D, R: rest + flipseq(R, flipped)
    # D is kept in sequence order: for backwards consumption the element processed first is D's last
    n = len(a)
    if len(b) > n and b[:n] == a and len(d) - len(b) == len(b) - n and d[:len(b)] == b:
        e1, e2 = b[n:], d[len(b):]
        m = mapper(E, X, e1, e2)
        return lambda E, st, D, R: orig + m(D, way == "back")
    k = len(b) - n
    if k > 0 and b[k:] == a and len(d) - len(b) == k and d[k:] == b:
        e1, e2 = b[:k], d[:k]
        m = mapper(E, X, e1, e2)
        return lambda E, st, D, R: m(D, way == "front") + orig
    raise NoTemplate("sequence step")


def flipseq(s, f):
    return rev(s) if f else s


def mapper(E, X, e1, e2):
    if len(e1) == 1 and e1[0][0] == "e":
        if e1[0][1] == X["x1"] and e2[0][1] == X["x2"]:
            return lambda D, r: rev(D) if r else D
    raise NoTemplate("element is transformed")


def eqv(E, st, a, b):
    """Are two values equal, up to pointer identity and representation of containers?"""
    if a == b:
        return True
    ca, ta = container_of(E, a)
    cb, tb = container_of(E, b)
    if ca is not None and cb is not None:
        va, vb = view(E, st, a), view(E, st, b)
        if va[0] is not None and vb[0] is not None:
            return va[2] == vb[2]
    a, b = force0(E, st, a), force0(E, st, b)
    if a == b:
        return True
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "i":
        return st.decide(mkeq(ladd(a[1], b[1], -1))) is True
    if k == "b":
        x, y = st.decide(a[1]), st.decide(b[1])
        return x is not None and x == y
    if k == "a":
        return a[2] == b[2] and len(a[3]) == len(b[3]) and all(eqv(E, st, x, y) for x, y in zip(a[3], b[3]))
    if k == "p":
        return eqv(E, st, a[2], b[2])
    if k == "r":
        return eqv(E, st, a[1], b[1])
    if k in ("q", "it"):
        return canons(E, st, a[1]) == canons(E, st, b[1])
    if k == "m":
        return a[1:] == b[1:]
    return False


Engine.loop_templates = ()
