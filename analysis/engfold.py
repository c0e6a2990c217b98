"""Folding: undo the unfolding of a sequence symbol when nothing but whole containers depends on it, so that
code which looks one element ahead still reaches the same abstract state at a loop head."""
from eng import *
from engx import *
from engcont import Bad


def leaves(v, out):
    if isinstance(v, tuple):
        if v and v[0] == "t":
            out.add(v)
            return
        for y in v:
            leaves(y, out)


def mentions_any(t, names, terms):
    if isinstance(t, tuple):
        if t and t[0] in ("s", "rs", "len") and len(t) >= 2 and isinstance(t[1], str) and t[1] in names:
            return True
        if t and t[0] == "t" and t in terms:
            return True
        for y in t:
            if mentions_any(y, names, terms):
                return True
    return False


def foldable(st, only=None):
    for n, segs in list(st.sbind.items()):
        if only is not None and n not in only:
            continue
        if isinstance(n, tuple) or len(segs) != 2:
            continue
        a, b = segs
        if a[0] == "e" and b[0] == "s" and not isinstance(b[1], tuple) and b[1] not in st.sbind:
            yield n, a[1], b[1], segs
        elif b[0] == "e" and a[0] == "s" and not isinstance(a[1], tuple) and a[1] not in st.sbind:
            yield n, b[1], a[1], segs


def refold(E, st, n, e, m, segs):
    """A state without the binding n := segs, or None."""
    for _ in range(6):
        before = (len(st.bind), len(st.sbind), len(st.facts))
        r = refold1(E, st, n, e, m, segs)
        if r is None or (len(st.bind), len(st.sbind), len(st.facts)) == before:
            return r        # otherwise looking at the state has unfolded more of it: the copy misses that
    return None


def refold1(E, st, n, e, m, segs):
    from engloop import container_of, view0 as view
    terms = set()
    leaves(E.canon(st, e), terms)
    if not terms:
        return None
    names = {m}
    new = st.copy()
    del new.sbind[n]
    ec = E.canon(st, e)
    pat = tuple(("e", ec) if g[0] == "e" else g for g in segs)
    rpat = rev(pat)
    memo = {}

    def foldsegs(vs):
        out, i = [], 0
        while i < len(vs):
            if vs[i:i + 2] == pat:
                out.append(("s", n))
                i += 2
            elif vs[i:i + 2] == rpat:
                out.append(("rs", n))
                i += 2
            else:
                out.append(vs[i])
                i += 1
        return tuple(out)

    def foldlin(l):
        d = dict(l[1])
        k = d.pop(("len", m), 0)
        if not k:
            return l
        r = L(l[0] - k, *[(a, c) for a, c in d.items()])
        return ladd(r, L(0, (("len", n), 1)), k)

    def walk(v):
        if not isinstance(v, tuple) or not v:
            return v
        key = id(v)
        t = v[0]
        if t == "sym":
            if v[1] in st.bind:
                b = st.bind[v[1]]
                if mentions_any(E.deepb(st, b), names, terms):
                    if not mentions_any(E.syms[v[1]][1], names, terms):
                        return v            # its own description still fits: materialised again on demand
                    c, ty = container_of(E, v)
                    if c is not None:
                        w = view(E, st, v)
                        if w[0] is not None:
                            return c.build(E, new, ty, foldsegs(w[2]))
                    return walk(b)
                return v
            if mentions_any(E.syms[v[1]][1], names, terms):
                c, ty = container_of(E, v)
                if c is not None:
                    w = view(E, st, v)
                    if w[0] is not None:
                        return c.build(E, new, ty, foldsegs(w[2]))
            return v
        if t == "a":
            if not mentions_any(E.deepb(st, v), names, terms):
                return v
            c, ty = container_of(E, v)
            if c is not None:
                w = view(E, st, v)
                if w[0] is not None:
                    f = foldsegs(w[2])
                    if not mentions_any(f, names, terms):
                        return c.build(E, new, ty, f)
            return ("a", v[1], v[2], tuple(walk(x) for x in v[3]))
        if t == "r":
            return ("r", walk(v[1])) if v[1] is not None else v
        if t == "p":
            return ("p", v[1], walk(v[2]))
        if t == "i":
            return ("i", foldlin(st.nlin(v[1])))
        if t in ("q", "it"):
            vs = tuple((g[0], E.canon(st, g[1])) if g[0] == "e" and not has_cell_(g[1]) else g for g in st.norm(v[1]))
            f = foldsegs(vs)
            if f != vs:
                return (t, f) + v[2:]
            return v
        if t == "b":
            return v
        return v
    try:
        for c, v in st.cells.items():
            new.cells[c] = walk(v)
    except (Unknown, Split):
        return None
    def fact(f):
        p = foldlin(st.plain(f))     # pinned terms stay: their symbols may be bound to something later
        return foldlin(st.nlin(f)) if mentions_any(p, names, terms) else p
    new.facts = [fact(f) for f in st.facts]
    new.ne = [foldlin(st.nlin(f)) for f in st.ne]
    # anything left that depends on the unfolding?
    for c, v in new.cells.items():
        try:
            if mentions_any(E.deepb(new, v), names, terms):
                return None
        except Unknown:
            return None
    if mentions_any((tuple(new.facts), tuple(new.ne), tuple(new.order.items()), tuple(new.atoms.items()), new.trace, new.forall), names, terms):
        return None
    for s, b in list(new.bind.items()):
        if mentions_any(b, names, terms):
            del new.bind[s]
    for k, b in new.sbind.items():
        if mentions_any(b, names, terms):
            return None
    return new


def has_cell_(v):
    import engx
    return engx.has_cell(v)


def _deepb(E, st, v, depth=0):
    """The value with bound symbols replaced and unbound ones shown by their description."""
    if not isinstance(v, tuple) or not v:
        return v
    t = v[0]
    if t == "sym":
        if v[1] in st.bind:
            if depth > 60:
                raise Unknown("deep")
            return E.deepb(st, st.bind[v[1]], depth + 1)
        p = E.syms[v[1]][1]
        return ("sym", tuple(st.norm(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] in ("e", "s", "rs") else x for x in p))
    if t == "a":
        return ("a", v[2], tuple(E.deepb(st, x, depth) for x in v[3]))
    if t in ("r", "raw"):
        return ("r", E.deepb(st, v[1], depth)) if v[1] is not None else v
    if t == "p":
        return ("p", E.deepb(st, v[2], depth))
    if t == "i":
        return ("i", st.nlin(v[1]))
    if t in ("q", "it"):
        return (t, tuple((g[0], E.deepb(st, g[1], depth)) if g[0] == "e" else g for g in st.norm(v[1])))
    return v


Engine.deepb = _deepb


def fold_state(E, st, only=None, fact=True):
    """Fold as much as possible.  With fact, the folded symbols keep the knowledge that they are not empty."""
    ch = not getattr(E, "nofold", False)
    done = []
    while ch:
        ch = False
        for n, e, m, segs in foldable(st, only):
            r = refold(E, st, n, e, m, segs)
            if r is not None:
                if fact:
                    r.facts.append(L(1, (("len", n), -1)))
                st = r
                done.append(n)
                ch = True
                break
    return st, done
