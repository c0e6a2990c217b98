"""Relations between two collections: equality, ordering, subset, superset, disjointness.

The two collections are an unknown *word* of letters, revealed only where an iterator or a lookup looks: a letter stands
for an element of the one, of the other, or of both, and its class says how the two compare there.  Sequences are aligned
by position; sorted collections share one ascending word; unordered ones are a bag passed in any two orders.  Loops are
run to a fixed point over canonical states (letters that no iterator and no variable can reach are only counted), so
every outcome is found for collections of every length and content."""
from collections import namedtuple
import itertools
from eng import *
from engx import *
import eng, engx, engnat, engloop, spec
from engloop import live
from engnat import opt, deref, store
from engcont import sp_of, opt_of
from spec import Result, deref_all

G = namedtuple("G", "mode word hidden least act first passed started fed apart past heads out")
Out = namedtuple("Out", "text printed last wrong failed")     # what was written since the last element, the letters written, ...
GH = ("gh", 0)
START = "^"
LIMIT = 400

# class -> the sides that have such an element
SIDES = {
    "aligned": dict(E="SO", L="SO", G="SO", N="SO", K="SO", M="SO", A="S", D="O"),    # K, M: the keys of the entries already differ (less, greater)
    "sorted": dict(A="S", D="O", B="SO", C="SO"),                                      # C: equal keys, unequal values
    "bag": dict(A="S", D="O", B="SO", C="SO"),
}
KEYREL = dict(E="=", L="=", G="=", N="=", K="<", M=">")
VALREL = dict(E="=", L="<", G=">", N="?", B="=", C="!")


def gh(st):
    return st.cells[GH][1][1]


def setgh(st, g):
    st.cells[GH] = ("t", ("ghost", g))


def count(cls):
    return ("v", ("count", cls), (0, 1 << 40))


def size(g_mode, classes, side):
    return L(0, *[(count(c), 1) for c in sorted(classes) if side in SIDES[g_mode][c]])


# ---- revealing
def letters(g):
    return {x[1]: x[2] for x in g.word if x[0] == "l"}


def cls_of(st, i):
    c = letters(gh(st)).get(i)
    if c is None:
        raise Unknown("an element that was dropped")
    return c


def restart(E, st):
    """Begin a new pass: the letters have been looked at and are unknown again, but what was seen of them is on record."""
    for v in reachable(E, st, None).values():
        def f(x):
            if len(x) == 4 and x[0] == "cur" and x[1] in ("S", "O") and x[3] not in (START, None):
                raise Unknown("a second pass during the first")
        walk(v, f)
    g = gh(st)
    classes = sorted(E.classes)
    t = totals1(g, classes)
    past = (tuple(t[c][:3] for c in classes), g.first, tuple(t[c][3] for c in classes), len(g.heads))
    if len(g.past) > 3:
        raise Unknown("many passes")
    g2 = g._replace(past=g.past + (past,), word=(), hidden=frozenset(E.word0), least=frozenset(), act=())
    p = st.copy()
    try:
        known(p, g2, classes)
    except Infeasible:
        return False
    word = frozenset(c for c in E.word0 if p.decide(mkle(L(0, (count(c), 1)))) is not True)
    setgh(st, g._replace(word=gap(word), hidden=frozenset(), least=frozenset(), act=(), first=None, passed=(), started="", past=g.past + (past,)))
    return True


def end_of(E, st, side, last):
    """[(state, letter or None)]: the element at this end of this side."""
    g = gh(st)
    if g.mode == "bag":
        raise Unknown("first element of an unordered collection")
    if not last:
        return advance(E, st, side, START)
    if side in g.started:
        st = st.copy()
        if not restart(E, st):
            return []   # the passes so far contradict each other: no such state
        g = gh(st)
    S = SIDES[g.mode]
    out, word = [], g.word
    i = len(word) - 1
    while True:
        if i < 0:
            s = st.copy()
            setgh(s, g._replace(word=word))
            return out + [(s, None)]
        x = word[i]
        if x[0] == "l":
            if side in S[x[2]]:
                s = st.copy()
                setgh(s, g._replace(word=word))
                return out + [(s, x[1])]
            i -= 1
            continue
        mine = sorted(c for c in x[1] if side in S[c])
        for c in mine:
            before, after = x[1], x[1] - set(mine)
            if g.mode == "aligned":
                before = frozenset(k for k in x[1] if len(S[k]) == 2 or k == c)
                after = after if len(S[c]) == 2 else frozenset()
            n = E.fresh()
            s = st.copy()
            setgh(s, g._replace(word=word[:i] + gap(before) + (("l", n, c),) + gap(after) + word[i + 1:]))
            out.append((s, n))
        word = word[:i] + gap(x[1] - set(mine)) + word[i + 1:]
        i -= 1


def advance(E, st, side, pos):
    """[(state, position or None)] of the next element on this side."""
    g = gh(st)
    if pos == START and side in g.started:
        st = st.copy()
        if not restart(E, st):
            return []   # the passes so far contradict each other: no such state
        g = gh(st)
    S = SIDES[g.mode]
    if g.mode == "bag":
        return advance_bag(E, st, side, pos)
    if pos == START:
        i = 0
    else:
        i = next((k for k, x in enumerate(g.word) if x[0] == "l" and x[1] == pos), None)
        if i is None:
            raise Unknown("lost position")
        i += 1
    out = []
    word = g.word
    while True:
        if i >= len(word):
            s = st.copy()
            setgh(s, g._replace(word=word))
            out.append((s, None))
            return out
        x = word[i]
        if x[0] == "l":
            if side in S[x[2]]:
                s = st.copy()
                setgh(s, g._replace(word=word))
                out.append((s, x[1]))
                return out
            i += 1
            continue
        mine = sorted(c for c in x[1] if side in S[c])
        for c in mine:
            if g.mode == "aligned":
                before = frozenset()
                after = x[1] if len(S[c]) == 2 else frozenset(c)
            else:
                before, after = x[1] - set(mine), x[1]
            n = E.fresh()
            s = st.copy()
            setgh(s, g._replace(word=word[:i] + gap(before) + (("l", n, c),) + gap(after) + word[i + 1:]))
            out.append((s, n))
        rest = x[1] - set(mine)
        word = word[:i] + gap(rest) + word[i + 1:]
        i += 1 if rest else 0


def gap(cs):
    return (("g", frozenset(cs)),) if cs else ()


def advance_bag(E, st, side, pos):
    g = gh(st)
    S = SIDES["bag"]
    if pos != START and side not in g.started:
        raise Unknown("lost position")
    if pos != START and g.started[-1:] and dict(g.passed).get(("at", side)) != pos:
        raise Unknown("an older position")
    done = {k for k, v in g.passed if k[0] == "by" and k[1] == side for k in [k[2]]}
    out = []

    def go(word, n):
        s = st.copy()
        p = [x for x in g.passed if x[0] != ("at", side)] + [(("at", side), n)]
        if n is not None:
            p.append((("by", side, n), True))
        setgh(s, g._replace(word=word, passed=tuple(sorted(p, key=repr)), started=g.started if side in g.started else g.started + side))
        out.append((s, n))
    for x in g.word:
        if x[0] == "l" and side in S[x[2]] and x[1] not in done:
            go(g.word, x[1])
    hidden = frozenset().union(*[x[1] for x in g.word if x[0] == "g"])
    rest = tuple(x for x in g.word if x[0] == "l")
    for c in sorted(hidden):
        if side in S[c]:
            n = E.fresh()
            go(rest + (("l", n, c),) + gap(hidden), n)
    if all(x[1] in done or side not in S[x[2]] for x in rest):
        go(rest + gap(c for c in hidden if side not in S[c]), None)
    return out


# ---- values
def K(side, n):
    return ("t", ("k", side, n))


def V(side, n):
    return ("t", ("v", side, n))


def is_letter(v):
    return v[0] == "t" and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] in ("k", "v") and v[1][1] in ("S", "O")


def item(E, st, kind, side, n, out):
    """What the iterator of this kind yields at a letter."""
    if kind == "elem":
        return R(K(side, n))
    k, v = R(K(side, n)), R(val(E, side, n))
    if kind == "key":
        return k
    if kind == "value":
        return v
    ty = E.T[out]["a"][0] if out is not None and E.T[out]["k"] == "adt" and E.T[out].get("a") else None
    return ("a", ty, 0, (k, v))


def val(E, side, n):
    return UNIT if E.unitvals else V(side, n)


def relate(E, st, a, b):
    """'<', '=', '>', '?' (unordered), '!' (unequal, order unknown)."""
    if a[0] == "a" and b[0] == "a" and not a[3] and not b[3] and a[2] == b[2]:
        return "="
    if not is_letter(a) or not is_letter(b) or a[1][0] != b[1][0]:
        raise Unknown("comparison of %s and %s" % (a[0], b[0]))
    (what, s1, n1), (_, s2, n2) = a[1], b[1]
    g = gh(st)
    if s1 == s2:
        if n1 == n2 and what == "k":
            return "="
        if what == "k" and g.mode == "sorted":
            order = [x[1] for x in g.word if x[0] == "l"]
            return "<" if order.index(n1) < order.index(n2) else ">"
        if what == "k" and g.mode == "bag":
            return "!"
        raise Unknown("comparison within one collection")
    if s1 == "O":
        r = relate(E, st, b, a)
        return {"<": ">", ">": "<"}.get(r, r)
    if n1 == n2:
        c = cls_of(st, n1)
        if g.mode != "aligned":
            return "=" if what == "k" else VALREL[c]
        if not E.pairs:
            return VALREL[c]
        if what == "k":
            return KEYREL[c]
        if c in "KM":
            raise Unknown("values of entries with different keys")
        return VALREL[c]
    if what == "v" or g.mode == "aligned":
        raise Unknown("comparison of unrelated elements")
    if g.mode == "bag":
        return "!"
    order = [x[1] for x in g.word if x[0] == "l"]
    if n1 not in order or n2 not in order:
        raise Unknown("an element that was dropped")
    return "<" if order.index(n1) < order.index(n2) else ">"


def two(E, st, c):
    return E.canon(st, c.args[0]), E.canon(st, c.args[1])


def n_cmp(E, st, c):
    r = relate(E, st, *two(E, st, c))
    if r in "?!":
        raise Unknown("order of unordered elements")
    return ("a", c.out(), "<=>".index(r), ())


def n_pcmp(E, st, c):
    r = relate(E, st, *two(E, st, c))
    if r == "!":
        raise Unknown("order of unequal elements")
    o = c.out()
    return opt(E, o, None) if r == "?" else opt(E, o, ("a", E.T[o]["a"][0], "<=>".index(r), ()))


def n_rel(want, neg=False):
    def h(E, st, c):
        a, b = two(E, st, c)
        if a[0] == "i" and b[0] == "i":
            f = {"=": mkeq(ladd(a[1], b[1], -1)), "<": mkle(ladd(ladd(a[1], b[1], -1), lconst(1))), "<=": mkle(ladd(a[1], b[1], -1)),
                 ">": mkle(ladd(ladd(b[1], a[1], -1), lconst(1))), ">=": mkle(ladd(b[1], a[1], -1))}[want]
            return B(fnot(f) if neg else f)
        r = relate(E, st, a, b)
        if r == "!" and want != "=":
            raise Unknown("order of unequal elements")
        return B((r in want) != neg)
    return h


# ---- iterators:  ("it", ("cur", side, kind, pos) | ("zip", a, b) | ("map", a, f) | ("filter", a, f), None, "cur")
def it(x):
    return ("it", x, None, "cur")


def is_cur(v):
    return v[0] == "it" and v[1] and v[1][0] in ("cur", "zip", "map", "filter")


def pull(E, st, x, out):
    """[(state, kind, (iterator, item or None))]"""
    if x[0] == "cur":
        if x[3] is None:
            return [(st, "ret", (x, None))]
        res = []
        for s, n in advance(E, st, x[1], x[3]):
            res.append((s, "ret", (x[:3] + (n,), None if n is None else item(E, s, x[2], x[1], n, out))))
        return res
    if x[0] == "zip":
        res = []
        for s, k, v in pull(E, st, x[1], None):
            if k != "ret" or v[1] is None:
                res.append((s, k, (("zip", v[0], x[2]), None) if k == "ret" else v))
                continue
            for s2, k2, w in pull(E, s, x[2], None):
                if k2 != "ret":
                    res.append((s2, k2, w))
                else:
                    res.append((s2, "ret", (("zip", v[0], w[0]), None if w[1] is None else ("a", None, 0, (v[1], w[1])))))
        return res
    if x[0] in ("map", "filter"):
        res = []
        work = [(st, x[1], 0)]
        while work:
            s0, y, n = work.pop()
            if n > 4:
                raise Unknown("filter")
            for s, k, v in pull(E, s0, y, None):
                if k != "ret" or v[1] is None:
                    res.append((s, k, ((x[0], v[0], x[2]), None) if k == "ret" else v))
                    continue
                for s2, k2, w in E.call_value(s, x[2], [v[1] if x[0] == "map" else R(v[1])]):
                    if k2 != "ret":
                        res.append((s2, k2, w))
                    elif x[0] == "map":
                        res.append((s2, "ret", (("map", v[0], x[2]), w)))
                    else:
                        for s3, d in E.fork(s2, lambda q: E.truth(q, E.force(q, w))):
                            if d:
                                res.append((s3, "ret", (("filter", v[0], x[2]), v[1])))
                            else:
                                work.append((s3, v[0], n + 1))
        return res
    raise Unknown("iterator " + x[0])


def stream(E, st, m):
    m = E.force(st, m)
    v = m if m[0] == "it" else deref(E, st, m)
    if not is_cur(v):
        return None
    return v[1]


def n_next(E, st, c):
    m = E.force(st, c.args[0])
    x = stream(E, st, m)
    if x is None:
        return NotImplemented
    if m[0] != "m":
        raise Unknown("next through a shared reference")
    res = []
    o = c.out()
    for s, k, v in pull(E, st, x, o):
        if k == "ret":
            store(E, s, m, it(v[0]))
            res.append((s, "ret", opt(E, o, v[1])))
        else:
            res.append((s, k, v))
    return res


INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
TRY = {"core::option::Option": 1, "core::result::Result": 0, "core::ops::control_flow::ControlFlow": 0}


def folding(tried):
    def h(E, st, c):
        x = stream(E, st, c.args[0])
        if x is None:
            return NotImplemented
        n = E.fresh()
        m = E.force(st, c.args[0])
        if m[0] != "m":
            st.cells[("nl", n, "it")] = it(x)
            m = ("m", ("nl", n, "it"), ())
        else:
            st.cells[("nl", n, "m")] = m
        st.cells[("nl", n, "acc")] = c.args[1]
        st.cells[("nl", n, "f")] = c.args[2]
        o = c.out()
        cont = None
        wrap = tried
        if tried:
            p = E.T[o].get("p")
            if E.T[o]["k"] == "adt" and p in TRY:
                cont = TRY[p]
            elif E.T[o]["k"] == "adt" and p.endswith("NeverShortCircuit"):
                cont = 0
            else:
                raise Unknown("try_fold to " + E.T[o]["s"])

        def end(s, v):
            for k in [k for k in s.cells if k[0] == "nl" and k[1] == n]:
                del s.cells[k]
            return (s, "ret", v)

        def step(s):
            heads, outs = [], []
            for s1, k, v in pull(E, s, stream(E, s, m), None):
                if k != "ret":
                    outs.append((s1, k, v))
                    continue
                store(E, s1, m, it(v[0]))
                acc = s1.cells[("nl", n, "acc")]
                if v[1] is None:
                    outs.append(end(s1, ("a", o, cont, (acc,)) if wrap else acc))
                    continue
                for s2, k2, r in E.call_value(s1, ("m", ("nl", n, "f"), ()), [acc, v[1]]):
                    if k2 != "ret":
                        outs.append((s2, k2, r))
                        continue
                    if not wrap:
                        s2.cells[("nl", n, "acc")] = r
                        heads.append(s2)
                        continue
                    for s3, w in E.fork(s2, lambda q: E.force(q, r)):
                        if w[0] != "a":
                            raise Unknown("result of the folded function")
                        if w[2] == cont:
                            s3.cells[("nl", n, "acc")] = w[3][0] if w[3] else UNIT
                            heads.append(s3)
                        else:
                            outs.append(end(s3, ("a", o, w[2], w[3])))
            return heads, outs
        return fix(E, st, step, None)
    h.multi = True
    return h


def n_spec_eq(E, st, c):
    """The common length and the pairwise comparison of two iterators."""
    x, y = stream(E, st, c.args[0]), stream(E, st, c.args[1])
    if x is None or y is None:
        return NotImplemented
    n = E.fresh()
    st.cells[("nl", n, "a")], st.cells[("nl", n, "b")], st.cells[("nl", n, "f")] = it(x), it(y), c.args[2]

    def end(s, v):
        for k in [k for k in s.cells if k[0] == "nl" and k[1] == n]:
            del s.cells[k]
        return (s, "ret", B(v))

    def step(s):
        heads, outs = [], []
        for s1, k, v in pull(E, s, s.cells[("nl", n, "a")][1], None):
            if k != "ret":
                outs.append((s1, k, v))
                continue
            s1.cells[("nl", n, "a")] = it(v[0])
            if v[1] is not None:
                s1.cells[("nl", n, "x")] = v[1]
            for s2, k2, w in pull(E, s1, s1.cells[("nl", n, "b")][1], None):
                if k2 != "ret":
                    outs.append((s2, k2, w))
                    continue
                s2.cells[("nl", n, "b")] = it(w[0])
                s2.cells.pop(("nl", n, "x"), None)
                if v[1] is None or w[1] is None:
                    outs.append(end(s2, v[1] is None and w[1] is None))
                    continue
                for s3, k3, r in E.call_value(s2, ("m", ("nl", n, "f"), ()), [v[1], w[1]]):
                    if k3 != "ret":
                        outs.append((s3, k3, r))
                        continue
                    def equal(q):
                        w = E.force(q, r)
                        return w[2] == 0 if w[0] == "a" else E.truth(q, w)
                    for s4, d in E.fork(s3, equal):
                        if d:
                            heads.append(s4)
                        else:
                            outs.append(end(s4, False))
        return heads, outs
    return fix(E, st, step, None)


n_spec_eq.multi = True


def adaptor(kind):
    def h(E, st, c):
        x = stream(E, st, c.args[0])
        if x is None:
            return NotImplemented
        if kind == "zip":
            y = stream(E, st, c.args[1])
            if y is None:
                raise Unknown("zip")
            return it(("zip", x, y))
        return it((kind, x, c.args[1]))
    return h


def n_into(E, st, c):
    v = E.force(st, c.args[0])
    if is_cur(v):
        return v
    return NotImplemented


def n_len(E, st, c):
    x = stream(E, st, c.args[0])
    if x is None:
        return NotImplemented
    if x[0] != "cur" or x[3] != START:
        raise Unknown("remaining length")
    n = I(E.sizes[x[1]])
    o = c.out()
    return n if E.T[o]["k"] != "tuple" else ("a", o, 0, (n, opt(E, E.T[o]["a"][1], n)))


def n_ident(E, st, c):
    x = stream(E, st, c.args[0])
    return NotImplemented if x is None else E.force(st, c.args[0])


def n_count(E, st, c):
    x = stream(E, st, c.args[0])
    if x is None:
        return NotImplemented
    if x[0] == "cur" and x[3] == START:
        return [(st, "ret", I(E.sizes[x[1]]))]
    if x[0] != "filter" or x[1][0] != "cur" or x[1][3] != START:
        raise Unknown("count")
    n, side = E.fresh(), x[1][1]
    st.cells[("nl", n, "it")], st.cells[("nl", n, "f")] = it(x[1]), x[2]
    verdict = {}

    def step(s):
        heads, outs = [], []
        for s1, k, v in pull(E, s, s.cells[("nl", n, "it")][1], None):
            if v[1] is None:
                outs.append(s1)
                continue
            s1.cells[("nl", n, "it")] = it(v[0])
            cl = cls_of(s1, v[0][3])
            for s2, k2, w in E.call_value(s1, s1.cells[("nl", n, "f")], [R(v[1])]):
                if k2 != "ret":
                    raise Unknown("count")
                for s3, d in E.fork(s2, lambda q: E.truth(q, E.force(q, w))):
                    verdict.setdefault(cl, set()).add(d)
                    heads.append(s3)
        return heads, outs
    outs = fix(E, st, step, None)
    if any(len(v) > 1 for v in verdict.values()):
        raise Unknown("count")
    for s in outs:
        del s.cells[("nl", n, "it")], s.cells[("nl", n, "f")]
    return [(s, "ret", I(L(0, *[(count(k), 1) for k, v in sorted(verdict.items()) if True in v]))) for s in outs]


n_next.multi = n_count.multi = True
IT = "core::iter::traits::iterator::Iterator::"


# ---- collections
PATHS = {
    "rpds::list::List": "seq", "rpds::stack::Stack": "seq", "rpds::queue::Queue": "seq", "rpds::vector::Vector": "seq",
    "rpds::map::red_black_tree_map::RedBlackTreeMap": "map", "rpds::set::red_black_tree_set::RedBlackTreeSet": "set",
    "rpds::map::hash_trie_map::HashTrieMap": "map", "rpds::set::hash_trie_set::HashTrieSet": "set",
}


def node(E, n, side, ident):
    """The root: opaque, but for the storage it holds by pointer, which two roots can have in common."""
    y = E.T[n]
    if not E.common or y["k"] != "adt" or len(y.get("v") or ()) != 1:
        return ("t", ("store", side))
    vals, k = [], 0
    for f in y["v"][0]["f"]:
        m = sp_of(E, f["t"])
        if m is not None:
            vals.append(("p", ("root", "entry"), ("t", ("store", side))))
            k += 1
        else:
            vals.append(("t", ("part", side, f["n"])))
    return ("a", n, 0, tuple(vals)) if k else ("t", ("store", side))


def build(E, st, t, side, ident, empty):
    """A collection of which only the sizes, the storage and the contents matter."""
    fs = E.T[t]["v"][0]["f"]
    vals, root = [], 0
    for k, f in enumerate(fs):
        y = E.T[f["t"]]
        if y["k"] == "adt" and y["p"] in PATHS and E.T[t]["p"] != "rpds::queue::Queue":
            vals.append(build(E, st, f["t"], side, ident, empty))
            root += 1
            continue
        if y["s"] == "usize":
            vals.append(I(E.sizes[side]))
            continue
        o = opt_of(E, f["t"])
        n = sp_of(E, o if o is not None else f["t"])
        if n is not None and E.T[n]["k"] != "param":
            p = ("p", ("root", ident), node(E, n, side, ident))
            if o is None:
                vals.append(p)
            else:
                vals.append(("a", f["t"], 0, ()) if empty else ("a", f["t"], 1, (p,)))
            root += 1
        elif y["s"] in RANGES:
            vals.append(E.newint(f["n"], y["s"]))
            E.inner = True
        else:
            vals.append(("t", ("part", side, f["n"])))
            if y["k"] == "adt" and y["p"] in PATHS:
                E.parts.add(f["n"])
    return ("a", t, 0, tuple(vals))


def side_of(E, st, v):
    v = deref_all(E, st, v)
    if v[0] == "t" and v[1][0] == "store":
        return v[1][1]
    if v[0] == "a" and E.T[v[1]].get("p") == "rpds::queue::Queue":
        return v[3][0][1][1]
    if v[0] == "a":
        for x in v[3]:
            y = E.force(st, x)
            if y[0] == "p":
                y = y[2]
            if y[0] == "a" and y[1] is not None and E.T[y[1]]["k"] == "adt" and (E.T[y[1]].get("p") in PATHS or opt_of(E, y[1]) is not None) or y[0] == "t":
                s = side_of(E, st, y)
                if s:
                    return s
        for x in v[3]:
            if x[0] == "i":
                for s in "SO":
                    if x[1] == E.sizes[s]:
                        return s
    return None


def mine(E, st, c):
    s = side_of(E, st, c.args[0])
    if s is None:
        raise Unknown("which collection?")
    return s


def find(E, st, c, side):
    """Position of the letter with the key asked for in the collection on this side, or None."""
    k = E.canon(st, c.args[1])
    if not is_letter(k) or k[1][0] != "k":
        raise Unknown("lookup of another key")
    g = gh(st)
    if g.mode == "aligned":
        raise Unknown("lookup")
    n = k[1][2]
    return n if side in SIDES[g.mode][cls_of(st, n)] else None


def plen(side, part):
    return L(0, (("v", ("plen", side, part), (0, 1 << 40)), 1))


def part_of(E, st, v):
    """Is this one of the lists that a queue is made of?  Where a queue is cut in two depends on its history."""
    v = deref_all(E, st, v)
    return v[1][1:] if v[0] == "t" and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] in ("part", "store") and v[1][2] in E.parts else None


def n_part_eq(E, st, c):
    """The same part of two queues: equal queues can be cut differently as soon as they have an element."""
    a, b = part_of(E, st, c.args[0]), part_of(E, st, c.args[1])
    if a is None or b is None:
        return NotImplemented
    same, other = st.copy(), st.copy()
    other.cells = dict(st.cells)
    setgh(other, gh(st)._replace(apart=True))
    same.soft = True
    return [(same, "ret", B(True)), (other, "ret", B(False))]


n_part_eq.multi = True


def n_hash(E, st, c):
    v = deref_all(E, st, c.args[0])
    if is_letter(v):
        g = gh(st)
        if g.out is not None:       # the element is fed once its key and its value were
            what, _, n = v[1]
            x = g.out
            if E.pairs and (x.last is None or x.last[1] != n or x.last[0] == what):
                x = x._replace(last=(what, n))
            elif n not in x.printed:
                x = x._replace(last=None, printed=x.printed + (n,))
            setgh(st, g._replace(out=x))
        return UNIT
    if part_of(E, st, v):
        setgh(st, gh(st)._replace(apart=True, fed=True))
        return UNIT
    if v[0] == "a" and not v[3]:
        return UNIT
    if v[0] == "i":
        return feed_int(E, st, v)
    return NotImplemented


def feed_int(E, st, v):
    if v[0] != "i":
        raise Unknown("data fed to a hasher")
    names = {k for k, _ in v[1][1]}
    if names & {k for s in "SO" for k, _ in E.sizes[s][1]}:
        setgh(st, gh(st)._replace(fed=True))
    elif names:
        setgh(st, gh(st)._replace(apart=True))
    return UNIT


def emit(E, st, c, event):
    """A write to the formatter, which can fail."""
    o = c.out()
    bad = st.copy()
    g = gh(bad)
    setgh(bad, g._replace(out=g.out._replace(failed=True)))
    res = [(bad, "ret", ("a", o, 1, (("a", E.T[o]["a"][1], 0, ()),)))]
    g = gh(st)
    if g.out.failed:
        return res + [(st, "ret", ("a", o, 0, (UNIT,)))]
    setgh(st, g._replace(out=event(g, g.out)))
    return res + [(st, "ret", ("a", o, 0, (UNIT,)))]


def wrong(x, why):
    return x if x.wrong else x._replace(wrong=why)


def n_write(E, st, c):
    if gh(st).out is None:
        return NotImplemented
    v = deref_all(E, st, c.args[1])
    if v[0] == "t" and v[1][0] == "str":
        text = v[1][1]
    elif v[0] == "i" and not v[1][1]:
        text = chr(v[1][0])
    else:
        raise Unknown("text that is not a constant")
    return emit(E, st, c, lambda g, x: x._replace(text=x.text + text) if len(x.text) < 40 else wrong(x, "endless text"))


n_write.multi = True


def n_show(E, st, c):
    v = deref_all(E, st, c.args[0])
    if gh(st).out is None or not is_letter(v):
        return NotImplemented
    what, _, n = v[1]

    def event(g, x):
        if what == "v":
            if x.last != ("k", n):
                return wrong(x, "a value is not written next to its key")
            return (x if x.text == ": " else wrong(x, "%r between key and value" % x.text))._replace(text="", last=("v", n))
        if n in x.printed:
            return wrong(x, "an element is written twice")
        first = True
        for y in g.word:
            if y[0] == "g":
                return wrong(x, "the elements are not written in order")
            if y[1] == n:
                break
            first = False
            if y[1] not in x.printed:
                return wrong(x, "the elements are not written in order")
        first = first and x.last is None
        if E.pairs and not first and (x.last is None or x.last[0] != "v"):
            return wrong(x, "a key is written without its value")
        want = E.ends_[0] if first else ", "
        return (x if x.text == want else wrong(x, "%r is written where %r belongs" % (x.text, want)))._replace(text="", last=("k", n), printed=x.printed + (n,))
    return emit(E, st, c, event)


n_show.multi = True


def natives(P):
    N = {}
    for path, kind in PATHS.items():
        def start(what):
            return lambda E, st, c: it(("cur", mine(E, st, c), what, START))
        base = dict(seq="elem", map="pair", set="elem")[kind]
        N[path + "::iter"] = N["<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % path] = start(base)
        def ends(last, what):
            def h(E, st, c):
                s = mine(E, st, c)
                o = c.out()
                return [(q, "ret", opt(E, o, None if n is None else item(E, q, what, s, n, o))) for q, n in end_of(E, st, s, last)]
            h.multi = True
            return h
        for m, last in (("first", False), ("peek", False), ("last", True)):
            N[path + "::" + m] = ends(last, base)
        if kind == "map":
            N[path + "::keys"], N[path + "::values"] = start("key"), start("value")
        def length(E, st, c):
            p = part_of(E, st, c.args[0])
            if p:
                return I(plen(*p))
            return I(E.sizes[mine(E, st, c)])
        N[path + "::len"] = N[path + "::size"] = length
        if kind == "seq":
            N["<%s as core::cmp::PartialEq>::eq" % path] = n_part_eq
            N["<%s as core::hash::Hash>::hash" % path] = n_hash
        N[path + "::is_empty"] = lambda E, st, c: B(mkle(length(E, st, c)[1]))

        def look(what):
            def h(E, st, c):
                s = mine(E, st, c)
                n = find(E, st, c, s)
                if what == "has":
                    return B(n is not None)
                o = c.out()
                if n is None:
                    return opt(E, o, None)
                if what == "key":
                    return opt(E, o, R(K(s, n)))
                v = R(val(E, s, n))
                return opt(E, o, v if what == "value" else ("a", E.T[o]["a"][0], 0, (R(K(s, n)), v)))
            return h
        if kind == "map":
            N[path + "::get"], N[path + "::get_key_value"], N[path + "::contains_key"] = look("value"), look("pair"), look("has")
        elif kind == "set":
            N[path + "::get"], N[path + "::contains"] = look("key"), look("has")
    return N


# ---- fixed points
def resolve(E, st, v):
    while True:
        if v[0] == "sym" and v[1] in st.bind:
            v = st.bind[v[1]]
        elif v[0] == "c" and v[1] in st.cells:
            v = st.cells[v[1]]
        else:
            break
    if v[0] == "a":
        return v[:3] + (tuple(resolve(E, st, x) for x in v[3]),)
    if v[0] == "r":
        return ("r", resolve(E, st, v[1])) + v[2:]
    if v[0] == "p":
        return ("p", v[1], resolve(E, st, v[2]))
    if v[0] == "it" and is_cur(v):
        return it(resolve_it(E, st, v[1]))
    return v


def resolve_it(E, st, x):
    if x[0] == "zip":
        return (x[0], resolve_it(E, st, x[1]), resolve_it(E, st, x[2]))
    if x[0] in ("map", "filter"):
        return (x[0], resolve_it(E, st, x[1]), resolve(E, st, x[2]))
    return x


def walk(v, f):
    if isinstance(v, tuple):
        f(v)
        for x in v:
            if isinstance(x, tuple):
                walk(x, f)


def reachable(E, st, here):
    """Cells that can still be read: live variables of the frames on the stack and what they refer to."""
    frames = {}
    for fr, i, blk in E.frames:
        frames[fr] = (i, blk)
    if here:
        frames[here[0]] = here[1:]
    roots = []
    for c in st.cells:
        if c[0] in frames:
            i, blk = frames[c[0]]
            if live(E, i, blk, c[1]):
                roots.append(c)
        elif c[0] in ("nl", "arg", "keep"):
            roots.append(c)
    seen = {}
    work = sorted(roots, key=repr)
    while work:
        c = work.pop(0)
        if c in seen or c not in st.cells or c == GH:
            continue
        seen[c] = v = resolve(E, st, st.cells[c])
        more = []

        def f(x):
            if x and x[0] in ("m", "c") and len(x) > 1 and isinstance(x[1], tuple):
                more.append(x[1])
        walk(v, f)
        work += more
    return seen


def normal(E, st, here):
    """(state with everything unreachable dropped, key)"""
    cells = reachable(E, st, here)
    held, cur = set(), {}
    for v in cells.values():
        def f(x):
            if len(x) == 2 and x[0] == "t" and is_letter(x):
                held.add(x[1][2])
            if len(x) == 4 and x[0] == "cur" and x[1] in ("S", "O"):
                cur.setdefault(x[1], set()).add(x[3])
        walk(v, f)
    g = gh(st)
    S = SIDES[g.mode]
    hidden, least, act, first = set(g.hidden), set(g.least), dict(g.act), g.first
    started = g.started

    def lose(x):
        if x[0] == "g":
            hidden.update(x[1])
        else:
            least.add(x[2])
            act[x[2]] = act.get(x[2], 0) + 1
    if g.mode == "bag":
        passed = dict(g.passed)
        word = []
        lost = set()
        for x in g.word:
            if x[0] == "l" and x[1] not in held and all(s not in S[x[2]] or s not in cur or ("by", s, x[1]) in passed for s in "SO"):
                lose(x)
                lost.add(x[1])
                for s in "SO":
                    if s in S[x[2]] and ("by", s, x[1]) not in passed and s not in started:
                        started += s
            else:
                word.append(x)
        # cursors stand on letters that may be gone: only the passing counts
        passed = {k: v for k, v in passed.items() if not (k[0] == "by" and k[2] in lost)}
        g = g._replace(word=tuple(word), passed=tuple(sorted(passed.items(), key=repr)), started=started)
        ren = {}
        for k, x in enumerate([x for x in word if x[0] == "l"]):
            ren[x[1]] = k
        for s in cur:
            p = passed.get(("at", s))
            if p is not None and p not in ren:
                ren[p] = "gone" + s
    else:
        idx = {x[1]: k for k, x in enumerate(g.word) if x[0] == "l"}
        edge = len(g.word)
        for s, ps in cur.items():
            for p in ps:
                if p == START:
                    edge = 0
                elif p is not None:
                    if p not in idx:
                        raise Unknown("lost position")
                    edge = min(edge, idx[p])
        for s in "SO":
            if s in cur and (START in cur[s]):
                pass
            elif edge > 0 and s not in started:
                started += s
        standing = {p for ps in cur.values() for p in ps}
        word = []
        ordered = True
        x_ = g.out
        if x_ is not None:
            for x in g.word[:edge]:
                if x[0] == "l" and x[1] not in held and x[1] not in standing and x[1] not in x_.printed and not x_.failed:
                    x_ = wrong(x_, "an element is left out")
        for k, x in enumerate(g.word):
            if k >= edge:
                word.append(x)
                continue
            if x[0] == "l":
                if g.mode == "aligned" and ordered and first is None and x[2] != "E":
                    first = x[2]
                if x[1] in held or x[1] in standing:
                    word.append(x)
                else:
                    lose(x)
            elif g.mode == "aligned":
                ordered = False
                word.append(x)
            else:
                lose(x)
        g = g._replace(word=tuple(word), started=started)
        if x_ is not None:
            here_ = {x[1] for x in word if x[0] == "l"}
            g = g._replace(out=x_._replace(printed=tuple(n for n in x_.printed if n in here_)))
        ren = {x[1]: k for k, x in enumerate([x for x in word if x[0] == "l"])}
    g = g._replace(hidden=frozenset(hidden), least=frozenset(least), act=tuple(sorted(act.items())), first=first)
    s = st.copy()
    s.cells = dict(cells)
    setgh(s, g)
    names = {}

    def can(v):
        if not isinstance(v, tuple):
            return v
        if is_letter(v) if len(v) == 2 and v[0] == "t" else False:
            return ("t", (v[1][0], v[1][1], ren.get(v[1][2], "?")))
        if v and v[0] == "cur" and len(v) == 4:
            return v[:3] + (v[3] if v[3] in (START, None) else ren.get(v[3], "?"),)
        if v and v[0] in ("m", "c") and len(v) > 1 and isinstance(v[1], tuple) and v[1] in cells:
            return (v[0], names.setdefault(v[1], cellname(v[1], len(names)))) + tuple(can(x) for x in v[2:])
        return tuple(can(x) for x in v)

    def cellname(c, n):
        return c if c[0] not in ("obj", "clo") else ("#", n)
    vals = []
    for c in cells:      # in the order they were reached
        if c[0] in ("obj", "clo"):
            names.setdefault(c, cellname(c, len(names)))
        vals.append((names.get(c, c), can(cells[c])))
    key = (repr(vals), tuple((x[0], x[1]) if x[0] == "g" else ("l", x[2]) for x in g.word), g.hidden, g.least, g.first, g.started, g.fed, g.apart, g.out and (g.out.text, tuple(ren.get(n) for n in g.out.printed), g.out.last and (g.out.last[0], ren.get(g.out.last[1])), g.out.wrong, g.out.failed), tuple(p[:2] for p in g.past),
           tuple((k[:2] + (ren.get(k[2]),), v) if k[0] == "by" else (k, v if v in (None, START) else ren.get(v)) for k, v in g.passed),
           repr(sorted(map(repr, s.facts))), repr(sorted(map(repr, s.ne))), repr(sorted(s.atoms.items(), key=repr)), repr(sorted(s.order.items(), key=repr)), repr(s.trace), repr(s.soft))
    return s, key


def fix(E, st, step, here):
    seen, outs = {}, []
    work = [(st, ())]
    E.loops_done += 1
    while work:
        s, before = work.pop(0)
        s, key = normal(E, s, here)
        if key in seen:
            h, act = seen[key]
            if h in before:      # going round once more adds these letters
                now = dict(gh(s).act)
                d = tuple((c, n - act.get(c, 0)) for c, n in sorted(now.items()) if n != act.get(c, 0))
                if d and d not in E.pumps.setdefault(h, []):
                    E.pumps[h].append(d)
            continue
        h = E.fresh()
        seen[key] = (h, dict(gh(s).act))
        E.rel_states = getattr(E, "rel_states", 0) + 1
        if len(seen) > LIMIT:
            raise Unknown("too many loop states")
        setgh(s, gh(s)._replace(heads=gh(s).heads + (h,)))
        heads, o = step(s)
        work += [(x, before + (h,)) for x in heads]
        outs += o
    return outs


def loop(E, st, i, fr, head, body):
    if GH not in st.cells:
        return None

    def step(s):
        heads, outs = [], []
        for s2, k, v in E.run(s, i, fr, head, (head, body)):
            if k == "head":
                heads.append(s2)
            else:
                outs.append((s2, k, v))
        return heads, outs
    return fix(E, st, step, (fr, i, head))


class RelEngine(Engine):
    def term_call(self, st, i, fr, t):
        if t[4] is None:
            return super().term_call(st, i, fr, t)
        self.frames.append((fr, i, t[4]))
        try:
            return super().term_call(st, i, fr, t)
        finally:
            self.frames.pop()

    def ptreq(self, st, a, b):
        if a[2] is None or b[2] is None:
            return a[2] is None and b[2] is None
        if a[2][0] != "root" or b[2][0] != "root":
            raise Unknown("pointer comparison")
        return a[2] == b[2]


def engine(P, budget=200000):
    E = RelEngine(P, budget)
    E.frames = []
    E.parts = set()
    E.inner = False
    E.pumps = {}
    E.natives = dict(engnat.NAT)
    engnat.ENGINE[0] = E
    E.chain = None
    E.sorted_roots = ()
    E.containers = []
    E.natives.update(natives(P))
    N = E.natives
    N["core::cmp::Ord::cmp"], N["core::cmp::PartialOrd::partial_cmp"] = n_cmp, n_pcmp
    for n, w in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        N["core::cmp::PartialOrd::" + n] = n_rel(w)
    N["core::cmp::PartialEq::eq"], N["core::cmp::PartialEq::ne"] = n_rel("="), n_rel("=", True)
    N[IT + "next"] = n_next
    N[IT + "try_fold"], N[IT + "fold"] = folding(True), folding(False)
    for k in ("zip", "map", "filter"):
        N[IT + k] = adaptor(k)
    N["core::iter::traits::iterator::SpecIterEq::spec_iter_eq"] = n_spec_eq
    N[IT + "count"] = n_count
    N[IT + "by_ref"] = n_ident
    N["core::iter::traits::collect::IntoIterator::into_iter"] = n_into
    N[IT + "size_hint"] = N["core::iter::traits::exact_size::ExactSizeIterator::len"] = n_len

    def peq(E, st, c):
        a, b = E.force(st, c.args[0]), E.force(st, c.args[1])
        if a[0] != "raw" or b[0] != "raw":
            raise Unknown("ptr::eq on " + a[0])
        return B(E.ptreq(st, a, b))
    N["core::ptr::eq"] = peq
    N["core::hash::Hash::hash"] = n_hash
    N["core::intrinsics::cold_path"] = lambda E, st, c: UNIT
    N["core::fmt::Formatter::write_str"] = N["core::fmt::Formatter::write_char"] = n_write
    N["<core::fmt::Formatter as core::fmt::Write>::write_str"] = N["<core::fmt::Formatter as core::fmt::Write>::write_char"] = n_write
    N["core::fmt::Display::fmt"] = n_show

    def flag(name):
        return lambda E, st, c: B(("at", ("fmt", name)))

    def measure(name):
        def h(E, st, c):
            o = c.out()
            return [(s, "ret", opt(E, o, I(L(0, (("v", ("fmt", name), (0, 65535)), 1))) if d else None)) for s, d in E.fork(st, lambda q: E.truth(q, B(("at", ("fmt", name)))))]
        h.multi = True
        return h
    for m in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad"):
        N["core::fmt::Formatter::" + m] = flag(m)
    for m in ("width", "precision"):
        N["core::fmt::Formatter::" + m] = measure(m)
    for m in INTS:
        N["core::hash::Hasher::write_" + m] = lambda E, st, c: feed_int(E, st, E.force(st, c.args[1]))
        N["<%s as core::hash::Hash>::hash" % m] = n_hash
    N["core::hash::Hasher::write_length_prefix"] = lambda E, st, c: feed_int(E, st, E.force(st, c.args[1]))
    E.hooks["loop"] = loop
    return E


# ---- what is expected
def zero(*classes):
    return mkle(L(0, *[(count(c), 1) for c in classes]))


def reaches(base, goal, ways):
    """Is the goal the base and some number of each of the ways?"""
    if any(base[c] > goal.get(c, 0) for c in base):
        return False
    if all(base[c] == goal.get(c, 0) for c in base):
        return True
    if not ways:
        return False
    w, rest = ways[0], ways[1:]
    top = min((goal.get(c, 0) - base[c]) // d for c, d in w)
    return any(reaches({c: v + n * dict(w).get(c, 0) for c, v in base.items()}, goal, rest) for n in range(top, -1, -1))


def feasible(E, st, base, free, pumps, extra, agreed):
    """Is there a pair of collections with these counts?"""
    big = sorted({abs(f[0]) + k for f in st.facts + st.ne for k in (0, 1) if 3 < abs(f[0]) + k < 5000})[:6]
    ways = [((c, 1),) for c in free] + pumps
    few = (0, 1, 2, 3) if len(ways) < 5 else (0, 1)
    tries = list(itertools.product(few, repeat=len(ways)))
    tries += [tuple(n if j == k else m for j in range(len(ways))) for n in big for k in range(len(ways)) for m in (0, 1)]
    for times in tries:
        vals = dict(base)
        for n, w in zip(times, ways):
            for c, d in w:
                vals[c] = vals.get(c, 0) + n * d
        if not agreed(vals):
            continue
        m = st.copy()
        try:
            for c, v in vals.items():
                m.assume(mkeq(L(-v, (count(c), 1))))
            if extra is not None:
                m.assume(extra)
            m.check()
        except (Infeasible, Split):
            continue
        return vals
    return None


class Case:
    """One scenario of one relation."""
    def __init__(self, mode, classes, shared=False, unit=False, pairs=False, aspect="ret", common=False):
        self.common = common
        self.mode, self.classes, self.shared, self.unit, self.pairs, self.aspect = mode, classes, shared, unit, pairs, aspect


def totals1(g, classes):
    """class -> (number of letters known, whether there can be more, least), for proofs and for the path taken."""
    act = dict(g.act)
    gaps = set().union(*[x[1] for x in g.word if x[0] == "g"]) if g.word else set()
    seen = set(g.hidden)
    out = {}
    for c in classes:
        n = sum(1 for x in g.word if x[0] == "l" and x[2] == c)
        out[c] = (n + (1 if c in g.least else 0), c in gaps or c in seen, c in g.least, n + act.get(c, 0))
    return out


def passes(g, classes):
    """The same for every pass over the letters."""
    cs = sorted(classes)
    return [{c: p[0][k] + (p[2][k],) for k, c in enumerate(cs)} for p in g.past] + [totals1(g, classes)]


def known(p, g, classes):
    for t in passes(g, classes):
        for c, (lo, more, least, _) in t.items():
            p.assume(mkle(L(lo, (count(c), -1))) if more or least else mkeq(L(-lo, (count(c), 1))))


def firsts(g):
    """The classes that the first unequal letter may have."""
    if g.first is not None:
        return {g.first}
    out = set()
    for x in g.word:
        if x[0] == "l":
            if x[2] != "E":
                out.add(x[2])
                return out
        else:
            out |= {c for c in x[1] if c != "E"}
    out.add(None)
    return out


ORDER = dict(L="<", K="<", G=">", M=">", A=">", D="<", N="?")
SHOWCLS = dict(A="only in the first", D="only in the second", B="in both", C="in both with unequal values", E="equal", L="less", G="greater", N="unordered or unequal",
               K="smaller key", M="greater key")


def describe(m):
    s = ", ".join("%d %s" % (v, SHOWCLS[c]) for c, v in sorted(m.items()) if v)
    return "two collections with elements: " + s if s else "two empty collections"


class Relations:
    """Checks every relation of the crate; results in the form the reports take."""
    def __init__(self, P):
        self.P = P
        self.results, self.missing = [], []
        self.stats = dict(paths=0, loops=0, instances=set(), states=0, functions=0, steps=0)

    def check(self, name, case, expect):
        x = self.P.root(name)
        if x is None or not x.get("body"):
            if name not in self.missing:
                self.missing.append(name)
            return
        self.stats["functions"] += 1
        E = engine(self.P)
        E.unitvals, E.pairs = case.unit, case.pairs
        E.common = case.common
        E.ends_ = expect[1] if expect[0] == "fmt" else None
        try:
            self.explore(E, x, name, case, expect)
        except Budget:
            self.add(name, case.aspect, "unk", "budget exhausted")
        except (Unknown, Split) as e:
            self.add(name, case.aspect, "unk", str(e))
        except (AssertionError, KeyError, IndexError, TypeError, ValueError, RecursionError) as e:
            self.add(name, case.aspect, "unk", "engine: %r" % (e,))
        self.stats["loops"] += E.loops_done
        self.stats["states"] += getattr(E, "rel_states", 0)
        self.stats["instances"] |= E.used
        self.stats["steps"] += E.steps

    def add(self, fn, aspect, verdict, msg=""):
        self.results.append(Result(fn, aspect, verdict, msg))

    def explore(self, E, x, name, case, expect):
        b = x["body"]
        tys = b["locals"][1:1 + b["argc"]]
        E.classes = case.classes
        E.sizes = {s: size(case.mode, case.classes, s) for s in "SO"}
        for es, eo in itertools.product((False, True), repeat=2):
            if case.shared and es != eo or case.common and (es or eo):
                continue
            st = St()
            setgh(st, G(case.mode, gap(case.classes), frozenset(), frozenset(), (), None, (), "", False, False, (), (), Out("", (), None, None, False) if expect[0] in ("fmt", "hash") else None))
            try:
                for s, e in (("S", es), ("O", eo)):
                    f = mkle(E.sizes[s])
                    st.assume(f if e else fnot(f))
                if case.common:
                    st.assume(fnot(zero("B")))
                st.check()
            except Infeasible:
                continue
            if es or eo:
                left = {c for c in case.classes if not ((es and "S" in SIDES[case.mode][c]) or (eo and "O" in SIDES[case.mode][c]))}
                setgh(st, gh(st)._replace(word=gap(left)))
            E.word0 = gh(st).word[0][1] if gh(st).word else frozenset()
            args = []
            for s, t, e in (("S", tys[0], es), ("O", tys[1], eo)):
                if expect[0] in ("hash", "fmt") and s == "O":
                    st.cells[("arg", 0)] = ("t", ("hasher",))
                    args.append(("m", ("arg", 0), ()))
                    break
                base = E.T[t]["t"] if E.T[t]["k"] == "ref" else t
                args.append(R(build(E, st, base, s, "S" if case.shared else s, e)))
            if E.parts:
                for s in "SO":
                    n = lconst(0)
                    for p in E.parts:
                        n = ladd(n, plen(s, p))
                    st.assume(mkeq(ladd(n, E.sizes[s], -1)))
            for q, kind, v in E.call_inst(st, x["id"], args):
                self.stats["paths"] += 1
                if kind == "unk":
                    self.add(name, case.aspect, "unk", "%s (%s:%s)" % v)
                elif kind == "panic":
                    m = self.model(E, q, case, None)
                    self.add(name, "panic", "bad" if m is not None and not E.imprecise(q) and not E.inner else "unk", "can panic: %s in %s (line %s)" % tuple(v))
                else:
                    self.judge(E, q, v, name, case, expect)

    def model(self, E, q, case, extra, add=None):
        """Counts of letters for which this very path is taken: those met, loops going round more often, those never met."""
        g = gh(q)
        ps = passes(g, case.classes)
        cuts = [0] + [p[3] for p in g.past] + [len(g.heads)]
        pumps = []
        for i in range(len(ps)):
            pumps.append([])
            for h in g.heads[cuts[i]:cuts[i + 1]]:
                pumps[-1] += [d for d in E.pumps.get(h, ()) if d not in pumps[-1]]
        acts = [{c: t[c][3] + (add or {}).get(c, 0) for c in case.classes} for t in ps]
        free = [[c for c in case.classes if t[c][1]] for t in ps]

        def agreed(vals):
            if len(ps) > 1 and sum(1 for v in vals.values() if v) > 1:
                return False         # the order in which the passes met them may differ
            return all(reaches(a, vals, [((c, 1),) for c in f] + p) for a, f, p in zip(acts[:-1], free, pumps))
        return feasible(E, q, acts[-1], free[-1], pumps[-1][:4], extra, agreed)

    def possible(self, E, p, want, case):
        """Can what is wanted hold with the lengths as compared?"""
        z = p.copy()
        try:
            z.assume(want)
            for c in case.classes:
                if z.decide(mkle(L(0, (count(c), 1)))):
                    z.assume(mkeq(L(0, (count(c), 1))))
            z.check()
            return z.decide(mkeq(ladd(E.sizes["S"], E.sizes["O"], -1))) is not False
        except (Infeasible, Split) as e:
            return not isinstance(e, Infeasible)

    def judge(self, E, q, v, name, case, expect):
        if expect[0] == "bool":
            rs = E.fork(q, lambda s: E.truth(s, deref_all(E, s, v)))
            for s, got in rs:
                self.boolean(E, s, got, name, case, expect[1])
            return
        if expect[0] == "onlyif":        # storage apart: true only for two empty collections
            for s, got in E.fork(q, lambda s: E.truth(s, deref_all(E, s, v))):
                if got:
                    self.boolean(E, s, True, name, case, zero(*case.classes))
                else:
                    self.add(name, case.aspect, "ok")
            return
        if expect[0] == "rel":
            for s, got in E.fork(q, lambda s: E.truth(s, deref_all(E, s, v))):
                self.order(E, s, got, lambda o: o in expect[1], name, case)
            return
        if expect[0] == "fmt":
            self.formatted(E, q, v, name, case)
            return
        if expect[0] == "hash":
            g = gh(q)
            if g.fed and not g.apart:
                self.unfed(E, q, g, name, case)
            else:
                m = None if E.imprecise(q) else self.model(E, q, case, fnot(zero("E")) if g.apart else None)
                what = "what is fed to the hasher depends on how the collection was built or is stored" if g.apart else "the length is not fed to the hasher"
                self.add(name, case.aspect, "bad" if m is not None else "unk", what)
            return
        # an ordering
        rs = E.fork(q, lambda s: self.ordering(E, s, v, expect[1]))
        for s, got in rs:
            self.order(E, s, got, None, name, case)

    def left_out(self, g):
        """(is an element left out, is it one that nothing has looked at)"""
        x = g.out
        if x.wrong or any(y[0] == "l" and y[1] not in x.printed for y in g.word):
            return True, False
        return (True, True) if any(y[0] == "g" for y in g.word) else (False, False)

    def unfed(self, E, q, g, name, case):
        out, hidden = self.left_out(g)
        p = q.copy()
        try:
            known(p, g, case.classes)
            p.check()
        except Infeasible:
            return
        if not out:
            self.add(name, case.aspect, "ok")
            return
        m = None if E.imprecise(q) or g.past else self.model(E, q, case, None, {"E": 1} if hidden else None)
        if m is None and hidden and not g.past:
            m_ = None if E.imprecise(q) else self.model(E, q, case, None)
            if m_ is not None:      # only without the elements that were not looked at
                self.add(name, case.aspect, "ok")
                return
        self.add(name, case.aspect, "bad" if m is not None else "unk", "an element is not fed to the hasher" + (" (%s)" % describe(m) if m is not None else ""))

    def order(self, E, s, got, rel, name, case):
        try:
            p = s.copy()
            known(p, gh(s), case.classes)
            p.check()
        except Infeasible:
            return
        except Split:
            pass
        fs = firsts(gh(s))
        for q in gh(s).past:
            if q[1] is not None:
                fs = {q[1]} if q[1] in fs else set()
        want = {f: "=" if f is None else ORDER[f] for f in fs}
        wrong = [f for f in fs if (want[f] != got if rel is None else rel(want[f]) != got)]
        if not wrong:
            self.add(name, case.aspect, "ok")
            return
        for f in sorted(wrong, key=repr):
            g = gh(s)
            inword = g.first == f or any(x[0] == "l" and x[2] == f for x in g.word)
            m = None
            if not E.imprecise(s):
                m = self.model(E, s, case, zero(*[c for c in case.classes if c != "E"]) if f is None else None, None if f is None or inword else {f: 1})
            if m is not None:
                self.add(name, case.aspect, "bad", "the result is %s where the contents compare as %s (the first difference: %s; %s)" % (
                    NAMES.get(got, got), NAMES[want[f]], "none" if f is None else SHOWCLS[f], describe(m)))
                break
        else:
            self.add(name, case.aspect, "unk", "the result is %s and the contents may compare as %s" % (NAMES.get(got, got), sorted(set(want.values()))))

    def formatted(self, E, q, v, name, case):
        g = gh(q)
        x = g.out
        p = q.copy()
        try:
            known(p, g, case.classes)
            p.check()
        except Infeasible:
            return
        w = deref_all(E, q, v)
        if w[0] != "a" or w[2] not in (0, 1):
            raise Unknown("result of fmt")
        if x.failed or w[2] == 1:
            why = None if x.failed and w[2] == 1 else "an error of the formatter is swallowed" if x.failed else "an error is returned that the formatter did not report"
        else:
            why = x.wrong
            if not why and any(y[0] == "g" or y[1] not in x.printed for y in g.word):
                why = "an element is left out"
            if not why and E.pairs and x.last and x.last[0] == "k":
                why = "a key is written without its value"
            want = E.ends_[1] if x.last else "".join(E.ends_)
            if not why and x.text != want:
                why = "%r is written at the end where %r belongs" % (x.text, want)
        if why is None:
            self.add(name, case.aspect, "ok")
        else:
            more = {"E": 1} if why == "an element is left out" and not x.wrong and self.left_out(g)[1] else None
            m = None if E.imprecise(q) else self.model(E, q, case, None, more)
            self.add(name, case.aspect, "bad" if m is not None else "unk", why + (" (%s)" % describe(m) if m is not None else ""))

    def ordering(self, E, s, v, partial):
        w = deref_all(E, s, v)
        if w[0] != "a":
            raise Unknown("ordering")
        if partial:
            if w[2] == 0:
                return "?"
            w = deref_all(E, s, w[3][0])
        if w[0] != "a" or w[2] not in (0, 1, 2):
            raise Unknown("ordering")
        return "<=>"[w[2]]

    def boolean(self, E, s, got, name, case, want):
        p = s.copy()
        try:
            known(p, gh(s), case.classes)
            d = p.decide(want)
            if d is None and got is False and not self.possible(E, p, want, case):
                d = False
        except Infeasible:
            return
        if d is got:
            self.add(name, case.aspect, "ok")
            return
        m = None
        if not E.imprecise(s):
            m = self.model(E, s, case, fnot(want) if got else want if not gh(s).apart else ("and", want, fnot(zero("E"))))
        if m is not None:
            self.add(name, case.aspect, "bad", "the result is %s for %s%s" % (got, describe(m), " that share their storage" if case.shared else ""))
        else:
            self.add(name, case.aspect, "unk", "the result %s is not shown to be right" % got)


NAMES = {"<": "less", "=": "equal", ">": "greater", "?": "unordered"}
RBM, RBS = "rpds::map::red_black_tree_map::RedBlackTreeMap", "rpds::set::red_black_tree_set::RedBlackTreeSet"
HTM, HTS = "rpds::map::hash_trie_map::HashTrieMap", "rpds::set::hash_trie_set::HashTrieSet"
SEQS = ["rpds::list::List", "rpds::stack::Stack", "rpds::queue::Queue", "rpds::vector::Vector"]


def equality(R_):
    for p in SEQS:
        n = "<%s as core::cmp::PartialEq>::eq" % p
        R_.check(n, Case("aligned", "ENAD"), ("bool", zero("N", "A", "D")))
        R_.check(n, Case("aligned", "E", shared=True), ("bool", True))
    for p, mode in ((RBM, "sorted"), (HTM, "bag")):
        n = "<%s as core::cmp::PartialEq>::eq" % p
        R_.check(n, Case(mode, "ABCD"), ("bool", zero("A", "C", "D")))
        R_.check(n, Case(mode, "B", shared=True), ("bool", True))
        if mode == "sorted":
            R_.check(n, Case(mode, "ABCD", common=True), ("bool", zero("A", "C", "D")))
    for p, mode in ((RBS, "sorted"), (HTS, "bag")):
        n = "<%s as core::cmp::PartialEq>::eq" % p
        R_.check(n, Case(mode, "ABD", unit=True), ("bool", zero("A", "D")))
        R_.check(n, Case(mode, "B", shared=True, unit=True), ("bool", True))


def ordering(R_):
    for p in SEQS + [RBM, RBS]:
        n = "<%s as core::cmp::%s>::%s"
        pairs, unit = p == RBM, p == RBS
        c = "ELGAD" + ("KM" if pairs else "")
        R_.check(n % (p, "PartialOrd", "partial_cmp"), Case("aligned", c + ("" if unit else "N"), pairs=pairs, unit=unit), ("order", True))
        R_.check(n % (p, "Ord", "cmp"), Case("aligned", c, pairs=pairs, unit=unit), ("order", False))
        R_.check(n % (p, "PartialOrd", "partial_cmp"), Case("aligned", "E", shared=True, pairs=pairs, unit=unit), ("order", True))
        R_.check(n % (p, "Ord", "cmp"), Case("aligned", "E", shared=True, pairs=pairs, unit=unit), ("order", False))
        for m, r in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            if R_.P.root(n % (p, "PartialOrd", m)):
                R_.check(n % (p, "PartialOrd", m), Case("aligned", c + ("" if unit else "N"), pairs=pairs, unit=unit), ("rel", r))


def hashing(R_):
    """Nothing but the contents may decide what the hasher is fed, and the length is among it."""
    for p in SEQS + [RBM, RBS]:
        R_.check("<%s as core::hash::Hash>::hash" % p, Case("aligned", "E", pairs=p == RBM, unit=p == RBS), ("hash",))


DELIMITERS = {"rpds::list::List": ("[", "]"), "rpds::vector::Vector": ("[", "]"), "rpds::stack::Stack": ("Stack(", ")"), "rpds::queue::Queue": ("Queue(", ")"),
              RBM: ("{", "}"), RBS: ("{", "}"), HTM: ("{", "}"), HTS: ("{", "}")}


def formatting(R_):
    for p, ends in DELIMITERS.items():
        R_.check("<%s as core::fmt::Display>::fmt" % p, Case("aligned", "E", pairs=p in (RBM, HTM), unit=p in (RBS, HTS)), ("fmt", ends))


def identity(R_):
    """ptr_eq: true for handles of one storage; never for collections that differ."""
    for p, mode in ((RBM, "sorted"), (RBS, "sorted"), (HTM, "bag"), (HTS, "bag")):
        unit = p in (RBS, HTS)
        R_.check(p + "::ptr_eq", Case(mode, "B", shared=True, unit=unit), ("bool", True))
        R_.check(p + "::ptr_eq", Case(mode, "ABD" if unit else "ABCD", unit=unit), ("onlyif",))
        if mode == "sorted":
            R_.check(p + "::ptr_eq", Case(mode, "ABD" if unit else "ABCD", unit=unit, common=True), ("onlyif",))


def algebra(R_):
    for p, mode in ((RBS, "sorted"), (HTS, "bag")):
        for f, w, sh in (("is_subset", zero("A"), True), ("is_superset", zero("D"), True), ("is_disjoint", zero("B"), zero("B"))):
            n = p + "::" + f
            R_.check(n, Case(mode, "ABD", unit=True), ("bool", w))
            R_.check(n, Case(mode, "B", shared=True, unit=True), ("bool", sh))


if __name__ == "__main__":
    import sys, common, mir, time
    P = mir.Prog(common.dump("all"))
    for f in (equality, ordering, hashing, algebra, formatting, identity):
        t = time.time()
        C = Relations(P)
        f(C)
        cnt = {}
        for r in C.results:
            cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
            if r.verdict != "ok":
                print("  ", str(r)[:300])
        print(f.__name__, round(time.time() - t, 2), cnt, C.missing, {k: (len(v) if isinstance(v, set) else v) for k, v in C.stats.items()})
