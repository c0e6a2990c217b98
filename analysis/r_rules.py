"""Rule checks over the call graph and control flow of the type-checked program: P18, P19, P21."""
from mir import sccs

# --------------------------------------------------------------------------------------------- CFG helpers

def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]] if t[4] is not None else []
    return []


def dominators(body):
    n = len(body["blocks"])
    preds = {i: [] for i in range(n)}
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succs(body["blocks"][r]["t"])))]
        seen.add(r)
        while st:
            v, it = st[-1]
            for w in it:
                preds[w].append(v)
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(succs(body["blocks"][w]["t"]))))
                    break
            else:
                order.append(v)
                st.pop()
    dfs(0)
    rpo = list(reversed(order))
    dom = {v: set(rpo) for v in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for v in rpo:
            if v == 0:
                continue
            ps = [dom[p] for p in preds[v] if p in seen]
            new = set.intersection(*ps) | {v} if ps else {v}
            if new != dom[v]:
                dom[v] = new
                ch = True
    return dom, seen


def back_edges(body):
    dom, seen = dominators(body)
    return [(v, w) for v in seen for w in succs(body["blocks"][v]["t"]) if w in seen and w in dom[v]]


def mentions(P, t, pred, seen=None):
    """Does type t mention (by value, reference, pointer or type argument) an ADT satisfying pred?"""
    seen = seen if seen is not None else set()
    if t in seen:
        return False
    seen.add(t)
    x = P.types[t]
    if x is None:
        return False
    k = x["k"]
    if k == "adt":
        if pred(x):
            return True
        if any(isinstance(a, int) and mentions(P, a, pred, seen) for a in x["a"]):
            return True
        return any(mentions(P, f["t"], pred, seen) for v in x.get("v", []) for f in v["f"])
    if k in ("tuple", "closure"):
        return any(isinstance(a, int) and mentions(P, a, pred, seen) for a in x["a"])
    if k in ("ref", "slice", "array", "ptr"):
        return mentions(P, x["t"], pred, seen)
    return False


def recursion_kind(P, adt_t):
    """How values of an ADT nest into each other: (single pointers, via containers)."""
    me = P.types[adt_t]["p"]
    singles, conts = 0, 0

    def hits(t, in_cont, seen):
        nonlocal singles, conts
        x = P.types[t]
        if x is None or (t, in_cont) in seen:
            return
        seen = seen | {(t, in_cont)}
        k = x["k"]
        if k == "adt":
            p = x["p"]
            if p == me:
                if in_cont:
                    conts += 1
                else:
                    singles += 1
                return
            if p.startswith(("alloc::vec::Vec", "smallvec::")):
                for a in x["a"]:
                    if isinstance(a, int):
                        hits(a, True, seen)
                return
            if p.startswith(("archery::", "triomphe::", "alloc::boxed", "alloc::rc", "alloc::sync", "core::option", "core::cell", "core::mem")):
                for a in x["a"]:
                    if isinstance(a, int):
                        hits(a, in_cont, seen)
                return
            if p.startswith("rpds::"):
                for v in x.get("v", []):
                    for f in v["f"]:
                        hits(f["t"], in_cont, seen)
        elif k == "tuple":
            for a in x["a"]:
                hits(a, in_cont, seen)
        elif k in ("slice", "array"):
            hits(x["t"], True, seen)
    for v in P.types[adt_t].get("v", []):
        for f in v["f"]:
            hits(f["t"], False, frozenset())
    return singles, conts


def shapes(P):
    """chain types (one successor, no container) and tree types of the crate."""
    chains, trees = {}, {}
    for a in P.items["adts"]:
        s, c = recursion_kind(P, a["t"])
        if s == 0 and c == 0:
            continue
        (chains if s == 1 and c == 0 else trees)[a["n"]] = a
    return chains, trees


# --------------------------------------------------------------------------------------------- P18

def fmt_edges(P):
    """Display/Debug bodies entered through `&dyn Debug`: local fmt impls of the ADTs a cast type mentions."""
    impls = {}
    for i, x in enumerate(P.insts):
        if x.get("root") and x["n"].endswith("as core::fmt::Debug>::fmt"):
            impls[x["n"][1:].split(" as ")[0]] = i
    out = {}
    for i, x in enumerate(P.insts):
        b = x.get("body")
        if not b or not x["n"].endswith("as core::fmt::Debug>::fmt") or not x.get("root"):
            continue
        tgt = set()
        for bb in b["blocks"]:
            for st in bb["s"]:
                if st[0] == "=" and st[2][0] == "cast" and "Unsize" in st[2][1]:
                    src = st[2][4]

                    def walk(t, seen):
                        y = P.types[t]
                        if y is None or t in seen:
                            return
                        seen.add(t)
                        if y["k"] == "adt":
                            if y["p"] in impls:
                                tgt.add(impls[y["p"]])
                                return
                            for a in y["a"]:
                                if isinstance(a, int):
                                    walk(a, seen)
                        elif y["k"] in ("ref", "slice", "array", "ptr"):
                            walk(y["t"], seen)
                        elif y["k"] == "tuple":
                            for a in y["a"]:
                                walk(a, seen)
                    walk(src, set())
        out[i] = tgt
    return out


def place_root_type(P, b, place):
    return b["locals"][place[0]]


def guarded_recursion(P, i, comp):
    """Typestate exception: every self-call sits in the arm of one variant of *self and is dominated by an
    assignment that moves *self to a different variant, so the recursion is at most one level deep."""
    b = P.body(i)
    if len(comp) != 1:
        return False
    dom, seen = dominators(b)
    rec = [k for k, c, a, t in P.calls(i) if c and c.get("i") == i]
    if not rec:
        return False
    arms = set()
    for k in rec:
        arm = None
        for d in dom.get(k, ()):
            t = b["blocks"][d]["t"]
            if t[0] != "switch":
                continue
            src = None
            for st in b["blocks"][d]["s"]:
                if st[0] == "=" and st[2][0] == "discr" and st[2][1][0] == 1 and st[2][1][1:] == ["*"] and t[1][1:] and t[1][1] == st[1]:
                    src = st
            if not src:
                continue
            for val, tgt in t[2]:
                if tgt in dom[k] and sum(1 for _, z in t[2] if z == tgt) == 1 and tgt != t[3]:
                    arm = int(val)
        if arm is None:
            return False
        moved = False
        for d in dom.get(k, ()):
            for st in b["blocks"][d]["s"]:
                if st[0] == "=" and st[1] == [1, "*"]:
                    rv = st[2]
                    v = None
                    if rv[0] == "agg" and rv[1] == "adt":
                        v = rv[2]
                    elif rv[0] == "use" and rv[1][0] in ("m", "c") and len(rv[1][1]) == 1:
                        defs = [s2[2] for bb in b["blocks"] for s2 in bb["s"] if s2[0] == "=" and s2[1] == rv[1][1]]
                        if len(defs) == 1 and defs[0][0] == "agg" and defs[0][1] == "adt":
                            v = defs[0][2]
                    if v is not None and v != arm:
                        moved = True
        if not moved:
            return False
        arms.add(arm)
    return len(arms) == 1


def p18_rules(P, rep):
    chains, trees = shapes(P)
    rep.info["chain-shaped storage types"] = len(chains)
    rep.info["tree-shaped storage types"] = len(trees)
    rep.floor("chain-shaped storage types", 1)
    rep.floor("tree-shaped storage types", 3)
    drops = {i["n"][1:].split(" as ")[0]: i for i in P.items["impls"] if i.get("trait") == "core::ops::drop::Drop"}
    for n, a in chains.items():
        rep.obligations += 1
        if n not in drops:
            rep.violate(f"P18:chain-drop:{n}", f"{a['span']}: values of {n} form a chain of unbounded length, but {n} has no Drop of its own: "
                        "whoever drops the last pointer to a node runs the compiler-generated drop, which recurses once per element")
        else:
            rep.discharged += 1
            rep.sample(f"{n}: chain-shaped, dropped by {drops[n]['n']}")
    tree_names = set(trees)
    fe = fmt_edges(P)
    local = [i for i, x in enumerate(P.insts) if x.get("local") and "body" in x]
    rep.info["functions in the call graph"] = len(local)
    rep.floor("functions in the call graph", 400)

    def succ(i):
        return list(P.callee_ids(i)) + sorted(fe.get(i, ()))
    seen = set()
    for comp in sccs(range(len(P.insts)), succ):
        selfloop = len(comp) > 1 or comp[0] in succ(comp[0])
        if not selfloop or not any(P.insts[i].get("local") for i in comp):
            continue
        rep.count("recursive groups of functions")
        rep.obligations += 1
        names = sorted(P.insts[i]["n"] for i in comp)

        def on_tree(i):
            b = P.body(i)
            if not b:
                return False
            return any(mentions(P, b["locals"][k], lambda x: x["p"] in tree_names) for k in range(1, b["argc"] + 1))
        if any(on_tree(i) for i in comp):
            rep.discharged += 1
            rep.sample("recursion on a tree type: " + ", ".join(names)[:150])
            continue
        if guarded_recursion(P, comp[0], comp):
            rep.discharged += 1
            rep.sample("recursion at most one level deep (typestate): " + names[0])
            continue
        # one report per root function in the group
        roots = sorted(set(P.insts[i]["n"] for i in comp if P.insts[i].get("root"))) or names
        head = roots[-1] if any("list::Node" in r for r in roots) and roots[-1].startswith("<rpds::list::Node") else roots[0]
        for r in roots:
            if "list::Node as core::fmt" in r:
                head = r
        rep.violate(f"P18:recursion:{head}", f"recursion that is not along a height-bounded tree: {', '.join(roots)}: stack use grows with the number of elements")
    rep.floor("recursive groups of functions", 10)


# --------------------------------------------------------------------------------------------- P19

CONST_OPS = {
    "rpds::list::List": ["new", "new_sync", "new_with_ptr_kind", "push_front", "push_front_mut", "drop_first", "drop_first_mut", "first", "last", "len", "is_empty", "iter"],
    "rpds::stack::Stack": ["new", "new_sync", "new_with_ptr_kind", "push", "push_mut", "pop", "pop_mut", "peek", "size", "is_empty", "iter"],
    "rpds::queue::Queue": ["new", "new_sync", "new_with_ptr_kind", "enqueue", "enqueue_mut", "peek", "len", "is_empty", "iter"],
    "rpds::vector::Vector": ["new", "new_sync", "new_with_ptr_kind", "new_with_bits", "len", "is_empty", "iter"],
    "rpds::map::hash_trie_map::HashTrieMap": ["new", "new_sync", "new_with_degree", "new_with_hasher_and_degree_and_ptr_kind", "size", "is_empty", "iter", "keys", "values"],
    "rpds::map::red_black_tree_map::RedBlackTreeMap": ["new", "new_sync", "new_with_ptr_kind", "size", "is_empty", "iter", "keys", "values", "range"],
    "rpds::set::hash_trie_set::HashTrieSet": ["new", "new_sync", "new_with_degree", "size", "is_empty", "iter"],
    "rpds::set::red_black_tree_set::RedBlackTreeSet": ["new", "new_sync", "new_with_ptr_kind", "size", "is_empty", "iter", "range"],
}
CONST_TRAIT = [("core::clone::Clone", "clone", None), ("core::default::Default", "default", None)]
CONST_EXTRA = ["<rpds::list::IterPtr as core::iter::traits::iterator::Iterator>::next", "<rpds::list::IterPtr as core::iter::traits::iterator::Iterator>::size_hint"]
LOG_OPS = {
    "rpds::map::red_black_tree_map::RedBlackTreeMap": ["insert", "insert_mut", "remove", "remove_mut", "get", "get_key_value", "get_mut", "contains_key", "first", "last"],
    "rpds::set::red_black_tree_set::RedBlackTreeSet": ["insert", "insert_mut", "remove", "remove_mut", "get", "contains", "first", "last"],
    "rpds::vector::Vector": ["get", "get_mut", "set", "set_mut", "push_back", "push_back_mut", "drop_last", "drop_last_mut", "first", "last"],
    "rpds::map::hash_trie_map::HashTrieMap": ["get", "get_key_value", "contains_key"],
    "rpds::set::hash_trie_set::HashTrieSet": ["get", "contains"],
}
# one path of the trie, but an insertion may push an old entry further down: only scans are looked for
SCAN_OPS = {
    "rpds::map::hash_trie_map::HashTrieMap": ["insert", "insert_mut", "remove", "remove_mut", "get_mut"],
    "rpds::set::hash_trie_set::HashTrieSet": ["insert", "insert_mut", "remove", "remove_mut"],
}
LINEAR_SUFFIX = ("::clone", "::extend", "::extend_from_slice", "::to_vec", "::collect", "::from_iter", "::fold", "::count", "::for_each", "::all", "::any", "::find",
                 "::position", "::sum", "::max", "::min", "::rev", "::eq", "::cmp", "::partial_cmp", "::resize", "::retain", "::drain", "::sort", "::concat", "::append",
                 "::insert", "::remove", "::reverse", "::contains", "::from_elem", "::try_fold", "::nth", "::last")
LINEAR_CRATES = ("alloc::vec::", "alloc::slice::", "[T]::", "<[", "<alloc::vec::Vec", "smallvec::", "<smallvec::", "alloc::collections", "alloc::vec::Vec", "core::slice::")


def linear_extern(n):
    if not n.startswith(LINEAR_CRATES):
        return False
    tail = "::" + n.rsplit("::", 1)[-1]
    return tail in LINEAR_SUFFIX and not n.endswith(("Vec::last", "[T]::last"))


def linear_sites(P, i, seen):
    """(instance, description, line) of anything in i's own body that may take more than constant time."""
    x = P.insts[i]
    b = x.get("body")
    if not b:
        return
    for v, w in back_edges(b):
        yield "loop", P.line(i, b["blocks"][v]["t"])
    for k, c, a, t in P.calls(i):
        if c and "i" not in c and linear_extern(c["n"]):
            yield f"call of {c['n']}", P.line(i, t)


CONSUMING = {"find", "find_map", "all", "any", "nth", "nth_back", "last", "count", "fold", "rfold", "try_fold", "try_rfold", "position", "rposition", "max", "min", "max_by", "min_by",
             "max_by_key", "min_by_key", "sum", "product", "collect", "for_each", "try_for_each", "eq", "cmp", "partial_cmp", "rfind", "reduce", "partition", "unzip", "is_sorted"}
STEPS = {"next", "next_back", "next_forward", "next_backward"}


def whole_iterator(P, t):
    """The iterator of a collection of this crate (its collision lists and its children arrays aside)."""
    s = P.types[t]["s"] if isinstance(t, int) and P.types[t] else ""
    if "EntryWithHash" in s:
        return None
    for m in ("list::IterPtr", "queue::LazilyReversedListIter", "vector::IterPtr", "hash_trie_map::IterPtr", "red_black_tree_map::IterPtr", "red_black_tree_map::RangeIterPtr"):
        if m in s:
            return m
    return None


def iterator_scans(P, i):
    for k, c, a, t in P.calls(i):
        if c and c["n"].rsplit("::", 1)[-1] in CONSUMING and "iter::" in c["n"]:
            for q in c.get("a", [])[:1]:
                m = whole_iterator(P, q)
                if m:
                    yield "%s over the whole collection (%s)" % (c["n"].rsplit("::", 1)[-1], m), P.line(i, t)


def loop_blocks(b, v, w):
    pred = {}
    for k, bb in enumerate(b["blocks"]):
        for z in succs(bb["t"]):
            pred.setdefault(z, []).append(k)
    seen, st = {w, v}, [v]
    while st:
        x = st.pop()
        if x == w:
            continue
        for y in pred.get(x, []):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def loop_scans(P, i, v, w):
    """What this loop runs over, if that is the elements of a collection; None where it may be bounded by the height or the degree."""
    b = P.body(i)
    blocks = loop_blocks(b, v, w)
    chain = False
    for k in sorted(blocks):
        bb = b["blocks"][k]
        t = bb["t"]
        if t[0] == "call" and t[1][0] == "fn":
            c = t[1][2]
            if c["n"].rsplit("::", 1)[-1] in STEPS:
                for q in c.get("a", [])[:1]:
                    m = whole_iterator(P, q)
                    if m:
                        return "a loop over the whole collection (%s)" % m
            if c["n"].startswith(("rpds::list::List::", "rpds::stack::Stack::", "rpds::queue::Queue::")) and c["n"].rsplit("::", 1)[-1] in ("drop_first", "drop_first_mut", "pop", "pop_mut", "dequeue", "dequeue_mut"):
                if not any(isinstance(q, int) and P.types[q] and "EntryWithHash" in P.types[q]["s"] for q in c.get("a", [])):
                    return "a loop that takes a sequence apart"
    return None


def elem_clone(P, i):
    """Calls of Clone on a bare type parameter (element copies) and on containers of them."""
    for k, c, a, t in P.calls(i):
        if c and c["n"] in ("core::clone::Clone::clone", "core::clone::Clone::clone_from") and c.get("a"):
            ty = P.types[c["a"][0]] if isinstance(c["a"][0], int) else None
            if ty and ty["k"] == "param":
                yield ty["s"], P.line(i, t)


def local_reach(P, i):
    return sorted(P.reach(i))


def p19_rules(P, rep):
    names = []
    for h, ops in CONST_OPS.items():
        names += [(f"{h}::{o}", h) for o in ops]
        for tr, m, _ in CONST_TRAIT:
            names.append((f"<{h} as {tr}>::{m}", h))
        names.append((f"<&{h} as core::iter::traits::collect::IntoIterator>::into_iter", h))
    names += [(n, None) for n in CONST_EXTRA]
    missing = []
    for n, h in names:
        x = P.root(n)
        if x is None:
            missing.append(n)
            continue
        rep.count("constant-time operations")
        rep.obligations += 1
        bad = []
        reach = local_reach(P, x["id"])
        comps = [c for c in sccs(reach, P.callee_ids) if len(c) > 1 or c[0] in P.callee_ids(c[0])]
        for c in comps:
            bad.append((f"recursion through {P.insts[c[0]]['n']}", P.insts[c[0]]["span"]))
        for j in reach:
            for what, where in linear_sites(P, j, None):
                bad.append((f"{what} in {P.insts[j]['n']}", where))
        if bad:
            w = "; ".join(f"{a} ({b})" for a, b in bad[:4])
            rep.violate(f"P19:const:{n}", f"{x['span']}: {n} is documented as constant time but reaches {w}")
        else:
            rep.discharged += 1
    for h, ops in list(LOG_OPS.items()) + list(SCAN_OPS.items()):
        full = LOG_OPS.get(h) is ops
        for o in ops:
            n = f"{h}::{o}"
            x = P.root(n)
            if x is None:
                missing.append(n)
                continue
            rep.count("logarithmic operations")
            rep.obligations += 1
            bad = []
            reach = local_reach(P, x["id"])
            comp_of = {}
            for c in sccs(reach, P.callee_ids):
                if len(c) > 1 or c[0] in P.callee_ids(c[0]):
                    for j in c:
                        comp_of[j] = c[0]
            for j in reach:
                y = P.insts[j]
                b = y.get("body")
                if not b or not (y.get("local")):
                    continue
                for v, w in back_edges(b):
                    rep.count("loops in logarithmic operations")
                    k = loop_scans(P, j, v, w)
                    if k:
                        bad.append((k, P.line(j, b["blocks"][v]["t"])))
                    elif full:
                        rep.note_unknown("%s: a loop in %s is not known to be bounded by the height" % (n, y["n"]))
                bad += list(iterator_scans(P, j))
                if j in comp_of and full:
                    m = max_calls_on_path(P, j, comp_of)
                    if m > 1:
                        bad.append((f"more than one recursive call on a path of {y['n']}", y["span"]))
                for k, c, a, t in P.calls(j):
                    if full and c and "i" not in c and linear_extern(c["n"]) and not bounded_by_degree(c["n"], y["n"]):
                        bad.append((f"call of {c['n']}", P.line(j, t)))
                # entering another collection's iterator is a scan
            if bad:
                w = "; ".join(f"{a} ({b})" for a, b in sorted(set(bad))[:4])
                rep.violate(f"P19:log:{n}", f"{x['span']}: {n} is documented to follow one path of the tree but reaches {w}")
            else:
                rep.discharged += 1
    for n in missing:
        rep.note_unknown(f"{n}: no such operation in the tree")
    # element copies: only mutable element access may need Clone elements
    for f in P.exported():
        nm = f["n"].rsplit("::", 1)[-1]
        x = P.root(f["n"])
        if x is None or nm in ("get_mut", "index_mut", "first_mut"):
            continue
        if x["env"] is not None and P.d["envs"][x["env"]]:
            rep.count("public functions checked for element-copy bounds")
            params = {p["s"] for t in f["in"] for p in elem_params(P, t)}
            for pred in P.d["envs"][x["env"]]:
                if pred.endswith(": std::clone::Clone") and pred.split(":")[0] in params and pred.split(":")[0] in ("T", "K", "V"):
                    rep.violate(f"P19:elem-clone:{f['n']}", f"{f['span']}: {f['n']} requires `{pred}`: a persistent operation that copies elements")
    for i, x in enumerate(P.insts):
        if not x.get("local") or "body" not in x:
            continue
        if any(s in x["n"] for s in ("get_mut", "index_mut", "first_mut", "value_mut", "make_mut", "entry::Entry as core::clone", "list_remove_first")):
            continue
        for ty, where in elem_clone(P, i):
            if ty in ("K", "V", "T"):
                env = x.get("env")
                rep.count("element clones")
                if x.get("root"):
                    rep.violate(f"P19:elem-copy:{x['n']}", f"{where}: {x['n']} clones an element of type {ty}")
    rep.floor("constant-time operations", 80)
    rep.floor("logarithmic operations", 25)


def elem_params(P, t):
    out, st, seen = [], [t], set()
    while st:
        y = st.pop()
        if y in seen or P.types[y] is None:
            continue
        seen.add(y)
        x = P.types[y]
        if x["k"] == "param":
            out.append(x)
        elif x["k"] == "adt":
            st += [a for a in x["a"] if isinstance(a, int)]
        elif x["k"] in ("ref", "ptr", "slice", "array"):
            st.append(x["t"])
        elif x["k"] == "tuple":
            st += x["a"]
    return out


def bounded_by_degree(callee, fn):
    """Copying one trie node's child array: at most `degree` entries, counted as one step of the path."""
    return "Node as core::clone::Clone" in fn or "SparseArrayUsize" in fn


def max_calls_on_path(P, i, comp_of):
    """Largest number of calls into i's own recursive group on any acyclic path of i (closures it builds included once)."""
    b = P.body(i)
    own = comp_of[i]
    memo = {}

    def weight(t):
        n = 0
        if t[0] == "call" and t[1][0] == "fn":
            c = t[1][2]
            if "i" in c and comp_of.get(c["i"]) == own:
                n += 1
            elif any(isinstance(a, int) and P.types[a] and P.types[a]["k"] == "closure" for a in c.get("a", [])):
                n += 0
        return n

    def closure_weight(bb):
        n = 0
        for st in bb["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure" and isinstance(st[2][5], int) and comp_of.get(st[2][5]) == own:
                n += 1
        return n

    def go(v, path):
        if v in memo:
            return memo[v]
        if v in path:
            return 0
        bb = b["blocks"][v]
        t = bb["t"]
        best = 0
        for w in succs(t):
            best = max(best, go(w, path | {v}))
        memo[v] = best + (0 if direct_adapter(t) else weight(t)) + closure_weight(bb)
        return memo[v]

    def direct_adapter(t):
        # a call such as Option::and_then whose recursion is the closure it was given (already counted)
        if t[0] == "call" and t[1][0] == "fn":
            c = t[1][2]
            return "i" in c and not P.insts[c["i"]].get("local")
        return False
    return go(0, frozenset())
