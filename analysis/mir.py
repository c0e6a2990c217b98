"""View of the dumped program: instances, bodies, types, call graph."""


NEW_BOX, INTO_VEC = "alloc::boxed::Box::new_uninit", "alloc::boxed::box_assume_init_into_vec_unsafe"


def unbox_macros(body):
    """`vec![a, b]` writes an array through a fresh, uninitialised box.  Read it as the array it builds: the box is that
    array, from its write to its conversion into a vector."""
    blocks = body["blocks"]
    if not any(bb["t"][0] == "call" and bb["t"][1][0] == "fn" and bb["t"][1][2]["n"] == INTO_VEC for bb in blocks):
        return
    raw, boxes = {}, set()
    for bb in blocks:
        for st in bb["s"]:
            if st[0] == "=" and st[2][0] == "cast" and st[2][1] == "BoxDerefTransmute" and len(st[1]) == 1 and st[2][2][0] == "c":
                raw.setdefault(st[1][0], set()).add(st[2][2][1][0])
    fresh = {bb["t"][3][0] for bb in blocks if bb["t"][0] == "call" and bb["t"][1][0] == "fn" and bb["t"][1][2]["n"] == NEW_BOX
             and len(bb["t"][3]) == 1}
    raw = {r: next(iter(b)) for r, b in raw.items() if len(b) == 1 and b <= fresh}
    arr = {}
    for bb in blocks:
        for st in bb["s"]:
            if st[0] == "=" and st[1][0] in raw and len(st[1]) > 1:
                if st[1][1] == "*" and all(e[0] == "f" for e in st[1][2:]) and st[2][0] == "agg" and st[2][1] == "array":
                    arr.setdefault(st[1][0], []).append(st)
                else:
                    arr.setdefault(st[1][0], []).append(None)
    done = set()
    for r, sts in arr.items():
        if len(sts) == 1 and sts[0] is not None:
            b = raw[r]
            body["locals"][b] = sts[0][2][3]
            sts[0][1] = [b]
            done.add(r)
            boxes.add(b)
    if not done:
        return
    for bb in blocks:
        bb["s"] = [st for st in bb["s"] if not (st[0] == "=" and len(st[1]) == 1 and st[1][0] in done
                                                and st[2][0] == "cast" and st[2][1] == "BoxDerefTransmute")]
        for st in bb["s"]:
            if st[0] == "=" and len(st[1]) == 1 and st[2][0] == "use" and st[2][1][0] == "m" and st[2][1][1][0] in boxes and len(st[2][1][1]) == 1:
                body["locals"][st[1][0]] = body["locals"][st[2][1][1][0]]
        t = bb["t"]
        if t[0] == "call" and t[1][0] == "fn" and t[1][2]["n"] == NEW_BOX and t[3][0] in boxes:
            bb["t"] = ["goto", t[4], t[-1]]


def succs(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x for _, x in t[2]] + [t[3]]
    if t[0] == "drop":
        return [t[2]]
    if t[0] in ("call", "assert"):
        return [] if t[4] is None else [t[4]]
    return []


def natural(blocks):
    """Natural loops of a body: head -> blocks."""
    color, back = {0: 1}, []
    st = [(0, iter(succs(blocks[0]["t"])))]
    while st:
        v, it = st[-1]
        for w in it:
            if color.get(w) == 1:
                back.append((v, w))
            elif w not in color:
                color[w] = 1
                st.append((w, iter(succs(blocks[w]["t"]))))
                break
        else:
            color[v] = 2
            st.pop()
    if not back:
        return {}
    pred = {}
    for v in color:
        for w in succs(blocks[v]["t"]):
            pred.setdefault(w, []).append(v)
    loops = {}
    for v, h in back:
        body = loops.setdefault(h, {h})
        wl = [v]
        while wl:
            x = wl.pop()
            if x not in body:
                body.add(x)
                wl += pred.get(x, [])
    return loops


class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.insts = d["instances"]
        self.items = d["items"]
        self.consts = d["consts"]
        self.roots = d["roots"]
        self.by_name = {}
        for k, x in enumerate(self.insts):
            x["id"] = k
            if x.get("root"):
                self.by_name.setdefault(x["n"], []).append(k)
        self._calls = {}
        self._reach = {}
        for x in self.insts:
            if x["crate"] == "rpds" and x.get("body"):
                unbox_macros(x["body"])
        self.descents = 0
        for x in list(self.insts):
            if x["crate"] == "rpds" and x.get("body") and x["kind"] == "item":
                self.descend(x)

    # ---- loops that walk down a tree, read as the tail recursion they are
    def node_under(self, t, depth=0):
        """The tree node a borrowed type points at (through options and shared pointers), if any."""
        x = self.types[t]
        if depth > 4:
            return None
        if x["k"] == "ref":
            return self.node_under(x["t"], depth + 1)
        if x["k"] == "adt":
            if x["p"] in ("core::option::Option", "archery::shared_pointer::SharedPointer"):
                return self.node_under(x["a"][0], depth + 1)
            return x["p"] if self.branching(t) else None
        return None

    def borrowed_node(self, t):
        x = self.types[t]
        while x["k"] == "adt" and x["p"] == "core::option::Option":
            x = self.types[x["a"][0]]
        return x["k"] == "ref" and self.node_under(x["t"]) is not None

    def branching(self, t):
        """A type of the crate that holds more than one of itself (a list holds one)."""
        memo = self.__dict__.setdefault("_branching", {})
        if t in memo:
            return memo[t]
        memo[t] = False
        x = self.types[t]
        if not x["p"].startswith("rpds::") or "v" not in x:
            return False
        me = x["p"]

        def mentions(u, plain, seen):
            """0 none, 1 as Option<SharedPointer<Self>>, 2 within something else."""
            y = self.types[u]
            if y["k"] == "adt":
                if y["p"] == me:
                    return 1 if plain else 2
                if u in seen:
                    return 0
                ok = y["p"] in ("core::option::Option", "archery::shared_pointer::SharedPointer", "alloc::boxed::Box")
                r = max([mentions(z, plain and ok, seen | {u}) for z in y["a"] if isinstance(z, int)] or [0])
                return r
            return 0
        n = [mentions(f["t"], True, set()) for v in x["v"] for f in v["f"]]
        memo[t] = 2 in n or sum(k == 1 for k in n) > 1
        return memo[t]

    def descend(self, x):
        for _ in range(6):
            y = self.descend1(x)
            if y is None:
                return
            self.descend(y)

    def descend1(self, x):
        import copy
        from engloop import liveness
        body = x["body"]
        blocks = body["blocks"]
        loops = natural(blocks)
        if not loops:
            return None
        lv = None
        for h, inside in sorted(loops.items()):
            if h == 0 or blocks[h]["t"][0] == "call" and blocks[h]["t"][1][0] == "fn" and "::{descent" in blocks[h]["t"][1][2]["n"]:
                continue
            if lv is None:
                lv = liveness(body)
            L = sorted(lv[h] - {0})
            if 0 in lv[h]:
                continue
            moved = set()
            bad = False
            for k in inside:
                for st in blocks[k]["s"]:
                    if st[0] == "=" and len(st[1]) == 1:
                        moved.add(st[1][0])
                t = blocks[k]["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    moved.add(t[3][0])
            if not any(v in moved and self.borrowed_node(body["locals"][v]) for v in L):
                continue
            # no location that survives an iteration may be borrowed mutably
            for bb in blocks:
                if bb["c"]:
                    continue
                for st in bb["s"]:
                    if st[0] == "=" and st[2][0] in ("&mut", "raw") and st[2][1][0] in L and "*" not in st[2][1]:
                        bad = True
            argc = body["argc"]
            if bad or body.get("spread") or len(L) > argc:
                continue
            k = len(L)
            pos = {p: p for p in L if p <= k}
            rest = [l for l in L if l > k]
            free = [p for p in range(1, k + 1) if p not in pos]
            if len(rest) != len(free):
                continue
            pos.update(zip(free, rest))
            name = "%s::{descent%d}" % (x["n"], self.descents)
            self.descents += 1
            nb = copy.deepcopy(body)
            for p in free:
                nb["locals"][p] = body["locals"][pos[p]]
            nb["argc"] = k
            line = blocks[h]["t"][-1]
            y = dict(x, n=name, full=name, root=False, id=len(self.insts), body=nb)
            for f in ("trait_item", "in_trait", "impl_head", "local"):
                y.pop(f, None)
            self.insts.append(y)
            call = ["call", ["fn", 0, {"n": name, "a": [], "i": y["id"]}]]
            # the function itself: enter the descent, return what it returns
            blocks.append(dict(s=[], t=["ret", line], c=False))
            blocks[h] = dict(s=[], t=call + [[["c", [pos[p]]] for p in range(1, k + 1)], [0], len(blocks) - 1, None, line], c=False)
            # the descent: the loop and what follows it
            nblocks = nb["blocks"]
            first = nblocks[h]
            nblocks.append(first)
            nblocks[0] = dict(s=[["=", [pos[p]], ["use", ["c", [p]]], line] for p in free], t=["goto", len(nblocks) - 1, line], c=False)
            nblocks.append(dict(s=[], t=["ret", line], c=False))
            nblocks[h] = dict(s=[], t=call + [[["c", [pos[p]]] for p in range(1, k + 1)], [0], len(nblocks) - 1, None, line], c=False)
            return y
        return None

    def root(self, name):
        r = self.by_name.get(name)
        return self.insts[r[0]] if r else None

    def tstr(self, t):
        return self.types[t]["s"]

    def is_adt(self, t, path):
        x = self.types[t]
        return x["k"] == "adt" and x["p"] == path

    def body(self, i):
        return self.insts[i].get("body")

    def terms(self, i, cleanup=False):
        b = self.body(i)
        if not b:
            return
        for k, bb in enumerate(b["blocks"]):
            if bb["c"] and not cleanup:
                continue
            yield k, bb["t"]

    def calls(self, i, cleanup=False):
        """(block, callee descriptor, args, term) of every call terminator."""
        for k, t in self.terms(i, cleanup):
            if t[0] == "call":
                f = t[1]
                yield k, (f[2] if f[0] == "fn" else None), t[2], t

    def callee_ids(self, i):
        """Instances a body may enter: direct callees and closures/fn items it creates."""
        if i in self._calls:
            return self._calls[i]
        out = []
        b = self.body(i)
        x = self.insts[i]
        if "closure" in x:
            out.append(x["closure"])
        if b:
            def walk(o):
                if isinstance(o, list):
                    if o and o[0] == "fn" and len(o) == 3 and isinstance(o[2], dict):
                        if "i" in o[2]:
                            out.append(o[2]["i"])
                        return
                    if o and o[0] == "agg" and o[1] == "closure" and isinstance(o[5], int):
                        out.append(o[5])
                    if o and o[0] == "cast" and len(o) > 5 and isinstance(o[5], int):
                        out.append(o[5])
                    for e in o:
                        walk(e)
            for bb in b["blocks"]:
                if bb["c"]:
                    continue
                walk(bb["s"])
                walk(bb["t"])
        self._calls[i] = sorted(set(out))
        return self._calls[i]

    def reach(self, i):
        if i in self._reach:
            return self._reach[i]
        seen, st = {i}, [i]
        while st:
            x = st.pop()
            for y in self.callee_ids(x):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self._reach[i] = seen
        return seen

    def line(self, i, term):
        sp = self.insts[i]["span"].rsplit(":", 1)[0]
        return f"{sp}:{term[-1]}"

    def exported(self):
        return [f for f in self.items["fns"] if f["exported"]]


def sccs(nodes, succ):
    """Tarjan, iterative. Returns list of components (lists)."""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out
