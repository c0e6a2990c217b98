"""Draining an iterator: a synthetic loop that calls the resolved step function, collects what it yields and
asks for the announced remaining length before every step."""
from eng import *
from engx import *
import engx, engnat


def drain_inst(E, steps, back=False, hint=True):
    key = ("drain", steps["fn"], back, hint)
    memo = E.P.__dict__.setdefault("_synth", {})
    if key in memo:
        return memo[key]
    nxt = steps["next_back" if back else "next"]
    if "i" not in nxt or not E.P.insts[nxt["i"]].get("body"):
        raise Unknown("step function of %s has no body" % steps["fn"])
    optty = E.P.insts[nxt["i"]]["body"]["locals"][0]
    item = E.T[optty]["a"][0]
    sh = steps.get("size_hint")
    ln = steps.get("len")
    N = 0

    def fn(d):
        return ["fn", 0, d]
    B_ = []

    def blk(stmts, term):
        B_.append(dict(s=stmts, t=term, c=False))
    # locals: 0 ret, 1 &mut it, 2 &mut vec, 3 option, 4 discr, 5 unit, 6 hint, 7 total, 8 len
    blk([], ["goto", 1])
    nb = 1
    if hint and sh is not None and "i" in sh and E.P.insts[sh["i"]].get("body"):
        blk([], ["call", fn(sh), [["c", [1]]], [6], 2, None, 0])
        nxtb = 2
        if ln is not None and "i" in ln and E.P.insts[ln["i"]].get("body"):
            blk([], ["call", fn(ln), [["c", [1]]], [8], 3, None, 0])
            blk([], ["call", fn({"n": "verif::check_hint", "a": []}), [["c", [6]], ["c", [8]], ["c", [7]], ["c", [2]]], [5], 4, None, 0])
        else:
            blk([], ["goto", 3])
            blk([], ["call", fn({"n": "verif::check_hint", "a": []}), [["c", [6]], ["c", [6]], ["c", [7]], ["c", [2]]], [5], 4, None, 0])
        b = 4
    else:
        b = 1
    blk([], ["call", fn(nxt), [["c", [1]]], [3], b + 1, None, 0])
    blk([["=", [4], ["discr", [3], optty], 0]], ["switch", ["c", [4]], [[0, b + 3]], b + 2, 0])
    blk([], ["call", fn({"n": "alloc::vec::Vec::push", "a": [item]}), [["c", [2]], ["m", [3, ["v", 1], ["f", 0, item]]]], [5], 1, None, 0])
    blk([], ["ret", 0])
    inst = dict(n="verif::drain(%s)" % steps["fn"], full="drain", a=[], env=0, crate="verif", root=False, kind="item", span="verif:0",
                id=len(E.P.insts), body=dict(argc=3, spread=None, locals=[0, 0, 0, optty, 0, 0, 0, 0, 0], blocks=B_, names={}))
    # argc 3: iterator, vector, total (kept in local 7)
    E.P.insts.append(inst)
    memo[key] = (inst["id"], optty)
    return memo[key]


def steps_of(P, fn):
    for x in P.d["steps"]:
        if x["fn"] == fn:
            return x
    return None


def drain(E, st, it, steps, total, back=False, hint=True):
    """Outcomes (st, kind, collected segs)."""
    i, optty = drain_inst(E, steps, back, hint)
    fr = E.fresh()
    st.cells[("drain", 0)] = it
    st.cells[("drain", 1)] = ("q", (), None)
    st.cells[(fr, 1)] = ("m", ("drain", 0), ())
    st.cells[(fr, 2)] = ("m", ("drain", 1), ())
    st.cells[(fr, 7)] = I(total)
    E.stack.append(i)
    try:
        outs = E.run(st, i, fr, 0, None)
    finally:
        E.stack.pop()
    return outs


@engnat.nat("verif::check_hint")
def check_hint(E, st, c):
    h = E.force(st, c.args[0])
    ln = E.force(st, c.args[1])
    total = E.intof(st, c.args[2])
    q = engnat.seqof(E, st, c.args[3])
    want = ladd(total, st.length(q[1]), -1)
    rec = E.hooks.setdefault("hints", [])

    def cmp(v, what):
        import spec
        r = spec.check_int(E, st, v, want)
        rec.append((what, r, "announced %s, remaining %s" % (spec.showlin(st.nlin(v)), spec.showlin(st.nlin(want)))))
    if h[0] == "a" and len(h[3]) == 2:
        cmp(E.intof(st, h[3][0]), "lower bound")
        u = E.force(st, h[3][1])
        if u[2] == 1:
            cmp(E.intof(st, u[3][0]), "upper bound")
    if ln[0] == "i":
        cmp(ln[1], "len")
    return UNIT
