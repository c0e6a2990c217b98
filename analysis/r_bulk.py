"""P23 (bulk construction, macros) and P16 (serde)."""
import json, os, shutil
import common, mir
from common import CheckError, BUILD, REPO, sh
from eng import *
from spec import *
import spec, opspec, engnat
from r_model import feed
import r_witness

KINDS = {
    # macro: (type, elements per item, expected order)
    "list": ("rpds::List<T>", 1), "list_sync": ("rpds::ListSync<T>", 1),
    "stack": ("rpds::Stack<T>", 1), "stack_sync": ("rpds::StackSync<T>", 1),
    "queue": ("rpds::Queue<T>", 1), "queue_sync": ("rpds::QueueSync<T>", 1),
    "vector": ("rpds::Vector<T>", 1), "vector_sync": ("rpds::VectorSync<T>", 1),
    "rbt_set": ("rpds::RedBlackTreeSet<T>", 1), "rbt_set_sync": ("rpds::RedBlackTreeSetSync<T>", 1),
    "ht_set": ("rpds::HashTrieSet<T>", 1), "ht_set_sync": ("rpds::HashTrieSetSync<T>", 1),
    "rbt_map": ("rpds::RedBlackTreeMap<T, T>", 2), "rbt_map_sync": ("rpds::RedBlackTreeMapSync<T, T>", 2),
    "ht_map": ("rpds::HashTrieMap<T, T>", 2), "ht_map_sync": ("rpds::HashTrieMapSync<T, T>", 2),
}
COUNTS = (0, 1, 2, 3, 5)


def witness_source():
    src, where = "// one function per macro and argument count; nothing is imported\n", {}
    line = 2
    for m, (ty, ar) in KINDS.items():
        for n in COUNTS:
            if ar == 1:
                a = ", ".join("f(%d)" % k for k in range(n))
            else:
                a = ", ".join("f(%d) => f(%d)" % (2 * k, 2 * k + 1) for k in range(n))
            src += "pub fn %s_%d<T: Clone + Eq + Ord + std::hash::Hash, F: FnMut(usize) -> T>(mut f: F) -> %s { let _ = &mut f; rpds::%s![%s] }\n" % (m, n, ty, m, a)
            where[line] = (m, n)
            line += 1
    return src, where


def wit_dump(name, src, deps):
    """Type-check a client crate against /repo and load its dump; compile errors are returned instead."""
    errs = r_witness.cargo_check(name, src, deps)
    if errs:
        return errs, None
    dh = common.build_driver()
    d = os.path.join(BUILD, "wit-" + name)
    out = os.path.join(BUILD, "dump-wit-%s.json" % name)
    if os.path.exists(out):
        os.remove(out)
    import time
    env = {"MIRDUMP_CRATE": "wit_" + name, "MIRDUMP_OUT": out, "RUSTC_WORKSPACE_WRAPPER": common.DRIVER,
           "LD_LIBRARY_PATH": common.nightly_lib(), "CARGO_INCREMENTAL": "0"}
    rc, o, err = sh(["cargo", "+nightly", "rustc", "--lib", "--offline", "--target-dir", os.path.join(BUILD, "t-witd"),
                     "--", "--cfg", 'verif_nonce="%d"' % time.time_ns()], cwd=d, env=env)
    if rc != 0 or not os.path.exists(out):
        raise CheckError("could not dump the witness: " + err[-2000:])
    with open(out) as f:
        return [], mir.Prog(json.load(f))


def engine_with_calls(P, **kw):
    E = opspec.op_engine(P, **kw)

    def call_mut(E, st, c):
        f = E.force(st, c.args[0])
        tup = E.force(st, c.args[1])
        k = st.nlin(E.intof(st, tup[3][0]))
        st.trace = st.trace + (("eval", k[0]),)
        return ("t", ("arg", k[0]))
    E.natives["core::ops::function::FnMut::call_mut"] = call_mut
    return E


def macros(rep):
    deps = 'rpds = { path = "%s" }' % REPO
    src, where = witness_source()
    errs, P = wit_dump("p23", src, deps)
    rep.count("macro_invocations", len(where))
    if errs:
        for ls, msg, code in errs:
            hit = {where[l] for l in ls if l in where}
            if not hit:
                raise CheckError("P23 witness: " + msg)
            for m, n in hit:
                rep.obligations += 1
                rep.violate("macro:%s:compiles" % m, "%s! with %d arguments does not compile in a program that imports nothing else: %s" % (m, n, msg))
        return
    rep.ok(len(where))
    for m, (ty, ar) in KINDS.items():
        for n in COUNTS:
            name = "wit_p23::%s_%d" % (m, n)

            def want(c, m=m, n=n, ar=ar):
                es = [("e", ("t", ("arg", k))) for k in range(n * ar)]
                if ar == 2:
                    es = [("e", opspec.pair(es[2 * k][1], es[2 * k + 1][1])) for k in range(n)]
                if m.startswith("stack"):
                    es = es[::-1]

                def custom(E, q, v, args, out):
                    got = tuple(e[1] for e in q.trace if e[0] == "eval")
                    out.append(("eval", "ok" if got == tuple(range(n * ar)) else "bad", "evaluates its argument expressions in the order %s" % (got,)))
                return dict(ret=("view", tuple(es)), custom=custom)
            H = Harness(P, engine_with_calls)
            H.spec(name, want)
            H.run()
            for r in H.results:
                r.fn = m + "!"
            H.missing = [m + "!" for _ in H.missing]
            feed(rep, H)


def p23(P, rep):
    best = None
    for o in (1, 0):
        H = Harness(P, opspec.op_engine, queue_order=o)
        opspec.bulk_specs(H)
        H.run()
        b = sum(r.verdict == "bad" for r in H.results)
        if best is None or b < best[0]:
            best = (b, H)
    feed(rep, best[1])
    rep.floor("functions", 8)
    macros(rep)
    rep.floor("macro_invocations", 60)


def p16(P, rep):
    best = None
    for o in (1, 0):
        H = Harness(P, opspec.op_engine, queue_order=o)
        opspec.serde_specs(H)
        H.run()
        b = sum(r.verdict == "bad" for r in H.results)
        if best is None or b < best[0]:
            best = (b, H)
    feed(rep, best[1])
    rep.floor("functions", 20)


def p21(P, rep):
    """Every allocation reached while collecting, extending or deserialising: what sizes it?"""
    sites = {}
    for specs in (opspec.bulk_specs, opspec.serde_specs):
        H = Harness(P, opspec.op_engine, queue_order=1)
        specs(H)
        H.run()
        for where, fn, ok, line in H.allocs:
            sites.setdefault((where, fn), []).append((ok, line))
        done = {r.fn for r in H.results}
        for r in H.results:
            if r.verdict == "unk" and r.aspect == "all":
                rep.note_unknown("%s: %s" % (r.fn, r.msg))
            if r.aspect == "panic" and r.verdict == "bad":
                rep.violate("panic:" + r.fn, "building a collection panics: " + r.msg)
        rep.count("functions", len(done))
        rep.ok(len(done - {r.fn for r in H.results if r.verdict != "ok"}))
        rep.count("paths", H.stats["paths"])
    for (where, fn), oks in sorted(sites.items()):
        rep.count("allocation_sites")
        if any(o is False for o, _ in oks):
            rep.obligations += 1
            rep.violate("alloc:%s:%s" % (where, fn.rsplit("::", 1)[1]), "%s (line %s) passes a length the source merely claims to %s, without bounding it by a constant or by the elements delivered" % (where, oks[0][1], fn))
        elif any(o is None for o, _ in oks):
            rep.note_unknown("%s: %s" % (where, fn))
        else:
            rep.ok()
            rep.sample("%s sizes %s" % (where, fn))
    rep.floor("functions", 25)
    rep.floor("allocation_sites", 1)
    control(rep)


FIXTURE = """pub fn upper<I: Iterator<Item = u8>>(it: I) -> Vec<u8> { let (_, hi) = it.size_hint(); let mut v = Vec::with_capacity(hi.unwrap_or(0)); for x in it { v.push(x); } v }
pub fn capped<I: Iterator<Item = u8>>(it: I) -> Vec<u8> { let (_, hi) = it.size_hint(); let mut v = Vec::with_capacity(hi.unwrap_or(0).min(1024)); for x in it { v.push(x); } v }
"""


def control(rep):
    """The rule can fire: a fixture that trusts the upper bound, and its capped twin."""
    errs, P = wit_dump("p21", FIXTURE, "")
    if errs:
        raise CheckError("P21 fixture does not compile")
    for name, want in (("upper", True), ("capped", False)):
        E = spec.engine(P)
        E.hooks["alloc"] = []
        st = St()
        x = P.root("wit_p21::" + name)
        E.kinds["U"] = x["body"]["locals"][1]
        E.call_inst(st, x["id"], [("it", (("s", "U"),), None, "user")])
        fired = any(o is False for _, _, o, _ in E.hooks["alloc"])
        if fired != want:
            raise CheckError("P21 control %s: %s" % (name, E.hooks["alloc"]))
    rep.count("control_fixtures", 2)
