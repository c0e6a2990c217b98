"""P02: auto-trait witnesses. A crate of type-level queries is type-checked against /repo; every
query is one function whose body compiles exactly when the expected Send/Sync fact holds."""
import json, os, shutil
import common
from common import CheckError, BUILD, REPO, sh

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_variables, clippy::all)]
extern crate alloc;
use core::cell::Cell;
use core::cmp::Ordering;
use core::hash::{BuildHasher, Hash, Hasher};
use core::marker::PhantomData;
use rpds::*;
use archery::{RcK, ArcK, ArcTK};
use rayon::iter::IntoParallelIterator;
macro_rules! elem { ($n:ident, $t:ty) => {
  pub struct $n(PhantomData<$t>);
  impl Clone for $n { fn clone(&self) -> Self { $n(PhantomData) } }
  impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { true } }
  impl Eq for $n {}
  impl PartialOrd for $n { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { None } }
  impl Ord for $n { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } }
  impl Hash for $n { fn hash<H: Hasher>(&self, _: &mut H) {} }
  impl Default for $n { fn default() -> Self { $n(PhantomData) } }
  impl BuildHasher for $n { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } }
} }
elem!(SS, u8);                                  // Send + Sync
elem!(SN, Cell<u8>);                            // Send, not Sync
elem!(NS, std::sync::MutexGuard<'static, u8>);  // Sync, not Send
elem!(NN, *const u8);                           // neither
fn send<T: ?Sized + Send>() {}
fn sync<T: ?Sized + Sync>() {}
fn send_v<T: ?Sized + Send>(_: &T) {}
fn sync_v<T: ?Sized + Sync>(_: &T) {}
struct Yes;
trait NotSend<A> { fn nosend() {} fn nosend_v(&self) {} }
impl<T: ?Sized> NotSend<()> for T {}
impl<T: ?Sized + Send> NotSend<Yes> for T {}
trait NotSync<A> { fn nosync() {} fn nosync_v(&self) {} }
impl<T: ?Sized> NotSync<()> for T {}
impl<T: ?Sized + Sync> NotSync<Yes> for T {}
trait NotPar<A> { fn nopar() {} }
impl<T: ?Sized> NotPar<()> for T {}
impl<T: IntoParallelIterator> NotPar<Yes> for T {}
fn par<T: IntoParallelIterator>() {}
'''

ELEMS = {"SS": (1, 1), "SN": (1, 0), "NS": (0, 1), "NN": (0, 0)}
PTRS = {"RcK": 0, "ArcK": 1, "ArcTK": 1}


def q_type(ty, is_send, is_sync):
    out = []
    out.append(("Send", is_send, f"send::<{ty}>();" if is_send else f"<{ty} as NotSend<_>>::nosend();"))
    out.append(("Sync", is_sync, f"sync::<{ty}>();" if is_sync else f"<{ty} as NotSync<_>>::nosync();"))
    return out


def queries():
    Q = []  # (label, body)

    def add(label, what, body):
        Q.append((label, what, body))

    def types(label, ty, s, y):
        for tr, want, body in q_type(ty, s, y):
            add(f"{label}:{ty.replace(' ', '')}", f"{ty} {'must be' if want else 'must not be'} {tr}", body)

    def vals(label, arg, expr, s, y):
        for tr, want, fn_, not_ in (("Send", s, "send_v", "NotSend::<_>::nosend_v"), ("Sync", y, "sync_v", "NotSync::<_>::nosync_v")):
            body = f"fn f(c: &'static {arg}) {{ let it = {expr}; {fn_ if want else not_}(&it); }}"
            add(f"{label}:{arg.replace(' ', '')}", f"the result of {expr} for c: {arg} {'must be' if want else 'must not be'} {tr}", body)

    for p, ts in PTRS.items():
        for e, (es, ey) in ELEMS.items():
            ok = bool(ts and es and ey)
            for c in ("List", "Stack", "Queue", "Vector", "RedBlackTreeSet"):
                ty = f"{c}<{e}, {p}>"
                types("collection", ty, ok, ok)
                types("iterator", f"<&'static {ty} as IntoIterator>::IntoIter", ok, ok)
            vals("range", f"RedBlackTreeSet<{e}, {p}>", "c.range::<%s, _>(..)" % e, ok, ok)
            for k, v in ((e, "SS"), ("SS", e), (e, e)):
                ty = f"RedBlackTreeMap<{k}, {v}, {p}>"
                types("collection", ty, ok, ok)
                types("iterator", f"<&'static {ty} as IntoIterator>::IntoIter", ok, ok)
                vals("keys", ty, "c.keys()", ok, ok)
                vals("values", ty, "c.values()", ok, ok)
                vals("range", ty, "c.range::<%s, _>(..)" % k, ok, ok)
                for h, (hs, hy) in ELEMS.items():
                    ty = f"HashTrieMap<{k}, {v}, {p}, {h}>"
                    types("collection", ty, ok and bool(hs), ok and bool(hy))
                    if h in ("SS", "NN"):
                        types("iterator", f"<&'static {ty} as IntoIterator>::IntoIter", ok, ok)
                        vals("keys", ty, "c.keys()", ok, ok)
                        vals("values", ty, "c.values()", ok, ok)
                    pok = p == "ArcTK" and ok and hs and hy
                    add(f"par:{ty}", f"&{ty} {'must' if pok else 'must not'} offer parallel iteration",
                        f"par::<&'static {ty}>();" if pok else f"<&'static {ty} as NotPar<_>>::nopar();")
                    if pok:
                        types("par-iterator", f"<&'static {ty} as IntoParallelIterator>::Iter", True, True)
            for h, (hs, hy) in ELEMS.items():
                ty = f"HashTrieSet<{e}, {p}, {h}>"
                types("collection", ty, ok and bool(hs), ok and bool(hy))
                types("iterator", f"<&'static {ty} as IntoIterator>::IntoIter", ok, ok)
    # the default pointer kind, the aliases and the constructors
    for c in ("List<SS>", "Stack<SS>", "Queue<SS>", "Vector<SS>", "RedBlackTreeSet<SS>", "RedBlackTreeMap<SS, SS>", "HashTrieMap<SS, SS>", "HashTrieSet<SS>"):
        types("default", c, False, False)
        head = c.split("<")[0]
        for tr, not_ in (("Send", "NotSend::<_>::nosend_v"), ("Sync", "NotSync::<_>::nosync_v")):
            add(f"new:{head}", f"{c}::new() must not be {tr}", f"let c = <{c}>::new(); {not_}(&c);")
            add(f"new_sync:{head}", f"{c} new_sync() must be {tr}", f"let c: {head}Sync<{c.split('<')[1]} = {head}::new_sync(); {'send_v' if tr == 'Send' else 'sync_v'}(&c);")
        sync = c.replace("<", "Sync<", 1)
        types("alias", sync, True, True)
    return Q


CONTROLS = [
    ("neg-send", "<u8 as NotSend<_>>::nosend();"),
    ("neg-sync", "<u8 as NotSync<_>>::nosync();"),
    ("pos-send", "send::<*const u8>();"),
    ("pos-sync", "sync::<Cell<u8>>();"),
    ("neg-send-v", "fn f(c: &'static u8) { NotSend::<_>::nosend_v(c); }"),
    ("neg-par", "<&'static Vec<u8> as NotPar<_>>::nopar();"),
    ("pos-par", "par::<u8>();"),
]


def cargo_check(name, src, deps, features=""):
    d = os.path.join(BUILD, "wit-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "wit_{name}"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n{deps}\n')
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(src)
    lk = os.path.join(d, "Cargo.lock")
    if os.path.exists(os.path.join(REPO, "Cargo.lock")) and not os.path.exists(lk):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lk)
    rc, out, err = sh(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--target-dir", os.path.join(BUILD, "t-wit")],
                      cwd=d, env={"CARGO_INCREMENTAL": "0"})
    errs = []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            if m.get("target", {}).get("name") != "wit_" + name:
                raise CheckError("a dependency of the witness does not compile: " + m["message"]["rendered"][:1500])
            lines = set()
            def spans(sps):
                for s in sps:
                    if s["is_primary"]:
                        x = s
                        while x.get("expansion") and not x["file_name"].endswith("src/lib.rs"):
                            x = x["expansion"]["span"]
                        lines.add(x["line_start"])
            spans(m["message"]["spans"])
            errs.append((lines, m["message"]["message"], m["message"].get("code") or {}))
    if rc != 0 and not errs:
        raise CheckError("witness build failed:\n" + err[-3000:])
    return errs


def emit(qs):
    src = PRELUDE
    n = src.count("\n") + 1
    where = {}
    for k, q in enumerate(qs):
        body = q[-1]
        src += f"fn q{k}() {{ {body} }}\n"
        where[n] = k
        n += 1
    return src, where


def p02(rep):
    deps = f'rpds = {{ path = "{REPO}", features = ["rayon", "serde"] }}\narchery = {{ version = "1.2.2", features = ["triomphe"] }}\nrayon = "1"'
    # positive control: the queries can fail
    src, where = emit(CONTROLS)
    errs = cargo_check("p02c", src, deps)
    hit = {where[l] for ls, _, _ in errs for l in ls if l in where}
    rep.info["control queries that must not compile"] = len(CONTROLS)
    if hit != set(range(len(CONTROLS))):
        raise CheckError("P02: control queries compiled: " + ", ".join(CONTROLS[k][0] for k in set(range(len(CONTROLS))) - hit))
    Q = queries()
    src, where = emit(Q)
    errs = cargo_check("p02", src, deps)
    rep.info["auto-trait queries"] = len(Q)
    bad = {}
    for ls, msg, code in errs:
        ks = [where[l] for l in ls if l in where]
        if not ks:
            raise CheckError("P02: unexpected compile error in the witness: " + msg)
        for k in ks:
            bad.setdefault(k, msg)
            if code.get("code") not in ("E0277", "E0283", "E0284", "E0790", "E0282"):
                raise CheckError(f"P02: witness query {Q[k][1]} fails for another reason: {msg}")
    for k, (label, what, body) in enumerate(Q):
        rep.obligations += 1
        if k in bad:
            rep.violate(f"P02:{label}:{what}", f"{what}, but the type checker says otherwise ({bad[k]}): `{body}`")
        else:
            rep.discharged += 1
    rep.sample(Q[0][1]); rep.sample(Q[-1][1]); rep.sample(Q[len(Q) // 2][1])
    rep.floor("auto-trait queries", 900)
