"""P11 and P13: relations between two collections."""
import r_map, r_ht, rel
from r_model import feed


def finish(rep, C):
    feed(rep, C)
    rep.count("loop_states_explored", C.stats["states"])


def p13(P, rep, tier):
    C = rel.Relations(P)
    for f in (rel.equality, rel.ordering, rel.hashing):
        f(C)
    finish(rep, C)
    rep.sample("classes of elements told apart: %s" % ", ".join(sorted(set(rel.SHOWCLS.values()))))
    rep.floor("functions", 20)


MEMBERS = ("::insert", "::insert_mut", "::remove", "::remove_mut", "::contains", "::get", "::first", "::last")


def p11(P, rep, tier):
    C = rel.Relations(P)
    rel.algebra(C)
    finish(rep, C)
    for H in (r_map.harness(P, "set", tier), r_ht.harness(P, "set", tier)):
        feed(rep, H, sel=lambda r: r.fn.endswith(MEMBERS) and r.aspect in ("ret", "view", "panic", "all"))
    rep.floor("functions", 14)


def p12(P, rep, tier):
    C = rel.Relations(P)
    rel.formatting(C)
    finish(rep, C)
    rep.floor("functions", 8)


def p22(P, rep, tier):
    C = rel.Relations(P)
    rel.identity(C)
    finish(rep, C)
    rep.floor("functions", 4)
