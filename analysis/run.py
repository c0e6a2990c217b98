"""python3 analysis/run.py <property id>: decide one property on /repo's current working tree."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import common
from common import Report, finish, CheckError
import mir

TRUST = ["rustc's type checker and MIR construction (nightly)", "archery / triomphe reference counting", "alloc, core and smallvec as documented", "the rule tables in /verif/analysis"]


def prog(features="all"):
    return mir.Prog(common.dump(features))


def p01(rep, tier):
    import r_simple
    r_simple.p01_rules(prog(), rep)
    return ("every storage type free of interior mutability; no mutable globals; no function of the crate writes through raw pointers or "
            "type-system escapes, so the only mutation is through exclusively borrowed or copied-on-demand storage")


def p02(rep, tier):
    import r_witness
    r_witness.p02(rep)
    return "one type-checked witness function per (type, pointer kind, element kinds, auto trait); each compiles exactly when the expected fact holds"


def p18(rep, tier):
    import r_rules
    r_rules.p18_rules(prog(), rep)
    return ("chain-shaped storage types have their own iterative Drop; every recursive group in the resolved call graph (including formatting through "
            "trait objects) recurses along a height-bounded tree type, or at most one level by typestate")


def p19(rep, tier):
    import r_rules
    import r_map, r_ht
    r_rules.p19_rules(prog(), rep)
    r_map.sharing(prog(), rep)
    r_ht.sharing(prog(), rep)
    rep.floor("removals of absent keys", 4)
    return ("documented constant-time operations reach no loop, recursion or linear library call; logarithmic ones reach at most one recursive call per "
            "path and no loop over elements; no persistent operation copies elements; abstract interpretation of every removal: where the key is absent the root pointer returned is the original's")


def p26(rep, tier):
    import r_simple
    r_simple.p26_rules(prog("all"), prog("none"), prog("none-serde"), rep)
    return "the featureless builds link no std; every function of the featureless build exists, with an identical body, when optional features are on"


ENGINE = ("abstract interpretation of the MIR of each public operation on a collection whose contents are one symbolic sequence: "
          "every path, loops summarised to a fixed point, every outcome compared with the mathematical result; ")


def p03(rep, tier):
    import r_model
    r_model.p03(prog(), rep)
    return ENGINE + "lists are sequences with front access; head, last and length stay consistent"


def p04(rep, tier):
    import r_model
    r_model.p04(prog(), rep)
    return ENGINE + "stacks are sequences from the top"


def p05(rep, tier):
    import r_model
    r_model.p05(prog(), rep)
    return ENGINE + "queues are one sequence over two lists, split anywhere"


def p16(rep, tier):
    import r_bulk
    r_bulk.p16(prog(), rep)
    return ENGINE + ("every visitor on an input stream that may fail, end or deliver an element at each step: success means all elements in order, "
                     "failure returns the input's own error; serialisation emits the contents in order, exactly once")


def p21(rep, tier):
    import r_bulk
    r_bulk.p21(prog(), rep)
    return ENGINE + "every allocation size reached while collecting or deserialising is free of claimed lengths, or capped by a constant"


def p23(rep, tier):
    import r_bulk
    r_bulk.p23(prog(), rep)
    return ENGINE + "from_iter and extend equal one-by-one additions in order; every macro type-checks without imports and evaluates its arguments once, left to right"


def p07(rep, tier):
    import r_map
    r_map.p07(prog(), rep, tier)
    return ENGINE + ("maps are dictionaries over one key-sorted sequence; recursive tree functions are summarised per class of input tree "
                     "(colour, height) and key presence, to a fixed point, and each must shrink")


def p08(rep, tier):
    import r_map
    r_map.p08(prog(), rep, tier)
    return ENGINE + "every map and set operation on any tree with red-black shape leaves red-black shape (colours and black heights tracked exactly, heights symbolic)"


def p10(rep, tier):
    import r_all
    r_all.p10(prog(), rep, tier)
    return ENGINE + "the value an operation leaves behind records as its size the number of elements it holds, and the size queries report it"


def p14(rep, tier):
    import r_all
    r_all.p14(prog(), rep, tier)
    return ENGINE + "a synthetic loop drains each iterator: it yields the contents in order, each once, and announces the exact remaining length before every step"


def p20(rep, tier):
    import r_all
    r_all.p20(prog(), rep, tier)
    return ENGINE + "no path reaches a panic (explicit, unwrap, overflow check, index, unreachable) outside the documented cases"


def p06(rep, tier):
    import r_vec
    r_vec.p06(prog(), rep, tier)
    return ENGINE + ("vectors are sequences over tries whose children but the last are full; one run per branching and height of a grid, over every "
                     "length of that height; quotients and remainders of indices as exact linear terms")


def p15(rep, tier):
    import r_all
    r_all.p15(prog(), rep, tier)
    return ENGINE + ("for every kind of bounds: the initial iterator and every step from either end, from every point between, yields the proper end of "
                     "the entries inside; recursive stack builders proved per class; refused ranges are exactly the documented ones")


def p09(rep, tier):
    import r_ht
    r_ht.p09(prog(), rep, tier)
    return ENGINE + ("hash maps are bags of entries with distinct keys; nodes know the digits of the hashes below them, bitmaps are ordered sets of digits; "
                     "one run per degree and choice of levels at which hashes may differ, full collisions included")


def p24(rep, tier):
    import r_cfg
    r_cfg.p24(prog(), rep, tier)
    return ENGINE + ("each constructor is interpreted at each of the 256 values of its parameter; every accepted value is one at which the "
                     "operations, interpreted at that value, are proved to work")


def p17(rep, tier):
    import r_all
    r_all.p17(prog(), rep, tier)
    return ENGINE + ("the producer given to the thread pool holds the contents; splitting divides what a producer holds; folding delivers what it holds, "
                     "each entry once, unless the consumer said it is full; recursion by contract, loops by invariant, over bags of entries")


def p11(rep, tier):
    import r_rel
    r_rel.p11(prog(), rep, tier)
    return ENGINE + ("subset, superset and disjointness on any two sets, as one word of letters (only in the first, only in the second, in both) "
                     "revealed as the code looks: the answer is the relation of the two; membership operations against the mathematical set")


def p13(rep, tier):
    import r_rel
    r_rel.p13(prog(), rep, tier)
    return ENGINE + ("equality, ordering and hashing on any two collections, as one word of letters classed by how the two compare there, revealed as the "
                     "code looks: the answer is the relation of the contents, whatever is shared and however a queue is cut in two")


def p12(rep, tier):
    import r_rel
    r_rel.p12(prog(), rep, tier)
    return ENGINE + ("display of a collection of any length to a formatter that may fail at any write: what is written between, before and after the elements, "
                     "each of them once and in order, and the formatter's error returned")


def p22(rep, tier):
    import r_rel
    r_rel.p22(prog(), rep, tier)
    return ENGINE + "the identity test of two collections of any contents, on one storage and on two"


CHECKS = {"P11": p11, "P12": p12, "P22": p22, "P13": p13, "P17": p17, "P09": p09, "P24": p24, "P06": p06, "P15": p15, "P10": p10, "P14": p14, "P20": p20, "P07": p07, "P08": p08, "P16": p16, "P21": p21, "P23": p23, "P01": p01, "P03": p03, "P04": p04, "P05": p05, "P02": p02, "P18": p18, "P19": p19, "P26": p26}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(pid)
    try:
        rule = CHECKS[pid](rep, tier)
        return finish(rep, tier, seed, t0, rule, TRUST)
    except CheckError as e:
        if rep.violations:  # a violation found before the machinery gave up still stands
            return finish(rep, tier, seed, t0, "incomplete: " + str(e), TRUST)
        print(f"CHECK ERROR property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        if rep.violations:
            return finish(rep, tier, seed, t0, "incomplete: internal error", TRUST)
        return 2


if __name__ == "__main__":
    sys.exit(main())
