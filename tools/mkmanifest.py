#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
RULE = "decides the structural rules stated in DESIGN.md exactly on the resolved program; trusts rustc, archery and the rule tables"
ABS = "sound abstract interpretation of rustc MIR in a symbolic-sequence domain; trusts rustc, archery, alloc/core models in engnat.py; undecided paths are listed in the evidence and are not alarms"
C = {
 "P16": ("abstract interpretation of Serialize/Deserialize and visitor MIR over an input stream that may fail at any step", "other", ABS),
 "P21": ("abstract interpretation tracking claimed lengths into every allocation size; positive control fixture", "other", ABS),
 "P23": ("abstract interpretation of FromIterator/Extend MIR; type-checked witness crate for the macros, its MIR interpreted too", "other", ABS),
 "P03": ("abstract interpretation of every list operation's MIR in a symbolic sequence domain, loops summarised to a fixed point", "other", ABS),
 "P04": ("abstract interpretation of every stack operation's MIR in a symbolic sequence domain", "other", ABS),
 "P07": ("abstract interpretation of every map operation's MIR over one key-sorted symbolic sequence; recursive tree functions summarised per input-tree class to a fixed point", "other", ABS),
 "P08": ("abstract interpretation with a colour / black-height tree domain: every operation maps balanced trees to balanced trees", "other", ABS),
 "P10": ("abstract interpretation: every value left behind by an operation records the number of elements of its symbolic contents as its size", "other", ABS),
 "P14": ("abstract interpretation: a synthetic draining loop over each iterator, summarised to a fixed point, against the symbolic contents and the announced length", "other", ABS),
 "P15": ("abstract interpretation of range iterators: invariant over all iteration states (what each stack of nodes still delivers), inductive under both steps", "other", ABS),
 "P20": ("abstract interpretation: reachability of every panic (unwrap, assert, overflow, index, unreachable) on representable states", "other", ABS),
 "P05": ("abstract interpretation of every queue operation's MIR in a symbolic sequence domain over any split of the backing lists", "other", ABS),
 "P06": ("abstract interpretation of every vector operation's MIR over full-children tries, one run per branching and height of a grid", "other", ABS),
 "P09": ("abstract interpretation of every hash map and set operation's MIR over tries known by hash digits, one run per degree and choice of differing levels", "other", ABS),
 "P17": ("abstract interpretation of the parallel producer's MIR: split and fold as operations on bags of entries, recursion by contract, loops by invariant", "other", ABS),
 "P11": ("abstract interpretation of the set relations' MIR over one lazily revealed word of two sets' elements, loops to a fixed point; membership by the set models of P07 and P09", "other", ABS),
 "P12": ("abstract interpretation of every Display MIR against a monitor of the text written so far, over a formatter that may fail at any write", "other", ABS),
 "P22": ("abstract interpretation of the identity tests' MIR on shared and on separate storage", "other", ABS),
 "P13": ("abstract interpretation of equality, ordering and hashing MIR over one lazily revealed word of two collections' elements, loops to a fixed point", "other", ABS),
 "P24": ("abstract interpretation of every constructor at every parameter value, and of the operations at every accepted value", "other", ABS),
 "P01": ("whole-crate MIR scan: storage types free of interior mutability, no raw writes or escapes", "other", RULE),
 "P02": ("compile-time auto-trait witnesses over all type/pointer/element combinations", "other", "exact for the enumerated instantiations; generic instantiations follow from auto-trait structure"),
 "P18": ("call-graph recursion analysis and drop-glue shape rule on MIR", "other", RULE),
 "P19": ("call-graph reachability of loops/recursion/linear calls from the documented-complexity table", "other", RULE),
 "P26": ("linked-crate and body-equality comparison of the type-checked crate across feature sets", "other", RULE),
}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
m = {"version": 1, "setup_cmd": "python3 analysis/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 analysis/run.py {i}", "thorough_cmd": f"python3 analysis/run.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "python3 tools/mkmanifest.py regenerates this file. All checks are static: they read the dump of the type-checked crate made by driver/."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
