#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

L="src/list/mod.rs";Q="src/queue/mod.rs";S="src/stack/mod.rs";V="src/vector/mod.rs"
R="src/map/red_black_tree_map/mod.rs";H="src/map/hash_trie_map/mod.rs";SA="src/map/hash_trie_map/sparse_array_usize/mod.rs"
RS="src/set/red_black_tree_set/mod.rs";HS="src/set/hash_trie_set/mod.rs";RY="src/map/hash_trie_map/rayon.rs";U="src/utils/mod.rs"
ALL=[L,S,Q,V,H,SA,RY,R,HS,RS,U]

prop("P01","Every version of a collection is independent of every other",
 "An operation on one handle of a collection - including the in-place operations, and mutable element access - never changes what any other handle, clone or earlier version observes. All mutation goes through exclusively owned or copied-on-demand storage: no collection carries hidden shared mutable state (interior mutability, mutable globals, unsafe writes).",
 ["histories","programs","schedules"],"All histories of operations over any number of handles sharing structure, for every element type and both pointer kinds.",
 "Tests compare a handful of old versions after single operations; independence is a statement about every interleaving of operations on every pair of handles, for every element type.",
 ALL,[("copy on write through make_mut",R),("copy on write through make_mut",H),("copy on write through make_mut",V),("copy on write through make_mut",L),("replace",U),("Clone of internal nodes",R)],
 observe=["every accessor on a previously cloned handle"])
prop("P02","Thread-shareability follows the pointer kind and the element types",
 "A collection (or set, or any of its borrowing and parallel iterators) can be sent to or shared with another thread exactly when its pointer kind is the thread-safe one and its element, key, value and hasher types allow it; the default pointer kind is never thread-safe. A program that would share a non-thread-safe collection or element across threads does not compile.",
 ["programs","configurations"],"All instantiations of the public types with element/key/value/hasher types that are or are not thread-safe, both pointer kinds, including generic code.",
 "The tests assert it for i32 elements of each sync alias; the claim quantifies over all element types and the negative half can only be seen by programs that must not compile.",
 ALL,[("type parameters P of every collection",L),("ParallelIter and its producer",RY)],observe=["compile-time auto-trait queries"])
prop("P03","A list behaves as a mathematical sequence with front access",
 "Pushing to the front prepends exactly one element; dropping the first removes exactly the first and reports whether there was one; reversing reverses; the first element, last element and length always agree with the sequence. The persistent and in-place variants of an operation produce the same sequence, whatever other versions share its storage.",
 ["inputs","histories"],"All element types, all finite sequences of list operations, on lists of any length.",
 "Unit tests sample lists of a few elements and fixed operation orders; the cached last element and length are redundant state that only some histories (drop to empty then push, reverse after sharing) can desynchronise.",
 [L],[("push_front_ptr_mut",L),("drop_first_mut",L),("reverse_mut",L),("reverse",L)],
 [("head","chain of nodes holding the sequence",L),("last","cached last element",L),("length","cached length",L)],
 ["first","last","len","iter"])
prop("P04","A stack is last-in first-out",
 "Pushing makes the element the top; popping removes exactly the current top, uncovering the previous one, and reports whether there was one; peeking and the size agree with that, and iteration runs from the top to the bottom.",
 ["inputs","histories"],"All element types and all finite histories of push, pop, peek, clone.",
 "Unit tests sample short fixed histories.",
 [S,L],[("wrapper over the list",S)],observe=["peek","size","iter"])
prop("P05","A queue is first-in first-out",
 "Enqueuing appends exactly one element at the back; dequeuing removes exactly the oldest element and reports whether there was one; peeking, the length and iteration always describe the same oldest-to-newest sequence, whatever mix of enqueues and dequeues produced it.",
 ["inputs","histories"],"All element types and all finite histories mixing enqueue, dequeue, clone and iteration.",
 "Order errors need a particular internal split between the two backing sequences, reached only by particular mixes of operations on shared versions.",
 [Q,L],[("dequeue_mut",Q),("peek",Q),("LazilyReversedListIter",Q)],[("in_list/out_list","newest-first and oldest-first halves",Q)],["peek","len","iter","dequeue"])
prop("P06","A vector behaves as an indexable sequence with push/pop at the back",
 "For every length and every branching configuration: reading index i yields the i-th element and nothing past the end; setting an index replaces exactly that element; pushing appends one element; dropping the last removes exactly the last and reports whether there was one. Out-of-range reads and writes leave the vector unchanged and say so.",
 ["inputs","histories","configurations"],"All element types, all lengths and indices, all valid branching factors, all finite histories.",
 "The trie changes height at powers of the branching factor; tests exercise a few sizes of two or three branching factors.",
 [V],[("Node::get/assoc/get_mut/drop_last",V),("height and bucket arithmetic",V),("compress_root",V)],
 [("root/bits/length","trie, branching bits, element count",V)],["get","set","push_back","drop_last","iter"])
prop("P07","A tree map is an exact ordered dictionary",
 "Inserting binds the key to the value (replacing any previous binding of an equal key, and keeping every other entry); removing deletes exactly the binding of an equal key and reports whether there was one; lookups (by value, by key-value pair, mutable) return exactly the current binding. Entries stay in strictly increasing key order, and the smallest and largest entry queries return the ends of that order.",
 ["inputs","histories"],"All totally ordered key types (and borrowed query forms), all values, all finite histories of operations on maps of any size and shape.",
 "Rebalancing on deletion has dozens of colour/shape cases; tests and their random sequences reach some of the shapes, not every one.",
 [R],[("insert and balance",R),("remove, remove_fuse, remove_balance*",R),("get/get_mut/first/last",R)],
 [("root","binary search tree",R),("size","entry count",R)],["get","get_key_value","get_mut","first","last","remove","iter"])
prop("P08","A tree map or set stays balanced",
 "After any history of operations, the longest path from the top of an ordered map or set to a missing child is at most twice the shortest, so lookups, insertions and removals visit O(log n) entries. In particular no two consecutive entries on a path are both of the relaxed (red) colour and all paths contain the same number of strict (black) entries.",
 ["histories","inputs"],"All histories of insertions and removals (any key order, any sharing between versions).",
 "An occasional missed rebalancing is invisible to functional tests: contents remain right while depth degrades for particular operation sequences.",
 [R],[("balance",R),("remove_balance, remove_balance_left/right",R),("remove_fuse",R)],[("color","red/black mark per node",R)],["cost of get/insert/remove"])
prop("P09","A hash map is an exact dictionary under any hash function",
 "Inserting binds the key to the value (replacing the binding of an equal key, keeping every other entry); removing deletes exactly that binding and reports whether there was one; lookups (value, key-value pair, mutable) return exactly the current binding. This holds for every hash function consistent with equality - including ones that collide partially or completely - every allowed branching degree and every history.",
 ["inputs","histories","configurations"],"All key types with consistent equality and hashing (and borrowed query forms), all hashers including constant ones, all valid degrees, all finite histories.",
 "Deep partial collisions, full collisions and re-compression after removal need crafted hashes at particular depths; tests cover a few hand-picked ones.",
 [H,SA],[("Node::insert/remove/get/get_mut/compress",H),("Bucket and list_remove_first",H),("index_from_hash",H),("bitmap rank",SA)],
 [("root","trie indexed by hash digits",H),("size","entry count",H),("bitmap/array","presence bits and dense children",SA)],["get","get_key_value","get_mut","remove","iter"])
prop("P10","Reported sizes equal the number of elements, always",
 "The length or size reported by every collection equals the number of elements its iteration yields, and emptiness is reported exactly when that number is zero, after every history of operations. Overwriting an existing key, inserting an existing set element, removing something absent, or a failed in-place operation never changes it.",
 ["histories","inputs"],"All collections, all finite histories of persistent and in-place operations.",
 "Counters are redundant state updated in several operations; tests check them after short fixed histories only.",
 [L,S,Q,V,H,R,HS,RS],[("length/size counters",L),("length counter",V),("size counter",H),("size counter",R)],observe=["len","size","is_empty","iter"])
prop("P11","Sets implement set algebra",
 "For both set types: inserting and removing change membership of exactly that element (and removal reports whether it was present); membership and lookup agree; subset, superset and disjointness queries return exactly the mathematical relation between the two sets, for any two sets whatever storage they share and in either argument order.",
 ["inputs","histories"],"All pairs of sets of any sizes (including empty, equal, sharing structure), all element types.",
 "The relation queries walk two sets in step with early exits; tests enumerate a few small pairs.",
 [HS,RS],[("is_subset/is_superset/is_disjoint",RS),("is_subset/is_superset/is_disjoint",HS)],observe=["is_subset","is_superset","is_disjoint","contains","insert","remove"])
prop("P12","Formatting shows the contents",
 "Displaying a collection writes its opening delimiter, every element (for maps: key, a colon and a space, value) exactly once in iteration order with a comma and a space between consecutive ones, and its closing delimiter. An error reported by the formatter or by an element at any point stops the output and is returned, and no other error is.",
 ["inputs","fault_sequences"],"All collections of any size, all element types, a formatter that fails at any write.",
 "Tests display a few short collections into a string, which never fails.",
 [L,S,Q,V,H,R,HS,RS],[("Display impls",L),("Display impls",Q),("Display impls",H),("Display impls",R)],observe=["format!","write!"])
prop("P22","The identity test tells shared storage apart from equal contents",
 "Asking whether two maps or two sets refer to the same content in memory answers true for a collection and any clone of it that has not been changed since, and false for two non-empty collections with separate storage, even if their contents are equal. It is never true for collections with different contents.",
 ["inputs","histories"],"All pairs of maps or sets of one type, sharing storage or not, empty or not.",
 "Tests compare a handful of maps; a test on the wrong field or on part of the storage shows only for particular pairs.",
 [H,R,HS,RS],[("ptr_eq",H),("ptr_eq",R),("ptr_eq",HS),("ptr_eq",RS)],observe=["ptr_eq"])
prop("P13","Equality, ordering and hashing depend only on the contents",
 "For element types whose equality is reflexive, two collections compare equal exactly when they hold equal elements (in the same order for sequences, the same key-value bindings for maps, the same members for sets), regardless of how they were built, which pointer kind they use, or what storage they share. Where ordering is offered it is the lexicographic order of the iterated elements, and equal collections feed identical data, including the length and every element (keys and values), to a hasher.",
 ["inputs","histories"],"All pairs of collections with element types whose equality is reflexive; all pointer kinds and all ways of building them.",
 "Needs pairs built by different histories with different internal layouts or sharing; tests compare a few pairs.",
 [L,S,Q,V,H,R,HS,RS],[("PartialEq/Ord/Hash impls",L),("PartialEq with the shared-storage shortcut",H),("PartialEq with the shared-storage shortcut",R)],observe=["==","cmp","partial_cmp","hash"])
prop("P14","Iteration yields every element exactly once, in the documented order",
 "Iterating any collection yields each element (or key-value pair, key, or value) exactly once: front-to-back for sequences, top-down for stacks, oldest-first for queues, index order for vectors, ascending key order for tree maps and sets. Where iteration from the back is offered, any interleaving of front and back steps yields each element once from the proper end, and the announced remaining length is exact at every step.",
 ["inputs","histories"],"All collections of any size and shape, all interleavings of front and back steps, stopping at any point.",
 "Iterators keep stacks and counters whose errors show only for particular shapes and interleavings; tests drain a few instances.",
 [L,Q,S,V,H,R,HS,RS],[("IterPtr",L),("LazilyReversedListIter",Q),("IterPtr stacks",V),("IterPtr stack",H),("IterStack",R)],observe=["next","next_back","size_hint","len"])
prop("P15","Range iteration yields exactly the entries within the bounds",
 "Iterating a range of a tree map or set yields exactly the entries whose key lies within the given bounds (each end inclusive, exclusive or unbounded) in ascending order, or descending from the back, each exactly once under any interleaving of front and back steps. Only a start greater than the end, or equal bounds that are both exclusive, is refused with a panic.",
 ["inputs","histories"],"All maps and sets, all bound combinations (including bounds not present, empty results), all interleavings of front and back steps.",
 "Bounds interact with tree shape; tests check selected ranges of selected maps.",
 [R,RS],[("range validation",R),("dig_towards / clear_if_finished / advance",R),("is_remaining_range_empty",R)],observe=["range().next","range().next_back"])
prop("P16","Serialization round-trips and reports errors",
 "Serializing any collection and deserializing the result yields an equal collection with elements in the same order; serialization emits each element or entry exactly once. A deserialization error raised by the input at any point is returned to the caller - never swallowed into a truncated collection.",
 ["inputs","fault_sequences"],"All collections and element types, all data formats, errors injected at any element.",
 "Tests round-trip small collections through JSON only and never fail midway.",
 [L,Q,S,V,H,R,HS,RS],[("Serialize/Deserialize impls and visitors",L),("visit_seq",V),("visit_map",H),("visit_map",R),("visitors",HS),("visitors",RS)],observe=["serialize","deserialize"])
prop("P17","Parallel iteration visits every entry exactly once",
 "Parallel iteration over a thread-safe hash map delivers every entry to the consumer exactly once, however the work is split between threads, including maps with colliding hashes; it stops early only when the consumer asks for it.",
 ["schedules","inputs"],"All maps (shapes, collisions), all work-splitting decisions, all consumers.",
 "Which splits occur depends on thread timing and pool size; tests observe whatever splits happened.",
 [RY],[("split",RY),("fold_with and the recursive folds",RY)],observe=["par_iter results"])
prop("P18","Dropping a collection never exhausts the stack",
 "Dropping any collection, of any length, with any sharing between versions and threads, uses stack space bounded independently of the number of elements (or by its balanced height). No operation offered by the sequence collections recurses once per element.",
 ["histories","schedules","inputs"],"All lengths, all sharing patterns, all drop orders and thread interleavings.",
 "Needs collections far larger than tests build, and for shared versions a particular interleaving of two drops.",
 [L,S,Q,H],[("iterative Drop",L)],observe=["process survives dropping long lists"])
prop("P19","Documented complexity: sharing, no hidden copies or scans",
 "Cloning any collection, and the operations documented as constant time, take time independent of the number of elements; operations documented as logarithmic only follow one path of the tree; a removal that removes nothing from a map or set hands back a version sharing all storage with the original. Persistent operations copy at most the path they change, never the elements themselves.",
 ["inputs","histories"],"All collections and sizes.",
 "Tests check results, not cost; an accidental deep copy or linear scan keeps every test green.",
 ALL,[("Clone impls",L),("make_mut path copying",R),("remove returning a shared clone",H),("compress keeps paths short",H)],observe=["time and allocation per operation"])
prop("P20","Only documented misuse panics",
 "No operation panics for any input or history except the documented cases: indexing a missing position or key with the index operator, invalid ranges, and invalid construction parameters. In particular internal invariants (unwraps, unreachable arms, arithmetic) can never fail, with or without debug assertions.",
 ["inputs","histories","configurations"],"All public operations, all inputs and histories, user callbacks that themselves do not panic.",
 "Internal unwraps and unreachable arms depend on invariants over all reachable shapes; tests reach a sample of shapes.",
 [L,Q,V,H,SA,R,RS],[("unwrap/expect/unreachable sites",R),("unwrap/expect/unreachable sites",H),("unwrap sites",V)],observe=["panics"])
prop("P21","Claimed lengths from outside never size an allocation",
 "Building a collection from an iterator or from serialized data never allocates in proportion to a length the source merely claims (an iterator's upper bound, a length announced by serialized input): such a claim costs at most what the delivered elements cost. Only an iterator's lower bound, which its contract guarantees, may size an allocation; building from a correct source succeeds whatever upper bound it announces.",
 ["inputs","fault_sequences"],"All iterators (any size hint, including huge or unbounded upper bounds) and all deserializer inputs with any announced length.",
 "Tests feed honest iterators and JSON, which announces nothing.",
 [L,Q,S,V,H,R],[("FromIterator",L),("visit_seq",L)],observe=["collect","deserialize"])
prop("P23","Bulk construction equals one-by-one construction in order",
 "Collecting an iterator, extending, and the construction macros produce exactly the collection obtained by adding the given elements one at a time in the given order: sequences keep order and duplicates (a collected stack iterates, from its top, in the given order), later bindings of an equal key win, each expression is evaluated once, left to right. The macros work from any program that depends on this crate, without other imports or dependencies.",
 ["inputs","programs"],"All iterators and element types; all client programs.",
 "Tests use the macros inside the crate with everything imported and collect short arrays.",
 [L,S,Q,V,H,R,HS,RS],[("FromIterator/Extend impls",L),("macro_rules",L),("macro_rules",H)],observe=["collect","extend","macros"])
prop("P24","Construction parameters are validated for every value",
 "Every value of a branching parameter is either refused at construction with a panic or yields a collection on which all operations behave as specified. No accepted parameter leads to overflow, endless recursion or lost elements later.",
 ["configurations"],"All values of the vector bit width and of the hash map and set degree parameters.",
 "Tests try a few valid values and one or two invalid ones.",
 [V,H,HS],[("new_with_bits",V),("new_with_hasher_and_degree_and_ptr_kind",H)],observe=["constructors"])
prop("P26","Without the standard library feature nothing depends on it",
 "With default features off the crate uses no standard-library-only facility, so it builds for targets that have none; optional features only add functionality and never change what existing operations return.",
 ["configurations"],"All feature combinations.",
 "The test build enables everything on a hosted target, where a stray dependency on the standard library still compiles.",
 ALL+["src/lib.rs"],[("no_std attribute",  "src/lib.rs"),("DefaultBuildHasher",U)],observe=["builds on a target without std"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
