import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
TRUST="Trusted: rustc's lowering to LLVM IR, the executor in /verif/symex, z3, and the element types, models and oracles of /verif/harness. Every completed path is replayed natively (debug-assertion and release builds); a violation is only reported once it reproduces there (valgrind/ASan/miri for memory errors that do not crash)."
L={
"C01":"all keys (16 bit), values and insert/remove/get_mut/pop/first/last/clear/lookups, one to three operations from every AVL shape of height <= 3, a sample (thorough: all) of height 4, Fibonacci trees up to height 8 and trees of 32-64 elements, unshared and with 3 (7) kinds of sharing",
"C02":"after every operation of the point, bulk, retain, entry, extend, set and serde harnesses: Map::check plus the number of comparisons a lookup of every key makes",
"C03":"all keys and operations, one to three operations from a family of prestates (minimal, full and mixed leaves, one to three levels and up to 90 elements) for N = 1, 2, 3, 5",
"C04":"after every operation of the point, bulk, retain, entry, extend and set harnesses: Map::check plus the number of comparisons a lookup makes, N = 1, 2, 3, 5",
"C05":"prestates as in C01/C03/C18 shared in seven ways (one clone, two, a clone that diverged, clones of clones, copies dropped), every operation on one copy, full comparison of every other copy with its own model",
"C06":"calls of Clone::clone and Arc/Rc allocations counted across every operation, bounds as in the property; trees up to 200 (400) elements",
"C07":"every access checked against live objects, bounds and initialisation by the executor; element drop counts, and no allocation left at the end; prestates of C01/C03 with sharing",
"C08":"every interleaving of next/next_back up to 7 (10) elements, fixed patterns up to 64, unshared and shared, abandoned or finished",
"C09":"bounds of every kind with symbolic keys, all positions; prestates up to 24 (50) elements",
"C10":"pairs of maps of which the smaller has <= 3 elements with all relative orders of their keys, pairs that share structure, split at every position, joins of all heights",
"C11":"pairs of maps of which the smaller has <= 3 elements with all relative orders of their keys, pairs that share structure, split at every position; N = 1, 2, 3, 5",
"C12":"every subset of up to 7 (9) elements, fixed and threshold predicates with symbolic parameters up to 45 (80)",
"C13":"pairs of sets of which the smaller has <= 3 elements with all relative orders, shared and unshared; all operators, iterators, relations and constructors",
"C14":"as C01/C03 for AvlSet and BTreeSet (N = 1, 2, 5)",
"C15":"every sequence of 1-3 operations on stacks of up to 5 (8) elements and single ones on 20-40, unshared and shared",
"C16":"pairs of collections of up to 14 (20) elements in total with symbolic contents, all shapes and sharing of a family",
"C17":"streams of up to 3 (4) symbolic entries in any order with any of the hints, longer ascending/descending ones up to 100; round trips up to 334 shapes/60 elements",
"C18":"as C03 for fixed::BTreeMap, plus two-copy histories",
"C19":"every entry method at every position of prestates up to 64 elements, shared and unshared",
"C20":"as C18 with every memory access checked and drops counted, plus four layouts of key and value types (zero-sized, over-aligned, boxed)",
"C21":"every sequence of up to 3 (4) symbolic items into prestates up to 8 (75) elements",
"C23":"two threads, one operation each (every operation of the maps, a sample of pairs) on two clones that share a tree of up to 6 (9) elements, and two readers of one map: every schedule with at most two (three) preemptions, interleaved at the atomic operations (sequential consistency; data races are found by happens-before)",
"C24":"prestates as in C01/C03 with symbolic contents, unshared and shared, {:?} and {:#?}, a writer that fails at any length up to 160 bytes; iterators and ranges of BTreeMap at every pair of positions",
"C22":"the panic comes at the i-th call of a comparison, clone or closure for every i up to 18-30 (30-60), in every operation, shared and unshared",
}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"python3 check.py {i} quick","thorough_cmd":f"python3 check.py {i} thorough",
     "technique":"symbolic execution of the compiled code's LLVM IR with z3 deciding branches and assertions; counterexamples replayed natively",
     "level":"model_checking",
     "level_note":"Bounded: "+L[i]+". "+TRUST})
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the harness crate in /verif/harness uses the public API only (check, size_hint and serde included)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
