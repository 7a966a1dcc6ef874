T = "truth tables computed in the harness"
ORACLE = {
"C01": T + " for all functions of 3 and 4 variables; bit tables for large ones; every result is read back by the walker and looked up in the canonical-handle table (same function <=> same handle).",
"C02": "a map from function to handle: every live handle must be the map's handle for its function, and every function rebuilt in nine ways (connectives, quantification, substitution, dump/undump, ...) must give that handle.",
"C03": T + " folded over the array; length and null termination of returned arrays.",
"C04": T + "; the association in force is a list of (variable, function) pairs in the model.",
"C05": T + " with simultaneous substitution done pointwise.",
"C06": "the definition of constrain evaluated pointwise (nearest care point in the current order), agreement on the care set, and sizes from an independent ROBDD count.",
"C07": "implication, non-falsity and the cube shape, decided on truth tables; expected support of the cube from the association in the model.",
"C08": "a multiset of references per handle in the model; after each collection the node count must equal the number of nodes of the live functions (independent ROBDD count plus variables and associations), and each live handle must have its function.",
"C09": "all live functions re-read by the walker under the new order, handles unchanged, order = permutation consistent with ids, every level's table containing exactly the nodes of that level, equal functions equal handles.",
"C10": "C09's oracle plus contiguity and relative order of each block, from a block tree in the model.",
"C11": "the order as a list; after each creation the list with the new variable inserted at the requested place must be what index/id queries of all variables say.",
"C12": "a map id -> (bindings, uses) in the model; every operation that depends on associations is run under each of them after every event.",
"C13": "the function of the read-back BDD equals the written one with variables renamed by position; same list => same handle.",
"C14": "return value/error code, no sanitizer report, no hang, all earlier BDDs intact, node count after a collection as if the call had not been made.",
"C15": "an independent ROBDD construction (with and without complement edges) that counts nodes and subfunctions per level.",
"C16": "Shannon expansion, support, satisfying fraction etc. computed from the truth table; a second query of everything must agree (no marks left).",
"C17": "each provisional BDD's function computed from the dependency graph in the model; handles equal to those of direct computation; exact node counts afterwards.",
"C18": "either the right handle or null with the overflow query 1 exactly once; exact reference and node accounting afterwards.",
"C19": "the C function called with the same operands; exact reference count per handle after every statement of a program of object operations.",
"C20": "a parser for the printed text whose value is compared with the function; numbers of profile lines compared with the independent count.",
"C21": "a table of all C allocations of the library (link-time wrapping): nothing left after quit; the second manager's functions, order, associations unchanged after every call on the first; identical effects alone and beside another manager.",
"C22": "null (or the neutral answer) and an unchanged snapshot: node counts, reference counts, values, order, association.",
"C23": "every byte in use holds a pattern that is verified after each step; blocks disjoint, aligned, large enough.",
"C24": "the same history without maintenance (truth tables) must be what is observed with maintenance forced at each point; internal consistency after each.",
"C25": "settings as a record in the model; independent counts of nodes, variables, collections, reorderings; node limits kept while running thousands of operations.",
"C26": "node count before and after by an independent ROBDD count of the live functions under the order found.",
"C27": "bytes held by the manager (its page managers, block allocator and C allocations) over three equal windows of repeated work: not growing in each.",
"C28": "(also: diagrams of up to millions of nodes against the automaton over pending variables and folds, work per node bounded) tables indexed by the numbers of true variables of each group; results are checked level by level (one subdiagram per count) and by handle equality; the basic blocks of the library executed within each operation are counted (compiler instrumentation) and limited to about thirty times what the operations need; the count is the same on every run, so the limit does not depend on the machine.",
}
MISSED = [
 "| C08-swapped-else-reference | the two else branches differed only for functions of five variables | `everyop5` and releasing operands one at a time |",
 "| C09-pending-beyond-the-first-depth | pending results shared their variables with live functions, so those always interacted | `disjoint`: pending results that alone join variables |",
 "| C12-full-table | associations being compared differed in many entries | `near_equal`: associations that differ in one entry, at sizes around capacities |",
 "| (no seed) new variable next to a constant | variables were created only relative to variables | `create_at_constants` |",
 "| C09-levels-above-the-stop, C12-association-when-sifting-stops | no upward sift ever exceeded the growth limit | `sift_stops`: sifting that stops half way |",
 "| (no seed) line lengths lost by the C++ wrappers of the profile prints | no line of a small diagram reached the limit | `profiles` (C19) |",
 "| (no seed) garbage of depth-first runs | nothing bounded the nodes of a run of one kind of operation only | `bounded_each` (C25): each kind of operation alone stays bounded |",
 "| (no seed) request tables with few bins and a large capacity | diagrams had at most thousands of nodes | `h_huge`: up to millions of nodes; `huge_linear` bounds the work per node of each operation |",
 "| (no seed) pages not given back when ids are packed together during a breadth-first reordering | only bytes in use were compared, and no run forced packing in the middle of a reordering | `work_large` (C27): pages in use, low limits on forwarded nodes |",
 "| (no seed) a variable's handle kept when the naming function has no name for it | reference counts were compared only with functions that name everything | `mixed` (C20) also with partial naming functions |",
 "| (no seed) assignment of null to a default object keeps no manager | only copies of null were queried | `cxx` (C22): queries of a default object assigned null |",
 "| C28-remembered-where-quantified | reported, but the time-based watchdog needed minutes and could fail to confirm | work per operation is counted in basic blocks, which is reproducible |",
]
MUT = "Some 440 sampled so far; every survivor was traced to the same behaviour, to the amount of work or quality only, or to a leak that the check of C21 or C27 reports (the leak variants are left out of the sampling runs)."
