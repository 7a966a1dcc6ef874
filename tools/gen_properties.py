#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Boolean connectives and if-then-else compute the right function",
 "For every pair of BDDs f, g (and every triple f, g, h) over the variables of a manager, AND, NAND, OR, NOR, XOR, XNOR, NOT, identity and if-then-else return a BDD whose value under every assignment is the connective applied to the operands' values under that assignment. This holds under every variable order, for any mixture of complemented operands, for variables with arbitrary gaps between them in the order, and whatever was computed before in the same manager. The operands keep their functions and remain usable.",
 ["inputs", "configurations", "histories"], "all operand functions, all variable orders, any earlier computation",
 "The unit tests draw 50 random operand pairs over a fixed order; a terminal-case or phase error for one shape of operands, one variable order or a particular cache state is not reached.",
 ["src/calBddOp.c", "src/calBddITE.c", "src/calApplyReduce.c", "src/calTerminal.c", "src/calHashTable.c", "src/calCacheTableTwo.c", "src/cal.c"],
 [("terminal cases and operand normalisation", "src/calTerminal.c"), ("breadth-first apply/reduce over request queues", "src/calApplyReduce.c, src/calBddOp.c, src/calBddITE.c"), ("unique table", "src/calHashTable.c"), ("computed table", "src/calCacheTableTwo.c")],
 ["function denoted by the returned handle, by walking If/Then/Else"])

prop("C02", "Handles are canonical: equal functions if and only if equal handles",
 "At every moment, two live BDD handles of one manager are identical, and the equality predicate says so, if and only if they denote the same function. This holds however the two BDDs were built and whatever variable creations, frees, garbage collections and reorderings happened between building the one and the other.",
 ["histories", "inputs"], "all pairs of live handles after all operation histories",
 "Tests compare a few handles right after building them; canonicity depends on the whole history of unique-table insertions, deletions, resizes, node moves and order changes.",
 ["src/calHashTable.c", "src/calGC.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/calMemoryManagement.c", "src/calUtil.c", "src/cal.c"],
 [("find-or-add in per-variable unique tables, with complement-edge normalisation", "src/calHashTable.c"), ("handles are interned user nodes", "src/calUtil.c"), ("forwarding when nodes move", "src/calGC.c, src/calReorderBF.c, src/calReorderDF.c")],
 ["handle values", "Cal_BddIsEqual"])

prop("C03", "Multiway and pairwise operations agree with the binary connectives",
 "Multiway AND/OR/XOR of a null-terminated array returns the same BDD as folding the binary connective over its elements, and pairwise AND/OR/XOR returns a null-terminated array whose i-th entry is the connective of the i-th pair. This holds for every array length, with repeated, complementary and constant elements, and wherever the operands' top variables lie in the order.",
 ["inputs"], "all arrays of operands, including constants, repeats, and pairs with different top variables",
 "Tests use arrays of a few random BDDs whose last pair happens to contain the topmost variable or to be representative; batching several requests into one breadth-first pass has array-shape dependent corner cases.",
 ["src/calBddOp.c", "src/calPipeline.c"],
 [("request arrays processed in one breadth-first pass", "src/calBddOp.c BddArrayOpBF, BddMultiwayOp")],
 ["returned handles"])

prop("C04", "Quantification and relational product follow the current association",
 "Exists, ForAll and RelProd quantify exactly the variables that are bound in the current variable association (temporary or registered), giving respectively the disjunction, the conjunction, and the disjunction of the product over all values of those variables. The result depends only on the operands and the association that is current at the call, not on which internal algorithm is chosen because of the size of the tables and not on results remembered from other associations.",
 ["inputs", "histories", "configurations"], "all functions x all sets of quantified variables x both algorithms x any order of quantification calls",
 "Tests quantify random functions by a few random sets with the depth-first algorithm only; the breadth-first one needs more than 500k nodes to be selected, and stale remembered results need particular call sequences.",
 ["src/calQuant.c", "src/calAssociation.c", "src/calCacheTableTwo.c"],
 [("depth-first and breadth-first quantification", "src/calQuant.c"), ("cache keys derived from the association", "src/calQuant.c, src/calAssociation.c")],
 ["returned handles"], "CAL_VERIF tuning header: node count above which the breadth-first algorithm is chosen")

prop("C05", "Composition and substitution are simultaneous replacement",
 "Compose replaces one variable by a function, Substitute replaces all variables bound in the current association simultaneously by their functions, VarSubstitute does so for variable-to-variable bindings, and SwapVars exchanges two variables; variables without binding stay. This holds for all functions, including replacements that mention replaced variables and replacements that change the order of variables, and does not depend on earlier calls.",
 ["inputs", "histories", "configurations"], "all functions x all replacement maps x all variable orders",
 "The tests sample one random function and map per call under one order; simultaneous-versus-sequential errors and order-inverting maps are a tiny part of the space.",
 ["src/calBddCompose.c", "src/calBddSubstitute.c", "src/calBddVarSubstitute.c", "src/calBddSwapVars.c", "src/calAssociation.c"],
 [("breadth-first composition/substitution", "src/calBddCompose.c, src/calBddSubstitute.c"), ("variable substitution with per-association cache keys", "src/calBddVarSubstitute.c"), ("swap", "src/calBddSwapVars.c")],
 ["returned handles"])

prop("C06", "Cofactor, reduce and between stay within their care-set contracts",
 "For every c other than false, Cofactor(f,c) is the constrain of f by c (its value at an assignment is f's value at the assignment mapped into c), and Reduce(f,c) agrees with f wherever c holds and is never larger than f. Between(lo,hi) with lo implying hi lies between them and is no larger than either.",
 ["inputs", "configurations"], "all pairs of functions, all variable orders",
 "Tests check the contract on random pairs; the contract can fail for particular complement/level patterns only.",
 ["src/calReduce.c"], [("constrain/restrict recursion with caching", "src/calReduce.c")], ["returned handles", "Cal_BddSize"])

prop("C07", "Satisfy, SatisfySupport, Intersects and Implies return valid witnesses",
 "Satisfy(f) implies f, is false only if f is, and is a cube; SatisfySupport(f) is in addition a cube that mentions every variable bound in the current association. Intersects(f,g) implies both f and g and is false only if f and g is; Implies(f,g) implies f and not g and is false only if f implies g.",
 ["inputs", "configurations"], "all functions and pairs, all bound-variable sets, all variable orders",
 "Tests check random functions with one random association each.",
 ["src/calBddSatisfy.c", "src/cal.c"], [("path selection", "src/calBddSatisfy.c"), ("intersection witness recursion", "src/cal.c")], ["returned handles"])

prop("C08", "Garbage collection keeps every live BDD and reclaims every dead one",
 "A BDD for which more references were taken than given back survives any garbage collection, with the same handle and the same function. After a collection the manager holds no nodes beyond those needed by the referenced BDDs, its variables and its associations, whatever operations produced them; only nodes referenced so often that their counter saturates may be kept longer, and they are never reclaimed early.",
 ["histories", "inputs"], "all histories of operations, frees, extra references (up to and beyond the counter's maximum) and collections",
 "A missing or surplus reference only shows after a particular operation, free and collection sequence; tests mostly never collect, and never compare node counts.",
 ["src/calGC.c", "src/calUtil.c", "src/cal.c", "src/calHashTable.c", "src/calApplyReduce.c", "src/calAssociation.c"],
 [("saturating reference counts", "src/calInt.h"), ("table sweep in index order, cache sweep", "src/calGC.c"), ("repacking after collection", "src/calGC.c")],
 ["Cal_BddManagerGetNumNodes after Cal_BddManagerGC", "functions of all live handles"])

prop("C09", "Dynamic reordering preserves every function and every handle",
 "After any reordering, sifting or window, breadth-first or depth-first, invoked explicitly or repeatedly and with any setting of its parameters, every live handle still denotes the same function and equal functions still have equal handles. The variable order is a permutation consistent between index and id queries, later operations give correct results, and nodes without references are not revived or kept.",
 ["histories", "configurations", "inputs"], "all sets of live functions x methods x techniques x parameters x surrounding operations and garbage",
 "Level swaps rewrite nodes in place; which corner (empty level, shared nodes, forwarded nodes, garbage, non-interacting variables) occurs depends on the live set and order. The reorder test checks one growing set of functions.",
 ["src/calReorderBF.c", "src/calReorderDF.c", "src/calReorderUtil.c", "src/calInteract.c", "src/calGC.c", "src/calUtil.c"],
 [("adjacent-level swap with forwarding and clean-up (breadth-first)", "src/calReorderBF.c"), ("adjacent-level swap on a converted data structure (depth-first)", "src/calReorderDF.c"), ("interaction matrix", "src/calInteract.c"), ("index/id tables", "src/calReorderBF.c, src/calReorderDF.c")],
 ["functions of all live handles", "Cal_BddGetIfIndex/GetIfId, GetVarWithIndex/WithId", "node count after collection"])

prop("C10", "Depth-first reordering keeps variable blocks together",
 "With variable blocks defined, depth-first reordering only produces orders in which the variables of every block are contiguous, in which the parts of a block that is not reorderable keep their relative order, and in which nested blocks obey the same rules. Functions and handles are preserved, and variables created later next to or inside blocks keep the block structure consistent.",
 ["configurations", "inputs"], "all nested block structures over a few variables x reorderability flags x live functions x techniques",
 "No test defines a block.",
 ["src/calBlk.c", "src/calReorderDF.c", "src/calBddManager.c"],
 [("block tree", "src/calBlk.c"), ("block-aware sifting/window", "src/calReorderDF.c"), ("block bounds shifted on variable creation", "src/calBlk.c")],
 ["GetVarWithIndex order", "functions of live handles"])

prop("C11", "New variables appear exactly where requested in the order",
 "Creating a variable first, last, before or after another places it exactly there (a constant lies below every variable) and leaves the relative order of all others unchanged, whatever number of variables exists and whatever functions, associations or earlier reorderings are present. Ids count creations, index and id queries stay mutually consistent, out-of-range queries yield null, and all existing handles keep their functions.",
 ["histories"], "all sequences of variable creations interleaved with other operations, across internal capacity growth",
 "Tests only append variables; insertion at the other positions and crossing capacity boundaries with live data is not exercised.",
 ["src/calBddManager.c", "src/calAssociation.c", "src/calBlk.c"],
 [("capacity doubling of per-variable arrays", "src/calBddManager.c"), ("index shifting", "src/calBddManager.c")],
 ["GetVarWithIndex, GetVarWithId, GetIfIndex, GetIfId, Cal_BddVars"])

prop("C12", "Variable associations: identity, lifetime and isolation",
 "Two registered associations have the same identifier exactly when they bind the same variables to the same BDDs; they live until quit as often as initialised, keep the BDDs they mention alive, and SetCurrent returns the previous choice. The temporary association can be replaced, augmented and dropped without affecting registered ones, and operations always use precisely the bindings that are current, after any sequence of such calls interleaved with collections, reorderings and variable creations.",
 ["histories"], "all sequences of association calls, quantification/substitution calls and maintenance",
 "Tests create each association once and use it immediately; re-use of identifiers, remembered results across quit/re-init, and survival across maintenance depend on call order.",
 ["src/calAssociation.c", "src/calQuant.c", "src/calBddVarSubstitute.c", "src/calBddSubstitute.c", "src/calCacheTableTwo.c"],
 [("association list with reference counts", "src/calAssociation.c"), ("cache invalidation when bindings change", "src/calAssociation.c, src/calCacheTableTwo.c"), ("fix-up after nodes move", "src/calAssociation.c")],
 ["returned ids", "results of Exists/Substitute/VarSubstitute", "node counts"])

prop("C13", "Dump followed by undump restores the BDD",
 "Dumping a BDD with a variable list that covers its support and undumping it with a list of the same length, in the same or another manager and under any variable order, yields the BDD with the i-th variable of the second list in place of the i-th of the first; with the same list it is the very same handle. This holds for any BDD size, number of shared nodes and length of list, several BDDs can be written to one file one after the other, and dumping changes nothing; a list that misses a support variable is refused.",
 ["inputs", "configurations"], "all functions x variable lists x list lengths around the encoding-width boundaries",
 "Tests dump one BDD with one list; number widths change at 256 variables or 256 shared nodes.",
 ["src/calDump.c"], [("recursive encoding with shared-node labels and variable-width numbers", "src/calDump.c")], ["file contents", "returned handle"])

prop("C14", "Undump of damaged input fails cleanly",
 "Undumping any truncated or corrupted file either returns null with one of the documented error codes or returns a BDD over the given variables; it never crashes, reads or writes outside its buffers or fails to terminate. In either case all existing BDDs are intact and a failed undump leaves no nodes behind.",
 ["fault_sequences", "inputs"], "every truncation point and every single-byte corruption of dump files",
 "Tests only undump intact files.",
 ["src/calDump.c"], [("format checks and error codes", "src/calDump.c")], ["return value, error code, node count after collection"])

prop("C15", "Size and profile queries report the exact graph size",
 "Size, SizeMultiple, Profile, ProfileMultiple, FunctionProfile and FunctionProfileMultiple report exactly the numbers of nodes and subfunctions per level that the function has as a reduced ordered BDD under the current order, with and without complement edges, counting shared nodes once. The queries change nothing and can be repeated with the same answer in any order.",
 ["inputs", "configurations"], "all functions and sets of functions x orders x both counting modes",
 "Tests do not compare these numbers to anything.",
 ["src/calBddSize.c"], [("mark-and-count traversals that restore the marks", "src/calBddSize.c")], ["returned numbers"])

prop("C16", "Structural queries describe the function correctly",
 "Every non-constant BDD equals If ? Then : Else with If its topmost variable, which is a variable it depends on, and with matching index and id. Type, the constant/null/cube predicates, Support, DependsOn and SatisfyingFraction agree with the function for all functions and orders, and none of these queries modifies a BDD.",
 ["inputs", "configurations"], "all functions x all variables x orders",
 "Tests check only Then/Else/If of random BDDs and a few supports.",
 ["src/cal.c", "src/calBddSupport.c", "src/calBddSatisfy.c", "src/calUtil.c"],
 [("mark-based traversals", "src/calBddSupport.c"), ("fraction recursion with a hash table", "src/calBddSatisfy.c")], ["returned values"])

prop("C17", "Pipelined computation equals direct computation",
 "Every BDD updated from an executed pipeline equals the result of applying the operation directly, for all dependency graphs among provisional BDDs up to the set depth, all operand functions, all operations and any number of pipelines in succession. Provisional BDDs are recognised as such, BDDs not updated disappear with the pipeline, updated ones survive it, and afterwards direct operations work as before. All this holds whatever other operations, collections or reorderings happen between the phases, as long as the operands stay referenced.",
 ["histories", "inputs", "configurations"], "all small pipeline programs",
 "Tests run one fixed pipeline shape.",
 ["src/calPipeline.c", "src/calBddOp.c", "src/calGC.c", "src/calReorderBF.c"], [("provisional nodes and insertion depth", "src/calPipeline.c"), ("pending results fixed when nodes move", "src/calPipeline.c, src/calGC.c, src/calReorderBF.c")], ["updated handles", "Cal_BddIsProvisional", "node count after quit and collection"])

prop("C18", "Exceeding the node limit is reported and survivable",
 "With a node limit set, an operation either returns the correct BDD or returns null and makes the overflow query answer 1 once; null results are then propagated by the operations that receive them. All BDDs that existed before keep handle and function, and after freeing or raising the limit operations succeed again.",
 ["fault_sequences", "histories"], "all positions of an overflow in operation histories",
 "No test sets a node limit.",
 ["src/calUtil.c", "src/cal.c", "src/calBddOp.c"], [("limit check at operation boundaries", "src/calUtil.c")], ["null results", "Cal_BddOverflow", "functions of live handles"])

prop("C19", "The C++ interface is faithful and manages references exactly",
 "Every operation of the C++ classes returns what the corresponding C operation returns. For every program of constructions, copies, moves, assignments (also to itself), operators, container and scope exits, each BDD object holds exactly one reference: its function stays valid for the object's lifetime, and when all objects are gone and the manager collects, no nodes remain.",
 ["programs", "inputs"], "all short programs over a few C++ BDD objects, all wrapper functions",
 "No test instantiates the C++ interface at all.",
 ["src/calObj.hh"], [("reference counting in BDD's special members", "src/calObj.hh"), ("array conversions", "src/calObj.hh")], ["C++ results", "node counts after collection"])

prop("C20", "Printed BDDs, functions and profiles describe the BDD",
 "The text printed for a BDD by PrintBdd or FunctionPrint, read as decision diagram or formula, denotes exactly the BDD's function with the supplied or default variable and terminal names (FunctionPrint: for the 26 variables that have a letter), and PrintBdd prints every shared node once. The printed node and function profiles list for every level and in total the numbers that the corresponding queries return, and printing changes nothing.",
 ["inputs", "configurations"], "all functions x naming functions x orders",
 "Tests print nothing that is checked.",
 ["src/calPrint.c", "src/calPrintProfile.c", "src/cal.c"], [("shared-node labels", "src/calPrint.c"), ("profile formatting", "src/calPrintProfile.c")], ["output text"])

prop("C21", "Managers are independent and release everything on quit",
 "Operations on one manager never affect the BDDs, order, associations, pipeline or results of another, for all interleavings of operations on several managers. Quitting a manager releases all memory it acquired, whatever was done with it, so that creating and destroying managers can go on forever.",
 ["histories"], "all interleavings of operations on two managers; all histories before quit",
 "Tests use a single manager for the life of the process.",
 ["src/calBddManager.c", "src/calMem.c", "src/calMemoryManagement.c", "src/calHashTable.c"], [("all state reachable from the manager", "src/calBddManager.c")], ["results in each manager", "allocated bytes after quit"])

prop("C22", "Null arguments give null results and no damage",
 "Every operation that takes BDDs returns null, or the documented neutral answer, when a BDD argument is null, at any argument position. Nothing else changes: live BDDs, reference counts, associations and later results are as if the call had not been made.",
 ["inputs"], "all operations x all positions of a null argument",
 "Tests never pass a null BDD.",
 ["src/calUtil.c", "src/cal.c", "src/calBddOp.c", "src/calBddCompose.c", "src/calBddSubstitute.c"], [("argument validation before each operation", "src/calUtil.c")], ["returned values", "node counts"])

prop("C23", "The allocators hand out disjoint, stable memory",
 "For every sequence of block allocations, frees and resizes, and of record allocations and frees, the memory handed out is aligned, disjoint from all other memory in use, at least as large as requested, and keeps its contents until freed or resized, with the common prefix surviving a resize. Freed memory is reused, so that a bounded working set needs bounded memory.",
 ["histories"], "all sequences of allocator calls over sizes around the power-of-two and page boundaries",
 "Tests never call the allocator directly.",
 ["src/calMem.c", "src/calMemoryManagement.c"], [("buddy allocator", "src/calMem.c"), ("record managers", "src/calMem.c"), ("page manager", "src/calMemoryManagement.c")], ["returned pointers and contents"])

prop("C24", "Automatic maintenance at operation boundaries is transparent",
 "Garbage collection, repacking, table resizing and reordering may be triggered automatically before or after any operation. Wherever they fire in a history, and in whatever combination, every operation returns a handle for the same function it would have returned otherwise, and all live handles, associations and pending results stay valid.",
 ["histories", "schedules"], "all placements of maintenance among the operations of a history, for every operation",
 "Maintenance needs more than 10000 nodes and happens at points no test controls.",
 ["src/calUtil.c", "src/calGC.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/calHashTable.c", "src/calCacheTableTwo.c"],
 [("maintenance at operation entry and exit", "src/calUtil.c"), ("fix-up of caches, handles, associations, pipelines", "src/calGC.c, src/calCacheTableTwo.c, src/calAssociation.c")],
 ["returned handles"])

prop("C25", "Manager settings are reported and obeyed by automatic maintenance",
 "What is set on a manager (node limit, hooks, collection mode, reordering technique and threshold, repacking threshold) is what is read back, returned as the old value and shown by the statistics, and node, variable, collection and reordering counts shown are the true ones. While collection is off, no operation that stays within the node limit collects anything. Without a reordering technique, or while the nodes that a collection leaves stay below the threshold, no operation changes the variable order. With collection on, garbage does not accumulate: however long a run of operations with a bounded set of live BDDs is, the number of nodes stays within a constant factor of what is alive (or of the minimum limit for collection).",
 ["histories"], "all sequences of settings and operations; unbounded runs of operations",
 "Maintenance needs more than 10000 nodes, and nothing reads the settings back.",
 ["src/cal.c", "src/calGC.c", "src/calBddManager.c", "src/calUtil.c"],
 [("settings", "src/cal.c, src/calGC.c, src/calBddManager.c"), ("conditions for maintenance", "src/calUtil.c")],
 ["node counts", "variable order", "statistics text", "returned old settings"])

prop("C26", "Reordering never leaves the diagrams larger",
 "For every set of live BDDs, order of the variables, block structure, technique, method and setting of the forwarding and repacking parameters, the number of nodes needed by the live BDDs after reordering (as counted after a collection) is at most the number needed before, and the node count reported is exactly the number of nodes the live BDDs need under the new order.",
 ["inputs", "histories"], "all functions, orders, blocks, methods and parameters",
 "Tests compare functions after reordering, not sizes.",
 ["src/calReorderBF.c", "src/calReorderDF.c", "src/calReorderUtil.c"],
 [("choice of the best position", "src/calReorderBF.c, src/calReorderDF.c"), ("undoing of unprofitable swaps", "src/calReorderBF.c, src/calReorderDF.c")],
 ["node counts before and after reordering"])

prop("C27", "Working storage is given back: repeated work does not grow a manager",
 "Whatever an operation needs while it runs (requests, queues, tables, forwarding nodes, association copies, pipeline records) is back at the manager's disposal when it is done. For every operation on BDDs, every query, every use of associations, pipelines, dump and undump, printing, every collection and every reordering, including calls that exceed the node limit, are given null arguments or a damaged dump: repeating it any number of times and releasing what it returned, with garbage being collected (or without, when no new function arises), does not make the memory the manager holds grow without bound; once a steady state is reached it stays flat.",
 ["inputs", "histories"], "all operations and operands, repeated arbitrarily often, in every order and under every maintenance",
 "Tests run each operation a few times and never look at the memory held.",
 ["src/calBddSubstitute.c", "src/calBddVarSubstitute.c", "src/calQuant.c", "src/calBddOp.c", "src/calReorderBF.c", "src/calReorderUtil.c", "src/calHashTable.c", "src/calPipeline.c", "src/calAssociation.c", "src/calDump.c", "src/calMemoryManagement.c"],
 [("return of request nodes", "src/calHashTable.c CalHashTableCleanUp and the list ends kept by its callers"), ("return of forwarding nodes", "src/calReorderUtil.c CalBddReorderReclaimForwardedNodes"), ("records of associations and pipelines", "src/calAssociation.c, src/calPipeline.c")],
 ["bytes of C memory held by the library, after each window of repetitions"])

prop("C28", "Work follows the nodes of a diagram, not its paths",
 "Diagrams of a few thousand nodes can have astronomically many paths. For all such BDDs (of many variables, under every order), every Boolean operation, quantification, relational product, substitution, composition, variable exchange, generalized cofactor, witness operation, query of size, support, dependence or satisfying fraction, print (other than as a formula), dump, undump, pipeline and reordering comes back after work that grows with the number of nodes involved and not with the number of paths, whenever its result is small too, and its result is exact.",
 ["inputs", "histories"], "all operations on all functions whose diagrams have exponentially many paths, in every order of the variables",
 "Tests use functions of a few variables, where following every path costs nothing.",
 ["src/cal.c", "src/calBddSatisfy.c", "src/calBddSupport.c", "src/calBddSize.c", "src/calQuant.c", "src/calBddSubstitute.c", "src/calReduce.c", "src/calBddSwapVars.c", "src/calBddCompose.c", "src/calPrint.c", "src/calDump.c", "src/calHashTable.c", "src/calCacheTableTwo.c"],
 [("uniqueness of requests", "src/calHashTable.c CalHashTableFindOrAdd"), ("computed table", "src/calCacheTableTwo.c"), ("marks and per-call tables of traversals", "src/calBddSize.c, src/calBddSupport.c, src/calBddSatisfy.c, src/calPrint.c, src/calDump.c"), ("search for a witness", "src/cal.c BddIntersectsStep")],
 ["returned handles and numbers", "completion"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
