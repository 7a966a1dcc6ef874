"""What each check explores.  job: harness, scenario, variant (build of CAL), params (bounds; thorough overrides), weight (start order)."""
VARIANTS = {
  # the library as built by the project (Debug: assertions on)
  "std":  ["-O1", "-DPAGE_SIZE=4096"],
  # same code with small pages, tables and cache: 8 nodes per page, 2-bin unique tables, 16-entry computed table, eager repacking
  "tiny": ["-O1", "-DPAGE_SIZE=256", "-DCAL_VERIF_CACHE_SIZE_INDEX=4", "-DCAL_VERIF_HASH_SIZE_INDEX=1", "-DCAL_VERIF_NUM_PAGES_THRESHOLD=1"],
  # ordinary pages, small computed table (cheap managers)
  "small": ["-O1", "-DPAGE_SIZE=4096", "-DCAL_VERIF_CACHE_SIZE_INDEX=8"],
  # address sanitizer
  "asan": ["-O1", "-DPAGE_SIZE=4096", "-fsanitize=address", "-fno-omit-frame-pointer", "-DCAL_VERIF_CACHE_SIZE_INDEX=8"],
  # every C allocation of the library recorded
  "leak": ["-O1", "-DPAGE_SIZE=4096", "-DCAL_VERIF_CACHE_SIZE_INDEX=8", "-DCAL_LEAK", "-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=aligned_alloc"],
  # every basic block of the library counted
  "count": ["-O1", "-DPAGE_SIZE=4096", "-DMC_COUNT", "-fsanitize-coverage=trace-pc"],
  "tinyleak": ["-O1", "-DPAGE_SIZE=256", "-DCAL_VERIF_CACHE_SIZE_INDEX=4", "-DCAL_VERIF_HASH_SIZE_INDEX=1", "-DCAL_VERIF_NUM_PAGES_THRESHOLD=1", "-DCAL_LEAK", "-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=aligned_alloc"],
}
ASSUME = [
  "gcc, glibc and the kernel behave as documented; the library is sequential, so a run is determined by its sequence of calls",
  "functions are read off the node structure (then/else pointers with complement tag) by the harness' own walker",
]
def J(harness, scenario, variant="std", weight=1, thorough=None, **params):
    d = dict(harness=harness, scenario=scenario, variant=variant, weight=weight, thorough=thorough or {}, params=params)
    return d
def opts(j, **kw): j.update(kw); return j

CHECKS = {}
CHECKS["C01"] = dict(
  bounds="all pairs of functions of 3 variables x all 6 orders; all triples for ITE (2 orders quick, 6 thorough); all pairs of 4 variables up to NPN equivalence of one operand; 9 wide layouts up to 520 variables; all histories of 2 (quick) or 3 (thorough) operations; all pairs of 24 large functions over 13 variables",
  jobs=[J("h_bool", "binary3"), J("h_bool", "binary3", "tiny"), J("h_bool", "ite3", weight=5, orders=2, thorough=dict(orders=6)),
        J("h_bool", "binary4", weight=9, orders=1, sides=1, thorough=dict(orders=3, sides=2)), J("h_bool", "wide", weight=4),
        J("h_bool", "histories", "small", weight=6, depth=2, orders=2, thorough=dict(depth=3)), J("h_bool", "histories", "tiny", weight=6, depth=2, orders=2, thorough=dict(depth=3)),
        J("h_bool", "histories", "asan", depth=1, orders=2, thorough=dict(depth=2)),
        J("h_bool", "large", weight=5, bits=13, thorough=dict(bits=15)), J("h_bool", "large", "tiny", weight=5, bits=11, thorough=dict(bits=14))])
CHECKS["C03"] = dict(
  bounds="all arrays of length <= 4 (thorough 5) over all 16 functions of 2 variables; all pairs of pairs (and extensions to 5 and 6) over 11 (16) functions of 3 variables with every support, all 6 orders; every length up to 128 and lengths up to 1024; 9 wide layouts; large operands",
  jobs=[J("h_multi", "arrays2", weight=3, len=4, thorough=dict(len=5)), J("h_multi", "tops", weight=5, fam=11, thorough=dict(fam=16)), J("h_multi", "tops", "tiny", weight=5, fam=8, thorough=dict(fam=11)), J("h_multi", "lengths", "small", weight=3), J("h_multi", "lengths", "asan", weight=3, maxlen=70),
        J("h_multi", "wide", weight=2), J("h_multi", "large", weight=2), J("h_multi", "large", "tiny", weight=2, bits=10)])
CHECKS["C04"] = dict(
  bounds="all functions (and all pairs for the product) of 3 variables x 8 sets x 6 orders x both algorithms x 6 ways of binding; all functions of 4 variables x 16 sets x 2 orders; products of all NPN classes of 4 variables with a dense family x 16 sets; all histories of 3 (4) association events with three functions quantified after each; 70000 successive temporary associations; wide layouts with variables created or moved after binding; 24 large functions",
  jobs=[J("h_quant", "all3", weight=5, step=37, thorough=dict(step=1)), J("h_quant", "all3", "small", weight=4, step=3, thorough=dict(step=1)), J("h_quant", "all3", "tiny", weight=4, step=17), J("h_quant", "all4", "small", weight=6, orders=2, thorough=dict(orders=4)),
        J("h_quant", "relprod4", "small", weight=6, stride=1021, thorough=dict(stride=17, orders=2)), J("h_quant", "histories", "small", weight=5, depth=3, thorough=dict(depth=4)), J("h_quant", "histories", "tiny", weight=5, depth=3, thorough=dict(depth=4)), J("h_quant", "histories", "asan", depth=2),
        J("h_quant", "long_temp", weight=7), J("h_quant", "long_temp", "small", weight=7), J("h_quant", "wide", weight=4), J("h_quant", "large", weight=6), J("h_quant", "large", "tiny", weight=5, bits=11)])
CHECKS["C05"] = dict(
  bounds="Compose: all (f, variable, h) over 3 variables x 6 orders, NPN classes of 4 variables; Substitute: all maps of 3 variables into a family of 11 (15) functions x all f x 6 orders; VarSubstitute: all 625 partial maps of 4 variables x NPN classes x 2 (4) orders; SwapVars: all functions of 4 variables x all pairs; all histories of 3 (4) association events; wide layouts; 24 large functions",
  jobs=[J("h_subst", "compose3", weight=3), J("h_subst", "compose3", "tiny", weight=3), J("h_subst", "compose4", "small", weight=4, stride=257, thorough=dict(stride=31)), J("h_subst", "substitute3", "small", weight=6, fam=9, thorough=dict(fam=15)), J("h_subst", "substitute3", "tiny", weight=6, fam=7, thorough=dict(fam=11)),
        J("h_subst", "varsubst4", weight=6, thorough=dict(orders=4, step=1)), J("h_subst", "swap4", "small", weight=5, thorough=dict(orders=4)), J("h_subst", "histories", "small", weight=5, thorough=dict(depth=4)), J("h_subst", "histories", "tiny", weight=4), J("h_subst", "histories", "asan", depth=2, thorough=dict(depth=3)),
        J("h_subst", "wide", "small", weight=5), J("h_subst", "large", weight=4), J("h_subst", "large", "tiny", weight=4, bits=10)])
CHECKS["C06"] = dict(
  bounds="all pairs of functions of 3 variables x 6 orders; NPN classes of 4 variables with a dense family; 9 wide layouts; histories of 2 (3) operations; all pairs of 24 large functions",
  jobs=[J("h_care", "care3", weight=3), J("h_care", "care3", "tiny", weight=3), J("h_care", "care4", "small", weight=6, stride=128, thorough=dict(stride=2, orders=3)), J("h_care", "care_wide", weight=3),
        J("h_care", "care_histories", "small", weight=4, thorough=dict(depth=3)), J("h_care", "care_histories", "tiny", weight=3), J("h_care", "care_histories", "asan", depth=1, thorough=dict(depth=2)), J("h_care", "care_large", weight=4), J("h_care", "care_large", "tiny", weight=3, bits=10)])
CHECKS["C07"] = dict(
  bounds="Satisfy/SatisfySupport: all functions of 3 and 4 variables x all sets x 6 ways of binding x 3-6 orders; Intersects/Implies: all pairs of functions of 3 variables x 6 orders, NPN classes of 4 variables with a dense family; wide layouts with late variables; histories of 2 (3) operations with exact node accounting; all pairs of 24 large functions",
  jobs=[J("h_care", "sat3", weight=2), J("h_care", "sat3", "tiny", weight=2), J("h_care", "sat4", "small", weight=6, orders=2, thorough=dict(orders=3)), J("h_care", "wit3", weight=3), J("h_care", "wit3", "tiny", weight=2), J("h_care", "wit4", "small", weight=5, stride=32, thorough=dict(stride=1, orders=2)),
        J("h_care", "sat_wide", "small", weight=4), J("h_care", "sat_histories", "small", weight=4, thorough=dict(depth=3)), J("h_care", "sat_histories", "asan", depth=1, thorough=dict(depth=2)), J("h_care", "sat_large", weight=4, bits=12)])
CHECKS["C09"] = dict(
  bounds="all functions of 4 variables x 4 method/technique combinations x forwarding and repacking parameters; pairs of NPN classes x all sequences of 2 method combinations; all 256 functions of 3 variables live at once x 12 parameter settings; all histories of 3 (4) operations, releases, variable creations and reorderings; 9 manager sizes from 31 to 130 variables; families of large functions",
  jobs=[J("h_reorder", "all4", "tiny", weight=4), J("h_reorder", "all4", "small", weight=7, step=3, thorough=dict(step=1)), J("h_reorder", "all4", "asan", weight=5, step=97, thorough=dict(step=7)), J("h_reorder", "pairs4", "tiny", weight=5), J("h_reorder", "pairs4", "small", weight=5, second=2, params=2, thorough=dict(second=6, params=3)),
        J("h_reorder", "histories", "tiny", weight=4, thorough=dict(depth=4)), J("h_reorder", "histories", "small", weight=5), J("h_reorder", "histories", "asan", depth=2, weight=3), J("h_reorder", "allfn3", "tiny", weight=3), J("h_reorder", "allfn3", "small", weight=3),
        J("h_reorder", "spread", "tiny", weight=2), J("h_reorder", "spread", "small", weight=3), J("h_reorder", "large", "small", weight=4), J("h_reorder", "large", "tiny", weight=4)])
CHECKS["C24"] = dict(
  bounds="each of 35 operations x operands x each kind of maintenance (collection, repacking, four reorderings) forced before or at each of 4 points; all pairs of operations x maintenance at either; all histories of 3 (4) operations with maintenance forced at every operation; rounds of building, dropping and maintaining large functions",
  jobs=[J("h_maint", "single", "tiny", weight=3), J("h_maint", "single", "small", weight=5), J("h_maint", "pairs", "tiny", weight=4), J("h_maint", "pairs", "small", weight=4), J("h_maint", "histories", "tiny", weight=5, thorough=dict(depth=4)), J("h_maint", "histories", "small", weight=6), J("h_maint", "histories", "asan", depth=2, weight=4, thorough=dict(depth=3)),
        J("h_maint", "rounds", "small", weight=3), J("h_maint", "rounds", "tiny", weight=3)])
CHECKS["C09"]["jobs"] += [J("h_reorder", "assoc_values", "tiny", weight=3), J("h_reorder", "assoc_values", "small", weight=4)]
CHECKS["C02"] = dict(
  bounds="all functions of 3 variables x 9 x 9 ways of building them x 6 orders x 12 events (collection, reordering, repacking, variable creation) in between; functions of 4 variables (every 16th; thorough: all) x 9 ways x 3 orders; all histories of 4 (5) operations, releases, collections, reorderings and variable creations, every live function then rebuilt in 9 ways; 24 large functions rebuilt after collection and reordering",
  jobs=[J("h_refs", "ways3", "tiny", weight=3), J("h_refs", "ways3", "small", weight=5), J("h_refs", "ways3", weight=7), J("h_refs", "ways4", "small", weight=3, thorough=dict(stride=1)), J("h_refs", "ways4", "tiny", stride=4, thorough=dict(stride=1)),
        J("h_refs", "canon_histories", "tiny", weight=4, thorough=dict(depth=5)), J("h_refs", "canon_histories", "small", weight=6, thorough=dict(depth=4)), J("h_refs", "canon_histories", "asan", depth=2, weight=2, thorough=dict(depth=3)), J("h_refs", "canon_large", "small"), J("h_refs", "canon_large", "tiny")])
CHECKS["C08"] = dict(
  bounds="each of 35 operations on all operand tuples from 12 functions with exact node accounting while the result lives and after it is released; all histories of 4 (5) operations, extra references, releases, collections and reorderings with reference counts in the model; 1 to 600 references to one handle and 100 to 520 parents of one node, released in part or fully, around collections and reorderings; large functions dropped in every order",
  jobs=[J("h_refs", "everyop", "tiny", weight=2), J("h_refs", "everyop", "small", weight=2), J("h_refs", "everyop", weight=5), J("h_refs", "everyop", "asan", weight=3), J("h_refs", "ref_histories", "tiny", weight=6, thorough=dict(depth=6)), J("h_refs", "ref_histories", "small", weight=5, depth=4, thorough=dict(depth=5)), J("h_refs", "ref_histories", "asan", weight=3, depth=3, thorough=dict(depth=4)),
        J("h_refs", "saturate_handle", "small"), J("h_refs", "saturate_handle", "tiny"), J("h_refs", "saturate_node", "small", weight=3), J("h_refs", "saturate_node", "tiny", weight=3), J("h_refs", "saturate_node", "asan", weight=5, ks=6), J("h_refs", "ref_large", "small", weight=2), J("h_refs", "ref_large", "tiny", bits=13, weight=2)])
CHECKS["C15"] = dict(
  bounds="all functions of 3 variables x all pairs of the six queries x both complement-edge conventions x 6 orders x 3 placements of unused variables; all pairs of functions of 3 variables as sets; all functions of 4 variables, single and in triples, x 4 (24) orders; 9 wide layouts; all histories of 3 (4) operations, collections, reorderings and variable creations with all queries after each; all 24 large functions and pairs of them",
  jobs=[J("h_query", "size3", weight=2), J("h_query", "size3", "tiny"), J("h_query", "size3", "asan", weight=4), J("h_query", "sizepairs3", "small", weight=2), J("h_query", "sizepairs3", "tiny", weight=2), J("h_query", "sizepairs3", weight=4), J("h_query", "size4", "small", weight=3, thorough=dict(orders=24)), J("h_query", "size4", "tiny", weight=3, thorough=dict(orders=24)),
        J("h_query", "size_wide"), J("h_query", "size_wide", "asan"), J("h_query", "size_histories", "small", weight=2, thorough=dict(depth=5)), J("h_query", "size_histories", "tiny", depth=4, weight=2, thorough=dict(depth=5)), J("h_query", "size_histories", "asan", depth=2), J("h_query", "size_large", bits=14, weight=4), J("h_query", "size_large", "tiny", bits=12, weight=2)])
CHECKS["C16"] = dict(
  bounds="all structural queries on all functions of 3 variables x 6 orders x 3 placements of unused variables x 4 sequences of functions (with reordering in between); all functions of 4 variables x 8 orders; 9 wide layouts; all pairs of functions of 3 variables queried in succession; all paths of 24 large functions; products, disjunctions and parities of 20 to 300 variables",
  jobs=[J("h_query", "struct3", "small", weight=2), J("h_query", "struct3", "tiny"), J("h_query", "struct3", "asan", weight=3), J("h_query", "struct4", "small", weight=3), J("h_query", "struct4", "tiny", weight=3), J("h_query", "struct4", weight=5), J("h_query", "struct_wide"), J("h_query", "struct_wide", "tiny"), J("h_query", "struct_wide", "asan"),
        J("h_query", "struct_pairs", "small"), J("h_query", "struct_pairs", "tiny"), J("h_query", "struct_pairs", "asan", weight=3), J("h_query", "struct_large", bits=14, weight=3), J("h_query", "struct_large", "tiny"), J("h_query", "struct_many", "small"), J("h_query", "struct_many", "tiny"), J("h_query", "struct_many", "asan", weight=2)])
CHECKS["C10"] = dict(
  bounds="all nestings of up to 3 (thorough 4, with one-variable blocks) blocks over 5 variables, each reorderable or not, x 4 (6) pairs of functions x 2 x 2 techniques; all histories of 4 (5) block definitions, flag changes, variable creations next to and inside blocks, functions over the new variables, collections and reorderings; 8 block structures over 10 (12) variables x 24 large functions x techniques",
  jobs=[J("h_order", "blocks5", "tiny", weight=2, thorough=dict(singles=1, fns=6)), J("h_order", "blocks5", "small", weight=5, fns=2, thorough=dict(fns=6)), J("h_order", "blocks5", "asan", weight=6, fns=1, blocks=3, thorough=dict(fns=3)), J("h_order", "block_histories", "tiny", weight=5, thorough=dict(depth=5)), J("h_order", "block_histories", "small", depth=3, weight=2, thorough=dict(depth=4)), J("h_order", "block_histories", "asan", depth=3, weight=4),
        J("h_order", "blocks_large", "small", weight=2, thorough=dict(bits=12)), J("h_order", "blocks_large", "tiny", weight=2, thorough=dict(bits=12)), J("h_order", "blocks_large", "asan", weight=2)])
CHECKS["C11"] = dict(
  bounds="all sequences of 6 (7) creations at any position (given by the variable, its complement or a function with that top variable) with all queries after each; 28 manager sizes from 1 to 300 around capacity boundaries x 3 ways of filling x 5 previous reorderings x 6 positions x 3 further creations with functions, a registered and a temporary association in use; all histories of 4 (5) creations, operations, reorderings, collections and association changes",
  jobs=[J("h_order", "create", "tiny", weight=2, thorough=dict(depth=7)), J("h_order", "create", "small", weight=4), J("h_order", "create", "asan", depth=5, weight=2), J("h_order", "positions", "tiny"), J("h_order", "positions", "small", weight=2), J("h_order", "positions", weight=6), J("h_order", "positions", "asan", weight=2),
        J("h_order", "create_histories", "tiny", weight=2, thorough=dict(depth=5)), J("h_order", "create_histories", "small", weight=2, thorough=dict(depth=5)), J("h_order", "create_histories", "asan", weight=3)])
CHECKS["C12"] = dict(
  bounds="all histories of 3 (4) events out of 37 (init/quit/set-current/temporary init, augment and quit over 9 descriptions, unknown ids, refused descriptions, collections, repacking, reorderings, variable creations) with every operation that uses associations run under every association after each event; all pairs of 11 descriptions x registered/temporary x 6 intermediate events x 6 orders; up to 6 uses of one association; 300 (5000) associations at once with 4 orders of release, 16400 and more at once",
  jobs=[J("h_assoc", "histories", "tiny", weight=3, thorough=dict(depth=4)), J("h_assoc", "histories", "small", weight=4, orders=2), J("h_assoc", "histories", "tiny", weight=5, depth=4, all=0, templates=6, thorough=dict(templates=9)), J("h_assoc", "histories", "asan", weight=4), J("h_assoc", "swap", "tiny", weight=2), J("h_assoc", "swap", "small", weight=2), J("h_assoc", "swap", "asan", weight=2),
        J("h_assoc", "many", "tiny", vars=11, count=1000, thorough=dict(vars=13, count=5000)), J("h_assoc", "many", "small", thorough=dict(vars=13, count=5000)), J("h_assoc", "many", "asan"), J("h_assoc", "very_many", "tiny", weight=2), J("h_assoc", "very_many", weight=2, thorough=dict(count=32760)), J("h_assoc", "counts", "tiny"), J("h_assoc", "counts", "small"), J("h_assoc", "counts", "asan")])
CHECKS["C08"]["bounds"] += "; 51 operations (every exchange of two variables among them) on every fourth (thorough: every) function of 4 variables or on all tuples from a family, in all 24 orders; 12 operations that add 1 to 250 references at once to a node that has 0 to 250"
CHECKS["C08"]["jobs"] += [J("h_refs", "saturate_bulk", "small"), J("h_refs", "saturate_bulk", "tiny"), J("h_refs", "saturate_bulk", "asan", weight=3), J("h_refs", "everyop_lean", "small"), J("h_refs", "everyop_lean", "tiny"), J("h_refs", "everyop_lean", weight=2), J("h_refs", "everyop4", "small", weight=2, orders=24, stride=4, thorough=dict(stride=1)), J("h_refs", "everyop4", "tiny", weight=2, orders=24, stride=4, thorough=dict(stride=1)), J("h_refs", "everyop4", "asan", weight=2)]
CHECKS["C13"] = dict(
  bounds="all functions of 3 variables x 6 x 6 orders of the writing and the reading manager x placements of the listed variables; functions of 4 variables x orders; all refused calls (variable lists that omit, repeat or misplace variables, null BDDs); 9 wide layouts up to 520 variables; long chains and symmetric functions with 1-, 2- and 3-byte node numbers; 24 large functions; all histories of 4 (5) operations, dumps, undumps, reorderings, collections and variable creations",
  jobs=[J("h_dump", s, v, **k) for s, v, k in [
    ("round3", "small", dict(weight=2)), ("round3", "tiny", {}), ("round3", "asan", dict(weight=2)), ("round4", "small", dict(weight=3)), ("round4", "tiny", dict(weight=2)), ("round4", "asan", dict(weight=3)),
    ("refused", "small", {}), ("refused", "asan", {}), ("wide", "small", {}), ("wide", "tiny", {}), ("wide", "asan", {}), ("chains", "small", {}), ("chains", "asan", {}), ("symmetric", "small", dict(nodes=90000, weight=2)), ("symmetric", "tiny", {}),
    ("dump_large", "small", dict(thorough=dict(bits=15))), ("dump_large", "tiny", {}), ("dump_histories", "small", dict(depth=4, weight=2, thorough=dict(depth=5))), ("dump_histories", "tiny", dict(depth=4, weight=2, thorough=dict(depth=5))), ("dump_histories", "asan", dict(depth=3, weight=2, thorough=dict(depth=4)))]])
CHECKS["C14"] = dict(
  bounds="every byte of the dumps of a family of functions replaced by all 256 values, every prefix, every pair of bytes replaced by boundary values; all streams of up to 8 (9) bytes over an alphabet of the values that mean something to the reader; all headers of up to 8 fields; deep chains; lists and numbers that overflow; each read back under the address sanitizer and followed by an accounting of the manager's nodes",
  jobs=[J("h_dump", s, v, **k) for s, v, k in [
    ("bytes", "asan", dict(weight=2)), ("bytes", "small", dict(weight=2)), ("bytes", "tiny", {}), ("byte_pairs", "asan", dict(weight=3)), ("byte_pairs", "small", {}), ("streams1", "small", dict(len=8, weight=3, thorough=dict(len=9))), ("streams1", "asan", dict(weight=3)), ("headers", "small", dict(len=8)), ("headers", "asan", {}),
    ("deep", "small", {}), ("deep", "asan", {}), ("wide_bytes", "small", {}), ("wide_bytes", "asan", {}), ("lists", "small", {}), ("lists", "asan", {}), ("lists", "tiny", {}), ("overflow", "small", {}), ("overflow", "asan", {}), ("overflow", "tiny", {})]])
CHECKS["C17"] = dict(
  bounds="all dependency graphs of up to 3 provisional BDDs over pools of 8, 7 and 4 functions x 3 operations x 6 sets and orders of updates x 2 orders; chains, trees and pyramids of 12 depths up to the maximum of 256 (and one more, refused) x every depth setting x maintenance forced during execution; all triples of 18 other calls (operations, collections, repacking, reorderings, variable creations, multiway operations, compositions) between creation, execution, the updates and quit; all histories of 3 (4) pipelines and other calls; up to 1000 requests per level x 6 levels; 24 large functions; 9 wide layouts; wrong uses",
  jobs=[J("h_pipe", s, v, **k) for s, v, k in [
    ("dags", "small", {}), ("dags", "tiny", dict(thorough=dict(pool3=6))), ("dags", "asan", dict(weight=2)), ("depths", "small", dict(weight=3)), ("depths", "tiny", dict(weight=2)), ("depths", "asan", dict(weight=5, depths=8, thorough=dict(depths=12))),
    ("phases", "small", dict(weight=3)), ("phases", "tiny", {}), ("phases", "asan", dict(weight=4)), ("pipe_histories", "small", dict(weight=2, thorough=dict(depth=4))), ("pipe_histories", "tiny", dict(thorough=dict(depth=4))), ("pipe_histories", "asan", dict(weight=4)),
    ("misuse", "small", {}), ("misuse", "asan", {}), ("pipe_wide", "small", {}), ("pipe_wide", "tiny", {}), ("pipe_wide", "asan", {}), ("pipe_large", "small", dict(thorough=dict(bits=14))), ("pipe_large", "tiny", dict(thorough=dict(bits=13))), ("pipe_large", "small", dict(bits=8)), ("pipe_large", "tiny", dict(bits=8)), ("pipe_layouts", "small", {}), ("pipe_layouts", "tiny", {}), ("pipe_layouts", "asan", {})]])
CHECKS["C18"] = dict(
  bounds="each of 35 operations x operand tuples of 7 functions x 7 limits around the node count x checks at the entry and after 1 to 3 new nodes x 6 kinds of maintenance x 2 associations; all histories of 4 (5) operations on possibly null results, releases, changes of the limit, collections and reorderings; sequences of 60 operations on 24 large functions under 10 limits through the public interface only; pipelines of up to 6 levels overflowing at every batch x 6 continuations",
  jobs=[J("h_limit", s, v, **k) for s, v, k in [
    ("single", "tiny", dict(weight=2)), ("single", "small", dict(weight=6, limits=2, thorough=dict(limits=7))), ("single", "asan", dict(weight=5, limits=1, thorough=dict(limits=7))),
    ("limit_histories", "tiny", dict(weight=4, thorough=dict(depth=5))), ("limit_histories", "small", dict(depth=3, weight=3, thorough=dict(depth=4))), ("limit_histories", "asan", dict(depth=3, limits=2, weight=3, thorough=dict(depth=4))),
    ("limit_large", "small", dict(weight=2, thorough=dict(bits=13))), ("limit_large", "tiny", dict(thorough=dict(bits=12))), ("limit_pipeline", "tiny", {}), ("limit_pipeline", "small", dict(weight=4)), ("limit_pipeline", "asan", dict(weight=7, thorough={}))]])
CHECKS["C19"] = dict(
  bounds="every method of BDD and Cal on 10 functions of 3 variables (all pairs and triples) x 6 variable orders x registered and temporary association, compared with the C function's handle, value, vector or text; all programs of 2 (3) statements out of 100 over three BDD objects and a container with exact reference counts after every statement and exact node counts after collections; up to 600 objects for one function x 4 ways to make x 3 ways to drop them; heap use of 200 repetitions of every allocating call; objects of two managers",
  jobs=[J("h_cxx", s, v, **k) for s, v, k in [
    ("wrappers", "small", {}), ("wrappers", "asan", dict(weight=2)), ("heap", "small", {}), ("many_objects", "small", {}), ("many_objects", "asan", {}), ("managers", "asan", {}), ("managers", "tiny", {}),
    ("programs", "small", dict(depth=3, weight=8, thorough=dict(orders=2))), ("programs", "tiny", dict(depth=2, orders=2, thorough=dict(depth=3))), ("programs", "asan", dict(depth=2, weight=3, thorough=dict(depth=3)))]])
CHECKS["C20"] = dict(
  bounds="the text of every function of 3 variables x 6 orders x 4 layouts and of every function of 4 variables (x 1, thorough 24 orders) x 3 ways to name variables x 3 ways to name terminals, parsed and compared; formula printing likewise; profiles of 1 to 4 functions x 9 line lengths; 24 functions of 10 and 13 variables; layouts of up to 520 variables; printing before and after operations, collections and reorderings with exact reference counts",
  jobs=[J("h_print", s, v, **k) for s, v, k in [
    ("print3", "small", {}), ("print3", "asan", dict(weight=2)), ("print4", "small", dict(weight=2, thorough=dict(orders=24))), ("profile3", "small", {}), ("profile3", "asan", dict(weight=2)), ("large", "small", dict(bits=13)), ("large", "asan", {}), ("wide", "small", {}), ("wide", "std", {}), ("mixed", "tiny", {}), ("mixed", "small", {}), ("mixed", "asan", dict(weight=2))]])
CHECKS["C22"] = dict(
  bounds="every operation x every set of null positions x 36 choices of the other operands x 6 orders x 2 associations; every query, printing, creation and dump function; all histories of 2 (3) operations out of 30, and of 3 (4) out of 13, on three slots of which null flows through, with collections and reorderings; pipelines with null operands at every place; the C++ operators and methods; after each null call exact node counts, reference counts, values, order and association",
  jobs=[J("h_null", s, v, **k) for s, v, k in [
    ("operations", "small", {}), ("operations", "asan", dict(weight=2)), ("variables", "small", {}), ("variables", "asan", dict(weight=2)), ("queries", "small", {}), ("queries", "asan", {}), ("pipeline", "small", {}), ("pipeline", "asan", {}), ("cxx", "small", {}), ("cxx", "asan", {}),
    ("null_histories", "small", dict(depth=2, thorough=dict(depth=3))), ("null_histories", "tiny", dict(depth=3, few=1, weight=6, thorough=dict(depth=4))), ("null_histories", "asan", dict(depth=2, weight=2, thorough=dict(depth=3, few=1)))]])
CHECKS["C21"] = dict(
  bounds="all sequences of 2 (3) out of 40 uses of a manager (all operations, variables, associations, blocks, reorderings, maintenance, pipelines in every state, dump, damaged dumps, printing, queries, overflow, wide operations, saturation, null arguments, parameters) x 2 orders, then quit, with every C allocation of the library recorded; managers of 0 to 520 variables; 24 large functions x 12 events; 5 managers quit in all 120 orders; Cal objects; all interleavings of 2 (3) of 26 uses of two managers, both fully verified after each; every sequence of 2 (3) uses alone, beside another manager and again must have identical effects",
  jobs=[J("h_mgr", s, v, **k) for s, v, k in [
    ("lifecycle", "leak", dict(thorough=dict(depth=3))), ("lifecycle", "tinyleak", dict(depth=3, orders=1, weight=4, thorough=dict(orders=2))), ("lifecycle", "asan", dict(weight=2, thorough=dict(depth=3))), ("lifecycle", "small", dict(weight=2)), ("life_large", "leak", {}), ("life_large", "tinyleak", {}), ("life_large", "asan", {}), ("life_sizes", "leak", {}), ("life_sizes", "tinyleak", {}), ("life_sizes", "asan", {}),
    ("several", "leak", {}), ("several", "tinyleak", {}), ("several", "asan", {}), ("life_cxx", "leak", {}), ("life_cxx", "asan", {}), ("isolation", "small", {}), ("isolation", "tiny", dict(depth=3, weight=4)), ("isolation", "asan", dict(weight=2, thorough=dict(depth=3))), ("independence", "small", {}), ("independence", "tiny", dict(thorough=dict(depth=3))), ("independence", "asan", dict(weight=4))]])
CHECKS["C23"] = dict(
  bounds="all sequences of 4 (5) allocations, releases and resizes over 11 sizes around the powers of two and the page size, with the program break moved by others in between, and of 5 (6) over 5 sizes; 40 rounds of every triple of sizes in 6 patterns; all sequences of 6 (8) record allocations and releases for 14 record sizes, and 400 on every pair of sizes; all sequences of 5 (6) page allocations and releases x 4 segment sizes x 4 limits on what the system gives; up to 60000 nodes over three node managers; whole managers on small segments; every byte in use verified after each step",
  jobs=[J("h_mem", s, v, **k) for s, v, k in [
    ("blocks", "small", dict(weight=4, thorough=dict(depth=5))), ("blocks", "small", dict(depth=5, few=1, weight=4, thorough=dict(depth=6))), ("blocks", "asan", dict(depth=3, thorough=dict(depth=4))), ("reuse", "small", dict(weight=2)), ("records", "leak", {}), ("records", "tinyleak", {}), ("records", "asan", {}), ("record_seqs", "small", dict(depth=8)), ("record_seqs", "tiny", dict(depth=8)), ("record_seqs", "asan", {}),
    ("pages", "leak", dict(weight=4, thorough=dict(depth=6))), ("pages", "tinyleak", dict(depth=6)), ("pages", "asan", dict(depth=4, weight=2)), ("nodes", "leak", {}), ("nodes", "tinyleak", {}), ("nodes", "asan", {}), ("small_segments", "leak", {}), ("small_segments", "tinyleak", {})]])

CHECKS["C24"]["jobs"] += [J("h_maint", "cachegrow", "tiny", weight=2), J("h_maint", "cachegrow", "small", rounds=60, bits=9), J("h_maint", "cachegrow", "asan")]
CHECKS["C24"]["bounds"] += "; computed tables growing up to three times under four mixes of operations x maintenance"
CHECKS["C09"]["jobs"] += [J("h_reorder", "sift_limits", "tiny", weight=2), J("h_reorder", "sift_limits", "small", weight=2)]
CHECKS["C09"]["bounds"] += "; 84 functions of 12 variables whose size depends on the place of one variable, so that sifting gives up and returns, x method pairs x 5 forwarding limits"
CHECKS["C25"] = dict(
  bounds="all sequences of 3 and 4 (thorough 5) settings, constructions, collections and reorderings with everything read back after each; all histories of 3 (4) operations with collection off and due at every one; each of 35 operations x 6 operand choices x technique x threshold x collection mode; runs of 300 (2000) rounds of operations on 24 families of functions x 6 mixes x 3 techniques with the project's own constants; growing disjoint forms of 10 to 13 pairs",
  jobs=[J("h_conf", s, v, **k) for s, v, k in [
    ("settings", "small", dict(depth=3, thorough=dict(depth=4))), ("settings", "tiny", dict(depth=4, weight=2, thorough=dict(depth=5))), ("settings", "asan", dict(depth=3)), ("gcoff", "tiny", dict(weight=2, thorough=dict(depth=4))), ("gcoff", "small", dict(weight=4)), ("gcoff", "asan", dict(depth=2)),
    ("reorder_when", "small", {}), ("reorder_when", "tiny", {}), ("reorder_when", "asan", {}), ("bounded", "small", dict(bits=12, rounds=300, weight=2, thorough=dict(rounds=2000))), ("bounded", "small", dict(bits=8, rounds=2000, weight=2)), ("bounded", "std", dict(bits=12, rounds=200, weight=3, thorough=dict(rounds=1000))),
    ("auto_reorder", "small", {}), ("auto_reorder", "std", {}), ("auto_reorder", "asan", {}), ("bounded_each", "small", dict(weight=2)), ("bounded_each", "std", dict(weight=2))]])
CHECKS["C26"] = dict(
  bounds="all functions of 4 variables (every second alone, every second with another) x 4 method/technique combinations x 3 parameter settings, alternate methods in succession; 24 families of 9 (11) variables alone and in pairs x 16 method pairs x 4 parameter settings; 6 block structures, fixed or reorderable; 84 functions of 12 variables whose size depends on the place of one variable x 16 x 5",
  jobs=[J("h_qual", s, v, **k) for s, v, k in [
    ("shrink4", "tiny", dict(weight=2)), ("shrink4", "small", dict(step=7, weight=3, thorough=dict(step=1))), ("shrink_large", "small", dict(thorough=dict(bits=11))), ("shrink_large", "tiny", dict(thorough=dict(bits=11))), ("shrink_blocks", "small", {}), ("shrink_blocks", "tiny", {}), ("shrink_limits", "small", dict(weight=3)), ("shrink_limits", "tiny", dict(weight=2)), ("shrink_limits", "asan", dict(bits=9, weight=2))]])

CHECKS["C27"] = dict(
  bounds="each of 35 operations x 12 first operands x up to 8 pairs of further ones x 2 orders x 5 settings (released, collected, over the node limit, maintenance, breadth first), repeated 2450 times; each operation on all pairs of functions of 3 variables, swept repeatedly; all pairs (thorough: triples) of 30 uses of a manager (associations, pipelines, dump, damaged dumps, printing, queries, reorderings, null arguments, variables' handles) repeated 2100 times with and without collections, singles also under each of 6 kinds of maintenance; 24 large functions x 18 works (reorderings that reclaim forwarded nodes and repack at once among them); C++ objects and containers",
  technique="exhaustive stateless exploration of repeated operation sequences on the real library; oracle: neither bytes held nor pages in use may grow in each of three equal windows of repetitions",
  jobs=[J("h_work", s, v, **k) for s, v, k in [
    ("ops", "tinyleak", dict(weight=2, thorough=dict(orders=6))), ("ops", "leak", dict(weight=3, thorough=dict(orders=6))), ("sweeps", "tinyleak", dict(weight=3)), ("sweeps", "leak", dict(weight=3, step=4, thorough=dict(step=1))), ("events", "tinyleak", dict(weight=5, thorough=dict(depth=3, reps=100))), ("events", "leak", dict(weight=4, orders=1, thorough=dict(orders=6))), ("events", "tinyleak", dict(depth=1, maint=1, thorough=dict(depth=2))), ("events", "leak", dict(depth=1, maint=1, weight=2)),
    ("work_large", "tinyleak", dict(weight=2)), ("work_large", "leak", dict(bits=12, weight=3)), ("work_cxx", "tinyleak", {}), ("work_cxx", "leak", {})]])

# managers with up to 65534 variables
for _p, _g in (("C01", 1), ("C03", 2), ("C04", 4), ("C05", 8), ("C06", 16), ("C07", 32)):
  CHECKS[_p]["jobs"] += [opts(J("h_many", "many_ops", "tiny", groups=_g, fam=4, weight=4, thorough=dict(fine=1, fam=6)), casetimeout=200)]
  CHECKS[_p]["bounds"] += "; managers of 1024 to 65534 (the maximum) variables x 3 placements of the variables used x 3 orders of creation"
for _p, _s, _k in (("C11", "many_create", {}), ("C12", "many_assoc", {}), ("C13", "many_dump", {}), ("C15", "many_queries", dict(groups=1)), ("C16", "many_queries", dict(groups=2)), ("C09", "many_reorder", dict(thorough=dict(sizes=8)))):
  _k = dict(_k); _k.setdefault("thorough", dict(fine=1))
  CHECKS[_p]["jobs"] += [opts(J("h_many", _s, "tiny", weight=3, **_k), casetimeout=200)]
  if _s == "many_reorder": CHECKS[_p]["jobs"] += [opts(J("h_many", _s, "std", weight=6, first=9, sizes=1, modes=1, spreads=1, thorough=dict(first=8, sizes=3, modes=1, spreads=3)), casetimeout=400)]
  CHECKS[_p]["bounds"] += "; managers of " + ("511 to 1025 (2049), 46342 (46341 to 65534)" if _s == "many_reorder" else "1024 to 65534 (the maximum)") + " variables"

# diagrams with astronomically many paths, exact models over counts of true variables
_SYM = dict(C01=["sym_binary", "sym_ternary"], C03=["sym_ternary"], C04=["sym_quant"], C05=["sym_subst", "sym_compose"], C06=["sym_care"], C07=["sym_witness"], C09=["sym_reorder"], C13=["sym_dump"], C15=["sym_queries"], C16=["sym_queries"], C17=["sym_pipe"])
_N28 = dict(sym_quant=14, sym_mixed=12, sym_reorder=14)
for _p, _l in _SYM.items():
  for _s in _l: CHECKS[_p]["jobs"] += [J("h_sym", _s, "std", weight=3, n=_N28.get(_s, 20), thorough=dict(n=20)), J("h_sym", _s, "small", n=7)]
  CHECKS[_p]["bounds"] += "; 18 functions of 41 variables that depend on the numbers of true variables in two groups (pairs, triples) x 4 orders, exactly"
CHECKS["C28"] = dict(
  bounds="18 functions of 41 variables (parities, thresholds, comparisons, counts modulo 3 and 4, conjunctions, constants) with up to 2^41 paths through at most some hundred nodes per level x 4 orders: all pairs for each connective, multiway triples, quantification over every union of the groups by both algorithms, six substitutions, composition, variable exchange, care sets, witnesses, all queries, printing, dump and undump, pipelines, reordering by every method; the remembering operations in all 24 orders on the same operands; smaller groups with tables of minimal size and under the address sanitizer",
  technique="exhaustive stateless exploration of operation sequences on the real library against an exact model over counts; the basic blocks of the library executed by each operation are counted and bounded (some thirty times what the operations need), which only an execution following paths can exceed",
  # n, limit in thousands of basic blocks per operation; the same for the thorough tier
  jobs=[opts(J("h_sym", _s, "count", weight=3, n=_a, work=_b, thorough=dict(n=_c, work=_d)), casetimeout=240) for _s, _a, _b, _c, _d in (
     ("sym_binary", 20, 400000, 28, 2000000), ("sym_ternary", 20, 400000, 28, 2000000), ("sym_quant", 14, 150000, 15, 600000), ("sym_subst", 20, 400000, 28, 2000000), ("sym_compose", 20, 400000, 28, 2000000), ("sym_care", 20, 400000, 24, 4000000),
     ("sym_witness", 20, 400000, 28, 2000000), ("sym_queries", 20, 400000, 28, 2000000), ("sym_dump", 20, 800000, 28, 4000000), ("sym_pipe", 20, 400000, 28, 2000000), ("sym_reorder", 14, 6000000, 20, 20000000), ("sym_mixed", 12, 100000, 14, 200000))]
     + [J("h_sym", _s, "tiny", n=6) for _s in ("sym_binary", "sym_quant", "sym_subst", "sym_compose", "sym_care", "sym_witness", "sym_reorder", "sym_mixed")]
     + [J("h_sym", _s, "asan", n=6) for _s in ("sym_binary", "sym_ternary", "sym_quant", "sym_subst", "sym_compose", "sym_care", "sym_witness", "sym_queries", "sym_dump", "sym_pipe", "sym_reorder")])

CHECKS["C08"]["jobs"] += [J("h_refs", "everyop5", "small", weight=2, stride=8, thorough=dict(stride=1, f2=128, f3=20)), J("h_refs", "everyop5", "tiny", weight=2, stride=4, f2=32, f3=10, thorough=dict(stride=1, f2=128, f3=20)), J("h_refs", "everyop5", "asan", thorough=dict(stride=8))]
CHECKS["C08"]["bounds"] += "; the same operations on functions of 5 variables whose cofactors by the upper three are chosen from 4 (every fourth of the 65536 such functions; families), in 6 orders"
CHECKS["C12"]["jobs"] += [J("h_assoc", "near_equal", "tiny"), J("h_assoc", "near_equal", "small"), J("h_assoc", "near_equal", "asan", weight=2)]
CHECKS["C12"]["bounds"] += "; pairs of associations that differ in one of 5 variables, 5 kinds of difference, 16 manager sizes around capacities, initialised before or after the last variable exists, in either order"
CHECKS["C11"]["jobs"] += [J("h_order", "create_at_constants", "tiny"), J("h_order", "create_at_constants", "asan")]
CHECKS["C11"]["bounds"] += "; all sequences of 4 creations before and after constants, first or at a position"
CHECKS["C17"]["jobs"] += [J("h_pipe", "disjoint", "small", weight=2, thorough=dict(vars=6)), J("h_pipe", "disjoint", "asan", weight=2)]
CHECKS["C17"]["bounds"] += "; 5 (6) variables joined by nothing but pending results, 5 shapes x 4 depth settings x 10 kinds of reordering during or after the execution x 3 orders, with the operands kept or released"
CHECKS["C09"]["jobs"] += [J("h_pipe", "disjoint", "tiny")]
CHECKS["C09"]["bounds"] += "; reorderings while results are pending in a pipeline that alone join the variables"
CHECKS["C09"]["jobs"] += [J("h_reorder", "sift_stops", "small", thorough=dict(above=5)), J("h_reorder", "sift_stops", "tiny", thorough=dict(above=5)), J("h_reorder", "sift_stops", "asan", above=2, thorough=dict(above=4))]
CHECKS["C12"]["jobs"] += [J("h_reorder", "sift_stops", "tiny")]
CHECKS["C09"]["bounds"] += "; families of about 55 functions in which moving one variable up more than doubles the size, so that sifting stops on the way, at 8 places x method pairs x 5 forwarding limits x functions held by handles, associations or pending results"
CHECKS["C19"]["jobs"] += [J("h_cxx", "profiles", "small"), J("h_cxx", "profiles", "asan")]
CHECKS["C19"]["bounds"] += "; sizes, profiles and their printed forms of 5 diagrams of 11 variables with wide levels, alone and in 4 groups, by every overload, for 8 line lengths and both flags"
CHECKS["C08"]["jobs"] += [J("h_dump", "bytes", "tiny")]
CHECKS["C27"]["jobs"] += [J("h_dump", "bytes", "tiny")]

# diagrams of up to millions of nodes
_HUGE = dict(C01=[("huge_bool", dict(to=7))], C03=[("huge_bool", {"from": 7})], C04=[("huge_quant", {})], C05=[("huge_subst", {}), ("huge_compose", {})], C06=[("huge_care", {})], C07=[("huge_care", {})], C08=[("huge_maint", {})], C09=[("huge_reorder", {})], C13=[("huge_dump", {})], C15=[("huge_queries", {})], C16=[("huge_queries", {})], C17=[("huge_pipe", {})])
_NH = dict(huge_bool=(15, 18), huge_quant=(17, 18), huge_dump=(14, 15), huge_reorder=(15, 17), huge_maint=(16, 18), huge_care=(16, 17))
for _p, _l in _HUGE.items():
  for _s, _k in _l:
    _q, _t = _NH.get(_s, (16, 18)); CHECKS[_p]["jobs"] += [opts(J("h_huge", _s, "std", weight=6, n=_q, thorough=dict(n=_t), **_k), casetimeout=300), J("h_huge", _s, "small", n=13, thorough=dict(n=15), **_k), J("h_huge", _s, "tiny", n=12, thorough=dict(n=13), **_k), J("h_huge", _s, "asan", n=10, thorough=dict(n=12), **_k)]
    CHECKS[_p]["bounds"] += f"; diagrams of three and four functions over {_q} ({_t}) pairs of variables under an order that makes levels of 2^{_q} nodes (tables, pages, caches and thresholds at their large sizes), compared node by node"
CHECKS["C28"]["jobs"] += [opts(J("h_huge", "huge_linear", "count", weight=3, n=14, per=900, thorough=dict(n=16)), casetimeout=300)]
CHECKS["C28"]["bounds"] += "; 22 operations on four functions of 28 (32) variables whose diagrams have 2^14 (2^16) nodes per level, both quantification algorithms: work per node of operands and result bounded"
