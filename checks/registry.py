"""The properties: what they say, what decides them, and how."""
from engine.obl import sets, maps, collect, serial, laws, trees, radix, archive, lazy
from checks.parts import Obligations

TRUSTED = [
    "rustc nightly: the MIR it produces is the program that is analysed",
    "the transfer functions of engine/models.py for std, core, alloc, smallvec, inplace-vec-builder, sorted-iter, serde and num-traits items (listed in driver/rules.txt)",
    "the abstract interpreter engine/interp.py and its numeric core engine/numcore.cpp",
    "element types are lawful: total Ord agreeing with Eq, Clone returning an equal value",
]
ABS = ("abstract interpretation of the MIR (segment shape domain around an arbitrary tracked key + linear relations + "
       "symbolic values), fixpoint over all paths")
NOTE = ("Every obligation is a postcondition of one public operation, proved by fixpoint over all paths of the compiled MIR for all "
        "lengths, contents and element types (an arbitrary tracked key stands for every key). Obligations the domain cannot prove are "
        "re-examined path by path; only a path with no approximated step that ends in a contradicting state is reported. "
        "Trusts rustc's MIR, the models of external library items, and lawful Ord/Clone of the element type.")
LAW = "Element types have a lawful total order consistent with equality, and Clone yields an equal value."

P = []
BY_ID = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, parts, observe=None, level="proof", note=NOTE, technique=ABS,
         assumptions=(), state=None):
    d = {"id": pid, "title": title, "statement": statement, "over": over, "qtext": qtext, "why": why, "files": files,
         "mechanism": mechanism, "parts": parts, "observe": observe or [], "level": level, "level_note": note, "technique": technique,
         "assumptions": list(assumptions) + [LAW], "state": state}
    P.append(d)
    BY_ID[pid] = d


def cat(*fs):
    def make():
        out = []
        for f in fs:
            out += f()
        return out
    return make


SET, MAP, TSET, TMAP = "src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs"
MS, DD, IT = "src/merge_state.rs", "src/dedup.rs", "src/iterators.rs"
BT = "src/btree_map.rs"
RT, RF, RA, RL = ("src/radix_tree/mod.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/arc_radix_tree.rs",
                  "src/radix_tree/lazy_radix_tree.rs")
RADIX = ABS + "; structural induction over the tree: recursive calls on subtrees are replaced by the operation's own specification"
RNOTE = NOTE + (" Trees of every depth are covered by induction: one node with arbitrarily many children is analysed, and a recursive call "
                "on a subtree is taken to satisfy the operation's specification.")

prop("C01", "Every produced set and map is strictly sorted by key",
     "Every set, map, total set or total map that an operation returns or leaves behind holds its keys in strictly increasing order with no duplicates. "
     "This holds whatever sorted inputs the operation was given, for pure and in-place operations alike.",
     ["inputs", "histories"], "all sorted operands of every length and content, every operation in any order (the invariant is inductive: assumed of the operands, shown of the result)",
     "The tests sample small integer sets from a narrow range; a merge that duplicates or misplaces an element only at a particular interleaving of runs, or an untested operation (by-reference assignment, left and right joins, the joins in place), is never looked at.",
     [SET, MAP, TSET, TMAP, MS, DD],
     [{"name": "binary merge over sorted slices", "where": "src/merge_state.rs, binary_merge crate's MergeOperation"},
      {"name": "in-place builder", "where": "src/merge_state.rs InPlaceMergeState*"},
      {"name": "binary search before insert", "where": "VecSet::insert, VecMap::insert"}],
     [Obligations(cat(sets.algebra_pure, sets.algebra_inplace, sets.points, maps.joins_pure, maps.joins_inplace, maps.combine, maps.points,
                      sets.total_algebra, sets.total_points), kinds=("sorted",), floor=250)],
     observe=["as_ref()/iter() of every result"])

prop("C02", "Pure set algebra computes exactly the mathematical result",
     "For any two sets, union, intersection, symmetric difference and difference (operators and methods, on sets and on sorted slices) return a set that contains an element exactly when the corresponding boolean combination of membership in the operands holds. "
     "The operands are left unchanged and the elements of the result are copies of operand elements.",
     ["inputs"], "all pairs of sets of any size over any ordered element type, any mix of inline capacities",
     "The property tests run a hundred random pairs of small i64 sets and reach the merge only through binary operators of equal capacity.",
     [SET, MS], [{"name": "set merge operators", "where": "src/vec_set.rs SetUnionOp, SetIntersectionOp, SetXorOp, SetDiffOpt"},
                 {"name": "vector merge state", "where": "src/merge_state.rs VecMergeState, SmallVecMergeState"}],
     [Obligations(sets.algebra_pure, floor=40)], observe=["BitAnd/BitOr/BitXor/Sub for &VecSet", "VecSet::union etc.", "AbstractVecSet::union etc."])

prop("C03", "In-place set algebra agrees with the pure operations",
     "After any in-place set operation (assignment operators by value and by reference, and the *_with methods) the target contains an element exactly when the corresponding boolean combination of membership in the old target and the other operand holds. "
     "No element is lost, duplicated or read after being moved.",
     ["inputs"], "all pairs of sets of any size, any interleaving of runs of the two operands, any inline capacity",
     "Existing tests never call the by-reference assignment operators or the *_with methods; the by-value ones are sampled only.",
     [SET, MS], [{"name": "in-place merge state", "where": "src/merge_state.rs InPlaceMergeState, InPlaceMergeStateRef"},
                 {"name": "converter", "where": "src/merge_state.rs CloneConverter, NoConverter"}],
     [Obligations(sets.algebra_inplace, floor=40)], observe=["BitAndAssign etc.", "union_with, intersection_with, xor_with, difference_with"])

prop("C04", "Set predicates decide exactly the mathematical relation",
     "is_disjoint, is_subset and is_superset return true exactly when the two sets share no element, when every element of the first is in the second, and when every element of the second is in the first; is_empty returns true exactly for the empty set. "
     "Early exits never change the answer.",
     ["inputs"], "all pairs of sets of any size and content",
     "An early exit taken at the wrong element shows only for particular relative positions of the last or first elements; is_superset has no test.",
     [SET, MS], [{"name": "boolean merge", "where": "src/merge_state.rs BoolOpMergeState; src/vec_set.rs SetUnionOp ... with early out"}],
     [Obligations(sets.predicates, floor=25)], observe=["is_disjoint, is_subset, is_superset, is_empty"])

prop("C05", "Set point operations: contains, insert, remove, retain",
     "contains answers membership; insert adds exactly the given element and returns whether it was absent; remove deletes exactly the given element and returns whether it was present; retain keeps exactly the elements its predicate accepts, asking about each once in order. "
     "No other element is affected.",
     ["inputs", "histories"], "all sets, all arguments, all predicates",
     "The return values of insert and remove, and retain on sets, have no tests.",
     [SET], [{"name": "binary search", "where": "VecSet::insert, VecSet::remove, AbstractVecSet::contains"}],
     [Obligations(sets.points, floor=15)], observe=["contains, insert, remove, retain, len, is_empty"])

prop("C06", "Pure map joins are pointwise and call the closure exactly as specified",
     "outer, left, right and inner join of two maps yield, for every key, exactly what the given function returns for that key's sides (left, right or both), with the keys where it returns nothing dropped. "
     "The function is called once for each key of the join's key set with that key's own values, and keys outside it are absent from the result.",
     ["inputs", "programs"], "all pairs of maps, all keys and all join functions",
     "Only outer and inner join are sampled, with one function each, over small integer maps.",
     [MAP, MS], [{"name": "join merge operators", "where": "src/vec_map.rs OuterJoinOp, LeftJoinOp, RightJoinOp, InnerJoinOp"}],
     [Obligations(maps.joins_pure, floor=12)], observe=["AbstractVecMap::outer_join, left_join, right_join, inner_join"])

prop("C07", "In-place map joins agree with the pure ones",
     "After an in-place outer, left, right or inner join the map holds, for every key, exactly what the pure join with the same function would give, and the function is called once per key of the join's key set with that key's own values.",
     ["inputs", "programs"], "all pairs of maps, all keys, all join functions including ones that drop elements",
     "No in-place join has a test.",
     [MAP, MS], [{"name": "in-place join operators", "where": "src/vec_map.rs OuterJoinWithOp, LeftJoinWithOp, RightJoinWithOp, InnerJoinWithOp"}],
     [Obligations(maps.joins_inplace, floor=12)], observe=["VecMap::*_join_with"])

prop("C08", "Combining maps: values of shared keys are combined, others kept",
     "combine_with keeps every entry present on only one side unchanged and replaces an entry present on both by the function applied to (own value, other value); merge_with resolves collisions in favour of the other map. "
     "No other entry is touched.",
     ["inputs", "programs"], "all pairs of maps, all keys, all combining functions",
     "combine_with and merge_with have no tests.",
     [MAP, MS], [{"name": "combining operator", "where": "src/vec_map.rs CombineOp"}],
     [Obligations(maps.combine, floor=6)], observe=["VecMap::combine_with, merge_with"])

prop("C09", "Map point operations: get, get_mut, insert, retain, map_values",
     "get and get_mut give the value stored under exactly the requested key or nothing; insert stores the value under the key and returns the value it replaced, if any; retain keeps exactly the accepted entries; map_values applies the function once to each value and keeps the keys. "
     "No other entry is affected.",
     ["inputs", "histories"], "all maps, keys, values and functions",
     "Return values of insert, and get_mut, retain and map_values, are not tested.",
     [MAP], [{"name": "binary search", "where": "VecMap::insert, AbstractVecMap::get, VecMap::get_mut"}],
     [Obligations(maps.points, floor=25)], observe=["get, get_mut, insert, retain, map_values, len, is_empty"])

prop("C10", "Building from arbitrary sequences: sorted, duplicate-free, right bias",
     "A set or map built from, or extended by, an arbitrary sequence (unsorted, with duplicates) contains exactly the keys of the sequence (and of the original) once each. "
     "A map keeps the last value given for a key, and values from the extension win over existing ones.",
     ["inputs"], "all input sequences of any length, order and multiplicity",
     "Random small vectors rarely exercise the batch boundaries of the incremental sort-and-deduplicate, and never the boundary together with a duplicate.",
     [DD, SET, MAP], [{"name": "sort-and-dedup collector", "where": "src/dedup.rs SortAndDedup, sort_and_dedup, sort_dedup_by_key"}],
     [Obligations(collect.from_any, floor=9)], observe=["FromIterator, Extend, From<Vec>"])

prop("C11", "Iterators and conversions preserve content and order",
     "Iterating by reference or by value, cloning, shrinking and converting to and from vectors, small vectors, trees and slices expose exactly the elements of the collection, each once, in ascending order, with the values that belong to their keys. "
     "Every way of advancing an iterator (nth, last, count, fold, all, find) agrees with the slice, and size_hint is exact. "
     "Constructors for empty and single-element collections contain exactly that.",
     ["inputs"], "all collections of any size",
     "Only a few conversions appear in tests, on sampled inputs.",
     [SET, MAP, IT], [{"name": "iterator wrappers", "where": "src/iterators.rs VecSetIter, VecMapIter"}],
     [Obligations(cat(sets.conversions, maps.conversions, laws.iterators), floor=45)], observe=["iter, into_iter, as_ref, into_inner, From/Into impls, Clone, shrink_to_fit"])

prop("C13", "Total set algebra treats complements exactly",
     "For sets given by either their elements or their complement's elements, and, or, xor, difference and not (pure and assigning) contain a value exactly when the boolean combination of membership in the operands holds, for values mentioned in neither, one or both representations.",
     ["inputs"], "all pairs of total sets in all four combinations of representation, all values of the element type",
     "Sampling tests evaluate a handful of points per pair; a wrong branch for one combination of negations needs the right point.",
     [TSET, SET, MS], [{"name": "negation case split", "where": "src/total_vec_set.rs BitAnd, BitOr, BitXor, Sub, *Assign, Not"}],
     [Obligations(sets.total_algebra, floor=100)], observe=["operators of TotalVecSet"])

prop("C14", "Total set predicates, points and constants are exact",
     "contains, insert, remove, is_subset, is_superset, is_disjoint, is_empty, is_all, equality and the constant constructors agree with the (possibly infinite) set of values the total set denotes. "
     "Insert and remove change the membership of exactly the given value.",
     ["inputs", "histories"], "all total sets in both representations, all values, over an infinite element type",
     "is_superset and the predicates on complements are not or hardly tested.",
     [TSET, SET], [{"name": "negation case split", "where": "src/total_vec_set.rs"}],
     [Obligations(cat(sets.total_points, sets.total_predicates), floor=120)], observe=["TotalVecSet methods"],
     assumptions=["The element type has infinitely many values between and beyond any two (the library's documented reading: a complement is never empty)."])

prop("C15", "Total map operations are pointwise and canonical",
     "Combining, supremum, infimum, addition, subtraction, multiplication, division, negation and mapping of total maps give at every key exactly the operation applied to the operands' values at that key, defaults included. "
     "The result never stores an entry equal to its own default.",
     ["inputs", "programs"], "all pairs of total maps, every key stored in neither, one or both, all combining functions",
     "Arithmetic on total maps has no test; the others are sampled.",
     [TMAP, MAP, MS], [{"name": "fast combine", "where": "src/total_vec_map.rs combine_ref, FastCombineOp, CombineOp"}],
     [Obligations(maps.tmap_ops, floor=25)], observe=["TotalVecMap operators"])

prop("C16", "Total map lookup, constants and neutral elements",
     "Indexing a total map returns the stored value if the key is stored and the default otherwise; constructors drop entries equal to the default; zero, one, minimum, maximum and default are constant maps and are recognised exactly.",
     ["inputs"], "all total maps, keys and defaults",
     "is_zero/is_one and the constants have no tests; lookups are sampled.",
     [TMAP, MAP], [{"name": "default value", "where": "src/total_vec_map.rs TotalVecMap(map, default)"}],
     [Obligations(maps.tmap_points, floor=20)], observe=["TotalVecMap::new, constant, index, zero, one, is_zero, is_one, min_value, max_value"])

prop("C12", "Serde: untrusted input yields a valid collection or an error",
     "Deserialising any well-formed input (unsorted, with duplicates, with any length hint) gives a strictly sorted collection with exactly the given keys, each with a value the input gives it, and malformed input gives an error; total maps are canonical afterwards. "
     "Serialising writes exactly the elements in order, with their own values, the right announced length and, for total collections, the negation flag or default.",
     ["inputs", "faults"][:1], "all input sequences with errors at any point, all collections to serialise",
     "The round-trip tests only feed back what the library itself wrote: input is always sorted, unique and well-formed.",
     [SET, MAP, TSET, TMAP], [{"name": "visitors", "where": "VecSetVisitor::visit_seq, VecMapVisitor::visit_map"},
                              {"name": "canonicalising constructor", "where": "TotalVecMap::new"}],
     [Obligations(cat(serial.ser, serial.de), floor=14)], observe=["Serialize/Deserialize impls"])

prop("C17", "Equality, order and hash are coherent",
     "For any two collections, ordering says equal exactly when equality does, swapping the operands reverses the ordering, the partial and the total order agree, and equal collections feed a hasher identically. "
     "Equality holds exactly when the content is the same, for total collections including the negation flag or default value.",
     ["inputs"], "all pairs of sets, maps, total sets and total maps",
     "No test compares collections that differ only in their default, or hashes anything.",
     [SET, MAP, TSET, TMAP], [{"name": "comparison impls", "where": "PartialEq, Ord, PartialOrd, Hash impls of VecSet, VecMap, TotalVecSet, TotalVecMap"}],
     [Obligations(cat(laws.laws, laws.hash_laws, laws.eq_content), floor=60)], observe=["==, cmp, partial_cmp, hash"])

prop("C18", "Collection operations never panic or index out of bounds",
     "No operation of sets, maps, total sets and total maps panics, indexes outside a buffer, overflows a length computation or moves an element out twice, for any well-formed operands and any argument. "
     "Only panics raised by the caller's own closure or element operations pass through.",
     ["inputs", "histories"], "all operands, all arguments, inline and spilled storage, every path of every public operation",
     "A panic on one relative position of the operands' elements is only seen when a random sample hits it; several operations are never called by a test.",
     [SET, MAP, TSET, TMAP, MS, DD],
     [{"name": "in-place builder cursor discipline", "where": "src/merge_state.rs"}, {"name": "index arithmetic", "where": "src/dedup.rs"},
      {"name": "unwraps and expects", "where": "all collection modules"}],
     [Obligations(cat(sets.algebra_pure, sets.algebra_inplace, sets.predicates, sets.points, sets.conversions, sets.total_algebra, sets.total_points,
                      sets.total_predicates, maps.joins_pure, maps.joins_inplace, maps.combine, maps.points, maps.conversions, maps.tmap_ops,
                      maps.tmap_points, serial.ser, serial.de), kinds=("panic",), floor=400)],
     observe=["every public operation"])

prop("C19", "Tree map joins are pointwise",
     "Outer, left, right and inner join of two tree maps, plain or archived, yield for every key exactly what the given function returns for that key's sides, and call it once per key of the join's key set with that key's own values. "
     "The in-place joins keep exactly the keys of the join's key set that the function accepts, with the value it left behind, and drop every other key; get and iter on either form show exactly the stored entries.",
     ["inputs", "programs"], "all pairs of tree maps, plain and archived, all keys, all join functions including ones that drop or reject entries",
     "Tree map joins have no test at all.",
     [BT], [{"name": "lookup joins", "where": "src/btree_map.rs AbstractBTreeMap"}, {"name": "in-place joins", "where": "src/btree_map.rs InPlaceRelationalOps"}],
     [Obligations(cat(trees.joins_pure, trees.joins_inplace, trees.access), floor=80)],
     observe=["AbstractBTreeMap::outer_join, left_join, right_join, inner_join, get, iter", "InPlaceRelationalOps::*_join_with"])

def both(*fs):
    return [f for g in fs for f in (lambda g=g: g("rt"), lambda g=g: g("art"))]


prop("C20", "Combining radix trees in place is exact",
     "Outer, inner and left combine in place, and the in-place union, intersection and difference, leave in the first tree exactly the keys of the combination, with the first tree's value where only it has the key, the second's where only it has the key, and for common keys what the callback left there, dropping the key if the callback returns false. "
     "The callback is called once per common key with that key's own two values, and the second tree is unchanged.",
     ["inputs", "programs"], "all pairs of trees of every depth and width, plain and shared, every relation of their prefixes (equal, one extending the other, diverging at any point), all callbacks",
     "The property tests use short strings over a small alphabet with unit values; callbacks that drop values, deep prefix splits and the shared flavour's copy on write are barely sampled.",
     [RT, RF, RA], [{"name": "common prefix and split", "where": "AbstractRadixTreeMut::{outer,inner,left}_combine_with, split, unsplit"},
                    {"name": "merge of children", "where": "OuterCombineOp, InnerCombineOp, LeftCombineOp, src/merge_state.rs"}],
     [Obligations(cat(*both(radix.inplace, radix.wrappers_inplace, radix.spelled_inplace), radix.common), floor=1400)], note=RNOTE, technique=RADIX,
     observe=["outer_combine_with, inner_combine_with, left_combine_with, union_with, intersection_with, difference_with"])

prop("C21", "Combining radix trees purely is exact",
     "Outer, inner and left combine of two radix trees, and union, intersection and difference, return a tree with exactly the keys of the combination, each with the value of the only side that has it or what the callback returned for the two values, dropping the key when the callback returns None. "
     "Both operands are unchanged.",
     ["inputs", "programs"], "all pairs of trees of every depth and width, plain and shared, every relation of their prefixes, all callbacks",
     "The property tests use short strings over a small alphabet with unit values and never a callback that drops a value.",
     [RT, RF, RA], [{"name": "recursive combination", "where": "outer_combine, inner_combine, left_combine in src/radix_tree/mod.rs"},
                    {"name": "merge of children", "where": "VecMergeState impls of OuterCombineOp, InnerCombineOp, LeftCombineOp"}],
     [Obligations(cat(*both(radix.pure, radix.wrappers_pure, radix.spelled_pure), radix.common), floor=1400)], note=RNOTE, technique=RADIX,
     observe=["outer_combine, inner_combine, left_combine, union, intersection, difference"])

prop("C22", "Removing and retaining by prefix is exact",
     "remove_prefix_with drops exactly the entries whose key has a prefix among the accepted keys of the second tree, and retain_prefix_with keeps exactly those; a key of the second tree counts only if the predicate accepts its value. "
     "Entries that stay keep their own values.",
     ["inputs", "programs"], "all pairs of trees of every depth and width, plain and shared, every relation of their prefixes, all predicates",
     "The tests use the always-true predicate.",
     [RT, RF, RA], [{"name": "prefix filters", "where": "AbstractRadixTreeMut::{remove,retain}_prefix_with, RemovePrefixOp, RetainPrefixOp"}],
     [Obligations(cat(*both(radix.prefixes, radix.spelled_prefixes), radix.common), floor=800)], note=RNOTE, technique=RADIX,
     observe=["remove_prefix_with, retain_prefix_with"])

prop("C23", "Radix tree predicates are exact",
     "is_subset, is_superset, intersects and is_disjoint of two radix trees answer exactly the question about the trees' key sets, for trees with values of different types and for empty trees; is_empty is true exactly for a tree without entries.",
     ["inputs"], "all pairs of trees of every depth and width, plain and shared, every relation of their prefixes",
     "Random pairs of tries over few short keys rarely differ at one deep key only.",
     [RT, RF, RA], [{"name": "recursion over prefixes", "where": "is_subset0, intersects0"}, {"name": "early exit merge", "where": "NonSubsetOp, IntersectOp"}],
     [Obligations(cat(*both(radix.predicates, radix.emptiness, radix.spelled_predicates), radix.common), floor=2000)], note=RNOTE, technique=RADIX,
     observe=["is_subset, is_superset, intersects, is_disjoint, is_empty"])

prop("C24", "Radix tree lookup, insertion and construction are exact",
     "get, contains_key and filter_prefix see exactly the stored entries for the given key or prefix, whatever its relation to the prefixes in the tree. "
     "insert binds exactly the given key to the given value, prepend puts the given string before every key, and single, leaf, empty, collecting an iterator (the last value of a key wins), clone, materialize_shortened and the conversion to the shared flavour produce exactly the entries they are given.",
     ["inputs", "histories"], "all trees of every depth and width, plain and shared, all keys and prefixes including empty ones",
     "The tests insert random short keys; splits in the middle of a long prefix and lookups that end inside one are hit by chance only.",
     [RT, RF, RA], [{"name": "prefix search", "where": "find"}, {"name": "insertion as combination", "where": "AbstractRadixTreeMut::insert"},
                    {"name": "prefix surgery", "where": "filter_prefix, prepend, split, unsplit"}],
     [Obligations(cat(*both(radix.find_based, radix.inserts, radix.construction, radix.spelled_keys), radix.conversion, radix.common, radix.collecting), floor=1500)], note=RNOTE, technique=RADIX,
     observe=["get, contains_key, filter_prefix, insert, prepend, single, leaf, empty, default, clone, materialize_shortened, From, FromIterator"])

prop("C25", "Radix trees stay canonical",
     "Every radix tree an operation returns or leaves behind is in canonical form: children are strictly ordered by their first component and have non-empty prefixes, no node without value has fewer than two children, and the empty tree has an empty prefix. "
     "Equal contents therefore have one representation.",
     ["inputs", "histories"], "all trees of every depth and width, every operation in any order (the invariant is inductive)",
     "Tests compare contents, not structure; a node that should have been collapsed or removed stays invisible until a later operation misbehaves.",
     [RT, RF, RA], [{"name": "canonicalisation", "where": "internals::AbstractRadixTreeMut::unsplit"}, {"name": "removal of empty children", "where": "collision methods of the merge operations"}],
     [Obligations(cat(lambda: radix.inplace("rt"), lambda: radix.pure("rt"), lambda: radix.prefixes("rt"), lambda: radix.inplace("art"),
                      *both(radix.inserts, radix.find_based, radix.spelled_prefixes, radix.spelled_keys), radix.common,
                      lambda: radix.spelled_inplace("rt"), lambda: radix.spelled_pure("rt")), kinds=("sorted", "canonical"), floor=2500)], note=RNOTE, technique=RADIX,
     observe=["prefix(), value(), children() of every result"])

prop("C26", "Iterating radix trees is exact",
     "iter and values of a radix tree yield every entry exactly once, in ascending order of the keys, iter with the entry's full key and its own value; scan_prefix yields exactly the entries whose key starts with the given string, in the same way, whatever its relation to the prefixes in the tree. "
     "A key that has been yielded keeps its content when the iterator moves on.",
     ["inputs"], "all trees of every depth and width, plain and shared, all prefixes including empty ones; every step of the iteration",
     "The tests iterate over small trees and drop each key before the next step; scan_prefix is tested with few prefixes.",
     [RT, RF, RA], [{"name": "iteration state", "where": "Iter, Values and IterKey in src/radix_tree/mod.rs"}, {"name": "prefix search", "where": "scan_prefix, find"}],
     [Obligations(cat(*both(radix.iteration, radix.starts, radix.runs, radix.scans)), floor=500)], note=RNOTE, technique=RADIX,
     observe=["iter, values, scan_prefix and the iterators they return"])

prop("C27", "Validation of archives is sound and complete",
     "Checking the bytes of an archived set, map, radix tree or shared radix tree succeeds only if all of its parts pass their own check, its keys are strictly ascending and, for a radix tree, every child has a non-empty prefix and the children are strictly ascending by the first component of their prefixes; and it does succeed whenever that is so. "
     "No part of the archive is read before it has itself been validated.",
     ["inputs"], "all archives of every length, valid or not, with the order violated at any place or nowhere, and every part found valid or invalid by its own check",
     "The tests validate only archives the library itself has written; corrupt or hostile bytes never reach the code.",
     [SET, MAP, RF, RA], [{"name": "order check", "where": "CheckBytes for ArchivedVecSet, ArchivedVecMap"},
                          {"name": "recursive check", "where": "CheckBytes for ArchivedRadixTree, ArchivedArcRadixTree"}],
     [Obligations(cat(archive.accepted, archive.refused, archive.spelled), floor=900)],
     note=NOTE + (" The checks of the parts (ArchivedVec, ArchivedOption, ArchivedRc) belong to rkyv and are modelled as free verdicts; reads of archived "
                  "vectors and shared pointers are followed by place, and a read of a place without a verdict is a violation. The rest of an archive "
                  "after its first defect is arbitrary for sets and maps and ascending for radix trees; lists of up to four and of up to 261 elements are also decided one by one."),
     technique=ABS + "; typestate of archived parts (unchecked, valid, invalid) by place",
     observe=["CheckBytes::check_bytes of ArchivedVecSet, ArchivedVecMap, ArchivedRadixTree, ArchivedArcRadixTree"])

NOT_APPLICABLE = []


def na(pid, title, statement, over, qtext, why, files, mechanism, reason, observe=None):
    NOT_APPLICABLE.append({"id": pid, "title": title, "statement": statement, "over": over, "qtext": qtext, "why": why, "files": files,
                           "mechanism": mechanism, "observe": observe or [], "reason": reason})


prop("C28", "Lazily loaded radix trees show what was archived",
     "A lazily loaded radix tree shows, through children, prefix and value, exactly the nodes of the archive or of the tree it was made from, whichever of its nodes have been loaded; cloning, converting, loading and asking for mutable access change none of it. "
     "Every combination, query and point operation gives on lazily loaded trees the entries it gives on plain ones.",
     ["inputs", "histories"], "all nodes with any prefix, value and children, loaded or not; the algorithms on trees of known shape with unloaded nodes",
     "The tests convert a few small trees; the archived form is always loaded eagerly there, so that the code which loads a node on demand never runs.",
     [RL, RT], [{"name": "loading", "where": "materialize_shallow, LazyRadixTree::children_arc, children_arc_mut in src/radix_tree/lazy_radix_tree.rs"},
                {"name": "conversions", "where": "From<RadixTree>, From<&ArchivedLazyRadixTree>, Lazy::clone"}],
     [Obligations(cat(lazy.conversions, lazy.lazies, lazy.algorithms), floor=7000)],
     note=NOTE + " A node with up to five, and with 17 to 270, children of arbitrary prefix, value and further children; the algorithms are decided on the spelled-out trees of C20-C25, with unloaded nodes.",
     technique=ABS + "; the states of a node (loaded, not loaded) are part of the initial states",
     observe=["LazyRadixTree and its AbstractRadixTree, AbstractRadixTreeMut and From implementations"])

prop("C31", "A lazily loaded radix tree may be used from several threads",
     "The state of a node of a lazily loaded tree is read or changed only while the node's lock is held, or read after this thread has seen, under the lock, that it is loaded. It changes only from not loaded to completely loaded, and a loaded node is never replaced while others may read it; no lock is taken twice or still held when a method returns. "
     "So readers of a tree, and of clones that share its nodes, see the same content whatever the interleaving in which nodes are loaded.",
     ["schedules"], "all interleavings of readers and cloners of one node; every node, loaded or not, with any prefix, value and children",
     "No test uses a lazy tree from two threads.",
     [RL], [{"name": "Lazy", "where": "src/radix_tree/lazy_radix_tree.rs: Lazy::get, get_or_create, clone (UnsafeCell behind a mutex that is released before the reference is returned)"}],
     [Obligations(cat(lazy.lazies), floor=80)],
     note="Thread-modular: one call is analysed; whenever it acquires the lock of an unloaded node, another thread may have loaded it. parking_lot's mutex, Arc and rkyv's archived containers follow their documented contracts. Exclusive access (&mut) needs no lock, but may not leave one held.",
     technique=ABS + "; lock sets and typestate (not loaded, loaded) of the shared cell at every access",
     observe=["LazyRadixTree::children, clone, children_mut, Lazy::get, prefix, value"])

na("C30", "Archives show the content of what was archived",
   "A set, map or radix tree written to an archive and accessed in place has exactly the keys and values of the original; subtrees shared in memory stay shared in the archive.",
   ["inputs"], "all collections of every size, all element types that can be archived",
   "The archive tests look at one tree of a thousand generated keys.",
   [SET, MAP, RF, RA, RL], [{"name": "archive layout", "where": "Archive and Serialize impls (resolve, serialize)"}],
   "The content of an archive is a layout of bytes and relative pointers computed by rkyv's serializer at run time; what an archived pointer denotes depends on positions in that buffer, which no abstraction of the library's own code in reach here determines (the library only forwards positions to rkyv).")
na("C32", "A panic in user code leaves no element dropped twice",
   "When a comparison, clone or callback of the user panics in the middle of an operation, every element is dropped at most once and the collection can still be dropped.",
   ["fault_sequences"], "a panic at any call of user code in any operation",
   "testdrop is a dev-dependency that one test uses for the in-place builder without panics.",
   [MS, SET, MAP], [{"name": "in-place builder", "where": "inplace-vec-builder crate, used by src/merge_state.rs"}],
   "What happens to the elements between the two halves of the buffer on unwinding is decided by the Drop impl and raw pointer arithmetic of the external builder, which the analysis models by its contract; the library itself contains no code that runs on unwinding.")
na("C33", "Operations take the documented time",
   "Merges of operands of very different size take time logarithmic in the larger one and linear in the smaller one, other merges linear time; lookups take logarithmic time; cloning a shared radix tree takes constant time.",
   ["inputs"], "operands of all sizes",
   "Benchmarks exist, but nothing asserts a bound.",
   [SET, MAP, MS, RA], [{"name": "minimum comparison merge", "where": "binary-merge crate"}],
   "A bound on the number of steps as a function of run-time lengths: the merge recursion lives in the external binary-merge crate and its amortised argument is out of reach of the linear domain used here.")
