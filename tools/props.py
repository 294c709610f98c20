# The properties and how each is checked.  tools/gen.py turns this into
# properties.jsonl, MANIFEST.json and checks.json.
I = "include/mdds/"
ASSUME = ["search is by generated cases: absence of a violation is evidence, not proof",
          "clang 18 with AddressSanitizer and UndefinedBehaviorSanitizer, -O1, little-endian x86-64"]
NOTE = ("Generated-input search against an independent reference model under ASan/UBSan with an exact leak "
        "count per case; no exhaustiveness is claimed. ")
PROPS = []
NOT_APPLICABLE = []

def P(id, title, statement, over, qtext, why, files, mech, src=None, note="", **kw):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, assume=ASSUME + kw.pop("assume", []), **kw)
    if src:
        d["src"] = src
        d["note"] = NOTE + note
    PROPS.append(d)

FST = [I + "flat_segment_tree.hpp", I + "flat_segment_tree_def.inl", I + "flat_segment_tree_itr.hpp", I + "node.hpp"]
P("C01", "flat_segment_tree holds exactly the value of the last operation on each key",
  "After any history of front, back and hinted segment insertions, left and right shifts and clears, every key of a flat segment tree maps to the value that the same history produces on a plain per-key array: insertions are clipped to the tree's bounds and overwrite what was there, shifts move later keys and fill with the documented value, and the bounds and default value never change. "
  "An insertion reports a change exactly when some key's value changed, returns an iterator to the start of the segment that contains the inserted start, and is a rejected no-op returning the end iterator when the interval is empty or shares no key with the tree.",
  ["histories", "inputs"], "every finite history of insert_front/insert_back/insert(hint)/shift_left/shift_right/clear, every key and value type, every valid hint",
  "The unit tests replay a few dozen fixed histories; the merging and clipping branches depend on how the new interval lies relative to every existing boundary and on neighbouring values, a space no fixed list covers.",
  FST, [("insertion with merging of equal neighbours", "flat_segment_tree_def.inl: insert_to_pos"), ("shifting", "flat_segment_tree_def.inl: shift_left, shift_right"), ("clipping", "flat_segment_tree_def.inl: adjust_segment_range")],
  parts=5, src="fst.cpp", note="Model: one array cell per unit key, spans up to 80 keys, 5 key/value type pairs, scaled keys.")
P("C02", "flat_segment_tree boundaries are canonical and every traversal agrees on them",
  "After any history of operations the stored boundaries are strictly increasing from the minimum to the maximum key and no two adjacent segments hold equal values, so equal contents have equal representations. "
  "Forward, backward, reverse and segment-wise traversals, range-based segment traversal, conversion of a position to a segment and the reported leaf count all describe this one sequence of maximal constant segments.",
  ["histories"], "every history of insertions, shifts, clears and tree builds; every position of every traversal",
  "Tests look at the boundaries of a few hand-made trees; a redundant boundary only appears for particular coincidences of values and edges.",
  FST, [("merge on insertion and shift", "flat_segment_tree_def.inl: insert_to_pos, shift_left; flat_segment_tree.hpp: append_new_segment"), ("traversal", "flat_segment_tree_itr.hpp")],
  parts=5, src="fst.cpp", note="Oracle: run-length encoding of the model array.")
P("C03", "flat_segment_tree linear, hinted and tree searches all agree with the content",
  "For every key, searching from the first position, searching from any hint (a valid position before or after the key, an end or default position, or a position of another tree) and searching a built tree all find the segment that contains the key with its value, start and end, and keys outside the half-open range are reported as not found without touching the output arguments. "
  "A tree search succeeds only while the tree is valid: building makes it valid, an operation that changes the content through insertion or clearing makes it invalid, and whenever it is reported valid its answers match the linear search.",
  ["histories", "inputs"], "every reachable content, key, hint and interleaving of modification with tree building",
  "Tests probe a few keys of a few trees with hints taken from the same tree; agreement must hold for all combinations of content, hint and validity.",
  FST, [("tree build and descent", "node.hpp: tree_builder; flat_segment_tree_def.inl: search_tree_for_leaf_node"), ("linear search", "flat_segment_tree_def.inl: search_by_key_impl, search_impl")],
  parts=5, src="fst.cpp")
P("C04", "flat_segment_tree copies, moves, swaps and compares as a value",
  "Copy and move construction and assignment, member and non-member swap and self-assignment give each tree exactly the content, bounds and default value it should have, later changes to one tree never affect another, and tree validity travels with moves and swaps. "
  "Two trees compare equal exactly when their bounds and per-key values are equal, whatever histories produced them.",
  ["histories"], "every history over a pool of trees mixing value operations with modifications",
  "Sharing and stale-pointer mistakes show only when trees are modified, rebuilt or destroyed after the value operation, in orders tests do not enumerate.",
  FST, [("copy of the leaf chain", "flat_segment_tree_def.inl: copy constructor, operator="), ("swap", "flat_segment_tree_def.inl: swap")],
  parts=5, src="fst.cpp")

ST = [I + "segment_tree.hpp", I + "segment_tree_def.inl", I + "node.hpp"]
P("C05", "segment_tree queries return exactly the stored segments covering the point",
  "After any history of insertions, erasures through a search result, conditional erasures, clears and tree builds, a query on a built tree returns as a multiset exactly the stored segments [start, end) that contain the point, each with its own start, end and value, and a query on a tree not rebuilt since the last insertion returns nothing. "
  "Size, emptiness, boundary keys and the number of removed segments always match the stored multiset, erasing keeps a built tree queryable, result traversal is consistent in both directions, and empty or reversed intervals are rejected.",
  ["histories", "inputs"], "every history, including duplicate segments and touching boundaries, and every query point",
  "Tests query a few hand-written segment sets; which tree nodes carry a segment depends on all boundaries at once, and stale tags after erasure show only for particular interleavings.",
  ST, [("marking of nodes", "segment_tree_def.inl: descend_tree_and_mark"), ("search descent", "segment_tree_def.inl: descend_tree_for_search"), ("erasure", "segment_tree_def.inl: remove_value_pos")],
  parts=4, src="segtree.cpp", note="Model: a list of segments scanned linearly; up to ~200 distinct keys.")
P("C06", "segment_tree copies, moves, swaps and compares as a value",
  "Copies, moves, assignments and swaps transfer exactly the stored multiset of segments and the built state, trees stay independent afterwards, and a moved-from tree can be searched (finding nothing), cleared, reassigned and reused. "
  "Two trees in the same built state compare equal exactly when they store the same multiset of segments, regardless of insertion order and of erased segments.",
  ["histories"], "every history over a pool of trees mixing value operations with modifications",
  "Tests compare a few pairs without duplicates; dangling tree nodes after a move need a query afterwards to show.",
  ST, [("copy, move, swap", "segment_tree_def.inl"), ("equality", "segment_tree_def.inl: operator==")],
  parts=4, src="segtree.cpp")

QT = [I + "point_quad_tree.hpp", I + "quad_node.hpp"]
P("C07", "point_quad_tree is a map from points to values under insertion and removal",
  "After any history of insertions and removals a point quad tree stores exactly the points that a map keyed by coordinates would: re-inserting a point replaces its value, removing one point never loses, moves or hides another, and removing an absent point changes nothing. "
  "Finding a stored point yields its latest value, finding an absent one throws data_not_found, the reported size and emptiness match, and node-wise traversal visits every stored point once, each inside the quadrants of all its ancestors.",
  ["histories", "inputs"], "every history of insert, remove and clear, including points that share one coordinate with others",
  "Removal relocates a replacement node and re-inserts cut subtrees; whether that is right depends on relative positions and ties among all descendants, which fixed examples do not cover.",
  QT, [("removal and replacement", "point_quad_tree.hpp: remove, find_replacement_node, adjust_quad, set_new_root, reinsert_tree"), ("quadrant of a point", "quad_node.hpp: get_quadrant")],
  parts=3, src="quad.cpp", note="Model: std::map keyed by coordinates; grids of 3 to 1000 coordinates so that ties are frequent.")
P("C08", "point_quad_tree region searches return exactly the points inside the region",
  "For every stored set of points and every region, both region search forms return exactly the stored points whose coordinates lie inside the region, each once with its own coordinates and value. "
  "The result object can be iterated in both directions and more than once with consistent results, and it is empty when nothing lies in the region.",
  ["histories", "inputs"], "every history of modifications and every query region, including regions whose edges pass through stored points",
  "Tests query a few rectangles over a few points; pruning of quadrants errs only for particular alignments of nodes with the region's edges.",
  QT, [("quadrant pruning", "point_quad_tree.hpp: search_region_node, search_result; quad_node.hpp: get_search_region_space")],
  parts=3, src="quad.cpp", note="Oracle: linear scan of the model map.")
P("C09", "point_quad_tree copies, assigns, swaps and compares as a value",
  "Copy construction, assignment including to itself, swap and clear give each tree exactly the points it should hold, and later changes to one tree never affect another. "
  "Two trees compare equal exactly when they hold the same points with the same values, whatever histories produced them, and results of searches on one tree are unaffected by value operations on others.",
  ["histories"], "every history over a pool of trees mixing value operations with insertions and removals",
  "Tests copy and compare a few trees built in one order; sharing and history-dependence show only for other interleavings.",
  QT, [("copying by re-insertion", "point_quad_tree.hpp: copy constructor, operator=, insert_data_from"), ("comparison", "point_quad_tree.hpp: operator==, equals")],
  parts=3, src="quad.cpp")

TR = [I + "trie_map.hpp", I + "trie_map_def.inl", I + "trie_map_itr.hpp"]
P("C10", "trie_map is an ordered map with prefix search under any history",
  "After any history of insertions, overwrites, erasures, value changes through iterators, clears, copies, moves and swaps, a trie map holds exactly the keys and values of an ordered map with the same history, including the empty key and keys that are prefixes of others. "
  "Exact find and erase succeed exactly for stored keys; forward and backward iteration from begin, end and every found position yields the keys in ascending order; a prefix search yields exactly the stored keys with that prefix in order; and node-by-node traversal, size, emptiness and equality agree with the same content.",
  ["histories", "inputs"], "every history and every key over any unit type, including zero and extreme units and the empty key",
  "Tests use fixed lists of English words; iteration across a value-bearing inner node, failed lookups along partially existing paths and the empty key need particular key relations.",
  TR, [("lookup with a node stack", "trie_map_def.inl: find_prefix_node_with_stack, find, erase"), ("iteration", "trie_map_itr.hpp: iterator_base::operator++, operator--")],
  src="trie.cpp", parts=5, note="Model: std::map over unit sequences; 5 key/value types.")
P("C11", "packed_trie_map answers every query like the map it was built from",
  "A packed trie map built by copying or packing a trie map, or from a sorted list of entries, contains exactly the same keys and values: find, prefix search, iteration in both directions, node traversal, size and equality answer as an ordered map would, for every content whose packed form fits the packing unit type. "
  "Copies, moves, assignments and swaps of packed maps and of their search results keep this content and stay independent, default-constructed and moved-from maps behave as empty maps, and two packed maps are equal exactly when their contents are.",
  ["inputs", "histories"], "every content (including the empty key, zero and high-bit units), every construction path, every packing unit type",
  "The packed form is position arithmetic over a flat buffer; whether a lookup goes right depends on the number and order of children on each level, which word lists sample thinly.",
  TR, [("packing", "trie_map_def.inl: compact_node, traverse_range, push_child_offsets"), ("binary search among children", "trie_map_def.inl: find_child_pos"), ("packed iteration", "trie_map_itr.hpp: packed_iterator_base")],
  src="trie.cpp", parts=6, note="Model: std::map; pack units of 8 to 64 bits, contents limited to what the unit can address (see the known finding for beyond).")
P("C12", "packed_trie_map state survives save and load and bad streams are rejected",
  "Saving a packed trie map to a stream and loading it into any other instance reproduces an equal map that answers every query the same and saves to the same bytes, and saving and loading consume exactly their own part of the stream so that several states can follow one another. "
  "A stream that ends early at any byte, has a broken end marker, or was saved for another kind or size of value or packing unit is rejected with an exception and leaves the target map as it was.",
  ["inputs", "fault_sequences"], "every content, value type and serializer kind, every truncation point",
  "Tests round-trip a few maps and never feed a damaged stream; every cut position is a different parser state.",
  TR, [("writer", "trie_map_def.inl: save_state"), ("reader", "trie_map_def.inl: load_state, value serializers")],
  src="trie.cpp", parts=7, note="Round-trip and fault-injection (truncation) oracle over 7 type combinations.")
P("C13", "sorted_string_map finds exactly its entries, by key and by value",
  "For every sorted table of entries and every input string, find returns the value of the entry with exactly that key and the null value when there is none, regardless of prefixes, embedded zero bytes or length, and size is the number of entries. "
  "Reverse lookup returns a key mapped to the given value, or an empty string when no entry has it, for both the linear and the hashed key finder.",
  ["inputs"], "every sorted entry table, input string and value",
  "Tests use a handful of fixed tables; boundary positions and near-miss keys multiply with the table.",
  [I + "sorted_string_map.hpp", I + "sorted_string_map_def.inl"], [("lookup", "sorted_string_map_def.inl: find"), ("reverse lookup", "sorted_string_map_def.inl: linear_key_finder, hash_key_finder")],
  src="trie.cpp", note="Oracle: linear scan of the entry table.")

RT = [I + "rtree.hpp", I + "rtree_def.inl"]
P("C14", "rtree searches return exactly the stored objects that qualify",
  "After any history of insertions of point and extent objects, erasures through search results, changes of values through mutable results, clears, copies, moves, assignments and swaps, every search by point or extent, by overlap or exact match, on a constant or mutable tree, returns exactly the stored objects whose extents share at least one point with the query, or equal it for a match, each once with its own extent and current value. "
  "Size, emptiness and the overall extent always describe the stored objects, erasing removes only the referenced object, results can be traversed in both directions, copies are independent and a moved-from tree is empty and usable.",
  ["histories", "inputs"], "every history, dimension, node-size traits, with and without forced reinsertion, and every query",
  "Tests search a few trees; node splits, forced reinsertion and dissolved directories depend on the arrangement of all extents, and stale parent pointers or extents only lose objects for particular later queries.",
  RT, [("search descent", "rtree_def.inl: search_descend"), ("erasure and reinsertion of orphans", "rtree_def.inl: erase_impl, insert_dir"), ("node split", "rtree_def.inl: split_node")],
  parts=8, src="rtree.cpp", note="Model: a list of (extent, value) scanned linearly; 1 to 4 dimensions, node sizes 1..2, 1..3, 2..4, 2..5, 3..8 and the default 40..100.")
P("C15", "rtree keeps a balanced, tightly packed, capacity-bounded structure",
  "After every insertion, erasure, copy, move and swap all values of an rtree lie at the same depth in leaf directories, every directory's extent is exactly the union of its children's extents, no directory holds more children than the configured maximum, and every directory below the root holds at least the configured minimum. "
  "Parent links, the depth-first walk and the textual export describe this same structure, and the tree's own integrity check accepts it.",
  ["histories"], "every history that starts from an empty tree, every node-size traits",
  "The tests check the integrity of a handful of insertion orders; erasing from trees with several directory levels, where directories of every level are dissolved and reinserted, is a history space they barely touch.",
  RT, [("capacity check", "rtree_def.inl: exceeds_capacity, split_node"), ("dissolving directories", "rtree_def.inl: erase_impl"), ("tight extents", "rtree_def.inl: pack, pack_upward, shrink_tree_upward")],
  parts=8, src="rtree.cpp", note="Structure reconstructed from walk() and export_tree().")
P("C16", "a bulk-loaded rtree answers and evolves like one built by insertion",
  "A tree packed by the bulk loader from any collection of objects, including none, duplicates and degenerate arrangements, contains exactly those objects, is balanced, tightly packed and never exceeds the maximum node size, and the loader is empty and reusable afterwards. "
  "Any later history of insertions, erasures and searches on the packed tree behaves as on a tree built by individual insertions.",
  ["inputs", "histories"], "every number and arrangement of loaded objects, every later history",
  "Tests pack a few data sets; segment sizes depend on the object count modulo node sizes, and the underfilled nodes a load may leave only matter when later erasures dissolve them.",
  RT, [("packing", "rtree_def.inl: bulk_loader::pack, pack_level, calc_optimal_segment_size_for_pack"), ("root collapse after erasure", "rtree_def.inl: erase_impl")],
  parts=8, src="rtree.cpp")

MTV = [I + "multi_type_vector/soa/main.hpp", I + "multi_type_vector/soa/main_def.inl", I + "multi_type_vector/soa/block_util.hpp", I + "multi_type_vector/soa/iterator.hpp",
       I + "multi_type_vector/aos/main.hpp", I + "multi_type_vector/aos/main_def.inl", I + "multi_type_vector/aos/block_util.hpp", I + "multi_type_vector/aos/iterator.hpp",
       I + "multi_type_vector/types.hpp", I + "multi_type_vector/util.hpp", I + "multi_type_vector/block_funcs.hpp", I + "multi_type_vector/delayed_delete_vector.hpp"]
MTV_WHY = "Each mutation is written out case by case on where its range lies relative to block edges and which types the neighbouring blocks have, twice (SoA and AoS); the tests visit chosen cases, and the combinations over a history are far more."
P("C17", "multi_type_vector holds exactly the value of the last operation on each position",
  "After any history of calls (single and range set, push_back and emplace_back, append, insert, set_empty, erase, insert_empty, resize, clear, release, transfer, swap, copy, move, construction) every position of a multi_type_vector, SoA or AoS, has exactly the type and value, or emptiness, that the same history gives on a plain array of typed cells, and the size matches. "
  "All ways of reading agree on this: get, get_type, is_empty, positions, and the element blocks reached through iterators, for numeric, string, boolean, user-defined and managed element types.",
  ["histories", "inputs"], "every finite history of public mutations over every mix of element types, every position and range, every loop-unrolling factor",
  MTV_WHY, MTV, [("set, insert and merging of blocks", "multi_type_vector/{soa,aos}/main_def.inl: set_cells_*, set_cell_to_*, insert_cells_impl, erase_impl, set_empty_*"), ("position lookup and adjustment", "multi_type_vector/soa/block_util.hpp: adjust_block_positions; main_def.inl: get_block_position")],
  src="mtv.cpp", parts=7, note="Model: a vector of (type, value id); 5 mixes of element types.")
P("C18", "multi_type_vector blocks are the maximal runs of equal type",
  "After any history of calls the block list of a multi_type_vector consists of non-empty contiguous blocks from position 0 to size, no two adjacent blocks (empty ones included) have the same type, and each block's type, size and stored elements agree. "
  "Forward, backward and reverse block iteration, position lookup with and without hint, logical, next and advanced positions and block_size all describe this one sequence.",
  ["histories"], "every finite history of public mutations; every position object and block iterator",
  MTV_WHY, MTV, [("merging with neighbours", "main_def.inl: merge_with_next_block, merge_with_adjacent_blocks, append_to_prev_block, set_cells_to_multi_blocks"), ("iteration", "multi_type_vector/{soa,aos}/iterator.hpp, iterator_node.hpp"), ("positions", "main_def.inl: position, next_position, advance_position")],
  src="mtv.cpp", parts=7, note="Oracle: run-length encoding of the model's types.")
P("C19", "multi_type_vector hints never change results and returned iterators are exact",
  "Every call that takes a position hint has exactly the effect of the same call without it, for every valid iterator of the container as hint: before, at or after the target, the end, or the iterator returned by the previous call. "
  "The iterator returned by each mutating call refers to the block that now holds the position it stands for, compares equal to the iterator found by position lookup, can be stepped in both directions and used as the next hint.",
  ["histories"], "every history of hinted and unhinted calls with hints taken from begin, end, any block or the previous return value",
  "The returned iterator and the hinted lookup take separate paths for every merge situation; tests check them for a few chosen ones.",
  MTV, [("hinted lookup", "main_def.inl: get_block_position(private_data, size_type)"), ("returned iterators", "main_def.inl: get_iterator and the return statements of set_*, insert_*, erase, transfer")],
  src="mtv.cpp", parts=7)
P("C20", "multi_type_vector transfer and swap move exactly the given ranges",
  "transfer moves the elements of a range to the given position of another container, overwriting what was there and leaving the source range empty; swap exchanges two ranges of equal length between two containers. "
  "In both containers exactly those positions change, sizes stay the same, and every element arrives with its type and value in order, whatever the block structure on both sides.",
  ["histories", "inputs"], "every pair of containers, source range and destination position, with and without hint",
  "The outcome depends on two independent block layouts (one or many blocks, alignment at both ends, types of four neighbours); tests cover a few dozen of the combinations.",
  MTV, [("transfer", "main_def.inl: transfer_impl, transfer_single_block, transfer_multi_blocks, prepare_blocks_to_transfer"), ("swap", "main_def.inl: swap_impl, swap_single_block, swap_single_to_multi_blocks, swap_multi_to_multi_blocks, exchange_elements")],
  src="mtv.cpp", parts=7)
P("C21", "multi_type_vector owns each managed element exactly once",
  "Objects stored in managed element blocks stay alive and at their position, as the very object given, until they are overwritten, emptied, erased, cut off by resize or cleared, or their container is destroyed, and are deleted exactly once when that happens. "
  "release, release_range and release of the whole container hand ownership back without deleting anything; transfer and swap move ownership between containers; no history leaks, double-deletes or uses a deleted object.",
  ["histories"], "every finite history of public mutations over managed, non-copyable managed and plain element types",
  "Each block merge must move elements and disarm one owner; a missed case is invisible unless that very merge happens with managed elements under a leak or address checker.",
  MTV, [("deleting on overwrite", "types.hpp: managed_element_block::overwrite_values"), ("disarming the emptied block", "main_def.inl: resize_block(.., 0) before delete_element_block"), ("release", "main_def.inl: release_impl, release_range_impl")],
  src="mtv.cpp", parts=7, note="Counting objects, identity of pointers, ASan and the exact leak count.")
P("C22", "multi_type_vector block events account for every block",
  "At every moment between calls, for each block type, the element-block-acquired events minus the released events that a container's event handler has received equal the number of blocks of that type the container holds; they are zero for an empty container and when it is destroyed. "
  "This holds through every mutation, transfer, swap, copy, clone, move, copy-on-write sharing and detaching, and handlers travel with their blocks on move and whole-container swap.",
  ["histories"], "every finite history of public mutations, copies and moves, on SoA and AoS, with and without copy-on-write",
  "The calls to the handler are written by hand next to each block creation and deletion; one forgotten or doubled call only shows for the mutation and layout that reaches it.",
  MTV, [("events", "main_def.inl: m_hdl_event.element_block_acquired / element_block_released"), ("deleting blocks", "main_def.inl: delete_element_block, delete_element_blocks")],
  src="mtv.cpp", parts=7, note="Net count per block type; the identity of the block in an event is not judged (the SoA code documents that it skips events when it replaces a block by one of the same type).")
P("C23", "multi_type_vector copies, clones, moves, swaps and compares as a value",
  "Copy construction and assignment (to itself too), clone, move, member and free swap give each container exactly the contents it should have, copies are deep and independent under any later changes, a moved-from container is empty and reusable, and equality holds exactly when sizes, types and values at all positions are equal. "
  "Copying a container with non-copyable blocks without a cloner is refused, and a copy that fails midway (an element copy or an allocation throws) leaks nothing and leaves source and target as they were.",
  ["histories", "fault_sequences"], "every history over a pool of containers, every failure point of a copy",
  "Independence and exception safety show only when containers are modified or destroyed after the copy, or when the copy is interrupted at each possible point.",
  MTV, [("copying of blocks", "soa/main_def.inl: copy_blocks, blocks_type; aos/main_def.inl: copy constructor"), ("cloning", "types.hpp: clone_value, clone_block"), ("comparison", "main_def.inl: operator==")],
  src="mtv.cpp", parts=7, note="Faults: the n-th allocation or the n-th element copy fails.")
P("C24", "copy-on-write multi_type_vectors are indistinguishable from deep copies",
  "With copy-on-write enabled, containers that share blocks after copies, assignments or clones behave as fully independent containers: any mutation of one (through any public call, including transfers and swaps between sharers) is never visible in the others, destroying any of them in any order leaves the rest intact, and managed elements are duplicated only on detaching and deleted exactly once. "
  "Releasing elements from a container that is still sharing is refused without effect, succeeds after detach, and a detach that fails midway leaks nothing and leaves the sharing and all contents as they were.",
  ["histories", "fault_sequences"], "every history over sharing groups of containers, every failure point of detaching",
  "Sharing bugs need a particular order of copy, mutation by one particular call, and destruction; each mutating entry point must detach on its own.",
  MTV, [("sharing", "soa/main_def.inl: share, copy and clone constructors"), ("detaching", "soa/main_def.inl: detach_impl, called from each mutating method"), ("release while sharing", "soa/main_def.inl: release, release_range")],
  src="mtv.cpp", parts=7)
P("C25", "multi_type_vector rejects invalid positions without side effects",
  "Every access or mutation given a position outside the container, a range that is reversed or reaches past the end, or a transfer or swap destination that does not fit, with or without hint, throws the documented exception (out_of_range, or invalid_arg_error for a transfer within one container or a construction from a range of another length). "
  "A rejected call changes no container: contents, block structure and block events stay exactly as before.",
  ["histories", "inputs"], "every reachable container, every invalid position or range up to the largest index",
  "Tests try a few invalid positions on a few containers; end-of-range arithmetic, overflow and hints make the invalid space much larger.",
  MTV, [("end position of a range", "util.hpp: calc_input_end_position"), ("position checks", "main_def.inl: get_block_position, mtv::detail::throw_block_position_not_found")],
  src="mtv.cpp", parts=7)

P("C26", "multi_type_vector results do not depend on layout, unrolling, SIMD or store",
  "The same history of calls on a multi_type_vector gives the same sizes, block lists, element values, positions and comparison results for the SoA and AoS layouts, every loop-unrolling factor and SIMD variant of the block position adjustment, every element store (delayed_delete_vector, std::vector, std::deque), with copy-on-write and with an execution policy. "
  "All ways of reading an element block (forward, backward, range, by index, as an array) give the same elements, and indices past the end are rejected.",
  ["histories", "configurations"], "every history and every number of blocks after the changed one, modulo every unrolling factor",
  "The unrolled loops differ only in which blocks they leave for the remainder, so a wrong bound shows for particular block counts and start blocks; tests use few blocks and mostly one factor.",
  MTV, [("position adjustment", "multi_type_vector/{soa,aos}/block_util.hpp: adjust_block_positions"), ("block access", "types.hpp: element_block"), ("execution policy", "soa/main_def.inl: copy_blocks, mutate_blocks, equal_blocks")],
  src="mtvx.cpp", parts=6, flags=["@avx2"], note="Differential over 21 configurations and a reference model; up to some 300 blocks.")
P("C27", "a collection traverses the elements of its vectors sideways, exactly",
  "Iterating over a collection of multi_type_vectors visits every element in the current element range of every vector in the current collection range exactly once, ordered by position and then by vector, and each node gives the vector's index, the position, the type and the value currently stored there. "
  "Iterators can be copied and compared, later changes of the vectors are seen by new traversals, copies and swaps carry the vectors with both ranges, a collection of no vectors is empty, and empty vectors, vectors of different lengths and ranges that do not fit are rejected without effect.",
  ["histories", "inputs"], "every set of vectors with any block layouts, every element and collection range",
  "The traversal keeps one hinted block position per vector, and tests walk a few fixed collections.",
  [I + "multi_type_vector/collection.hpp", I + "multi_type_vector/collection_def.inl"], [("traversal", "collection_def.inl: side_iterator::operator++"), ("ranges", "collection_def.inl: check_collection_range, check_element_range, build_iterator_state")],
  src="mtvx.cpp", parts=2, note="Oracle: the plain columns behind the vectors.")
P("C28", "delayed_delete_vector behaves as a std::vector",
  "After any history of its operations (construction, erase at the front, in the middle and of ranges, insert, push_back, emplace_back, resize, reserve, shrink_to_fit, assign, copy, move, swap, writing elements) a delayed_delete_vector has exactly the size and elements of a std::vector with the same history, through every accessor and iterator, forward and reverse. "
  "Positions past the end are rejected by at, returned iterators point to the right element, copies are independent, and equality is equality of elements whatever the history.",
  ["histories"], "every finite history over several vectors, of plain, boolean and owning element types",
  "The removed front elements stay in memory until a later operation; each operation must account for them, and tests that do not erase at the front first cannot tell.",
  [I + "multi_type_vector/delayed_delete_vector.hpp"], [("front offset", "delayed_delete_vector.hpp: erase, clear_removed")],
  src="mtvx.cpp", note="Model: std::vector of the same element type.")

P("C32", "threads may each use their own sharing copy, and read one container together",
  "When copies or clones of a copy-on-write multi_type_vector have been made on one thread, other threads can each use their own copies freely (read, mutate, detach, copy and clone them further, clear and destroy them) at the same time, and every container ends with exactly the contents its own history gives, without data races. "
  "Any number of threads can read one constant container, whether it shares blocks with others or not, at the same time; managed elements are deleted exactly once whichever sharer lets go last.",
  ["schedules", "histories"], "every interleaving of per-thread histories over sharing containers",
  "Unit tests are single-threaded; a race between sharers needs two threads that detach or let go of the same blocks.",
  MTV, [("sharing", "soa/main_def.inl: share, shared_element_blocks"), ("detaching", "soa/main_def.inl: detach_impl"), ("destruction and clear while sharing", "soa/main_def.inl: ~multi_type_vector, clear")],
  src="cowmt.cpp", flags=["@tsan"], technique="property-based testing of generated concurrent histories under the thread sanitizer, against per-container models",
  note="Threads run freely; the thread sanitizer judges happens-before, so races are found without hitting the exact interleaving.")

P("C33", "clone duplicates each non-copyable element once, in order, through its cloner",
  "Cloning a multi_type_vector, or detaching a sharing one, duplicates every element exactly once: a value cloner without an execution policy is one instance per element block, applied to the block's values in stored order, a block cloner is called per block, and copyable blocks are copied. "
  "The clone has the source's contents and the given or copied event handler and is independent of the source; a container with an uncloneable element is refused, and a clone that fails midway frees what it made and leaves the source unchanged.",
  ["histories", "fault_sequences"], "every container mixing cloneable and copyable blocks, every value at which the cloner fails",
  "Stateful cloners observe order and instance count, and a failure can come at any value; tests clone a few small containers.",
  MTV, [("cloning of blocks", "types.hpp: clone_block, clone_value"), ("cloning of containers", "soa/main_def.inl: clone, copy_blocks; aos/main_def.inl: clone")],
  src="mtvx.cpp", parts=3, note="Cloners stamp each clone with their instance and call number.")

P("C34", "call tracing reports every public call exactly once and changes nothing",
  "With call tracing compiled in and a trace function in the traits, every call of a public member function of the SoA multi_type_vector (constructors, destructor, accessors and mutators with and without position hints, also calls that throw) is reported exactly once for that container: with its address, the name of the function, the matching method type, and the numeric argument values, range lengths and element types it was given. "
  "Tracing does not influence the container: results, exceptions, block layout and contents are those of the same history on an untraced container.",
  ["histories"], "every history of public calls, with and without copy-on-write",
  "Public functions call each other internally, move and throw midway; whether the nesting is accounted for after any such history is not visible in the tests, which look at a few fixed calls.",
  MTV, [("reporting", "multi_type_vector/util.hpp: call_trace, MDDS_MTV_TRACE; soa/main_def.inl: public functions")],
  src="trace.cpp", parts=2, technique="property-based testing of generated histories against a per-call oracle for the reports and an untraced twin",
  note="Reports are filtered by container, so that calls on internal temporaries do not matter.")

P("C35", "element blocks hold exactly the sequence of values their functions were given",
  "After any history of calls of the static element block functions (creation, set, append, prepend, insert, assign and erase of values, transfers from and swaps with other blocks, resize, reserve, shrink, copy and clone), called directly or dispatched by block type, every block holds exactly the values that the same history gives on a plain sequence, through every accessor, for each value type and for delayed-delete, vector and deque stores. "
  "Managed blocks delete exactly the objects that they still hold and none that moved to another block, copying a noncopyable block, positions outside a block in checked access and block types unknown to the dispatcher are refused without effect.",
  ["histories", "inputs"], "every history over a pool of blocks of each value type and store",
  "The containers call these functions only with the arguments that their own splitting and merging produces; users who define own element blocks and stores call them with any.",
  [I + "multi_type_vector/types.hpp", I + "multi_type_vector/block_funcs.hpp", I + "multi_type_vector/delayed_delete_vector.hpp"],
  [("block functions", "types.hpp: element_block, managed_element_block, noncopyable_managed_element_block, default_element_block"), ("dispatch by type", "block_funcs.hpp: element_block_funcs")],
  src="blocks.cpp", parts=3, note="The delayed-delete vector alone is C28.")

P("C36", "const calls on any container can run on several threads at once",
  "When no thread changes a container, any number of threads can at the same time call its const member functions (searches, traversals, iteration, comparison, export and serialisation, and making copies of it) without data races, and every call returns what it returns when made alone. "
  "This holds for flat_segment_tree, segment_tree, point_quad_tree, trie_map, packed_trie_map, sorted_string_map, rtree, multi_type_matrix and collections of multi_type_vectors.",
  ["schedules", "inputs"], "every set of concurrent const calls on every container",
  "Unit tests are single-threaded; a const function that caches, marks nodes or counts references breaks only when another thread reads too.",
  FST + [I + "segment_tree_def.inl", I + "point_quad_tree.hpp", I + "quad_node.hpp", I + "trie_map_def.inl", I + "sorted_string_map_def.inl", I + "rtree_def.inl", I + "multi_type_matrix_def.inl", I + "multi_type_vector/collection_def.inl"],
  [("searches and traversals", "const members of all containers"), ("reference-counted nodes", "node.hpp, quad_node.hpp: intrusive_ptr_add_ref")],
  src="constmt.cpp", flags=["@tsan"], technique="property-based testing of generated concurrent const calls under the thread sanitizer, against the same calls made alone",
  note="Threads run freely; the thread sanitizer judges happens-before. multi_type_vector itself is C32.")

P("C37", "Iterators of every container are equal exactly when they stand at the same place",
  "Within one container or result set two iterators compare equal exactly when they refer to the same element (or both to the end), however they were obtained: by stepping forward or backward any number of times, by copying, assigning or swapping, by conversion to the const iterator, from a lookup (find, search with or without hint, position), or as the result of a modification. "
  "Stepping, its return values, dereferencing and the reverse iterators agree with the one sequence from begin to end, a copy moves independently of its original, and iterators of different containers or of different result sets are not equal. "
  "This holds for flat_segment_tree (leaf, reverse and segment iterators), the search results of segment_tree, point_quad_tree and rtree, trie_map, packed_trie_map and their prefix searches, multi_type_vector block iterators and positions, collections, and multi_type_matrix positions.",
  ["histories", "inputs"], "every container content, every pair of iterators and every walk of steps, copies and assignments",
  "Tests compare iterators with begin and end almost only; equality of two places in the middle, and iterators of one place reached on different ways, depend on the contents and on the whole walk.",
  FST + [I + "flat_segment_tree_itr.hpp", I + "segment_tree_def.inl", I + "point_quad_tree.hpp", I + "rtree_def.inl", I + "trie_map_itr.hpp", I + "trie_map_def.inl", I + "multi_type_vector/soa/iterator.hpp", I + "multi_type_vector/aos/iterator.hpp", I + "multi_type_vector/iterator_node.hpp", I + "multi_type_vector/collection_def.inl", I + "multi_type_matrix_def.inl"],
  [("iterator classes", "flat_segment_tree_itr.hpp, trie_map_itr.hpp, multi_type_vector/*/iterator.hpp, rtree_def.inl: iterator_base, segment_tree_def.inl: const_iterator_base, point_quad_tree.hpp: search_result::const_iterator")],
  src="iters.cpp", parts=4, note="What the elements are is decided by the properties of each container; here the sequence is compared with itself.")

P("C38", "A call that runs out of memory leaks nothing and leaves containers as they were",
  "When any allocation of a call fails, the call throws std::bad_alloc (or succeeds without it), and whatever it had allocated by then is freed, at once or when the containers involved are destroyed. "
  "Calls that construct, copy, move, assign, swap, clone, compare, search, iterate, build a tree, bulk-load, or save and load a state, insertions into a flat_segment_tree, segment_tree, point_quad_tree or trie_map, and removals from the latter three leave every container involved with exactly the contents it had, and repeating the call when there is memory gives the result of an undisturbed call. "
  "After an interrupted shift of a flat_segment_tree or trie_map::pack() (which moves the values) the container is still consistent and can be read, changed and assigned to. "
  "This holds for flat_segment_tree, segment_tree, point_quad_tree, trie_map, packed_trie_map and rtree (of an interrupted insertion or removal in an rtree only that nothing leaks), for collections, and for constructing, copying, assigning, cloning and reading multi_type_vector (with and without copy-on-write) and multi_type_matrix, but not for changing their elements.",
  ["inputs", "faults"], "every content, every call and every allocation in it that fails",
  "No test makes an allocation fail; whether a half-built chain of nodes is freed, or is left in the container, depends on the exact allocation and on the content.",
  FST + [I + "segment_tree_def.inl", I + "point_quad_tree.hpp", I + "trie_map_def.inl", I + "rtree_def.inl", I + "multi_type_matrix_def.inl", I + "multi_type_vector/soa/main_def.inl", I + "multi_type_vector/aos/main_def.inl", I + "multi_type_vector/delayed_delete_vector.hpp"],
  [("copy and swap, building before committing", "flat_segment_tree_def.inl, segment_tree_def.inl, trie_map_def.inl, rtree_def.inl, point_quad_tree.hpp: copy constructors, operator=, build_tree, insert, load_state")],
  src="fault.cpp", parts=3, note="One allocation fails per try; a second pair of containers with the same contents tells what the undisturbed call does.")

MTM = [I + "multi_type_matrix.hpp", I + "multi_type_matrix_def.inl"]
P("C29", "multi_type_matrix holds exactly the value of the last operation on each cell",
  "After any history of calls (construction with a value or an array, cell, range, column and position-based set, emptying of cells, ranges, rows and columns, transpose, resize with and without a value, copy from a matrix or an array, clear) every cell of a multi-type matrix has exactly the type and value that the same history gives on a plain two-dimensional array, for empty, boolean, numeric, integer and string cells, and the size, empty and numeric queries agree. "
  "Numeric, integer, boolean and string representations follow the documented conversions, positions and hinted positions refer to exactly the addressed cell, and calls with sizes that do not fit are rejected without effect.",
  ["histories", "inputs"], "every history, geometry, element type mix and string or integer type of the traits",
  "Cells map to one linear store in which ranges wrap over columns; tests use small fixed matrices and hardly mix integer cells with geometry changes.",
  MTM, [("geometry changes", "multi_type_matrix_def.inl: transpose, resize, copy"), ("cell addressing", "multi_type_matrix.hpp: get_pos; multi_type_matrix_def.inl: position, set, set_column, set_row_empty")],
  src="mtm.cpp", parts=3, note="Model: a dense column-major array; matrices up to 20x20.")
P("C30", "multi_type_matrix walks visit exactly the cells asked for, in order",
  "A walk over a matrix, over a sub-range, over two matrices in parallel or over a sub-range of two matrices calls the function object with sections that together cover exactly the cells asked for, once each, in column-major order, each section with the right type and values and, in parallel walks, equal lengths on both sides. "
  "The whole-matrix walk visits each element block once, the function object with its accumulated state is returned, and reversed or out-of-bounds ranges and different geometries are rejected.",
  ["inputs", "histories"], "every pair of block layouts and every sub-range",
  "Sections end at block edges of either matrix and at column ends; tests walk a few fixed layouts.",
  MTM, [("walks", "multi_type_matrix_def.inl: walk (four overloads), element_block_node_type")],
  src="mtm.cpp", parts=3)
P("C31", "multi_type_matrix copies, moves, swaps and compares as a value",
  "Copy and move construction and assignment, self-assignment and swap give each matrix exactly the geometry and cells it should have, matrices are independent afterwards, and a moved-from matrix is empty and reusable. "
  "Two matrices compare equal exactly when their geometries and the types and values of all cells are equal, whatever histories produced them.",
  ["histories"], "every history over a pool of matrices",
  "Tests copy and compare a few matrices; equality relies on the element blocks being canonical after any history.",
  MTM, [("copy, move, swap", "multi_type_matrix_def.inl: constructors, swap"), ("comparison", "multi_type_matrix_def.inl: operator==")],
  src="mtm.cpp", parts=3)
