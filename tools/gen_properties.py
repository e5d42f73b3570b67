#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L="src/lib.rs"; I="src/iter.rs"; RL="src/rle.rs"; G="src/generic_impl/gap_buffer.rs"; LF="src/generic_impl/len_finder.rs"; O="src/generic_impl/ord.rs"; R="src/generic_impl/rope.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe or ["public API"],hook_needed=None)))
H=["histories","inputs"]
p("C01","Single-element edits keep the sequence exact",
 "For every history of valid operations, inserting (by cursor, by query, at the front, at the back) and removing single elements makes the in-order content equal to the same edits on a plain list: nothing is lost, duplicated, reordered or altered, whatever the element type merges, absorbs or splits. Every valid edit completes without panicking or hanging, and the emptiness test agrees with the content.",
 H,"every history of edits over every element type with lawful split/merge/absorb behaviour, every position, every tree shape",
 "tests drive one rope and one ordered set with a few fixed or one-seed histories; merge/absorb/split combinations at node boundaries and most tree shapes are never reached",
 [L],[("insert_by_path / insert / push / prepend / remove_leaf",L),("split_leaf_if_needed, split, handle_lack_recursively",L)],
 [("leaf_nodes","elements in the arena",L),("in_nodes","ordered child lists",L)],["iteration after every operation"])
p("C02","Summaries always equal what the elements below add up to",
 "After every completed mutating operation, the summary stored for every subtree, and the one reported for the whole tree, equals the summary recomputed from the elements it covers; this holds both for summaries maintained by differences and for those recomputed from scratch, and also after an in-place element change followed by the public summary refresh.",
 H,"every history of mutating operations, for incremental (difference based) and recomputed summaries, additive and max/min",
 "tests only use a length sum (and key bounds) and call the consistency check at the end of a few fixed histories",
 [L,I],[("recursive_update_cache, update_dirty_cache_map, split_node, handle_lack_single_layer, Drain::drop",L)],
 [("root_cache","summary of the tree",L),("Child.cache","summary of a subtree",L)],["child summaries shown to a custom query, root_cache()"])
p("C03","The tree stays well formed",
 "After every completed operation all elements sit at the same depth, no internal node other than an empty root is empty or filled beyond what the next insertion can take, parent and child links agree, and every allocated node is part of the tree (the reported node count equals the number of reachable nodes). The reported height and average fan-out are those of the actual structure, for an empty tree too. The built-in consistency check accepts every state reachable through valid use.",
 H,"every history of operations, including partial drains, removals to empty and rebuilding",
 "the tests run the built-in check on a handful of states; leaks and broken links in rarely taken rebalancing branches need specific shapes",
 [L,I],[("split/split_root, handle_lack_single_layer, try_reduce_levels, update_children_parent_slot_from, purge",L),("Drain::drop/seal",I)],
 [("parent/parent_slot","back links",L)],["check(), node_len(), structure seen by a custom query"])
p("C04","Height and per-operation work stay logarithmic",
 "Insertion, removal and lookup of one element touch a number of summaries and make a number of comparisons proportional to the tree height, and the height stays logarithmic in the number of elements, the current number, whatever was inserted, removed, updated or drained before. No size of tree that fits in memory makes an operation fail.",
 H,"every history and every size up to memory",
 "no test measures cost; depth is printed by one ignored-by-default test and never asserted",
 [L,I,O],[("split thresholds, handle_lack_*, try_reduce_levels",L),("NodePath capacity",L)],None,["depth(), counters in the element/key callbacks"])
p("C05","Position search finds exactly the target",
 "A search for position t below the total length reports found and a cursor whose element covers t, with the lengths of all preceding elements plus the offset equal to t; a search for exactly the total length reports not found and the end position; a search in an empty tree reports nothing. The same holds for any lawful user-defined search over any summary dimension, for ranges of targets, and the finder returned with the result describes the descent actually taken.",
 H,"every tree content and shape, every target, length search and user-defined searches",
 "tests probe every index of a few small ropes only; zero-length elements, other dimensions and the returned finder are not tested",
 [L,LF],[("query_with_finder_return, range",L),("LengthFinder::find_node/confirm_elem",LF)],None,["query results"])
p("C06","Element handles stay stable",
 "A handle to an element keeps denoting that element, with its content and relative order, across every operation that does not itself touch the element, however the tree is rebalanced; when an operation splits an element the old handle keeps the left part. Once the element is removed its handle is reported absent for good, and removing it again has no effect, even after storage is reused (until the tree is cleared).",
 H,"every history, every handle ever obtained",
 "no test keeps a handle across other operations",
 [L,I],[("leaf arena with generations; get_elem, remove_leaf",L)],[("LeafIndex","handle",L)],["get_elem on every handle after every operation"])
p("C07","Draining a range removes and yields exactly that range",
 "Draining a range yields exactly the content between its two ends, in order, and leaves exactly the rest, with the tree fully consistent, no matter how many items the caller takes before dropping the drain, where the ends fall, and whether the range is empty, reaches the end, or the tree is empty.",
 H,"every content and tree shape, every pair of ends, every number of items consumed",
 "tests drain once through a map and through rope deletions; empty ranges, partial consumption and multi-level boundaries are not covered",
 [I,L],[("Drain::new/next/drop, seal, filter_deleted_children",I),("drain, drain_by_query",L)],None,["items yielded, state after drop"])
p("C08","Range update visits exactly the range",
 "Updating a range between two cursors calls the updater once per element, in order, on exactly the content between them (splitting the elements at the two ends); content outside is untouched, reported summary changes are applied everywhere, elements the updater makes removable disappear, the handles of newly split elements are returned, and the tree is consistent afterwards.",
 H,"every content and shape, every pair of cursors, updaters that modify, shrink, empty or keep elements",
 "the code says 'TODO: need better test coverage'; one map test uses it with constant updates",
 [L],[("update, update_dirty_cache_map, add_leaf_dirty_map",L)],None,["updater calls, state afterwards, returned handles"])
p("C09","Updating one element applies exactly the requested change",
 "Updating a single element, by handle or by search, replaces it by what the updater leaves in place followed by the extra elements it returns (removable ones are dropped), changes nothing else, reports whether the handle is still valid and the handles holding the extra content, and leaves summaries and structure consistent.",
 H,"every element, every combination of kept/removed element and zero, one or two extra elements, every node fill level",
 "only the rope uses these entry points, never with two extra elements and never from a full node at several levels",
 [L],[("update_leaf, update_leaf_by_search",L)],None,["state and results after each call"])
p("C10","Batched sub-range updates hit exactly their sub-ranges",
 "Applying a batch of updates, each addressed to a sub-range of an element, changes exactly the addressed units, each by exactly the updates that cover it, with any overlap, any number of ranges per element and any element order; order and content are otherwise kept, elements are split at the range ends and the handles of the split-off parts are returned, and the tree is consistent afterwards.",
 H,"every batch of non-empty in-bounds sub-ranges over any elements",
 "no test calls it",
 [L],[("update_leaves_with_arg_in_ranges",L)],None,["per-unit effects, returned handles"])
p("C11","Bulk insertion equals inserting one by one",
 "Inserting many elements at a cursor, or into an empty tree, puts exactly the given content, in the given order, at exactly that position, for any number of elements and whatever neighbouring elements may merge, and leaves the tree consistent and fully usable.",
 H,"every list of elements, every position (element start, middle, end, empty tree), every merge policy",
 "only the rope calls it, with elements that never merge",
 [L],[("insert_many_by_cursor, merge_adj, create_subtrees_from_elem",L)],None,["content after the call"])
p("C12","Building from an iterator yields exactly the given elements",
 "Collecting any number of elements into a tree yields a consistent tree holding exactly those elements in order, on which every operation works as on any other tree.",
 H,"every number of elements (0, 1, all fill levels of each height) and every following history",
 "one rope test collects and checks text only",
 [L],[("FromIterator for BTree",L)],None,["content, structure, later operations"])
p("C13","Traversal and cursor navigation follow the content order",
 "Full iteration and iteration over a cursor range present exactly the elements concerned, in order, with start and end offsets marking exactly the range; next, previous, prefer-left, prefer-right, first/last and start/end cursors agree with that order, and shifting a cursor by one moves to the next position, skipping zero-length elements, or reports the end.",
 H,"every content and shape, every cursor (including ends of elements) and cursor range",
 "tests iterate whole trees only; range iteration and cursor movement at node boundaries are untested",
 [L,I],[("iter, iter_range, next_elem, prev_elem, prefer_left, prefer_right, shift_path_by_one_offset, first_leaf, last_leaf, start_cursor, end_cursor",L),("Iter",I)],None,["traversal results compared with the independently observed order"])
p("C14","Comparing cursors agrees with their order in the tree",
 "For any two cursors the comparison is the order of their elements in the sequence, and of their offsets when the element is the same; it is a total order consistent with traversal in every tree shape.",
 H,"every pair of cursors in every tree shape",
 "one test compares keys 0..100 in one insertion order",
 [L],[("compare_pos",L)],None,["compare_pos on all pairs / sampled pairs"])
p("C15","Visiting preceding summaries gives the exact prefix",
 "Visiting what precedes a cursor reports summaries which, in order, cover exactly the elements before the cursor's element, each once, followed by that element and the offset, using no more summaries than the number of left siblings along the path; their sum gives the absolute position of the cursor.",
 H,"every cursor in every tree shape, every summary dimension",
 "an unused-by-default helper sums lengths on small ropes only",
 [L],[("visit_previous_caches",L)],None,["callback sequence"])
p("C16","Filtered traversal and filtered in-place change are exact",
 "Traversal with a filter yields, in order, exactly the elements for which the filter accepted the element's own summary and all enclosing ones, each with the accumulated value of everything that precedes it, without consulting summaries below a rejected one; the in-place variant hands out exactly the accepted summaries and elements and changes nothing else.",
 H,"every tree, every filter over summaries, every accumulated quantity",
 "no test calls either",
 [L],[("iter_with_filter, update_cache_and_elem_with_filter",L)],None,["items, accumulated values, filter calls"])
p("C17","Clones are independent and clearing resets completely",
 "A cloned tree equals the original, accepts the original's handles, and neither is affected by later operations on the other; a cleared tree behaves exactly like a new one.",
 H,"every state cloned or cleared, every pair of later histories",
 "no test clones a tree",
 [L],[("Clone for BTree, clear",L)],None,["both trees observed after each operation on one"])
p("C18","Elements are owned exactly once",
 "Every element given to a tree or ordered map is either held once, handed back to the caller once, or dropped once: after every operation the number of live element instances equals the number of elements held (plus those the caller holds), and dropping, clearing or draining releases all of them.",
 H,"every history of operations, including replaced values, drained ranges and early-dropped drains",
 "no test counts instances",
 [L,I,O],[("arena removal in remove_leaf, update*, Drain, purge, clear",L)],None,["live-instance counters in elements, keys and values"])
p("C19","Insertion reports where the content went",
 "Every insertion returns a cursor from which reading the inserted length gives back exactly the inserted content, and reports every element it split off, so that a caller can keep an external index of positions and handles exact.",
 H,"every insertion position, merge/absorb policy and node fill level",
 "no test looks at the returned cursor or split list",
 [L],[("insert_by_path, insert, push, prepend, SplittedLeaves",L)],None,["returned cursor and split list"])
p("C20","The ordered map and set behave like a sorted map and set",
 "For every key type with a total order and every history of insertions and deletions, the ordered map and set report the same length, emptiness, deletion results and in-order content as a reference sorted map/set: inserting an existing key replaces its value, deleting an absent key changes nothing and says so.",
 H,"every key type, value type and history, including absent keys and duplicates",
 "tests insert one random stream of distinct keys and delete only present keys",
 [O,L],[("OrdTreeMap/OrdTreeSet insert, delete, iter",O),("OrdTrait query",O)],[("len","cached number of entries",O)],["len, is_empty, iter, delete result after every operation"])
p("C21","The rope behaves like a string",
 "For every history of insertions and deletions of any valid text at any valid byte positions, the rope has the same length, emptiness and displayed text as a plain string edited the same way, whatever editing locality it caches and however text is cut into chunks.",
 H,"every edit history: local typing, jumps, long pastes, multi-byte text, chunk-size boundaries",
 "the test suite replays a few fixed fuzz cases with a small chunk size; the shipped chunk size is never tested and no long local-editing history is",
 [R,G,L],[("Rope::insert/delete_range with cached cursor",R),("GapBuffer",G)],[("cursor","cached leaf position",R)],["len, is_empty, Display, check() after every edit"])
p("C22","The rope handles bounds, emptiness and clearing safely",
 "Deleting ranges of any bound kind beyond the end affects only what exists, inserting past the end is refused with a panic that leaves the text unchanged, and after clearing or deleting everything the rope behaves exactly like a new one.",
 H,"every state, every out-of-range or unbounded range, every history continuing after clear",
 "one test clears once and inserts once afterwards",
 [R],[("Rope::insert bounds check, delete_range clamping, clear",R)],[("cursor","cached leaf position",R)],["text and length after the call and after continued editing"])
p("C23","Slicing helpers partition an element exactly",
 "Slicing, splitting and updating a sub-range of an element with the provided default helpers partition the element exactly for every kind of range bound: the parts concatenate to the original, and the updater is applied to exactly the requested sub-range, once, and never for an empty range.",
 ["inputs"],"every element length and every range bound combination",
 "no test calls the default helpers except through the gap buffer",
 [RL],[("Sliceable::slice/slice_/split/update_with_split",RL)],None,["returned parts"])
p("C24","No undefined behaviour or memory leak",
 "Under every history of valid operations on trees, ordered maps and ropes, execution is free of undefined behaviour, data races on unshared values, invalid memory accesses and memory leaks.",
 H,"every history; observed under an undefined-behaviour interpreter and an address/leak sanitizer",
 "the tests are not run under any sanitizer; the crate forbids unsafe code but its containers use it",
 [L,I,O,R,G],[("forbid(unsafe_code), heapless/arena usage",L)],None,["Miri and AddressSanitizer/LeakSanitizer reports"])
p("C25","Work on ranges is proportional to the range",
 "Draining or updating a range makes a number of calls into the element and summary types (summaries read or recomputed, elements measured, merged, split) at most proportional to the number of elements in the range plus the height, independent of the size of the rest of the tree (an element that an update empties may cost the height more); building a tree from an iterator makes a number proportional to the number of elements; inserting many elements or updating many sub-ranges at once costs at most what the same number of single operations cost, a constant times the height each.",
 H,"every history, every range, every batch and every size of the rest of the tree",
 "no test measures cost; a range operation that rebuilds or recomputes the whole tree gives the same results",
 [L,I],[("update, update_leaves_with_arg_in_ranges, update_dirty_cache_map, insert_many_by_cursor, create_subtrees_from_elem",L),("Drain",I)],None,["counters in the element and summary callbacks"])
p("C26","Memory follows what is held",
 "The memory a tree or an ordered map occupies is at most proportional to the most elements it has held at one time since it was made or last cleared, however many operations were made: the storage of removed elements and nodes is used again. Clearing a tree or a rope gives its storage back. A rope occupies memory proportional to the most text it has held, plus the number of places edited apart from each other; text typed at one place is stored in pieces of many bytes, not one piece per insertion.",
 H,"every history of any length; growth that no observable content shows",
 "no test measures memory; storage never used again, or a rope in one-byte pieces, gives the same results",
 [L,I,O,R,G],[("remove_leaf, drain, purge, clear, arena use",L),("Rope::insert/delete_range, chunk size",R)],None,["a counting allocator read after every operation"])
p("C27","Structures can be shared and handed between threads",
 "Trees, ordered maps and sets, and ropes, whose elements, keys and summaries are Send and Sync, are Send and Sync themselves. A structure may be handed from thread to thread between any two operations; many threads may read one structure at the same time, each getting the answers a lone reader gets, and reading changes nothing another reader can see; and separate structures, a structure and its clones included, may be changed at the same time without any effect on each other. No such use contains a data race.",
 ["histories","inputs","schedules"],"every way several threads can hand over, read or independently change structures, every interleaving",
 "no test uses a second thread; hidden shared or per-thread state gives the same results in one thread",
 [L,I,O,R,G],[("BTree, Node, Arena storage (no interior mutability), all &self methods",L),("Rope cursor",R)],None,["answers in reader threads, ThreadSanitizer reports"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
