"""What each check runs: (histories, time cap in seconds) per build, and what must have been observed."""

ASSUMPTIONS = [
    "element, summary and query types obey the documented trait contracts",
    "only the executions produced by the listed histories were observed; nothing is claimed about others",
    "64-bit x86 target; single-threaded use of each tree",
]

TREE = (
    "An evaluation is one history: a tree of random element policy (merging, absorbing, zero-length markers, own or default split), "
    "summary kind (kept by differences, recomputed, non-subtractive with running extrema) and start shape, driven by 20-400 random operations weighted "
    "towards this property, all monitors observing the whole structure after every operation. A case is one observed (operation, content interval it touched, "
    "tree shape) triple; it is non-trivial and counted once when that triple (hash of the operation, the interval and the shape of the whole tree: child counts per node) was not observed before in this run. "
)


def T(rule, dev, rel, needs, tdev=None, trel=None, **kw):
    d = {
        "rule": rule,
        "needs": needs,
        "quick": {"dev": (dev, 150), "release": (rel, 100)},
        "thorough": {"dev": (tdev or dev * 40, 300), "release": (trel or rel * 40, 200)},
    }
    for k, v in kw.items():
        if k in ("quick", "thorough"):
            d[k].update(v)
        else:
            d[k] = v
    return d


PLAN = {
    "C01": T(TREE + "Weighted towards single insertions and removals.", 14000, 10000, ["insert_by_path", "insert(query)", "push", "prepend", "remove_leaf"]),
    "C02": T(TREE + "A sixth of the histories are rope histories checked by the built-in consistency check.", 18000, 12000, ["insert_by_path", "remove_leaf", "drain", "get_elem_mut+recursive_update_cache", "update", "update_leaf", "rope insert"]),
    "C03": T(TREE + "A sixth of the histories are rope histories checked by the built-in consistency check.", 16000, 10000, ["insert_by_path", "remove_leaf", "drain", "insert_many_by_cursor", "from_iter", "rope delete_range"]),
    "C04": T(TREE + "Two thirds use only one-element operations; some ordered-map histories count key comparisons. Steps are counted by the callbacks of the element, summary and key types. One tree of 23 million elements is built, worked on at its deepest points and half taken down.", 12000, 8000, ["insert_by_path", "remove_leaf", "update_leaf", "map insert"], quick={"capacity": True}, thorough={"capacity": True}),
    "C05": T(TREE + "After most operations searches by length, colour count and running maximum are compared with a linear scan.", 12000, 8000, ["position search below the total", "position search at the total", "range search", "search by colour count", "search over a running maximum", "search in an empty tree"]),
    "C06": T(TREE + "Every handle ever issued is looked up after every operation.", 14000, 9000, ["insert_by_path", "remove_leaf", "remove_leaf(stale)", "update", "drain"]),
    "C07": T(TREE + "Weighted towards drains, dropped after any number of items taken from either bound kind.", 24000, 16000, ["drain", "drain(none)"]),
    "C08": T(TREE + "Weighted towards range updates.", 16000, 10000, ["update", "update that empties elements", "update that keeps all elements"]),
    "C09": T(TREE + "Weighted towards updates of one element.", 14000, 10000, ["update_leaf kept+0", "update_leaf kept+1", "update_leaf kept+2", "update_leaf emptied+0", "update_leaf emptied+2", "update_leaf_by_search kept+0", "update_leaf_by_search kept+1", "update_leaf_by_search emptied"]),
    "C10": T(TREE + "Weighted towards batched sub-range updates.", 14000, 9000, ["update_leaves_with_arg_in_ranges", "reported split handles checked"]),
    "C11": T(TREE + "Weighted towards bulk insertions.", 14000, 9000, ["insert_many_by_cursor"]),
    "C12": T(TREE + "Weighted towards collecting trees from iterators of critical sizes, then operating on them.", 10000, 6000, ["from_iter", "insert_by_path", "remove_leaf", "drain"]),
    "C13": T(TREE + "After most operations iteration, range iteration and cursor navigation are compared with the element list.", 8000, 6000, ["full iteration", "range iteration", "cursor navigation", "shift by one", "first/last/start/end", "range iteration of an empty tree"]),
    "C14": T(TREE + "After most operations the order of cursor pairs is compared with the element list.", 10000, 8000, ["comparison: equal", "comparison: same element", "comparison: same node", "comparison: different nodes"]),
    "C15": T(TREE + "After most operations the summaries visited before a cursor are compared with the element list.", 10000, 8000, ["preceding summaries of a cursor"]),
    "C16": T(TREE + "After most operations filtered traversals are compared with a recursive reference on the observed structure.", 10000, 8000, ["filtered traversal", "in-place filtered change"]),
    "C17": T(TREE + "Weighted towards cloning (both trees stay observed) and clearing.", 24000, 16000, ["clone", "clear", "clone checked after operations on the other tree"]),
    "C18": T(TREE + "Live instances are counted after every operation; a fifth of the histories are ordered-map histories.", 24000, 16000, ["insert_by_path", "drain", "clear", "map delete", "instances counted after dropping the map"]),
    "C19": T(TREE + "Weighted towards insertions into elements that split.", 14000, 9000, ["insertion result checked", "insertion result of several units checked"]),
    "C20": T("An evaluation is one history of 20-500 (some: tens of thousands) insertions and deletions on an ordered map or set with one of six key types, compared after every operation with the standard library's sorted map. A case is one observed (operation, key, size, key domain) tuple, counted once.", 30000, 20000, ["map insert", "map delete", "set insert", "set delete", "delete of an absent key", "delete of a present key", "ordered content compared"]),
    "C21": T("An evaluation is one history of 30-220 edits (typing, deleting, pasting at a moving caret, at chunk boundaries and at random) of a rope, compared after every edit with a plain string. A case is one observed (kind of edit, resulting text) pair, counted once by hash.", 40000, 25000, ["rope insert", "rope delete_range", "rope text compared"]),
    "C22": T("An evaluation is one history of edits of a rope including ranges of every bound kind beyond the end, refused insertions, clearing and deleting everything (a new rope is then driven alongside), compared after every edit with a plain string. A case is one observed (kind of edit, resulting text) pair, counted once by hash.", 40000, 25000, ["rope delete_range (any bounds)", "rope insert past the end", "rope clear", "rope emptied by deletion", "emptied rope compared with a new one"]),
    "C23": T("An evaluation is one element (list of units, run-length element, or element with its own split) of length 0-40 with every pair of range bounds (short elements) or a sample of them. A case is one (element length, bound kinds, bounds) tuple, counted once.", 60000, 40000, ["slice", "slice_", "split", "update_with_split", "empty sub-range", "middle part", "left part", "right part", "whole element"], tdev=2_000_000, trel=2_000_000),
    "C24": T(TREE + "Also rope, ordered-map and slicing histories. Run with allocation accounting (everything a history allocated must be gone at its end), under the address sanitizer with debug assertions in the standard library's inlined unsafe code, and (short histories) in the Miri interpreter, which detects undefined behaviour, data races and leaks.", 8000, 6000, ["allocations balanced at the end of a history", "insert_by_path", "rope insert"], quick={"asan": (3000, 100), "miri": (40, 50)}, thorough={"asan": (150000, 250), "miri": (20000, 400)}),
    "C25": T(TREE + "Weighted towards drains, range updates, batches, bulk insertions and collecting, in trees of hundreds to thousands of elements. Steps are counted by the callbacks of the element and summary types.", 6000, 8000, ["drain", "update", "update_leaves_with_arg_in_ranges", "insert_many_by_cursor", "from_iter", "work on a small part of a tree"]),
    "C26": T("An evaluation is one history of 100-900 (some: thousands of) operations on a tree, an ordered map or a rope kept around a size it keeps coming back to; the bytes it occupies (a counting allocator, nothing else allocating meanwhile) are compared after every operation with a bound in the most it held at one time, and after clearing with a new one. A case is one observed (operation, size, occupied bytes) tuple, counted once.", 16000, 40000, ["occupied bytes of a tree", "occupied bytes of a map", "occupied bytes of a rope", "occupied bytes of a cleared tree", "occupied bytes of a cleared rope"]),
    "C27": T("An evaluation is one history of one to three meetings: several threads asking one structure at the same time, a structure handed from thread to thread between operations, or several structures (copies of one) changed at the same time; every answer, result and content is compared with the same work done by one thread alone, and ThreadSanitizer watches every memory access in one of the builds. A case is one (structure, content, order in which the threads took their turns) triple not observed before in this run.", 8000, 20000, ["Send and Sync", "answers compared while several threads read", "operations compared while handed around", "operations compared while others are changed", "search", "iteration", "range iteration", "copying", "rope text", "map entries", "set keys"], quick={"tsan": (6000, 80)}, thorough={"tsan": (300000, 250), "miri": (40, 200)}, assumptions=["element, key and summary types are Send and Sync themselves; the interleavings met are those the scheduler produced with random delays and yields in the callbacks"]),
}
