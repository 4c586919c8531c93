#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = "explicit-state enumeration of the implementation: breadth-first over every tree shape reachable in the bounds, each operation at each position compared with a list model"
N = {
 "C01": (T, "all end-operation histories by state closure (length <= 110 at node width 4), all end-operation sequences on every mixed shape (length <= 11), larger vectors at widths 4 and 64; trusts the list model and that behaviour depends on a vector's shape and sharing"),
 "C02": (T, "every concatenation, split, slice, insertion, removal at every position of every shape in the bounds and every pair of shapes up to length 6; larger vectors at widths 4 and 64"),
 "C03": (T, "every index, in and out of bounds, of every shape in the bounds, by get, get_mut, guarded get and indexing"),
 "C04": (T + ", over groups of handles that share structure", "every operation on every handle of every sharing group, all handles compared afterwards; includes blocks shared inside one vector; pairs of changes on small shapes"),
 "C05": (T + "; invariants recomputed from the printed tree and by the crate's own assertion", "every result of every operation in the bounds; growth of height over long repetitive histories (four known findings)"),
 "C06": ("exhaustive enumeration of focus programs (reads, narrowings, splits, copies) on every reachable shape against a list model", "all ranges, nested narrowings and splits, several access orders, on every shape in the bounds; larger vectors at boundary positions"),
 "C07": ("exhaustive enumeration of mutable-focus programs (split trees and access orders) on every reachable shape against a list model", "all split positions to depth 3, writes through every part, on every shape in the bounds"),
 "C08": ("exhaustive enumeration of front/back interleavings of every iterator on every reachable shape against a list model", "all interleavings for short vectors, structured ones for longer; partly consumed iterators dropped at every point"),
 "C09": ("exhaustive enumeration of value patterns, ranges and entry points on every reachable shape; adaptive adversary for the recursion", "all value patterns over 2-3 values, all permutations to length 7, every range with every kind of bound; the library's random generator is the deterministic one it seeds itself"),
 "C10": ("exhaustive enumeration of value patterns, ranges and entry points on every reachable pair of shapes; adaptive adversary for the recursion", "as C09, with the companion vector built differently from the first"),
 "C11": ("exhaustive enumeration of run positions, ranges and query kinds on every reachable shape against a list model", "every (less, equal, greater) division, every range with every bound kind, every index"),
 "C12": (T + "; every element carries its own life-cycle monitor", "every history in the bounds, with copies alive and dropped in every order; counts elements without size too; explored again with the library's feature may_dangle, which replaces the destructor"),
 "C13": ("fault enumeration inside the explorer: a panic injected at every callback of every operation on every reachable shape", "every k-th callback (clone, destructor, comparison, key, predicate, source iterator) panics once, for every operation in the bounds; all handles then compared and dropped"),
 "C14": (T, "every pair of shapes up to length 6, every single difference in every shape in the bounds; comparisons of vectors of 2^61 and more elements"),
 "C15": (T, "every range of every shape in the bounds, every kind of bound, with a copy alive"),
 "C16": (T + "; clones of elements counted", "every operation on every shape in the bounds, unshared (no clone) and fully shared (bounded by height and width)"),
 "C17": ("stateless exploration of all thread interleavings of the implementation under loom, up to a bound on preemptions, with happens-before race detection on every node, pointer and element", "every pair of 25 programs on copies of 10 shapes (2 preemptions), with the original in use, three copies, borrowed readers; width 4; the element's clone and comparison are scheduling points; the shared-pointer crate (and, where the source uses them, std atomics and Cell) is replaced by an instrumented copy with std's orderings"),
 "C18": ("stateless exploration of all thread interleavings of the implementation under loom, up to a bound on preemptions, with happens-before race detection on every node, pointer and element", "every split position of 8 shapes, every pair of 5 programs, both pointer kinds, copies idle, read, dropped or written meanwhile, nested splits with three threads; known findings for regular vectors that share blocks"),
 "C19": ("exhaustive enumeration of every state (first slot, length) of the ring buffer and every operation on it against a deque model, at widths 4, 8 and 64", "every position of the buffer at three widths, every operation with every argument, all iteration interleavings up to length 8, all sequences of end operations to depth 7; needs the guarded wrapper, without it judged through whole vectors; explored again with the library's feature may_dangle"),
 "C20": ("exhaustive enumeration of the histories of a size table against a plain list model, at widths 4 and 64", "all histories of pushes and pops at either side within the bounds, every position; needs the guarded wrapper, without it judged through whole vectors; explored again with the library's feature may_dangle"),
 "C21": (T + "; a counting allocator brackets every case", "net allocation is zero after every history in the bounds, with handles dropped in every order"),
 "C24": (T + "; every access through a shared pointer and every clone of an element is counted and compared with the documented bound", "every operation at every position of every shape in the bounds, unshared and shared, at widths 4 and 64; vectors of 2^32 to 2^40 elements in eight kinds of history; the shared-pointer crate is replaced by a counting copy; constants are several times what is needed; work that passes through no shared pointer and clones no element is seen only as a hang"),
 "C22": (T, "every length up to several tree levels, every constructor, then every operation on the result"),
}
hooks = ["5f2336b", "a41945a"]
NA = [{"property": "C23", "reason": "it quantifies over programs a compiler accepts (which types implement Send and Sync), not over executions: there is no state space to enumerate"}]
try:
    from more import N2, H2, NA2
    N.update(N2); hooks += H2; NA += NA2
except ImportError:
    pass
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "librrb_verif_* (rustc --cfg flags: librrb_verif_width4, librrb_verif_width8, librrb_verif_tree, librrb_verif_ring, librrb_verif_sizes)",
               "enable": "run.py builds the harness crates with RUSTFLAGS=\"--cfg librrb_verif_width4 --cfg librrb_verif_tree\" and similar", "source_commits": hooks},
     "checks": [{"property": k, "quick_cmd": "python3 run.py %s --tier quick" % k, "thorough_cmd": "python3 run.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k, "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in sorted(N.items())],
     "not_applicable": NA}
have = {c["property"] for c in m["checks"]} | {x["property"] for x in NA}
for l in open("properties.jsonl"):
    d = json.loads(l)
    if d["id"] not in have:
        NA.append({"property": d["id"], "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
