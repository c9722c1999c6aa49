"""Which harness entry decides which property, with which bounds."""
JOBS = {}
def job(props, entry, quick, thorough=None, covers=(), bound="", modes=("dbg",), **kw):
    j = dict(entry=entry, quick=quick, thorough=thorough, covers=list(covers), bound=bound, modes=list(modes), **kw)
    for p in props.split(): JOBS.setdefault(p, []).append(j)

ASSUMPTIONS = [
 "the digest is collision-free: an uninterpreted injective function whose values never equal a leaf the harness chose as fresh (adversarial coincidences are introduced explicitly where a property is about them)",
 "rustc and LLVM -O1 compile the crates' source to the analysed IR faithfully; IR of the dev-like configuration (overflow checks and debug assertions on) unless a job says mode rel",
 "allocation never fails; std HashMap's random keys are fixed (iteration order of maps is one fixed order)",
 "the executor's IR semantics (validated on every run by replaying sampled paths natively) and z3's answers (thorough tier: re-checked with z3 5.3 and cvc5)",
]
EXTRA_ASSUMPTIONS = {}

# ---- C01, C02: indices
job("C01", "h_index_nav", [[0]], covers=["zero", "children"], bound="every 64-bit index, depth and offset")
job("C01", "h_index_small", [[0, 9]], [[0, 13]], covers=["route"], bound="every index of depth <= 9 (thorough: 13)")
job("C01", "h_index_deep", [[3]], [[6]], covers=["deep"], bound="indices of depth 17, 31, 32, 33, 62 and 63 with every value of a 3-bit (thorough: 6-bit) window over constant patterns")
job("C02", "h_index_sub_deep", [[3]], [[5]], covers=["sub"], bound="compositions of total depth 41 and 63 with 3-bit (thorough: 5-bit) symbolic ends")
job("C02", "h_index_irr", [[0]], covers=["irr"], bound="every 64-bit index (irreflexivity)")
job("C02", "h_index_rel", [[64]], covers=["yes", "no"], bound="every pair of 64-bit indices")
job("C02", "h_index_sub", [[5, 5]], [[8, 7]], covers=["sub"], bound="every pair of indices of depth <= 5 (thorough: 8 and 7)")

# ---- C03, C04, C05: raw trees and the store
RAWB = "every position of a tree of the stated depth, any leaf values, values kinds: fresh, repeated, read from a live tree, digest of a pair"
job("C03", "h_raw", [[1, 2, 4, 0], [2, 2, 4, 0], [2, 2, 4, 1], [1, 3, 3, 0], [2, 3, 1, 1]], [[2, 2, 4, 1], [3, 2, 4, 0], [2, 3, 3, 0], [2, 3, 2, 1]], covers=["done", "frame"], bound="2 writes at depth 2 and 3 at depth 1 with all value kinds, 3 at depth 2 with fresh values (thorough: 2 at depth 3, 3 at depth 2): " + RAWB, shards=(4, 8), weight=5)
job("C03 C11", "h_raw_sub", [[2]], [[3]], covers=["order", "subtree", "no subtree"], bound="two writes to unrelated positions of depth <= 2 (thorough 3), any subtree and any position in it", shards=(1, 8))
job("C04 C05", "h_gc", [[1, 1, 3, 4], [2, 1, 3, 3], [2, 2, 2, 4], [2, 1, 4, 1]], [[2, 1, 3, 4], [2, 1, 4, 3], [2, 2, 3, 2], [3, 1, 3, 4], [1, 1, 4, 3]], covers=["drop", "end", "recreate"], bound="histories of 3 operations (write, drop, create) over 2 trees of depth 1, 2 over 2 trees of depth 2, 4 with fresh values (thorough: 4 and 3 with sharing, 3 trees): " + RAWB, shards=(8, 32), shard_depth=3, weight=5)
# ---- C05-C08, C11, C23, C24, C28: vectors and lists against a plain sequence
SEQ = "type (owned/dangling Vector/List) x construct x capacity; every initial length in the range, every sequence of that many push/pop/set/access-past-the-end/re-attach steps, any values"
SEQQ = [[0, 0, 0, 0, 9, 2, 2, 1, 4], [2, 0, 0, 0, 8, 2, 2, 1, 4], [3, 1, 0, 0, 5, 2, 2, 2, 4], [2, 1, 7, 0, 7, 2, 2, 1, 4], [0, 0, 5, 0, 5, 2, 1, 2, 4],
  [1, 1, 4, 0, 4, 2, 2, 1, 4], [0, 0, 1, 0, 1, 3, 1, 1, 4], [2, 0, 2, 0, 2, 3, 1, 2, 4], [0, 0, 0, 15, 17, 1, 1, 1, 4], [2, 0, 0, 16, 16, 2, 1, 1, 3]]
SEQT = [[0, 0, 0, 0, 6, 4, 1, 1, 3], [2, 0, 0, 0, 5, 4, 1, 1, 3], [2, 0, 5, 0, 5, 4, 1, 1, 3], [0, 1, 6, 0, 6, 4, 1, 1, 3], [2, 0, 9, 0, 9, 3, 2, 2, 4], [1, 0, 0, 0, 9, 3, 1, 2, 4], [3, 1, 0, 0, 9, 3, 1, 1, 4],
  [0, 0, 0, 30, 33, 2, 1, 1, 4], [2, 1, 0, 15, 17, 3, 0, 1, 3], [2, 0, 12, 6, 12, 3, 1, 1, 3], [0, 0, 1 << 40, 0, 3, 3, 1, 1, 4], [0, 1, 1 << 63, 0, 3, 3, 1, 1, 4], [0, 0, 3, 0, 3, 5, 0, 1, 3], [2, 0, 0, 0, 3, 5, 0, 1, 3]]
job("C06 C07 C08 C11", "h_seq", SEQQ + [[0, 1, 1 << 63, 0, 2, 2, 1, 1, 4], [2, 0, 1 << 33, 0, 2, 2, 1, 1, 4]], SEQT, covers=["push", "pop", "pop empty", "set", "set past", "full", "reattach", "end"],
    bound="2 steps from every length 0..9 (3 from small ones, 1 around 16; thorough: 4 steps from 0..6, 3 from 0..9, 2 around 32, 5 from 0..3): " + SEQ, shards=(3, 16), shard_depth=2, weight=3)
job("C08 C07 C28 C26", "h_create_any", [[0]], covers=["created", "refused"], bound="every length and capacity in 64 bits", shards=(8, 8), shard_depth=2, weight=8)
job("C28 C08", "h_create", [[9, 9, 0], [5, 5, 1]], [[17, 17, 0], [9, 9, 1]], covers=["created"], bound="every length and capacity up to 9 (thorough: 17), one further operation with any value")
job("C28", "h_empty", [[20]], [[63]], covers=["node"], bound="every height up to 20 (thorough: 63), nodes at 3 symbolic route bits", weight=2)
job("C11 C08", "h_reconstruct", [[0]], covers=["missing", "ok", "one", "too long"], bound="any root, length node and capacity in 64 bits over a store with at most one pair")
job("C05", "h_seq_gc", [[0, 0, 0, 0, 4, 2, 1], [0, 1, 3, 0, 3, 2, 1], [2, 0, 0, 0, 3, 2, 1], [2, 1, 0, 0, 3, 2, 1], [2, 0, 3, 0, 3, 2, 1]], [[0, 0, 0, 0, 8, 2, 1], [2, 0, 0, 0, 8, 2, 1], [0, 0, 0, 0, 3, 3, 1], [2, 0, 0, 0, 3, 3, 0], [2, 1, 5, 0, 5, 2, 1], [0, 1, 5, 2, 5, 3, 0]], covers=["end"],
    bound="vector and list: every length 0..4 (thorough: 8), every sequence of 2 (thorough: 3) steps, any values", shards=(4, 16), shard_depth=2, weight=4)
job("C04 C05", "h_seq_two", [[0, 0, 0, 3, 1, 3], [0, 1, 0, 2, 1, 3], [1, 1, 0, 2, 1, 3], [0, 0, 0, 1, 2, 3], [0, 1, 3, 3, 1, 2]], [[0, 0, 0, 2, 2, 3], [0, 1, 0, 2, 2, 3], [1, 1, 0, 2, 2, 3], [0, 0, 5, 5, 1, 3], [1, 1, 5, 4, 1, 3], [0, 0, 0, 1, 3, 3]], covers=["end", "nested", "equal roots"],
    bound="two vectors or lists in one store, each of up to 3 (thorough: 5) elements from a pool of two arbitrary values or the root of the other, one or two (thorough: 2 or 3) further steps on either, then given up in either order", shards=(2, 16), shard_depth=2, weight=3)
job("C23 C24", "h_seq_fault", [[t, u, c, 0, 5] for t in (0, 2) for u in (0, 1) for c in (0, 5)] + [[1, 0, 3, 0, 3], [3, 0, 3, 0, 3]], [[t, u, c, 0, 9] for t in (0, 1, 2, 3) for u in (0, 1) for c in (0, 3, 9)], covers=["fault", "no fault", "create"],
    bound="the backend fails at any one call of create, push, pop, set or get, every length up to 5 (thorough: 9)")
job("C23 C24", "h_seq_missing", [[t, u, c, 0, 5] for t in (0, 2) for u in (0, 1) for c in (0, 5)], [[t, u, c, 0, 9] for t in (0, 1, 2, 3) for u in (0, 1) for c in (0, 3, 9)], covers=["error", "ok"],
    bound="any one stored node is missing during push, pop, set or get, every length up to 5 (thorough: 9)")
# ---- C05, C08-C11, C23, C24: packed sequences (8-byte chunks; elements of 1, 2, 3, 4, 5, 8, 12, 16 and 20 bytes)
PACK = "element sizes smaller, equal, larger than the chunk, dividing it or not; vector/list, owned/dangling, both constructs, with and without capacity; every initial length in the range, every sequence of that many steps, any element bytes"
PQ = [[0, 0, 3, 0, 0, 6, 2, 1, 4], [0, 0, 12, 5, 0, 5, 2, 1, 4], [1, 0, 1, 0, 7, 10, 2, 1, 4], [1, 0, 5, 0, 0, 6, 2, 1, 4], [1, 0, 3, 5, 0, 5, 2, 1, 4], [0, 1, 16, 3, 0, 3, 2, 1, 4], [1, 2, 2, 6, 0, 6, 2, 1, 4],
  [0, 0, 8, 3, 0, 3, 2, 1, 4], [0, 0, 4, 0, 0, 5, 3, 1, 3], [1, 1, 4, 3, 0, 3, 2, 1, 4], [0, 0, 20, 0, 0, 4, 1, 1, 4], [0, 2, 5, 0, 15, 17, 1, 1, 4], [1, 0, 16, 0, 0, 3, 2, 1, 4], [0, 0, 1, 9, 7, 9, 2, 1, 4], [0, 1, 3, 0, 0, 4, 2, 1, 4], [0, 0, 2, 0, 0, 5, 3, 1, 3], [1, 1, 12, 4, 0, 4, 2, 1, 4]]
PT = [[t, k, n, c, 0, h, 3, 1, 4] for t in (0, 1) for k, n in ((0, 1), (0, 2), (0, 3), (0, 5), (0, 8), (0, 12), (1, 3), (1, 4), (1, 12), (2, 5), (2, 16)) for c, h in ((0, 6), (5, 5))] + [[0, 0, 20, 0, 0, 4, 2, 1, 3], [1, 0, 20, 3, 0, 3, 2, 1, 3], [0, 0, 3, 0, 20, 24, 2, 2, 4], [1, 0, 1, 0, 62, 66, 1, 1, 4], [0, 0, 5, 1 << 50, 0, 5, 3, 1, 3], [0, 0, 3, 0, 0, 4, 5, 1, 2]]
job("C08 C09 C10 C11", "h_packed", PQ, PT, covers=["push", "pop", "pop empty", "set", "set past", "full", "reattach", "end"], bound="2 steps from every length up to 10 (thorough: 3 from 0..6, 5 push/pop from 0..4): " + PACK, weight=2)
job("C08 C09 C10", "h_packed_create", [[0, 0, 3, 0, 7], [0, 0, 3, 5, 7], [0, 0, 12, 3, 4], [0, 2, 16, 0, 3], [0, 0, 8, 3, 4], [0, 0, 1, 7, 18], [0, 0, 20, 2, 3]], [[0, 0, n, c, 16] for n in (1, 2, 3, 4, 5, 8, 12, 16, 20) for c in (0, 5, 16)], covers=["end", "refused"], bound="new packed vectors of every length up to 18 with and without capacity, then one operation")
job("C08 C09 C10", "h_packed_huge", [[0, 0, 1, 63, 1], [0, 0, 1, 64, 1], [0, 0, 2, 63, 1], [0, 0, 3, 64, 1], [0, 0, 12, 32, 1], [0, 0, 20, 64, 1], [1, 0, 20, 64, 1], [1, 0, 5, 62, 1]], [[t, 0, n, k, 2] for t in (0, 1) for n in (1, 2, 3, 5, 8, 12, 16, 20) for k in (32, 59, 61, 64)], covers=["created", "full", "push", "pop", "set", "set past"],
    bound="mostly empty packed vectors and lists of 2^k - 2 to 2^k + 2 elements for k = 32, 62, 63, and of the 5 largest lengths, unbounded and with capacities at and next to the length, one step (thorough: 2) with any values", weight=2)
job("C05", "h_packed_gc", [[0, 0, 3, 0, 0, 5, 2, 1], [1, 0, 5, 4, 0, 4, 2, 0], [0, 1, 12, 0, 0, 2, 2, 0], [1, 0, 8, 0, 0, 3, 2, 0], [0, 0, 1, 0, 7, 9, 2, 0]], [[0, 0, 3, 0, 0, 9, 2, 1], [1, 0, 5, 4, 0, 4, 2, 1], [1, 1, 12, 0, 0, 2, 2, 1], [0, 0, 20, 3, 0, 3, 2, 0], [1, 0, 3, 0, 0, 4, 3, 0]], covers=["end"],
    bound="packed vector and list: every length up to 5 (8-byte chunks), every sequence of 2 (thorough: 3) steps, any values", shards=(2, 16), shard_depth=2, weight=4)
job("C23 C24", "h_packed_fault", [[0, 0, 3, 0, 0, 5], [1, 0, 5, 4, 0, 4], [1, 1, 12, 0, 0, 3], [0, 0, 20, 0, 0, 3], [1, 0, 1, 0, 7, 10], [0, 0, 8, 2, 0, 2], [1, 0, 4, 3, 0, 3]], [[t, k, n, c, 0, h] for t in (0, 1) for k, n in ((0, 1), (0, 3), (0, 8), (0, 12), (0, 20), (1, 4), (1, 12)) for c, h in ((0, 9), (4, 4))], covers=["fault", "no fault", "create"],
    bound="packed: the backend fails at any one call of create, push, pop, set or get, every length up to 5 (thorough: 9)")
# ---- C12-C16, C19, C23: proofs and backend wrappers
job("C12 C13 C14 C19", "h_replay", [[1, 1, 2, 3, 0], [1, 2, 1, 3, 1], [2, 1, 1, 3, 0], [1, 1, 2, 3, 1], [2, 1, 2, 2, 0]], [[1, 1, 3, 3, 0], [2, 2, 1, 3, 0], [2, 2, 2, 2, 0], [1, 2, 3, 2, 0], [2, 1, 2, 3, 1]], covers=["replayed"],
    bound="raw tree of depth 1 or 2 with up to 2 leaves written, every sequence of 1-2 (thorough: 3) reads, writes and copies at any position, values fresh or repeated; replayed from the proofs and from their compact form", shards=(3, 12), shard_depth=3, weight=3)
job("C12 C13 C14", "h_replay_seq", [[0, 0, 3, 2, 0], [1, 0, 2, 2, 0], [1, 5, 4, 1, 1], [0, 3, 3, 2, 1], [1, 0, 8, 1, 0]], [[0, 0, 5, 3, 0], [1, 0, 3, 3, 0], [1, 5, 5, 2, 1], [0, 6, 6, 2, 1], [1, 3, 3, 3, 0]], covers=["replayed"],
    bound="vector and list of every length up to 4 (8 for one operation), every sequence of 2 (thorough: 3) push/pop/set/get, replayed from the proofs and from their compact form", shards=(2, 12), shard_depth=3, weight=3)
job("C13 C19 C23", "h_record", [[2, 3], [0, 4], [1, 4]], [[3, 3], [2, 5], [0, 5]], covers=["insert", "failed insert", "failed read", "recorded", "inserted before", "read nothing"],
    bound="every sequence of 3-4 (thorough: 5) get/insert/rootify/unrootify calls with any, possibly equal, keys over up to 2 (thorough: 3) stored nodes, the backend failing at any one call, the state saved and restored before every call", shards=(2, 8), shard_depth=2)
job("C14", "h_compact", [[2, 2], [3, 0]], [[2, 2], [3, 1], [3, 2]], covers=["deep", "done"], bound="every proof shape of depth <= 3 (with unrelated entries: 2), every pattern of equal values and shared subtrees", shards=(4, 16), shard_depth=6, weight=2)
job("C15 C14", "h_plain", [[4, 1], [3, 3]], [[5, 2], [6, 1]], covers=["accepted", "refused"], bound="every index of depth <= 4 (thorough: 6) and sibling lists up to 3 too short or too long, any values", shards=(1, 8))
job("C15 C14", "h_plain_deep", [[3]], [[6]], covers=["accepted", "refused"], bound="indices of depth 17, 33 and 62, 3 (thorough: 6) low bits symbolic over 4 patterns, any values")
job("C16 C27 C14 C17", "h_node", [[0], [1]], [[0], [1]], covers=["equal", "different"], bound="any two pairs of 32-byte children, both constructs")
job("C16 C14", "h_forge", [[1, 2, 0], [2, 3, 1], [1, 2, 1]], [[1, 2, 0], [2, 2, 0], [3, 4, 1]], covers=["shown"], bound="every compact proof of depth <= 2 with fresh or genuine values against every real tree of depth <= 1 (thorough: 2); every proof of depth <= 3 (thorough: 4) that can hash to the root of a real tree of depth 2 (thorough: 3); every position one level deeper than the tree", shards=(2, 8), shard_depth=4, weight=2)
job("C19 C23", "h_wrap", [[l, c, 4, p] for l in (0, 1) for c in (0, 4) for p in (0, 1)], [[l, c, 9, p] for l in (0, 1) for c in (0, 9) for p in (0, 1)], covers=["fault", "no fault"], bound="vector and list up to length 4 (thorough: 9), one operation, a failure at any backend call, directly and through the error-erasing or proving backend")
job("C19 C13", "h_noop", [[0]], covers=["done"], bound="single calls on the discarding backend, alone and under the wrappers, any values")
# ---- C17, C18, C20, C27 (C14, C19, C23): typed values
TYPES = "85 types: bool, all integer widths, hashes, unit, tuples of 2-9, arrays, GenericArray, VecArray, lists, bounded lists (limits 0 to 2^63), compact vectors and lists of bytes, integers and bits, optionals, boxes, nestings of these"
job("C17 C18 C19", "h_le", [[0, 2, 18], [20, 2, 15], [40, 2, 10], [60, 3, 6], [60, 40, 0], [64, 5, 0], [70, 9, 5], [76, 3, 0], [77, 3, 1], [79, 3, 0], [80, 40, 7], [88, 12, 0], [89, 10, 0], [90, 3, 0], [91, 6, 0], [100, 34, 6], [110, 5, 6]],
    [[0, 2, 18], [20, 2, 15], [40, 2, 10], [60, 6, 6], [60, 100, 0], [61, 33, 0], [63, 5, 0], [64, 8, 0], [70, 9, 5], [73, 3, 0], [76, 9, 0], [77, 3, 1], [79, 9, 0], [80, 40, 7], [87, 300, 0], [88, 66, 0], [89, 66, 0], [90, 24, 0], [91, 40, 0], [100, 100, 6], [102, 300, 0], [110, 17, 6]],
    covers=["done"], bound="every value, with collections up to 3 to 40 elements (thorough: 9 to 300), of " + TYPES, weight=2)
job("C27 C17", "h_le_inj", [[0, 2, 18], [20, 2, 15], [40, 2, 10], [60, 2, 6], [60, 20], [63, 3], [70, 3, 5], [73, 3], [76, 2, 3], [80, 4, 7], [80, 33], [83, 10], [88, 3, 1], [90, 2, 1], [100, 3, 6], [100, 34], [105, 18], [110, 3, 6]],
    [[0, 2, 18], [20, 2, 15], [40, 2, 10], [60, 4, 6], [60, 66], [63, 4], [70, 5, 5], [73, 3], [76, 4, 3], [80, 9, 7], [80, 33], [87, 20], [88, 6, 1], [90, 4, 1], [100, 9, 6], [100, 66], [105, 33], [102, 40], [110, 5, 6]],
    covers=["equal", "different"], bound="every pair of values, with collections up to 2 to 34 elements (thorough: 3 to 66), of " + TYPES)
job("C20", "h_le_hostile", [[0, 2, 0, 18], [20, 2, 0, 3], [24, 2, 0, 2], [27, 2, 0, 8], [40, 2, 0, 10], [60, 2, 1, 0], [61, 2, 1, 0], [62, 2, 1], [63, 2, 1], [64, 2, 1], [65, 2, 1, 1], [70, 2, 1, 4], [75, 2, 1, 4], [80, 2, 1, 3], [84, 2, 1, 3], [88, 2, 1, 3], [100, 2, 1], [101, 2, 1], [102, 1, 1], [103, 2, 1], [106, 2, 1], [110, 3, 0, 2], [113, 2, 0, 3]],
    [[0, 3, 0, 18], [20, 3, 0, 3], [24, 3, 0, 2], [27, 3, 0, 8], [40, 3, 0, 10], [60, 2, 1, 1], [62, 3, 1], [63, 2, 1], [64, 2, 1, 2], [70, 3, 1, 4], [75, 3, 1, 4], [80, 2, 1, 3], [84, 3, 1, 3], [88, 3, 1, 3], [100, 2, 1, 6], [110, 4, 0, 2], [113, 3, 0, 3]],
    covers=["decoded", "rejected", "non-empty", "done"], bound="any root over any store holding a tree of depth <= 2 (optionals: 3; thorough: 3) with any 32-byte leaves, and nothing else; " + TYPES, shards=(1, 4), shard_depth=6, weight=3)
job("C20 C18 C27", "h_le_tag", [[60, 3, 0], [61, 3, 0], [62, 2, 0], [63, 1], [64, 2], [65, 2], [66, 2], [70, 3, 5], [77, 2, 1], [80, 4, 6], [87, 1], [100, 3], [101, 3], [102, 1], [104, 2], [106, 3], [110, 3, 2], [114, 3]],
    [[60, 5, 1], [62, 3], [63, 2], [64, 3, 2], [70, 5, 5], [77, 2, 1], [80, 9, 6], [87, 2], [100, 5, 1], [102, 2], [103, 3, 3], [110, 5, 2], [114, 5]], covers=["decoded", "other tag", "rejected"],
    bound="any 32-byte length or tag node above the encoding of any value with up to 3 elements (thorough: 5)", weight=2)
job("C23 C20", "h_le_fault", [[0, 2, 18], [20, 2, 3], [26, 2, 2], [29, 2, 6], [40, 2, 10], [60, 2, 6], [70, 3, 5], [76, 2, 0, 1], [77, 2, 1], [79, 1, 0, 1], [80, 4, 7], [88, 1, 0, 1], [90, 1, 0, 1], [100, 3, 6], [110, 3, 6]], [[0, 2, 18], [20, 2, 4], [26, 2, 2], [29, 2, 6], [40, 2, 10], [60, 4, 6], [70, 5, 5], [76, 4, 0, 1], [77, 2, 1], [79, 4, 0, 1], [80, 9, 7], [88, 9, 3, 1], [100, 17, 6], [110, 5, 6]],
    covers=["no fault", "encode fault", "decode fault", "missing"], bound="any one backend call of an encoding or decoding fails, or any one stored node is missing; values with up to 2 to 4 elements of " + TYPES)
job("C27 C17", "h_le_over", [[i, 2] for i in (0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19)], covers=["accepted", "refused"], bound="values up to 2 elements longer than the declared limit, 14 element type and limit combinations")
job("C17 C18 C27", "h_le_vec", [[i, 4, m] for i in range(9) for m in (0, 3)], [[i, 9, m] for i in range(8) for m in (0, 3, 9)] + [[8, 4, m] for m in (0, 3)], covers=["accepted", "refused"], bound="the vector and list encoders called with every length up to 4 (thorough: 9), with and without an explicit limit")
job("C17 C18 C14", "h_le_misc", [[2]], [[3]], covers=["done"], bound="compact proofs of depth <= 2 (thorough: 3) as trees; slices and references against values")
job("C17 C18 C20 C23", "h_le_mix", [[0]], covers=["encode fault", "own", "decode fault", "selected", "too large"], bound="the length and type selector functions called directly: a list of up to 2 elements, every selector, every 32-byte selector node, a failure at any backend call")
job("C11", "h_into_list", [[3, 0], [3, 5]], [[8, 0], [8, 9]], covers=["done"], bound="lists of every length up to 3 (thorough: 8), any values")
# ---- C26: arithmetic and from-scratch trees
job("C26", "h_depth", [[0]], covers=["zero", "middle", "top"], bound="every 64-bit count", modes=("dbg", "rel"))
job("C26", "h_lens", [[i] for i in range(20) if i != 16], covers=["done", "large"], bound="every 64-bit count, 19 pairs of chunk and element size", modes=("dbg", "rel"))
job("C26 C23 C28", "h_vector_tree", [[0, 9, 0], [0, 9, 1], [1, 9, 0], [1, 9, 1], [0, 17, 0], [0, 3, 1 << 40, 1], [0, 5, 1 << 62, 1], [0, 5, (1 << 64) - 1, 1], [1, 5, (1 << 64) - 1]], [[0, 33, 0], [0, 17, 1], [1, 33, 0], [1, 17, 1], [0, 9, 1 << 40, 1], [0, 9, 1 << 62, 1], [0, 9, (1 << 63) - 1, 1], [0, 9, (1 << 64) - 1, 1], [0, 3, 1 << 40], [1, 9, (1 << 64) - 1]],
    covers=["fault", "refused", "built", "last"], bound="every length up to 9 or 17 (thorough: 33), every limit up to 11 (thorough: 19) and 2^40, 2^62, 2^64-1, any values, both constructs, a failure at any backend call")
# ---- C21 (C18, C20, C23, C27): derived encoders
DER = "27 derived types: structs of 0 to 9 fields, tuple, unit, nested and generic structs, packed fields; enums of 1 to 10 unit, tuple and named variants, generic, nested, with packed fields; lists and optionals of them"
job("C21 C18", "h_le", [[200, 3, 9], [210, 3, 5], [220, 3, 5], [226, 3, 4]], [[200, 5, 9], [210, 5, 5], [220, 5, 5], [226, 4, 4]], covers=["done"], bound="every value, with lists of up to 3 (thorough: 5) elements, of " + DER)
job("C27", "h_le_inj", [[200, 2, 10], [211, 1], [212, 1, 3], [220, 2, 4], [225, 2], [226, 1], [227, 2], [228, 1], [229, 2, 1]], [[200, 3, 10], [211, 2], [212, 2, 3], [220, 4, 4], [225, 2], [226, 2], [227, 2], [228, 2], [229, 3, 1]], covers=["equal", "different"], bound="every pair of values with lists of up to 2 (thorough: 4) elements of " + DER)
job("C20", "h_le_hostile", [[200, 2, 0, 10], [211, 2, 0, 4], [220, 3, 0, 4], [225, 3, 0, 1], [227, 3, 0], [228, 2, 1], [229, 2, 0, 1]], [[200, 3, 0, 10], [212, 3, 0, 3], [211, 2, 0], [220, 3, 0, 4], [225, 3, 0, 1], [227, 4, 0], [228, 2, 1], [229, 3, 0, 1]], covers=["decoded", "rejected", "done"], bound="any root over any store holding a tree of depth <= 2 (enums: 3) with any 32-byte leaves, and nothing else; " + DER)
job("C21 C20 C18 C27", "h_le_tag", [[220, 2, 4], [225, 2], [226, 1], [227, 2]], [[220, 4, 4], [225, 2], [226, 2], [227, 2], [228, 2]], covers=["decoded", "other tag", "rejected"], bound="any 32-byte variant number above the encoding of any value of the derived enums")
job("C23 C20", "h_le_fault", [[200, 1, 10], [211, 1], [214, 1, 1], [220, 1, 4], [225, 1, 1], [227, 1], [228, 1, 2]], [[200, 2, 10], [211, 2], [212, 1, 4], [220, 3, 4], [225, 2, 1], [227, 1], [228, 2, 2]], covers=["no fault", "encode fault", "decode fault", "missing"], bound="any one backend call fails, or any one stored node is missing; values with lists of up to 1 (thorough: 2) elements of " + DER)
job("C06 C07 C08", "h_huge", [[0, 16, 1], [0, 31, 1], [0, 32, 1], [0, 33, 1], [0, 62, 1], [0, 63, 1], [1, 32, 1], [1, 62, 1], [1, 63, 1], [0, 3, 2]], [[t, k, 2] for t in (0, 1) for k in (4, 15, 31, 32, 33, 47, 61, 62, 63)], covers=["created", "full", "push", "pop", "set", "set past"], bound="mostly empty vectors and lists of lengths 2^k - 2 to 2^k + 2 for k in 16, 31, 32, 33, 62 and 63, unbounded and with capacities at and next to the length, one step (thorough: 2) with any values", weight=2)
# ---- C22, C23, C20: partial values
PART = "12 types: structs of 1 to 7 fields of every basic type, nested two and three deep, lists of integers, of structs and of lists, inside structs and alone"
job("C22", "h_partial", [[0, 0, 2, 2, 0], [1, 0, 2, 1, 0], [1, 0, 1, 2, 0], [2, 0, 2, 1, 0], [3, 0, 2, 1, 0], [4, 0, 2, 1, 0], [5, 3, 2, 1, 0], [5, 2, 1, 2, 0], [6, 1, 2, 1, 0], [7, 1, 2, 1, 0], [8, 3, 2, 2, 0], [8, 5, 2, 1, 0], [9, 2, 2, 1, 0], [10, 2, 2, 1, 0], [11, 0, 2, 2, 0]],
    [[0, 0, 3, 2, 0], [1, 0, 2, 2, 0], [2, 0, 3, 1, 0], [3, 0, 3, 1, 0], [4, 0, 2, 1, 0], [4, 0, 1, 2, 0], [5, 5, 2, 2, 0], [5, 3, 3, 1, 0], [6, 2, 2, 1, 0], [6, 1, 1, 2, 0], [7, 2, 2, 1, 0], [8, 9, 2, 2, 0], [8, 3, 3, 2, 0], [9, 4, 2, 1, 0], [9, 2, 1, 2, 0], [10, 2, 3, 1, 0], [11, 0, 3, 2, 0]],
    covers=["get", "set", "item", "push", "end"], bound="every value with lists up to 1 to 5 elements (thorough: 9), every sequence of 2 (thorough: 3) reads, writes and pushes before each of up to 2 flushes, any values; " + PART)
job("C22", "h_partial", [[11, 0, 2, 2, 3], [0, 0, 2, 1, 3], [5, 2, 2, 1, 3], [8, 3, 1, 2, 3]], [[11, 0, 3, 2, 3], [0, 0, 3, 1, 3], [5, 3, 2, 1, 3], [8, 3, 2, 2, 3], [9, 2, 2, 1, 3]], covers=["fetch", "get", "set", "end"], bound="the same with explicit re-reads of the stored value among the operations; a basic type, a struct, a list and a struct holding one")
job("C23", "h_partial", [[0, 0, 1, 1, 1], [1, 0, 2, 1, 1], [4, 0, 1, 1, 1], [5, 2, 2, 1, 1], [6, 1, 1, 1, 1], [7, 1, 1, 1, 1], [8, 3, 2, 1, 1], [9, 1, 1, 1, 1]], [[0, 0, 2, 2, 1], [3, 0, 2, 1, 1], [4, 0, 2, 1, 1], [5, 3, 2, 2, 1], [6, 2, 2, 1, 1], [7, 2, 2, 1, 1], [8, 5, 2, 2, 1], [9, 2, 2, 1, 1]], covers=["fault", "no fault"], bound="a failure at any one backend call of up to 2 reads, writes and pushes and the flush; " + PART)
job("C20 C23", "h_partial", [[0, 0, 1, 1, 2], [1, 0, 2, 1, 2], [4, 0, 1, 1, 2], [5, 2, 2, 1, 2], [6, 1, 1, 1, 2], [7, 1, 1, 1, 2], [8, 3, 2, 1, 2], [9, 1, 1, 1, 2]], [[3, 0, 2, 1, 2], [4, 0, 1, 1, 2], [5, 3, 2, 1, 2], [6, 1, 2, 1, 2], [7, 1, 2, 1, 2], [8, 5, 2, 1, 2], [9, 2, 2, 1, 2]], covers=["missing", "not needed"], bound="any one stored node is missing during up to 2 reads, writes and pushes and the flush; " + PART)
job("C22", "h_partial_past", [[3]], [[9]], covers=["inside", "past"], bound="every 64-bit item index, lists up to 3 (thorough: 9) elements")
job("C22 C20", "h_partial_hostile", [[0]], covers=["corrupted", "past", "pushed", "read", "written", "end"], bound="any 32-byte length node, stores of up to 4 nodes, 9 item indices up to 2^64-1 (9 low words of the length when pushing)", shards=(4, 4), shard_depth=3, weight=2)
job("C22", "h_partial_index", [[0], [1 << 40], [1 << 61], [1 << 62], [1 << 63], [(1 << 64) - 1]], covers=["past", "deep", "resolved"], bound="vector indices: every 64-bit index for lengths up to 17; lengths 2^40, 2^61, 2^62, 2^63 and 2^64-1 at 48 indices; nested two deep")
# ---- C25: wire codecs
job("C25", "h_codec_round", [[0, 9, 2], [1, 9, 2], [2, 9, 1], [3, 12, 2], [4, 9, 2], [5, 9, 1], [6, 9, 2], [7, 9, 2], [8, 9, 2], [9, 70, 2], [10, 5, 2], [11, 70, 3]], covers=["accepted", "refused"],
    bound="bounded lists of integers, bits and lists, byte and bit vectors: every length up to 2 or 3 past limits from 0 to 64 or 2^40, any values")
job("C25", "h_codec_hostile", [[0, 4], [1, 5], [2, 4], [3, 2], [4, 5], [5, 4], [6, 6], [7, 5]], [[0, 5], [1, 6], [2, 5], [3, 3], [4, 6], [5, 5], [6, 8], [7, 6]], covers=["accepted", "refused", "malformed", "done"],
    bound="every input of up to 4 to 6 bytes (thorough: 5 to 8; lists of byte strings: 2 and 3), 8 types", shards=(1, 4))
job("C25", "h_codec_proof", [[0, 2, 6], [1, 2, 6], [2, 2, 34]], [[0, 3, 8], [1, 3, 8], [2, 2, 40]], covers=["accepted", "malformed"],
    bound="every proof of depth <= 2 (thorough: 3), every input of up to 6 (34 for hashes; thorough: 8 and 40) bytes read as a proof", shards=(1, 4))
job("C25", "h_codec_value", [[0]], covers=["done"], bound="every backend value")
job("C25", "h_codec_serde", [[0, 5], [1, 7], [2, 3], [3, 2], [4, 5]], [[0, 8], [1, 9], [2, 5], [3, 3], [4, 8]], covers=["accepted", "refused"], bound="serde with a token format: bounded lists and vectors of every length up to 7 (thorough: 9), any values")
NOT_APPLICABLE = {}
