"""Hand-written notes per property for DESIGN.md: (method and oracle, quick cost)."""
NOTES = {
"C01": ("every index is a symbolic 64-bit word; route, at_depth, parent, left, right and the constructors are run on it and compared with shifts and bit tests on the word", "25 s"),
"C02": ("both indices symbolic; the routes are compared selection by selection with a prefix test, `sub` with concatenation", "25 s"),
"C03": ("a sequence of writes at chosen positions with symbolic values that may equal each other, the default, or a digest of the tree; oracle: a recursive partial tree, read back at every position, and the root recomputed", "30 s"),
"C04": ("histories over several owned trees in one in-memory store, values chosen among fresh, repeated, default and roots of stored subtrees; after every step every owned tree is walked and compared with the contents it was given", "80 s"),
"C05": ("the same histories; after every step the store's map is compared with the set of nodes and the reference counts computed from the owned roots, and with the initial store once all are dropped", "100 s"),
"C06": ("every history of push/pop/set/get of the bound's length; results, length and all contents compared with a plain `Vec`; near-2^k lengths on mostly empty trees with the values written as the model", "25 s"),
"C07": ("after every history the root is compared with a recursive merkleization of the model at the capacity's depth (inherited), and with the root of another history to the same contents (both constructs)", "25 s"),
"C08": ("index, length and capacity symbolic or chosen around the limits; error expected exactly when the model says so, and root, length and contents compared afterwards", "25 s"),
"C09": ("packed histories for 20 element/chunk size pairs against a plain `Vec` of byte strings", "20 s"),
"C10": ("packed roots against the merkleization of the concatenated, zero-padded bytes", "20 s"),
"C11": ("after any history, detach (deconstruct, metadata, into_raw, subtree) and re-attach, then one more operation on it and on the model; symbolic length nodes for reconstruct", "25 s"),
"C12": ("operations run on a recording backend, then again on a fresh store populated with the recorded proofs (directly, and from the compact form expanded): results and final root must be equal and no node missing", "55 s"),
"C13": ("arbitrary sequences of get/insert/rootify/unrootify with chosen, possibly equal, keys and one failing call, against a set-based model of what must and must not be recorded; also over real tree operations", "55 s"),
"C14": ("every shape of compact proof with values that may coincide; expanded, compacted again and compared; root() and len() against recursive definitions", "55 s"),
"C15": ("symbolic index of bounded depth (and deep indices with a symbolic window), sibling lists of every nearby length, symbolic values; oracle: iterated hashing", "25 s"),
"C16": ("every compact proof shape with arbitrary values whose root is *assumed* equal to a real tree's root (the solver finds the values); every position read in both", "20 s"),
"C17": ("symbolic values of 85 types; oracle: SSZ hash-tree-root written from the specification on bytes", "40 s"),
"C18": ("the same values encoded into a store, decoded, compared", "75 s"),
"C19": ("the same computation on the discarding, storing, recording and error-erasing backends: roots, results and final stores compared", "60 s"),
"C20": ("decoders run on stores whose tree has arbitrary symbolic leaves and shapes, on any 32-byte length/tag, and on stores lacking any one node: no panic, and error or a value within its type's limits", "115 s"),
"C21": ("27 derived types with symbolic fields; oracle: SSZ container and union roots written out by field; decode returns the value; any variant number", "30 s"),
"C22": ("partial handles over 12 types: sequences of reads, writes and pushes before each flush, several flushes; oracle: the full value edited and encoded", "50 s"),
"C23": ("a backend that fails at one chosen call (every call position is a path) with a distinguishable error; the operation must return that error, and never one when none was raised", "70 s"),
"C24": ("the same failures, plus out-of-range and full; root, length and readable contents of the handle compared with before", "25 s"),
"C25": ("symbolic bounded vectors, proofs and values through parity-codec and a serde token format; symbolic byte strings through the decoders", "30 s"),
"C26": ("the count is one symbolic 64-bit word: the result is compared with the defining inequality in 128-bit arithmetic; trees against a recursive oracle", "160 s"),
"C27": ("two independent symbolic values of a type; equal roots assumed, equality of the values asserted (through injectivity of the digest)", "70 s"),
"C28": ("heights up to the bound, symbolic lengths and capacities near powers of two; every node of the empty tree read back", "30 s"),
}
CATCHES = {
 "C01-high-parent": "C01",
 "C01-narrow-shift": "C01",
 "C02-deep-descendant": "C02",
 "C02-reflexive": "C02",
 "C02-shallow-sub": "C02",
 "C03-leaf-copies": "C03",
 "C04-drop-dangling": "C04",
 "C05-list-create": "C05",
 "C06-pop-two": "C06",
 "C07-create-empty": "C07",
 "C08-set-capacity": "C08",
 "C09-crossing-set": "C09",
 "C11-packed-metadata": "C11",
 "C12-children-known": "C12",
 "C12-equal-children": "C12",
 "C13-absent-read": "C13",
 "C13-release-forgets": "C13",
 "C13-state-restore": "C13",
 "C14-equal-children": "C14",
 "C14-len": "C14",
 "C15-extra-siblings": "C15",
 "C15-missing-siblings": "C15",
 "C15-root-proof": "C15",
 "C16-half-empty": "C16",
 "C17-ref-limit": "C17",
 "C17-zero-right": "C17",
 "C18-nine-tuple": "C18",
 "C18-u256-order": "C18",
 "C19-erased-release": "C19",
 "C19-proving-release": "C19",
 "C20-huge-length": "C20",
 "C20-missing-leaf": "C20",
 "C20-optional-tag": "C20",
 "C20-type-width": "C20",
 "C20-unit-payload": "C20",
 "C21-compact-variant": "C21",
 "C21-empty-variant-tag": "C21",
 "C22-raw-parent": "C22",
 "C22-skip-default": "C22",
 "C22-stale-cache": "C22",
 "C22-struct-width": "C22",
 "C23-deconstruct": "C23",
 "C23-erased-get": "C23",
 "C23-merkleize-swallow": "C23",
 "C23-proving-swallow": "C23",
 "C23-reconstruct-swallow": "C23",
 "C24-root-before-retain": "C24",
 "C24-vector-len": "C24",
 "C25-full-vector": "C25",
 "C25-serde-zero": "C25",
 "C25-truncating": "C25",
 "C26-round": "C26",
 "C27-none-zero": "C27",
 "C28-deep-empty": "C28",
 "C28-top-only": "C28",
}
