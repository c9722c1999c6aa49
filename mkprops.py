#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or [],hook_needed=hook)))

p("C01","Generalized-index navigation is consistent",
 "For every generalized index, the route from the root, the left/right/parent steps and the from_one/from_zero/from_depth constructors agree: walking the route from the root gives the index back, parent undoes left and right, the child selections are Left for left and Right for right, and at_depth returns exactly the d-th selection of the route and None at depth 0 or past its end. from_depth(i, d) is the i-th node (from the left) of level d; from_one(0) is refused and from_zero(n) is from_one(n+1).",
 ["inputs"],"every index value representable in 64 bits whose named neighbours are representable, every depth",
 "one unit test walks five hand-picked indices of depth at most five",
 ["src/index.rs"],[("route / at_depth / parent / left / right / from_*","src/index.rs")],observe=["Index","IndexRoute"])
p("C02","Descendant and sub-index relations follow the routes",
 "has_descendant(a, b) holds exactly when a's route is a strict prefix of b's route (so never for a itself), and a.sub(b) is the index whose route is a's route followed by b's route.",
 ["inputs"],"every pair of indices whose composition is representable",
 "one unit test checks two pairs; composition with sub is only reached by one partial-value test",
 ["src/index.rs"],[("has_descendant, sub","src/index.rs")],observe=["Index"])
p("C03","Writing a raw tree node changes that node and nothing beside it",
 "After a successful set(i, v) on a raw tree, get(i) returns v, every node whose index is neither an ancestor nor a descendant of i reads as before (positions that had nothing read as the default value, unless they lie under a digest whose children the write makes known), every ancestor's value is the hash of its two children, and the root is the hash path of the write. get of a position below a node that has no stored children returns None, and the order of writes to unrelated positions does not affect the root.",
 ["inputs","histories"],"every index up to the depth bound, every value, every order of a bounded number of writes, both empty-value constructs",
 "the tests write fixed positions in two fixed orders with distinct values",
 ["src/raw.rs","src/memory.rs"],[("Raw::set / Raw::get / Raw::subtree","src/raw.rs"),("intermediate_of","src/memory.rs")],observe=["Raw::get","Raw::root","Raw::subtree"])
p("C04","The store never loses a node a live tree still needs",
 "For any history of writes, drops and creations of owned trees sharing one in-memory store, every node reachable from the root of a tree that is still owned stays readable with its original children, including when trees share subtrees, when a node's two children are equal, and when a value written as a leaf is also the root of a stored subtree.",
 ["histories","inputs"],"every bounded interleaving of operations on several owned trees, every pattern of equal and different leaf values",
 "tests use a single tree with distinct values and check only entry counts",
 ["src/memory.rs","src/raw.rs"],[("reference counting: rootify/unrootify/insert/remove","src/memory.rs"),("rootify-before-unrootify in set","src/raw.rs")],
 state=[("map","value -> (children, reference count)","src/memory.rs")],observe=["ReadBackend::get","Raw::get","AsRef<Map>"])
p("C05","The store keeps exactly what live trees need (no leaks)",
 "After any history of operations on owned raw trees, vectors and packed vectors, the in-memory store holds only nodes reachable from the roots still owned (plus the default value), and its reference counts equal the number of parents and owners; after dropping all of them it is back to its initial content. The same holds for owned lists and packed lists.",
 ["histories","inputs"],"every bounded operation history, every pattern of equal and different leaf values",
 "tests compare entry counts after one or two fixed histories of raw trees; vectors and lists are never dropped",
 ["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs"],[("unrootify/remove","src/memory.rs"),("extend/shrink hand-over of owned roots","src/vector.rs"),("with_mut re-rooting","src/length.rs")],observe=["AsRef<Map> of InMemoryBackend"])
p("C06","Vector and List behave as a sequence under any history",
 "For any history of push, pop, set and get on a vector or list (bounded or unbounded capacity, inherited or unit empties), the results, the length and the readable contents are those of a plain sequence: push appends, pop removes and returns the last element or None when empty, set replaces one element and leaves the others, get returns the element last stored there.",
 ["histories","inputs"],"every operation history within the length bound, every value including equal values and the default value, every capacity",
 "tests push 0..100 in order, pop them all, with no capacity limit and no interleaving",
 ["src/vector.rs","src/list.rs","src/length.rs"],[("push/pop/set/get/extend/shrink","src/vector.rs"),("with/with_mut","src/length.rs"),("List wrappers","src/list.rs")],observe=["Vector","List"])
p("C07","Roots depend only on contents and equal from-scratch merkleization",
 "After any history, the root of a vector or list is a function of its current contents and capacity alone, and with the inherited-empty construct equals the root that merkleizing the same contents from scratch with the same capacity gives (with the length mixed in for lists).",
 ["histories","inputs"],"every operation history within the bounds, every capacity including non-powers of two, every value",
 "tests only compare roots of one growing list with the same list shrinking, without capacity; nothing compares bm's in-place roots with from-scratch merkleization",
 ["src/vector.rs","src/list.rs","src/length.rs","src/utils.rs"],[("extend/shrink/pop empty replacement","src/vector.rs"),("vector_tree","src/utils.rs"),("length mix-in","src/length.rs")],observe=["Tree::root","vector_tree"])
p("C08","Capacity and bounds are enforced without side effects",
 "Creating a sequence succeeds exactly when its initial length fits its non-zero, addressable (at most 2^63) capacity; get and set at or past the current length, and push when the capacity is reached, fail with AccessOverflowed, and the sequence's root, length and contents are then unchanged. This holds for Vector, List, PackedVector and PackedList, so the length never exceeds the capacity.",
 ["inputs","histories"],"every index in 64 bits, every length and capacity within the bounds",
 "no test creates a bounded sequence or accesses out of range",
 ["src/vector.rs","src/packed.rs","src/list.rs"],[("len checks in get/set/push/create","src/vector.rs"),("PackedVector get/set/push","src/packed.rs")],observe=["Error::AccessOverflowed","Error::InvalidParameter"])
p("C09","Packed sequences behave as sequences for any element size",
 "PackedVector and PackedList behave as a plain sequence under any history of push, pop, set and get, whatever the relation between element size and chunk size (smaller, equal, larger, dividing or not): elements that share a chunk never disturb each other.",
 ["histories","inputs","configurations"],"every operation history within the bounds, several element/chunk size pairs, every element value",
 "tests only use 64-byte elements over 32-byte chunks, pushed and popped in one sweep",
 ["src/packed.rs"],[("coverings, PackedVector::{get,set,push,pop}","src/packed.rs")],observe=["PackedVector","PackedList"])
p("C10","Packed roots are the merkleization of the zero-padded bytes",
 "After any history the root of a packed vector (or list, with length mixed in) equals the from-scratch merkleization of its elements' bytes laid out consecutively, padded with zero bytes to whole chunks and with empty chunks to the capacity; popped data never remains in the padding.",
 ["histories","inputs","configurations"],"every operation history within the bounds, several element/chunk size pairs",
 "no test looks at a packed root",
 ["src/packed.rs","src/vector.rs","src/utils.rs"],[("pop clean-up, host length","src/packed.rs"),("host_len/host_max_len","src/utils.rs")],observe=["Tree::root"])
p("C11","A detached tree can be re-attached with the same contents",
 "deconstruct followed by reconstruct, and metadata followed by from_leaked, give back a sequence with the same root, length and contents, on which further operations behave as on the original; into_raw followed by into_vector (or into_list), and subtree handles, denote the same tree. Reconstructing from a root whose length node is missing, or whose length exceeds the given maximum, fails with an error.",
 ["inputs","histories"],"every length and contents within the bounds, bounded and unbounded capacities, one further operation after re-attachment",
 "one test reconstructs one unbounded list of 100 and reads it",
 ["src/length.rs","src/list.rs","src/vector.rs","src/packed.rs","src/raw.rs"],[("reconstruct/deconstruct","src/length.rs"),("Leak impls","src/vector.rs, src/packed.rs, src/list.rs, src/raw.rs")],observe=["reconstruct","from_leaked","from_raw"])
p("C12","Recorded proofs are sufficient to replay the operations",
 "For any sequence of reads and writes run through the proving backend, a fresh in-memory store populated with the recorded proofs lets the same sequence run with the same results and the same final root, without any missing node, whether populated with the recorded entries or with their compact form expanded again (a value the sequence reads back from a part of the tree it has already discarded is not itself a node of the tree).",
 ["histories","inputs"],"every bounded sequence of operations, every pattern of equal values (so newly written nodes may coincide with existing ones)",
 "one test proves two reads of one list; writes are never replayed",
 ["src/proving.rs","src/memory.rs"],[("ProvingBackend::get/insert recording","src/proving.rs"),("InMemoryBackend::populate/insert","src/memory.rs")],observe=["ProvingBackend","InMemoryBackend::populate"])
p("C13","Recorded proofs contain only genuine pre-existing nodes that were read",
 "Every entry recorded by the proving backend maps a node that was present in the underlying store before it was first inserted by the recorded operations to that node's true children, and every node whose children were read successfully and that the recorded operations did not insert first is recorded; failed reads and inserted nodes add no entry.",
 ["histories","inputs"],"every bounded sequence of backend reads and inserts with arbitrary (possibly equal) keys",
 "one test counts the leaves of one proof",
 ["src/proving.rs"],[("ProvingState.proofs / inserts","src/proving.rs")],observe=["Proofs","ProvingState"])
p("C14","Compact proofs round-trip and keep the root",
 "Compacting a set of proofs under a root and expanding it again gives back that root and exactly the proof entries reachable from it; the compact form's root() is that root and its len() is the number of undecomposed values it carries.",
 ["inputs"],"every proof tree shape up to the depth bound, every value including repeated subtrees",
 "one test round-trips one proof of one list",
 ["src/proving.rs"],[("into_compact/from_compact/fold/root/len","src/proving.rs")],observe=["CompactValue","Proofs"])
p("C15","Single-branch proofs are assembled along the right path",
 "CompactValue::from_plain(leaf, siblings, index) yields a compact proof whose root is the hash of the leaf with the siblings (leaf-to-root order) along the index's route, exactly when there are as many siblings as route steps, and None otherwise; expanding it shows the leaf at that index.",
 ["inputs"],"every index and number of siblings up to the depth bound, every value",
 "no test calls it",
 ["src/proving.rs"],[("CompactValue::from_plain","src/proving.rs")],observe=["CompactValue"])
p("C16","A proof for a root cannot show anything but the committed values",
 "Under a collision-free hash, any compact proof whose root equals the root of a real tree (whatever values it carries), expanded and read back, only yields, wherever it yields a value at all, the value the real tree holds at that position: tampering with any part changes the root or leaves the position unreadable.",
 ["inputs"],"every compact proof shape up to the depth bound with arbitrary (adversarial) values, every position",
 "tests only use honest proofs",
 ["src/proving.rs","src/memory.rs","src/raw.rs"],[("from_compact recomputes every key by hashing","src/proving.rs"),("get follows stored children","src/raw.rs")],observe=["Proofs::from_compact","Raw::get"])
p("C17","Merkle roots of typed values are the SSZ roots",
 "For every supported type - booleans, unsigned integers, byte vectors, tuples, composite and compact vectors, lists, bitvectors and bitlists with or without maximum length, optional values - the tree root equals the SSZ hash-tree-root computed from the specification: little-endian padded chunks, packing, power-of-two zero-subtree padding to the type's limit, length or type mixed in on the right.",
 ["inputs","configurations"],"every value of representative instantiations of each type, lengths within the bounds, limits that are and are not powers of two",
 "the spec test checks some twenty literal vectors; most of the upstream vectors are left in a comment",
 ["le/src/basic.rs","le/src/fixed.rs","le/src/variable.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/utils.rs","src/utils.rs"],[("IntoTree impls","le/src"),("vector_tree","src/utils.rs"),("mix_in_length/mix_in_type","le/src/utils.rs")],observe=["IntoTree::into_tree","tree_root"])
p("C18","Decoding a tree gives back the value that was encoded",
 "For every type that can be both encoded into and decoded from a tree, from_tree(into_tree(x)) succeeds and equals x, for every valid value x.",
 ["inputs","configurations"],"every value of representative instantiations of each type, lengths within the bounds",
 "round-trips are tested on a few literals; H512, U256 vectors, VecArray, tuples, Option, Box and fixed arrays are never decoded",
 ["le/src/basic.rs","le/src/fixed.rs","le/src/variable.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/utils.rs"],[("FromTree impls","le/src"),("decode_with_length/decode_with_type","le/src/utils.rs")],observe=["FromTree::from_tree"])
p("C19","Results do not depend on which backend stores the tree",
 "Merkleizing a value gives the same root with the discarding backend (tree_root) as with a storing backend, and running any operations through the proving or the error-erasing backend gives the same results and leaves the same store as running them on the wrapped backend directly; reads on the discarding backend fail with NotSupported.",
 ["inputs","histories","configurations"],"every value of representative types, every bounded sequence of backend calls",
 "one container's tree_root is tested; the error-erasing backend is never used",
 ["src/memory.rs","src/traits.rs","src/proving.rs","le/src/lib.rs"],[("NoopBackend","src/memory.rs"),("DynBackend","src/traits.rs"),("ProvingBackend","src/proving.rs"),("tree_root","le/src/lib.rs")],observe=["tree_root","DynBackend","ProvingBackend"])
p("C20","Decoding hostile or incomplete trees fails cleanly",
 "Decoding a typed value from an arbitrary root and an arbitrary store never panics: it either returns an error or a value satisfying the type's constraints. In particular a list longer than its maximum length, an unknown variant or option tag, a length or tag beyond the machine word, a non-empty unit (the unit type, an absent option or a unit variant above anything but the default value), and missing nodes are all reported as errors.",
 ["inputs"],"every store content over trees up to the depth bound, every root",
 "no test decodes anything but a tree it has just encoded",
 ["le/src/basic.rs","le/src/utils.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/derive/src/lib.rs"],[("CorruptedDatabase checks","le/src/utils.rs, le/src/basic.rs, le/src/fixed.rs"),("from_list_tree","le/src/elemental_variable.rs")],observe=["FromTree::from_tree","Error::CorruptedDatabase"])
p("C21","Derived encoders produce SSZ containers and decode them back",
 "For structs, the derived root is the merkleization of the fields' roots in declaration order (compact fields in packed form); for enums it is the variant's fields merkleized and mixed with the variant number; and the derived decoder returns the original value, choosing the right variant.",
 ["inputs","programs"],"every field value of representative struct and enum definitions (named, tuple, unit, nested, generic, compact fields, 1 to 9 fields)",
 "two structs and one enum are encoded with literal values, and only one struct root is compared",
 ["le/derive/src/lib.rs"],[("into_tree_derive/from_tree_derive","le/derive/src/lib.rs")],observe=["#[derive(IntoTree, FromTree)]"])
p("C22","A partial update equals re-encoding the changed value",
 "Reading through a partial value returns the field stored in the full tree, and after setting any subset of fields (nested fields, list items, pushed items) and flushing, the raw root equals the root of the full value with those fields changed; untouched fields keep their value, and an item index outside the list is an error.",
 ["inputs","histories"],"every subset of fields, every field value, representative nested structures, lists within the length bound",
 "one test sets one nested field; lists of partial items are never used",
 ["le/src/partial.rs","le/derive/src/lib.rs"],[("PartialIndex::resolve, PartialValue, PartialVec","le/src/partial.rs"),("partialable_derive","le/derive/src/lib.rs")],observe=["PartialItem::flush","PartialValue::get"])
p("C23","Backend failures are reported, never swallowed",
 "If any call to the backend fails during an operation (raw, vector, list, packed, merkleization, decoding, proving, partial), that operation returns that very error as Error::Backend and does not panic, loop or report success; and an operation during which no backend call failed never returns a backend error.",
 ["fault_sequences","inputs"],"a failure at every possible backend call of every operation kind, within the size bounds",
 "no test backend ever fails",
 ["src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs","src/utils.rs","src/traits.rs","src/proving.rs","le/src"],[("? propagation and From<DBError>","src/traits.rs")],observe=["Error::Backend"])
p("C24","A failed write leaves the tree's root, length and contents as they were",
 "When a set, push or pop on a raw tree, vector, list or packed list returns an error - because the index is out of range, the capacity is reached, the store is incomplete, or the backend failed at some point - the handle's root and length are the same as before the call, so it still denotes the old contents.",
 ["fault_sequences","inputs","histories"],"a failure at every possible backend call, every operation kind, lengths within the bounds",
 "no test makes an operation fail",
 ["src/raw.rs","src/vector.rs","src/length.rs"],[("root assigned last in set","src/raw.rs"),("len assigned in push/pop","src/vector.rs"),("with_mut","src/length.rs")],observe=["Tree::root","Sequence::len"])
p("C25","Wire codecs round-trip and enforce the maximum length",
 "Encoding and decoding a compact proof, a value or a maximum-length vector with the binary codec (and a maximum-length vector with serde) gives back the same value; decoding arbitrary input never panics and never yields a vector longer than its declared maximum, while every vector within the maximum is accepted.",
 ["inputs"],"every value within the size bounds, every byte string up to the length bound",
 "no test uses a codec",
 ["le/src/variable.rs","src/proving.rs","le/src/lib.rs"],[("Encode/Decode/Serialize/Deserialize impls for MaxVec","le/src/variable.rs"),("derives on CompactValue and Value","src/proving.rs, le/src/lib.rs")],observe=["parity_codec::{Encode,Decode}","serde::{Serialize,Deserialize}"])
p("C26","Depth and packing arithmetic is exact",
 "required_depth(n) is the least d with 2^d >= n, for every n; host_len and host_max_len are the number of whole chunks needed to hold that many elements, for every count whose byte size is representable; and from-scratch merkleization reads back: position i of the produced tree of that depth is the i-th value, or the empty value past the end.",
 ["inputs","configurations"],"every 64-bit count, several element/chunk size pairs; trees within the size bound",
 "no test calls these functions directly",
 ["src/utils.rs"],[("required_depth, host_max_len, host_len, vector_tree","src/utils.rs")],observe=["bm::utils"])
p("C27","Different contents never share a root",
 "Under a collision-free hash, two values of the same list, vector, bitlist, option, struct or enum type have equal roots only if they are equal (for every value accepted for encoding), so the root commits to the whole content including its length.",
 ["inputs"],"every pair of values of representative types, lengths within the bounds (including lengths at and just past the declared maximum)",
 "tests never compare roots of two different values",
 ["src/utils.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/utils.rs"],[("vector_tree","src/utils.rs"),("mix_in_length/mix_in_type","le/src/utils.rs")],observe=["IntoTree::into_tree"])
p("C28","Empty subtrees are the trees of default values",
 "With the inherited-empty construct, the empty value of height h is the root of the full tree of 2^h default values and its nodes are readable from the store, so every not-yet-written position of a bounded sequence reads as the default value; with the unit-empty construct the empty value is the default value at every height. Creating a sequence of given length and capacity yields exactly the all-default sequence.",
 ["inputs","configurations"],"every height up to the bound, every position, both constructs",
 "no test reads an unwritten position of a bounded tree",
 ["src/memory.rs","src/vector.rs"],[("empty_at","src/memory.rs"),("create","src/vector.rs")],observe=["Construct::empty_at","Vector::create"])
with open(__file__.replace("mkprops.py","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
