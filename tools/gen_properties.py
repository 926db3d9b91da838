#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": obs or [], "hook_needed": hook}})

T="jmt/src/tree.rs"; TC="jmt/src/tree_cache.rs"; IT="jmt/src/iterator.rs"; RS="jmt/src/restore.rs"; NT="jmt/src/node_type.rs"
PD="jmt/src/types/proof/definition.rs"; MK="jmt/src/mock.rs"; DB="jmt/src/db.rs"; IC="jmt/src/tree/ics23_impl.rs"; TR="jmt/src/trie.rs"; WR="jmt/src/writer.rs"; RD="jmt/src/reader.rs"; LB="jmt/src/lib.rs"
IN="pmt/src/inner.rs"; NB="pmt/src/nibbles.rs"; PN="pmt/src/node.rs"; PI="pmt/src/trie_iterator.rs"; PDB="pmt/src/db.rs"; SH="serde_hash/src/lib.rs"

p("C01","Versioned tree is a correct versioned map",
  "After any history of committed versions (contiguous, each a set of insertions, overwrites and deletions, possibly empty), a read of any key at any committed version through every read API (plain read, read with proof, membership test) returns exactly the value last written at or before that version, or absence if it was deleted or never written. No write to a later version changes what an earlier version reads, and a read at a version with no root reports a missing-root error from the proof-carrying read.",
  ["histories","inputs"],"every contiguous history of write sets over 256-bit key hashes with any shared-prefix structure, any values including empty ones, any starting version, and every (key, version) read afterwards",
  "Tests use a few dozen mostly random keys with insert-only or insert-then-delete schedules; node splits, collapses and re-insertions at adversarial shared prefixes, and re-reads of every earlier version, are unsampled.",
  [T,TC,NT,MK,TR,RD],[("put/insert_at/insert_at_internal_node/insert_at_leaf_node",T),("TreeCache read-through and freeze",TC),("get_with_proof",T),("VersionedTrie::get/contains",TR)],
  [("node store","nodes by (version, nibble path)",MK),("value history","values by (key hash, version)",MK)],
  ["JellyfishMerkleTree::put_value_set(s)","get_with_proof","VersionedTrie::get/contains"])
p("C02","Tree root is the sparse Merkle root of its contents only",
  "The root hash reported for a version equals the root of the documented 256-bit sparse Merkle tree (domain-separated leaf and internal hashes, single-leaf subtrees collapsed to the leaf, placeholder for empty subtrees) computed independently from the key-value contents of that version. It therefore depends only on contents, never on insertion order, batching, deletions, or history, and the root returned by the write call equals the root read back from storage.",
  ["histories","inputs"],"every history and every pair of histories reaching the same contents; all key sets including shared prefixes up to 255 bits",
  "Existing tests compare against roots of a handful of hand-built trees and stored vectors of random keys; they do not quantify over histories nor over deep shared-prefix key sets with deletions.",
  [T,NT,TC,"jmt/src/types/proof.rs"],[("InternalNode::merkle_hash","jmt/src/node_type.rs"),("leaf/internal hash with domain separation","jmt/src/types/proof.rs"),("collapse on delete in insert_at_internal_node",T)],
  None,["put_value_set(s) returned RootHash","get_root_hash","get_root_hash_option"])
p("C03","Every read comes with a proof that verifies",
  "For every committed version and every key, present or absent, the proof returned with the read verifies against that version's root hash for exactly the returned value (inclusion) or for absence (non-inclusion), including in the empty tree, through every proof-returning and proof-verifying API; the root hash computed from a proof with a leaf is that root. Proofs of older versions keep verifying after later versions are committed.",
  ["histories","inputs"],"every history, version, and present or absent key (absent keys sharing arbitrarily long prefixes with present ones)",
  "Tests verify proofs for the inserted keys and a few random absent ones; absent keys diverging inside a node, just before a leaf, or at collapsed subtrees are rarely hit.",
  [T,NT,PD,TR],[("get_with_proof sibling collection",T),("InternalNode::get_child_with_siblings",NT),("SparseMerkleProof::verify",PD)],None,
  ["get_with_proof","VersionedTrie::get_proof/verify_proof","SparseMerkleProof::verify*"])
p("C04","Membership proofs cannot prove a false statement",
  "No proof object, however obtained or altered (bits flipped, siblings dropped, added, reordered or spliced, leaf swapped, taken from another key or version, or fully attacker-made), verifies against a tree's root a value a key does not have, a value for an absent key, or the absence of a present key. Verification of any decodable proof returns success or an error and never panics.",
  ["inputs"],"every decodable proof, every claim (key, value-or-absence) and every tree root",
  "One or two tests tamper with a proof in one fixed way; soundness is a statement over all proof objects and claims.",
  [PD,"jmt/src/types/proof.rs"],[("SparseMerkleProof::verify length, key, prefix and root checks",PD),("domain separated hashing","jmt/src/types/proof.rs")],None,
  ["SparseMerkleProof::verify/verify_existence/verify_nonexistence"])
p("C05","Exclusion proofs exhibit the true neighbours of an absent key",
  "For any absent key in any non-empty version of any multi-version history, the exclusion read succeeds and yields membership proofs of exactly the greatest present key below and the least present key above it (only one at the extremes), both verifying against that version's root. For a present key it yields the value with a valid inclusion proof.",
  ["histories","inputs"],"every history of several versions, every version, every absent or present key",
  "Tests build single-version trees of random keys; neighbours whose nodes were written at different versions are not exercised.",
  [T],[("get_bounding_path / search_for_closest_node / search_closest_extreme_node / get_extreme_key_hash",T)],None,
  ["get_with_exclusion_proof"],"the returned exclusion-proof type is not nameable outside the crate: guarded re-export")
p("C06","ICS23 commitment proofs agree with the tree",
  "For every version and every non-empty key, the ICS23 proof returned with a read verifies under the published proof spec with an independent ICS23 verifier against that version's root: as membership of exactly the stored value when present, as non-membership when absent from a non-empty tree. The same proof does not verify for any other key, value or root.",
  ["histories","inputs"],"every history of non-empty keys and values, every version, every present or absent key; single-bit and structural mutations of the proof",
  "Existing tests check random trees at the latest version with a single write; multi-version trees and altered claims are not quantified over.",
  [IC,T],[("sparse_merkle_proof_to_ics23_existence_proof",IC),("exclusion_proof_to_ics23_nonexistence_proof",IC),("ics23_spec",IC)],None,
  ["get_with_ics23_proof","ics23_spec"])
p("C07","Iteration yields exactly the contents, in order, from any start",
  "Iterating a version from any starting key, present or not, yields exactly the key-value pairs of that version with key at or after the start, each once, in strictly increasing key order, and then ends; iterating from index i yields exactly the contents from the i-th pair on, and nothing when i is past the end. Exhausted iterators stay exhausted.",
  ["histories","inputs"],"every history, version, starting key (including all-zero, all-one, neighbours of present keys) and index",
  "Tests iterate small trees from keys they inserted; starts between keys at every depth and after deletions are unsampled.",
  [IT,TR],[("JellyfishMerkleIterator::new / new_by_index / next / cleanup_stack / skip_leaves",IT)],None,
  ["JellyfishMerkleIterator::new","new_by_index","VersionedTrie::iter"])
p("C08","Range proofs accept exactly the true prefix of the tree",
  "For every version and present key, the range proof, together with the left-hand siblings implied by all smaller contents, verifies against the root; requesting one for an absent key is an error. Any altered leaf, sibling (changed, dropped, added, reordered) or root is rejected with an error, and verification never panics whatever the number of siblings.",
  ["inputs","histories"],"every tree, rightmost key, and every mutation of proof, leaf, left siblings and root",
  "Range proofs are only exercised indirectly through restore of small random trees with untampered data.",
  [T,PD],[("get_range_proof",T),("SparseMerkleRangeProof::verify",PD)],None,["get_range_proof","SparseMerkleRangeProof::verify"])
p("C09","Restore from any chunking rebuilds the source tree",
  "Feeding the sorted contents of any non-empty version in any partition into chunks with the source's range proofs, in a fresh or overwriting restore, possibly with the restore object discarded and recreated on the same storage between chunks and resumed after the last stored key, succeeds and yields a tree with the same root hash, contents, leaf count, iteration and proofs as the source. The restored tree accepts further versions like the original.",
  ["histories","inputs","crash_points"],"every source tree, every partition into chunks, every set of interruption points between chunks",
  "Tests use one or two chunk boundaries on random keys; chunk boundaries inside deep shared prefixes and multiple interruptions are not covered.",
  [RS,T],[("JellyfishMerkleRestore::add_chunk_impl/add_one/insert_at_leaf/freeze",RS),("recover_partial_nodes",RS),("finish_impl",RS)],
  [("partial nodes","right spine not yet frozen",RS)],["StateSnapshotReceiver::add_chunk/finish","restored tree reads"])
p("C10","Restore rejects any altered chunk and writes nothing for it",
  "A chunk that differs from the true next slice of the source tree (value changed, key changed, pair dropped, inserted, swapped, out of order, or proof altered or taken from elsewhere) is rejected with an error, never a panic, and leaves storage exactly as it was. Restoring afresh on that storage with correct chunks still succeeds.",
  ["inputs","fault_sequences"],"every source tree, prefix of accepted chunks, and alteration of the next chunk or its proof",
  "One test overwrites with a single corrupted value; acceptance of wrong data is a statement over all alterations at all positions.",
  [RS,PD],[("verify before write in add_chunk_impl",RS),("compute_left_sibling and range verification",RS)],None,["add_chunk result","storage contents"])
p("C11","Storage failure or crash at any write leaves a recoverable state",
  "If the storage fails, or the process stops, at any atomic write of a commit sequence or of a restore, every previously committed version stays fully readable and correct, the error is reported, and retrying or resuming from what is stored reaches the same final roots and contents as the uninterrupted run. A read which fails as a restore is opened is reported. Opening a restore over an already completed one reports an error instead of crashing.",
  ["crash_points","fault_sequences"],"every history and chunking, with a failure or stop at each individual storage write",
  "No existing test injects a storage failure or enumerates the stop points.",
  [RS,T,WR,DB],[("batch returned and committed atomically by the caller","jmt/src/writer.rs"),("frozen nodes retained until written",RS),("recover_partial_nodes",RS)],None,["errors from add_chunk/finish/update","reads after recovery"])
p("C12","Pruning keeps every retained version intact and collects garbage",
  "After purging stale nodes with any least readable version v up to the latest, every version at or above v reads, proves, iterates and hashes exactly as before, repeatedly and in any interleaving with further writes. Every non-root node that no version at or above v references is gone, and every node recorded as stale exists, is recorded once, and is unreachable from the version it became stale at.",
  ["histories"],"every history interleaving commits and purges at any version",
  "Tests prune fixed small histories; the staleness bookkeeping must be right for every split, collapse, overwrite and no-op at every version.",
  [T,TC,MK,WR],[("TreeCache::delete_node stale index",TC),("purge_stale_nodes",MK)],[("stale index","(stale since version, node key)",MK)],["purge_stale_nodes","reads after purge","TreeUpdateBatch.stale_node_index_batch"])
p("C13","All ways of batching the same writes are equivalent",
  "Applying several versions in one call, one version per call, insert-only through the batch insertion API, or in any grouping of these, with or without supplied node hashes, gives the same root hash per version, the same readable contents and proofs at every version, and the same reachable nodes by position and hash. Order of distinct keys within one write set does not matter and the last of repeated writes to a key in a set wins.",
  ["histories"],"every history and every grouping of its versions into calls",
  "Equivalence is tested for a few random insert batches; groupings with deletions, no-op sets and repeated keys are not.",
  [T,TC],[("put_value_sets vs batch_put_value_sets",T),("FrozenTreeCache",TC)],None,["RootHash vectors","TreeUpdateBatch","reads"])
p("C14","Counts and latest version reported match the contents",
  "At every version the tree's leaf count equals the number of keys present at that version; the store-wide length equals the number of keys whose newest value is present, emptiness is length zero, and the reported version is the newest version that wrote any value. With leaf counting disabled the count is reported as unavailable, not as a wrong number, also where versions were written with it on and others with it off, and over nodes stored without counts.",
  ["histories"],"every history with insertions, overwrites, deletions and re-insertions, with leaf counting on or off",
  "Tests check counts for insert-only random trees.",
  [T,NT,DB,TR],[("leaf_count propagation in InternalNode/Child",NT),("VersionedDatabase::len/version/is_empty",DB)],None,["get_leaf_count","VersionedTrie::len/is_empty/version"])
p("C15","Update batches are accurate and never overwrite committed nodes",
  "The batch returned for a write never contains a node or value under an identifier that committed storage already holds, contains everything the new versions need beyond what is stored, and computing it does not modify storage. Its statistics equal the actual numbers of new nodes, new leaves, stale nodes and stale leaves in the batch, per version.",
  ["histories"],"every history and grouping",
  "Statistics are compared in a few tests for fixed counts; immutability of committed nodes over arbitrary histories is only indirectly asserted by the mock store.",
  [TC,T,WR],[("TreeCache put/delete/freeze accounting",TC)],None,["TreeUpdateBatch.node_batch/node_stats"])
p("C16","Stored and transmitted forms round-trip losslessly",
  "Every node, node key, proof, range proof, key/value/root hash, node batch, stale index and update batch produced by the tree decodes from each of its supported encodings (borsh, and serde formats where supported) to an equal object with the same hash and behaviour, and distinct objects have distinct encodings. Decoding arbitrary or truncated bytes returns an error or a value, never a crash.",
  ["inputs"],"every object reachable through histories and every byte string given to the decoders",
  "Round-trips are tested for a few generated node kinds in one format; arbitrary bytes are not.",
  [NT,"jmt/src/types/nibble/nibble_path.rs",PD,WR,LB,SH],[("derive and hand-written serializers",NT)],None,["borsh/serde encode and decode"])
p("C17","Readers of a version are unaffected by concurrent commits and purges",
  "While any read, proof, iteration or write computation at a version is in progress, committing later versions or purging below that version at any point between its storage accesses does not change its result. A write computed against a parent version gives the same batch whether or not later versions are already stored or get committed meanwhile.",
  ["schedules","histories"],"every operation at every version and every placement of commits and purges between its storage accesses",
  "All existing tests are single threaded with no interleaving inside an operation.",
  [T,IT,MK],[("immutable versioned node keys",NT),("child version recorded in parent",NT)],None,["results of reads under interleaved store changes"])
p("C18","Storage read failures surface as errors, never as wrong answers",
  "If any single storage read during a read, proof, iteration, exclusion, range or write operation fails, or a needed node is missing (other than the parent root of a write, whose absence is the empty tree by design), the operation reports an error; it never panics and never returns a wrong value, a proof of something false, a truncated iteration presented as complete, or a wrong new root, and it reports a missing root only when it is the root which could not be read. After the fault clears, the same operation gives the correct result.",
  ["fault_sequences","histories"],"every history, operation and position of the failing or missing read",
  "No existing test fails a storage read.",
  [T,IT,TC,RD],[("error propagation from TreeReader",T)],None,["operation results under injected read errors"])
p("C19","Patricia trie behaves as a map across commits and reopens",
  "Over any history of inserts, overwrites, removals, commits, proof requests (before a commit, too) and reopenings at the current root, lookup and membership return exactly what a key-value map holding the same operations returns, for all byte-string keys including the empty key and keys that are prefixes of one another. Removal reports whether the key was present, inserting an empty value is refused without effect, and this holds on retaining and on pruning storage, and on retaining storage for several tries sharing it.",
  ["histories","inputs"],"every operation history over prefix-related and arbitrary keys, values of every length around the inlining threshold, both storage modes",
  "Tests use a few fixed keys or random fixed-length keys with insert-then-remove schedules; prefix-related keys, branch values, and remove/commit/reopen interleavings are sparse.",
  [IN,NB,PN,PDB],[("insert_at/delete_at/degenerate",IN),("commit/recover_from_db",IN)],[("cache, passing and generated keys","pending writes and deletions",IN)],["Trie::get/contains/insert/remove/commit"])
p("C20","Patricia root is the canonical Ethereum trie root of the contents",
  "After every commit the root hash equals the Ethereum Yellow Paper Merkle-Patricia root (hex-prefix, RLP, Keccak-256) computed independently from the current contents, with the well-known constant for the empty trie. It depends only on the contents, not on the order or history of operations, commits or reopenings.",
  ["histories","inputs"],"every history and every pair of histories with equal final contents",
  "Tests compare two fixed root vectors and one shuffle; histories that leave single-child branches or branch values are not quantified over.",
  [IN,NB,PN],[("encode_raw/write_node",IN),("degenerate canonicalisation",IN),("hex-prefix encoding",NB)],None,["commit/root_hash"])
p("C21","Patricia proofs of committed tries verify for every key",
  "For any committed non-empty trie and any key, present or absent, the returned proof verifies against the committed root on any verifier and yields exactly the stored value or absence. Requesting proofs does not change the trie's contents or root.",
  ["histories","inputs"],"every history, key (present, absent, prefix of, extension of present keys), before or after reopening",
  "One test samples random keys; inlined nodes and prefix-related absent keys are rare there.",
  [IN],[("get_path_at/get_proof",IN),("verify_proof",IN)],None,["Trie::get_proof/verify_proof"])
p("C22","Patricia proof verification is sound and total",
  "Verification against a trie's root never yields a value (or absence) different from the trie's contents for that key, for any list of byte strings as proof: mutated, truncated, reordered, mixed from other keys or roots, or arbitrary bytes. It always returns a result or an error and never panics, including on malformed node encodings, and reading storage holding malformed nodes gives an error rather than a crash.",
  ["inputs"],"every proof as a list of byte strings, every key and root; every malformed stored node",
  "Existing tests tamper by removing or mutating one proof element; malformed encodings are not tested.",
  [IN,NB],[("verify_proof into fresh store keyed by hash",IN),("decode_node",IN),("from_compact",NB)],None,["Trie::verify_proof","Trie::get on damaged storage"])
p("C23","Historical roots stay readable; pruning never loses live data",
  "On retaining storage every root ever committed can be reopened at any later time and reads and iterates exactly the contents it was committed with. On pruning storage the current root is always completely readable after every commit, whatever was inserted, removed, re-created or proved before, including after operations that changed nothing; and it holds no other nodes than those of the current trie and former root nodes.",
  ["histories"],"every history of operations, commits, no-ops and reopenings on both storage modes",
  "One test checks a purge on a fixed history; which nodes may be deleted is a statement over all histories.",
  [IN,PDB],[("passing_keys / gen_keys difference in commit",IN),("MemoryDB light mode",PDB)],[("passing_keys","nodes replaced since last commit",IN),("gen_keys","nodes written in this commit",IN)],["at_root + get/iter","MemoryDB contents"])
p("C24","Patricia iteration lists exactly the contents in key order",
  "Both the borrowing and the owning iterator yield every key-value pair of the trie exactly once, in ascending lexicographic order of keys, with keys reconstructed exactly, and then end, for committed, uncommitted and reopened tries and any key set including the empty key and prefix-related keys. The value listing helper agrees.",
  ["histories","inputs"],"every history and key set",
  "Tests iterate a few fixed ASCII keys.",
  [PI,NB,IN],[("TrieIterator/OwnedTrieIterator state machine",PI)],None,["TrieIterator","OwnedTrieIterator","InnerTrie::values"])
p("C25","Failed Patricia operations report an error and change nothing",
  "If storage fails or a node is missing during a lookup, insert, removal, proof or commit, the operation returns an error identifying it and never panics or reports a wrong result, and the trie's contents and the storage's committed data are unaffected; iteration, which has no way to report an error, still ends and yields nothing but true pairs in order: after the fault clears, the trie behaves and commits as if the failed operation had not been attempted (or, for a failed commit, as if it is retried).",
  ["fault_sequences","histories"],"every history with a storage fault or missing node at each storage access",
  "Two tests check the error value for one missing node; atomicity of failed operations over histories is untested.",
  [IN,"pmt/src/error.rs"],[("error propagation, clone-then-swap of the root",IN)],None,["operation results under injected database faults"])
p("C26","A serialized Patricia trie round-trips",
  "Serializing any trie with in-memory contents (and its display form) and deserializing it gives a trie with the same root, the same contents under lookup and iteration, and the same root hash after commit, for all keys and values, in every format as far as its reader accepts the nesting of the data. Decoding arbitrary or truncated input gives an error or a trie, never a crash.",
  ["inputs","histories"],"every trie built by an operation history, serialized at any point before commit; arbitrary input text",
  "One test serializes a trie with a couple of fixed keys.",
  [IN,PN,NB,SH],[("serde impls for Nibbles, nodes and InnerTrie",PN)],None,["serde_json to/from InnerTrie"])
p("C27","Bundled in-memory stores honour their storage contracts",
  "Under any sequence of operations, and concurrent use from several threads, the bundled node database and versioned tree store behave as their interface documents: reads return the last write, versioned reads return the newest value at or below the requested version, value versions may not go backwards, batches apply completely, size, emptiness and listings describe the stored data, and no read or size query fails or comes back short because another thread is writing.",
  ["histories","schedules"],"every operation sequence; concurrent readers and writers",
  "Tests make one insert and one get; out-of-order versions, batches, listings and concurrency are untested.",
  [PDB,MK,DB],[("RwLock protected maps",PDB),("put_value ordering",MK)],None,["Database, VersionedDatabase, TreeReader, TreeWriter methods"])
p("C28","Key, value and node hashing primitives compute the declared digests",
  "Key and value hashes are exactly the digest of the supplied bytes under the chosen hash function, incremental hashing equals one-shot hashing, the trie hash is Keccak-256 for every input length, and hash values survive their text and serialized forms unchanged. Key preimages registered with a store are returned for exactly their key hash.",
  ["inputs"],"every byte string, chunking and supported hash function",
  "Only a fixed vector or two is compared.",
  [LB,SH,MK],[("SimpleHasher blanket impl",LB),("keccak",SH),("put_key_preimage",MK)],None,["KeyHash::with","ValueHash::with","keccak","H256 text forms"])
p("C29","Stored inner nodes describe their children exactly",
  "Every inner node which a version of the tree stores lists exactly the children its contents require, each with the hash, version, kind (leaf or inner) and number of leaves of the node stored there; its own hash and leaf count follow from them, and no inner node stands above fewer than two keys. For every nibble, whatever combination of children a node has, the queries it answers agree with the 16-way binary tree it stands for: the child itself, the listings in order, the existence and leaf bitmaps, the child a lookup goes on to (with and without siblings the same: the sole leaf of a half stands for the half), and the siblings lead back to the node's hash.",
  ["histories","inputs"],"every history, every stored inner node at any depth, every combination of absent, leaf and inner children, every nibble asked for",
  "Tests ask a few hand-made nodes and nodes of random children; which children a node has after deletions, collapses and batches, over all depths, and the agreement of all queries on them is not sampled.",
  [NT,T],[("InternalNode: hash/merkle_hash, generate_bitmaps, get_child_with(out)_siblings, child listings",NT),("Children",NT),("inner nodes written by insert_at_internal_node / insert_at_leaf_node / batch_insert_at",T)],
  [("children","hash, version and type of up to 16 children",NT),("leaf_count","leaves below the node",NT)],
  ["InternalNode::children_sorted/children_unsorted/child/hash/leaf_count/generate_bitmaps/get_child_with_siblings/get_child_without_siblings","TreeReader::get_node"])
p("C30","Operations need only the nodes on the paths they concern",
  "What a read, proof, exclusion proof, range proof, iteration, count or write gives depends only on the nodes on the paths of the keys it concerns: on a storage which holds nothing else it succeeds with the same result. A read or proof needs the path of its key (and of the leaf or neighbours it shows), an iteration nothing that lies wholly before its start, a count or root hash only the root, an insertion the paths of its keys, and a deletion those and the nodes right below them. The same holds of the Patricia trie for lookups, membership tests, proofs, insertions and removals (which may look two nodes below their paths), and what is committed there, with the nodes that were left out, is the whole new trie.",
  ["histories","inputs"],"every history, version or root, operation and set of keys; every storage which lacks exactly the nodes off their paths",
  "Tests always run on the whole tree, where an access to a node which is not needed changes nothing that they look at.",
  [T,IT,IN],[("get_with_proof / search_for_closest_node / search_closest_extreme_node",T),("insert_at_internal_node / batch_insert_at",T),("new / new_by_index",IT),("get_at / insert_at / delete_at / degenerate / get_path_at",IN)],None,
  ["results of operations on a TreeReader or Database which lacks the other nodes"])
p("C31","Patricia tries sharing a storage do not disturb each other",
  "On a storage that keeps replaced nodes, any number of Patricia tries (clones, tries opened at committed roots, new ones) may work at the same time. Whatever other tries on the storage read, change and commit between two storage accesses of an operation, or in other threads, the operation gives what it gives alone: its values, proofs, iterations and roots are those of its own trie, uncommitted changes stay its own, and every root that any of them committed can be opened and read completely as soon as its commit returns. On a pruning storage, where one trie works at a time, the storage holds, before each access of a commit, all of the trie last committed or all of the one being committed, so that a crash there never leaves neither.",
  ["schedules","histories","crash points"],"every set of tries on one storage, every interleaving of their storage accesses; every access of every commit on pruning storage",
  "Tests use one trie on one storage in one thread.",
  [IN,PDB],[("InnerTrie::commit / get_at / insert_at / delete_at / at_root",IN),("MemoryDB",PDB)],None,
  ["results of Trie operations, TrieIterator","contents of the Database between its accesses"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
