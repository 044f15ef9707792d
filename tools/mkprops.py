#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

MMR = "grovedb-merkle-mountain-range/src/"
DEN = "grovedb-dense-fixed-sized-merkle-tree/src/"
BLK = "grovedb-bulk-append-tree/src/"
QRY = "grovedb-query/src/"

p("C01", "An MMR is a function of the sequence of appended values",
  "After any history of appends, reads, commits and reopenings, a Merkle Mountain Range's size, root hash and every retrievable leaf are exactly those determined by the sequence of appended values (leaf hash, pairwise merge and right-to-left peak bagging as documented), whichever appends were grouped into one commit. Asking for the root or a leaf of positions that do not exist reports an error or nothing, never a wrong value, and position arithmetic (leaf index to position, size to leaf count, hash counts) agrees with that structure.",
  ["histories", "inputs"], "every sequence of pushes, commits, drops of uncommitted work and reopenings, and every leaf count",
  "tests check a few fixed sizes against roots computed by the same code; nothing relates different batchings or all sizes to an independent definition.",
  [MMR+"mmr.rs", MMR+"mmr_store.rs", MMR+"helper.rs", MMR+"node.rs", MMR+"storage_adapter.rs"],
  [("push / bag peaks", MMR+"mmr.rs"), ("position helpers", MMR+"helper.rs"), ("overlay batch", MMR+"mmr_store.rs")],
  [("mmr_size", "number of nodes", MMR+"mmr.rs")], ["return of push/get_root/batch commit"])
p("C02", "MMR proofs prove exactly the true leaves",
  "For every MMR and every non-empty set of existing leaf indices, the generated proof verifies against the true root and yields exactly those leaves with their true values. No proof of the true MMR size, however altered, verifies against the true root while claiming an index and value that are not the leaf at that index, or claiming a leaf twice or beyond the end; malformed proofs are rejected without crashing.",
  ["inputs"], "every MMR size, every subset of leaves, and every alteration of a proof (values, indices, size, sibling hashes, order, duplication, truncation)",
  "tests tamper a handful of fields on a few sizes; soundness quantifies over every alteration.",
  [MMR+"proof.rs", MMR+"mmr.rs", MMR+"error.rs"],
  [("calculate_root / proof items consumption", MMR+"mmr.rs"), ("verify", MMR+"proof.rs")], (), ["result of verify"])
p("C03", "A dense fixed-size tree is a function of its inserted values",
  "A dense fixed-size Merkle tree of height h accepts exactly 2^h-1 values, places the i-th inserted value at position i and returns it for that position only, and its root hash is the documented hash of that value sequence (value hash and child hashes, absent children as zeros). This holds after any mix of inserts, refused inserts, storage faults, resets and reopenings: a refused or failed insert leaves count, root and readable values unchanged. Two hash calls are charged for each value an insert or root computation hashes.",
  ["histories", "inputs", "fault_sequences"], "every height 1..=16 (capacity), insert sequence, store fault point, reset and reopening",
  "tests compare to roots produced by the same code on single histories and inject one fault in fixed places.",
  [DEN+"tree.rs", DEN+"hash.rs", DEN+"lib.rs"],
  [("insert with rollback", DEN+"tree.rs"), ("hash_node", DEN+"hash.rs")],
  [("count", "number of filled positions", DEN+"tree.rs")], ["return of insert/get/root_hash/reset"])
p("C04", "Dense tree proofs prove exactly the true positions",
  "For every dense tree and every set of positions or position query, the generated proof verifies and yields exactly the stored values at the requested existing positions. No altered proof verifies against the true root with a wrong value, a position outside the tree, a duplicate position, or - when checked against a query - a missing or an unrequested position; malformed proofs are rejected without crashing.",
  ["inputs"], "every tree size, position subset, position query and alteration of the proof",
  "tests cover a few hand-picked tamperings; the attack space is every alteration of entries and hashes.",
  [DEN+"proof/mod.rs", DEN+"verify.rs", DEN+"lib.rs"],
  [("ancestor and overlap checks", DEN+"verify.rs"), ("query to positions", DEN+"lib.rs")], (), ["result of verification"])
p("C05", "A bulk append tree is a function of its appended values",
  "After any history of appends, reopenings and state-root computations, a bulk append tree holds every appended value at its global position, its counts follow from the number of appends, and its state root is the documented combination of the finalized-chunk MMR root and the buffer root; it depends on the value sequence and configuration only. Finalized chunks hold exactly the values of their epoch in order, a commit that fails loses none of the buffered appends and can be repeated, and a chunk blob that is not a valid encoding is rejected rather than misread.",
  ["histories", "inputs"], "every height, value sequence (equal and mixed lengths, empty values), grouping of commits and reopening point",
  "tests use single histories at one or two heights and compare to values the code itself produced.",
  [BLK+"tree/mod.rs", BLK+"tree/append.rs", BLK+"tree/fetch.rs", BLK+"tree/hash.rs", BLK+"chunk.rs"],
  [("compaction on full buffer", BLK+"tree/append.rs"), ("blob encoding", BLK+"chunk.rs")],
  [("total_count", "number of appended values", BLK+"tree/mod.rs")], ["return of append/query/compute root"])
p("C06", "Bulk append tree range proofs prove exactly the true values",
  "For every bulk append tree and every position query over it, the generated proof verifies against the true state root and yields exactly the values at the queried existing positions in order. No altered proof verifies against the true state root and total count with a wrong, missing or invented value for the query; malformed proofs are rejected without crashing.",
  ["inputs"], "every tree, query and alteration of the proof",
  "tests alter a few bytes of a few proofs.",
  [BLK+"proof/mod.rs"],
  [("chunk completeness, dense position and state-root checks", BLK+"proof/mod.rs")], (), ["result of verification"])
p("C07", "A commitment tree is a function of its appended notes",
  "After any history of appends, saves and reopenings, a commitment tree's anchor, position, state root and stored ciphertexts are those determined by the sequence of appended commitments and payloads. A frontier restored from its serialized form behaves exactly as the original, and bytes that are not a well-formed frontier, or that disagree with the recorded number of notes, are rejected.",
  ["histories", "inputs"], "every append/save/reopen history and every alteration of the serialized frontier",
  "tests use fixed short sequences; the real sinsemilla hash is replaced by a stand-in here, the structure is what is decided.",
  ["grovedb-commitment-tree/src/commitment_frontier/mod.rs", "grovedb-commitment-tree/src/commitment_tree/mod.rs"],
  [("serialize/deserialize frontier", "grovedb-commitment-tree/src/commitment_frontier/mod.rs"), ("append_raw", "grovedb-commitment-tree/src/commitment_tree/mod.rs")], (), ["return of append/open/save"])
p("C08", "Query items denote key sets and are compared accordingly",
  "Each kind of query item (single key and the nine range kinds) denotes a set of keys in byte order: membership, bounds, overlap, pairwise intersection with its leftovers, and merging of touching or overlapping items all agree with that set, and a merge or intersection neither invents nor drops a key. Items are ordered consistently with the keys they denote, whatever the key lengths (including empty keys and keys that are prefixes of one another).",
  ["inputs"], "every pair of well-formed query items over arbitrary byte-string keys",
  "tests list chosen pairs; the case analysis is ten kinds by ten kinds by relative bound positions.",
  [QRY+"query_item/mod.rs", QRY+"query_item/intersect.rs", QRY+"query_item/merge.rs"],
  [("bounds", QRY+"query_item/mod.rs"), ("range set intersection", QRY+"query_item/intersect.rs"), ("merge", QRY+"query_item/merge.rs")], (), ["return values"])
p("C09", "Building and merging queries preserves the selected data",
  "Inserting items into a query in any order keeps the item list sorted, pairwise disjoint and denoting exactly the union of what was inserted. Merging two or more queries selects, at every path, everything any of them selects, with the subquery that applies to each key selecting what the originals' applicable subqueries selected, and nothing that no original selects, or reports an error. Where one query selects an element itself and another looks inside it, the latter wins. Merging aggregate-sum queries also adds their limits, or fails changing nothing.",
  ["inputs"], "every sequence of inserted items and every set of queries with nested default and conditional subqueries",
  "tests merge a few hand-written queries.",
  [QRY+"insert.rs", QRY+"merge.rs", QRY+"query.rs", QRY+"subquery_branch.rs", "grovedb/src/query/mod.rs"],
  [("insert_item collision loop", QRY+"insert.rs"), ("merge of branches", QRY+"merge.rs")], (), ["the resulting query"])
p("C10", "Path queries resolve consistently at every path",
  "For every path query and every path, the items, direction and subquery that apply at that path are those obtained by following the query from its root path through subquery paths, conditional subqueries (first match wins) and default subqueries; paths that no subquery leads to are reported as such. The list of keys a bounded query must account for contains exactly each reachable individually named key, once, with its full path, and is an error when unbounded or over the limit.",
  ["inputs"], "every path query (nested subqueries, subquery paths, conditional branches, limits) and every path",
  "tests enumerate a few shapes; proofs and absence answers depend on every shape agreeing between prover and verifier.",
  ["grovedb/src/query/mod.rs", QRY+"query.rs", QRY+"proof_items.rs"],
  [("query_items_at_path", "grovedb/src/query/mod.rs"), ("terminal keys", QRY+"query.rs")], (), ["return values"])
p("C11", "Wire formats round-trip exactly and reject everything else",
  "Every element, query item, query, path query, proof operation and structure proof encodes to the documented byte layout and decodes back to an equal value, consuming exactly the bytes written, with any reported encoded length being the actual one. Decoding arbitrary or truncated bytes yields an error or the value those bytes denote (numbers in a longer form and bytes after an element or structure proof are tolerated) - never a crash, hang or unbounded allocation - and declared size limits are enforced. The text (serde) forms of queries, query items and elements read back to an equal value.",
  ["inputs"], "every value of the wire types and every byte string",
  "tests round-trip sample values; hostile bytes and length boundaries are unbounded.",
  [QRY+"proofs/encoding.rs", QRY+"query.rs", QRY+"query_item/mod.rs", "grovedb-element/src/element/serialize.rs", QRY+"proofs/tree_feature_type.rs"],
  [("ed Encode/Decode of proof operations", QRY+"proofs/encoding.rs"), ("bincode of queries", QRY+"query.rs")], (), ["bytes and decoded values"])
p("C12", "Element classification agrees with the element",
  "For every element, the type read from its serialized bytes, its kind predicates, its contribution to sums, counts and big sums, its flags, and the kind of proof node chosen for it are those of that element kind and value; every typed accessor succeeds exactly on its own kind and returns the stored value. Elements that carry no sum contribute zero and every element contributes to counts as documented.",
  ["inputs"], "every element kind, value, flags and parent tree kind",
  "tests touch some kinds with some accessors; aggregates and proofs rely on all of them.",
  ["grovedb-element/src/element/helpers.rs", "grovedb-element/src/element_type.rs", "grovedb-element/src/element/mod.rs"],
  [("discriminant mapping and proof node type", "grovedb-element/src/element_type.rs"), ("value accessors", "grovedb-element/src/element/helpers.rs")], (), ["return values"])
p("C13", "Reference paths resolve to the documented target",
  "Each of the seven reference kinds, evaluated at any location, resolves to the documented absolute path or is an error when the location is too short; all ways the library offers to resolve it agree. Inverting a reference, where supported, yields a reference that resolves from the target back to the original location.",
  ["inputs"], "every reference kind, parameters, current path and current key",
  "tests use one or two paths per kind.",
  ["grovedb-element/src/reference_path/mod.rs", "grovedb-element/src/reference_path/util.rs"],
  [("path resolution", "grovedb-element/src/reference_path/mod.rs")], (), ["return values"])
p("C14", "Subtree paths are identified by their segments only",
  "Two paths are equal, hash equally, compare equal and address the same storage exactly when their segment lists are equal, however they were built (from slices, by deriving parents and children, by pushing segments), and paths with different segment lists never share a storage prefix. Parent, child, root test, length and conversion to a list agree with the segment list, and the order on paths is a total order.",
  ["inputs", "histories"], "every sequence of path derivations over arbitrary byte-string segments (empty and long ones included)",
  "tests build a few paths in a few ways.",
  ["path/src/subtree_path.rs", "path/src/subtree_path_builder.rs", "path/src/subtree_path_iter.rs", "path/src/util/compact_bytes.rs", "path/src/util/cow_like.rs", "storage/src/rocksdb_storage/storage.rs"],
  [("relative path representation", "path/src/subtree_path_builder.rs"), ("prefix hash input", "storage/src/rocksdb_storage/storage.rs")], (), ["return values"])
p("C15", "Epoch storage flags conserve bytes and ownership",
  "Combining the epoch storage flags of an old and a new version of an element accounts for every byte: bytes added are attributed to the newer epoch, bytes removed are taken from the epochs they were attributed to (never below what is there), the base epoch and every other epoch's bytes are unchanged, and the owner follows the documented rule. Flags serialize to the documented layout, deserialize back to equal flags, and malformed bytes are rejected.",
  ["inputs", "histories"], "every pair of flag states, owners, epochs, added and removed byte amounts and every chain of updates",
  "tests use a few pairs; conservation quantifies over whole update chains.",
  ["grovedb-epoch-based-storage-flags/src/lib.rs", "grovedb-epoch-based-storage-flags/src/update_element_flags.rs"],
  [("combine_added_bytes / combine_removed_bytes", "grovedb-epoch-based-storage-flags/src/lib.rs")], (), ["resulting flags"])
p("C16", "Removed bytes are refunded from the newest epochs first",
  "When bytes are removed from an element with epoch storage flags, the refund is split over epochs newest first, never takes more from an epoch than it holds, leaves each later epoch its fixed overhead, charges the rest to the base epoch, is credited to the element's owner (or the anonymous owner), and adds up to exactly the bytes removed. Updating an element's flags on an update or removal applies that split consistently and reports whether flags changed.",
  ["inputs"], "every flag state and every number of removed key and value bytes",
  "tests use a handful of amounts; rounding and boundary amounts are where bytes get lost.",
  ["grovedb-epoch-based-storage-flags/src/lib.rs", "grovedb-epoch-based-storage-flags/src/split_removal_bytes.rs", "grovedb-epoch-based-storage-flags/src/update_element_flags.rs"],
  [("split_storage_removed_bytes", "grovedb-epoch-based-storage-flags/src/lib.rs")], (), ["resulting split and flags"])
p("C17", "Operation costs add up",
  "Costs accumulate as a commutative, associative sum with the empty cost as identity: adding costs (by value or in place, in any grouping) adds every counter and, for removed bytes, every owner's and epoch's amount, losing nothing and saturating instead of wrapping; unsectioned removals are kept as an unattributed amount when mixed with sectioned ones. Chaining operations (success or failure, early return included) reports the sum of the costs of exactly the steps that ran. Hashing for key-value trees and for the nodes of their proofs charges one call for each 64-byte block hashed.",
  ["inputs", "programs"], "every combination of cost values and every composition of cost-carrying steps",
  "tests add a few fixed costs; two separate implementations of addition must agree on all inputs.",
  ["costs/src/lib.rs", "costs/src/context.rs", "costs/src/storage_cost/mod.rs", "costs/src/storage_cost/removal.rs", "costs/src/storage_cost/key_value_cost.rs", "merk/src/tree/hash.rs", "merk/src/proofs/tree.rs"],
  [("Add / AddAssign", "costs/src/storage_cost/removal.rs"), ("cost context combinators", "costs/src/context.rs")], (), ["resulting costs"])
p("C18", "Merk proof verification accepts only true answers",
  "For every key-value tree and every query (any items, limit, direction), a proof generated for it verifies to the tree's root hash and exactly the selected entries with true values, in order. No proof, honest or forged, verifies against the tree's root hash with a different result for that query: a missing entry, an invented entry, a wrong value, a wrong order, or an entry outside the query.",
  ["inputs"], "every tree, query, limit, direction, and every sequence of proof operations",
  "tests alter a few proofs; the verifier is a state machine over proof operations whose accepted language must contain no false statement.",
  ["merk/src/proofs/query/verify.rs", "merk/src/proofs/query/mod.rs", "merk/src/proofs/tree.rs", "merk/src/tree/hash.rs"],
  [("in_range/last_push absence logic", "merk/src/proofs/query/verify.rs"), ("key ordering and hash stack", "merk/src/proofs/tree.rs")], (), ["result of verification"])
p("C19", "Key-value trees keep order, balance, hashes and aggregates",
  "After any sequence of applied batches of inserts, updates and deletes, a key-value tree contains exactly the resulting entries, its in-order keys are sorted, sibling heights differ by at most one, every stored node hash is the documented hash of its entry and children, and every node's sum/count aggregate is that of its subtree. The same holds after reloading the tree from storage, and the root hash does not depend on when it was committed or reloaded.",
  ["histories"], "every sequence of batches on every tree kind, with reloads anywhere",
  "tests sample a few sequences; rebalancing cases depend on the shape reached by the history.",
  ["merk/src/tree/ops.rs", "merk/src/tree/mod.rs", "merk/src/tree/walk/mod.rs", "merk/src/merk/apply.rs", "merk/src/merk/mod.rs"],
  [("apply batch / rotate", "merk/src/tree/ops.rs"), ("commit", "merk/src/tree/commit.rs")], (), ["node dump after apply"])
p("C20", "The database is a hierarchy of ordered maps committed to by its root hash",
  "After any history of operations, reads return exactly what a hierarchy of maps holding the applied inserts, updates and deletes would return; failed operations change nothing. The root hash is the documented hash of the complete contents: it changes exactly when the contents do, is the same for the same operation history on any instance, is unaffected by reads or reopening, and the built-in integrity check reports no inconsistency.",
  ["histories"], "every history of inserts, updates, deletes and reads over nested subtrees of all kinds, with reopenings anywhere",
  "tests follow single scripted histories.",
  ["grovedb/src/lib.rs", "grovedb/src/operations/insert/mod.rs", "grovedb/src/operations/get/mod.rs", "grovedb/src/operations/delete/mod.rs"],
  [("change propagation", "grovedb/src/lib.rs"), ("verify_grovedb", "grovedb/src/lib.rs")], (), ["return of every operation"])
p("C21", "Transactions are isolated and atomic",
  "Operations inside a transaction see that transaction's own writes on top of the state committed to the database, and nobody else sees them until commit; a rolled-back or dropped transaction leaves no trace. Commit makes all its writes visible at once or, when it conflicts with a concurrently committed write to the same data, fails and leaves the database as it was.",
  ["schedules", "histories"], "every interleaving of operations of several transactions and of direct operations",
  "tests use one or two transactions in one order.",
  ["grovedb/src/lib.rs", "storage/src/rocksdb_storage/storage.rs", "storage/src/rocksdb_storage/storage_context/context_tx.rs", "grovedb/src/util.rs"],
  [("transactional storage context", "storage/src/rocksdb_storage/storage_context/context_tx.rs")], (), ["return of every operation"])
p("C22", "Batches are all-or-nothing and equal to their operations",
  "Applying a batch either applies every operation in it or, when it fails for any reason, changes nothing. A batch that succeeds leaves the same contents as performing its operations one at a time in a valid order, and the same contents and root hash regardless of the order in which they are listed, and inconsistent batches (duplicate or contradictory operations) are refused when checking is on.",
  ["inputs", "histories"], "every multiset of operations over nested paths, on every prior state, in every listing order",
  "tests apply fixed batches; equivalence quantifies over all batches and orders.",
  ["grovedb/src/batch/mod.rs", "grovedb/src/batch/batch_structure.rs"],
  [("level-by-level application", "grovedb/src/batch/mod.rs"), ("consistency verification", "grovedb/src/batch/mod.rs")], (), ["return of apply_batch, state after"])
p("C23", "Tree aggregates equal the sum of their contents",
  "At every moment, the sum, big sum and count recorded in every aggregating tree element equal the values computed from its current contents, including nested aggregating trees, after any history of inserts, updates, deletes, batches and transactions. An operation whose result would not fit is refused instead of wrapping, leaving everything unchanged.",
  ["histories", "inputs"], "every history over nested trees of all kinds with values up to the numeric limits",
  "tests check a few histories and a few extremes.",
  ["merk/src/tree/tree_feature_type.rs", "merk/src/tree/mod.rs", "merk/src/tree_type/mod.rs", "grovedb/src/lib.rs", "grovedb/src/operations/insert/mod.rs"],
  [("aggregate data", "merk/src/tree/mod.rs"), ("propagation with aggregates", "grovedb/src/lib.rs")], (), ["element read-back"])
p("C24", "References resolve to their target or fail",
  "Reading through a reference returns the current value of the element at the end of its chain; a chain that is cyclic, longer than the allowed number of hops, or ends at nothing is reported as an error, both when inserted and when read, and never loops. Raw reads return the reference itself unchanged.",
  ["histories", "inputs"], "every graph of references of all kinds over nested paths, and every later change to targets",
  "tests build a few chains and one cycle.",
  ["grovedb/src/operations/get/mod.rs", "grovedb/src/reference_path.rs", "grovedb/src/batch/mod.rs", "grovedb/src/operations/insert/mod.rs"],
  [("follow_reference", "grovedb/src/operations/get/mod.rs")], (), ["return of get/insert/query"])
p("C25", "Queries return exactly the selected elements in order",
  "A path query returns exactly the elements its items and (conditional) subqueries select from the current contents, each once, in the query's directions, with offset skipping and limit bounding the results, and reports how many were skipped. The answer does not depend on storage layout, caching, or whether it is asked inside a transaction.",
  ["inputs", "histories"], "every database content, query shape, direction, limit and offset",
  "tests query a few fixed trees.",
  ["grovedb/src/element/query.rs", "grovedb/src/operations/get/query.rs"],
  [("query item iteration with limit/offset", "grovedb/src/element/query.rs")], (), ["query results"])
p("C26", "Generated proofs verify to the true answer",
  "For every database and every supported path query, the generated proof verifies, its verified root hash is the database's root hash, and the verified result is exactly the true answer to the query, including proven absence of individually named keys when asked for and agreement when verified as a subset or as part of a chain. Queries that cannot be proved are refused at generation or verification, not answered wrongly.",
  ["inputs", "histories"], "every database content and every provable path query",
  "tests prove a few fixed queries.",
  ["grovedb/src/operations/proof/generate.rs", "grovedb/src/operations/proof/verify.rs"],
  [("layered proof generation", "grovedb/src/operations/proof/generate.rs"), ("layer verification", "grovedb/src/operations/proof/verify.rs")], (), ["prove_query / verify_query"])
p("C27", "No forged database proof verifies to a false answer",
  "For every database and path query, no current-format proof - altered, spliced from other proofs or databases, or with layers removed, added or exchanged - verifies to the database's root hash with a result other than the true answer to that query. Verification of any bytes terminates with a result or an error, never a crash.",
  ["inputs"], "every alteration of every layer of a proof",
  "tests include specific past attacks only.",
  ["grovedb/src/operations/proof/verify.rs", "grovedb/src/operations/proof/mod.rs", "merk/src/proofs/query/verify.rs"],
  [("lower layer hash binding, value-hash integrity", "grovedb/src/operations/proof/verify.rs")], (), ["verify_query"])
p("C28", "Deletion removes exactly what was asked",
  "Deleting an element removes that element (and, for a tree, everything below it) and nothing else; deleting a non-empty tree without permission, or where it is not allowed, fails and changes nothing; clearing a subtree and deleting upward while empty stop exactly where documented. Data removed this way is unreachable by any later read, and re-creating a deleted tree starts empty.",
  ["histories", "inputs"], "every hierarchy, target, option combination and later re-creation",
  "tests delete in a few fixed hierarchies.",
  ["grovedb/src/operations/delete/mod.rs", "grovedb/src/operations/delete/delete_up_tree.rs", "grovedb/src/operations/is_empty_tree.rs"],
  [("delete_internal", "grovedb/src/operations/delete/mod.rs")], (), ["state after delete"])
p("C29", "State synchronisation reproduces the source or fails",
  "Synchronising an empty database from a source, in any order of chunk delivery, ends with a database whose root hash and contents equal the source's. Altered, misdirected or missing chunks are rejected or prevent completion; they never lead to a committed database with the expected root hash but different contents.",
  ["schedules", "inputs", "fault_sequences"], "every source content, order of chunk delivery, and alteration of chunks",
  "tests sync a few fixed databases in order.",
  ["grovedb/src/replication.rs", "grovedb/src/replication/state_sync_session.rs", "merk/src/merk/restore.rs", "merk/src/merk/chunks.rs", "merk/src/proofs/chunk/chunk.rs"],
  [("chunk verification against parent hash", "merk/src/merk/restore.rs")], (), ["fetch_chunk/apply_chunk/commit_session"])
p("C30", "A crash or storage fault never leaves a half-applied operation",
  "If the process stops, or a storage write fails, at any point during an operation, batch or commit, then reopening the database finds either exactly the state before it or exactly the state after it, with a consistent root hash. An operation that reported success is present after reopening; one that reported failure is absent.",
  ["crash_points", "fault_sequences", "histories"], "every point between two writes reaching the storage engine, in every operation",
  "tests never stop in the middle of an operation.",
  ["storage/src/rocksdb_storage/storage.rs", "grovedb/src/lib.rs", "grovedb/src/batch/mod.rs"],
  [("single atomic write per operation", "storage/src/rocksdb_storage/storage.rs")], (), ["state recovered from each write prefix"])
p("C31", "Storage costs account for every stored byte",
  "Over any history, the bytes reported as added minus the bytes reported as removed equal the change in the documented paid size of the database's entries, for each operation and in total; replaced bytes are those rewritten, and a failed or read-only operation reports none. The cost of an operation is the same on every instance with the same contents.",
  ["histories"], "every history of inserts, updates with larger, equal and smaller values, deletes and batches on all tree kinds",
  "tests assert constants for single operations.",
  ["costs/src/lib.rs", "merk/src/tree/kv.rs", "merk/src/merk/apply.rs", "grovedb/src/batch/mod.rs", "grovedb/src/operations/insert/mod.rs"],
  [("paid value length and specialised costs", "merk/src/tree/kv.rs")], (), ["reported OperationCost"])
p("C32", "Cost estimates bound actual costs",
  "The worst-case estimate for a batch is never below the actual cost of applying that batch to any database within the estimate's declared bounds (seeks, loaded bytes, hash calls, added and replaced bytes). Estimation itself reads and writes nothing.",
  ["inputs", "histories"], "every batch and every database satisfying the declared layer information",
  "tests compare a few single operations.",
  ["grovedb/src/batch/estimated_costs/worst_case_costs.rs", "merk/src/estimated_costs/worst_case_costs.rs"],
  [("worst case per operation", "merk/src/estimated_costs/worst_case_costs.rs")], (), ["estimate vs actual"])
p("C33", "Trunk and branch proofs cover the tree exactly",
  "For every count-provable tree and depth, the trunk proof verifies to the true root and lists exactly the top entries with the true keys, values and the correct boundary keys and hashes; each branch proof for a boundary key verifies against that boundary hash and the branches together with the trunk yield the whole tree. Altered trunk or branch proofs never verify to different contents.",
  ["inputs"], "every tree content, depth, boundary key and alteration",
  "tests use a few fixed trees.",
  ["merk/src/proofs/branch/mod.rs", "merk/src/proofs/branch/depth.rs", "grovedb/src/operations/proof/verify.rs"],
  [("trunk/branch chunk verification", "grovedb/src/operations/proof/verify.rs")], (), ["verify results"])
p("C34", "Append-only trees inside the database are bound to its root hash",
  "Append-only trees stored as elements (MMR, bulk append, dense, commitment) hold exactly the appended values at their positions across operations, batches, transactions and reopenings, and their counts and roots recorded in the hierarchy are those of that sequence. Proofs of their entries verify to the database root and yield exactly the true entries; operations of another kind on them are refused.",
  ["histories", "inputs"], "every history of appends of each kind mixed with other operations, batches and transactions",
  "tests use short scripted histories per kind.",
  ["grovedb/src/operations/mmr_tree.rs", "grovedb/src/operations/bulk_append_tree.rs", "grovedb/src/operations/dense_tree.rs", "grovedb/src/operations/commitment_tree.rs", "grovedb/src/operations/proof/verify.rs"],
  [("append and parent element update", "grovedb/src/operations/mmr_tree.rs")], (), ["return of append/get/prove"])
p("C35", "Checkpoints are immutable copies",
  "A checkpoint opened as a database has exactly the contents and root hash of the source at the moment it was taken, whatever is done to the source afterwards, and changes to either are never visible in the other. Taking a checkpoint changes nothing in the source.",
  ["histories"], "every history of operations around taking, opening and deleting checkpoints",
  "tests take one checkpoint.",
  ["grovedb/src/checkpoints.rs", "storage/src/rocksdb_storage/storage.rs"],
  [("checkpoint creation and opening", "grovedb/src/checkpoints.rs")], (), ["contents of both databases"])
p("C36", "Auxiliary data is separate from the hierarchy",
  "Auxiliary values are stored, read and deleted by key with last-write-wins semantics under transactions like other data, and never influence or are influenced by the hierarchy: root hash, elements, queries and proofs are unaffected.",
  ["histories"], "every history mixing auxiliary and ordinary operations and transactions",
  "tests put and get one value.",
  ["grovedb/src/operations/auxiliary.rs", "storage/src/rocksdb_storage/storage_context/context_tx.rs"],
  [("separate column family", "storage/src/rocksdb_storage/storage.rs")], (), ["return of aux operations"])
p("C37", "Aggregate-sum queries return the smallest sufficient prefix",
  "An aggregate-sum query over a sum-bearing tree visits the selected entries in order and returns exactly the prefix whose running sum first reaches the requested sum, bounded by the item limit, following references as configured. Merging such queries selects the union of their keys with combined limits, and refuses incompatible ones.",
  ["inputs", "histories"], "every content, item set, direction, sum limit and item limit, and every set of merged queries",
  "tests use a few fixed trees and limits.",
  ["grovedb/src/element/aggregate_sum_query/mod.rs", "grovedb/src/operations/get/query.rs", QRY+"aggregate_sum_query/mod.rs", "grovedb/src/query/mod.rs"],
  [("running sum limit", "grovedb/src/element/aggregate_sum_query/mod.rs")], (), ["query results"])

p("C38", "Result sets convert without loss",
  "Converting a set of query results to elements, keys, pairs, trios or maps keeps exactly the results that carry what the shape needs, in order, with their own paths, keys and elements; maps keep the last value of each key, grouped maps keep every value in order, and nested levels hold each result at its path, the later of two that collide. Converting proved rows between their certain, optional and element forms changes nothing but the form, and refuses a row without a value or with bytes that are no element.",
  ["inputs"], "every list of results of every kind and every proved row",
  "tests convert one proved row; colliding and mixed lists are not covered.",
  ["grovedb/src/query_result_type.rs", "grovedb/src/operations/proof/util.rs", "merk/src/proofs/query/verify.rs"],
  [("conversions of result sets", "grovedb/src/query_result_type.rs"), ("conversions of proved rows", "grovedb/src/operations/proof/util.rs")], (), ["returned collections"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
