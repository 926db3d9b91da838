//! Checks of the Jellyfish tree: pruning, batching, update batches, schedules, read faults (C12, C13, C15, C17, C18).
use crate::jchecks::*;
use crate::jgen::*;
use crate::jmodel::Smt;
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ck_eq, ok, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::mock::MockTreeStore;
use jmt::storage::{Node, NodeKey, StaleNodeIndex, TreeUpdateBatch};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, MissingRootError, RootHash, SimpleHasher};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;
use std::sync::Arc;

pub fn node_hash(n: &Node) -> [u8; 32] {
    match n {
        Node::Null => crate::jmodel::EMPTY,
        Node::Internal(i) => i.hash(),
        Node::Leaf(l) => l.hash(),
    }
}
/// Everything a committed version must still give. `dense` asks for every universe key.
pub fn check_version<S: Store, H: SimpleHasher>(
    store: &Arc<S>,
    tree: &JellyfishMerkleTree<S, H>,
    keys: &[KeyHash],
    cont: &KV,
    smt: &Smt,
    v: u64,
    step: usize,
) -> R {
    let root = RootHash(smt.root());
    ck_eq!(ok!(tree.get_root_hash(v), "get_root_hash({v})"), root, "root hash of version {v}");
    for k in keys.iter().step_by(step.max(1)) {
        check_proof_read(tree, cont, smt, root, *k, v)?;
        ck_eq!(ok!(tree.get(*k, v), "get").as_ref(), cont.get(k), "get({k:?}, {v})");
    }
    check_iter(store, cont, v, KeyHash([0; 32]))
}

// ---------------------------------------------------------------- C12
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C12 {
    h: Hist,
    /// sizes of the calls; 1 mostly; and whether the batch insertion API is used where it can be
    groups: Vec<(u8, bool)>,
    /// after the i-th call: purge up to this version (modulo the number committed), if any
    purges: Vec<Option<u8>>,
    mock: bool,
}
fn c12(c: &C12, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C12, ctx: &mut Ctx) -> R {
        let store = Arc::new(S::fresh());
        let tree = JellyfishMerkleTree::<S, H>::new_migration(store.clone(), c.h.migration);
        let r = c.h.resolve();
        let smts: Vec<Smt> = r.contents.iter().map(|c| Smt::new::<H>(c)).collect();
        let n = r.sets.len();
        let (mut i, mut call) = (0, 0);
        let mut least = c.h.base;
        let mut stale: BTreeSet<StaleNodeIndex> = BTreeSet::new();
        let mut purged_all = BTreeMap::new();
        while i < n {
            let (g, use_batch) = c.groups.get(call).copied().unwrap_or((1, false));
            let g = (g.max(1) as usize).min(n - i);
            let first = c.h.base + i as u64;
            let slice = &r.sets[i..i + g];
            let (_, b) = if use_batch && batchable(slice, i > 0 || c.h.base == 0) {
                ctx.label("batch API");
                ok!(tree.batch_put_value_sets(insertions(slice), None, first), "batch_put_value_sets at {first}")
            } else {
                ok!(tree.put_value_sets(slice.to_vec(), first), "put_value_sets at {first}")
            };
            let new_stale: Vec<StaleNodeIndex> = b.stale_node_index_batch.iter().cloned().collect();
            ok!(store.commit(b), "commit at {first}");
            i += g;
            let last = c.h.base + i as u64 - 1;
            let nodes = store.all_nodes();
            for s in new_stale {
                ck!(s.stale_since_version >= first && s.stale_since_version <= last, "stale index of another version: {s:?} in a write of {first}..={last}");
                ck!(nodes.contains_key(&s.node_key), "stale index names a node that does not exist: {s:?}");
                ck!(!stale.iter().any(|o| o.node_key == s.node_key), "node recorded stale twice: {s:?}");
                ck!(!purged_all.contains_key(&s.node_key), "a purged node is recorded stale: {s:?}");
                for v in s.stale_since_version..=last {
                    ck!(!reachable(&nodes, v)?.contains_key(&s.node_key), "node stale since {} is reachable at {v}: {:?}", s.stale_since_version, s.node_key);
                }
                stale.insert(s);
            }
            let ask = c.purges.get(call).copied().flatten();
            call += 1;
            if let Some(p) = ask {
                let v = c.h.base + p as u64 % (last - c.h.base + 1);
                let before = store.all_nodes();
                if let Err(e) = store.do_purge(v) {
                    return Err(format!("purge({v}) fails: {e}"));
                }
                ctx.label("purged before the last commit");
                least = least.max(v);
                stale.retain(|s| s.stale_since_version > v);
                let nodes = store.all_nodes();
                let mut live: BTreeSet<NodeKey> = BTreeSet::new();
                for w in least..=last {
                    live.extend(reachable(&nodes, w)?.into_keys());
                }
                for k in nodes.keys() {
                    ck!(key_parts(k).1.is_empty() || live.contains(k), "node {k:?} survives purge({v}) though no version of {least}..={last} references it");
                    ck!(before.contains_key(k), "purge creates a node");
                }
                for (k, x) in before {
                    if !nodes.contains_key(&k) {
                        purged_all.insert(k, x);
                    }
                }
                ctx.count("nodes purged", purged_all.len() as u64);
                ctx.nontrivial_if(!purged_all.is_empty() && least < last);
            } else {
                for k in nodes.keys() {
                    let p = key_parts(k);
                    ck!(p.0 >= c.h.base && p.0 <= last, "node of a version that was not written: {k:?}");
                }
            }
            let step = 1 + (last - least + 1) as usize * r.keys.len() / 60;
            for w in least..=last {
                let j = (w - c.h.base) as usize;
                check_version(&store, &tree, &r.keys, &r.contents[j], &smts[j], w, step)?;
            }
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.label_if(c.mock, "on MockTreeStore");
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c, ctx) } else { go::<TStore, H>(c, ctx) })
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Sets,
    Batch,
    BatchHashes,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C13 {
    h: Hist,
    calls: Vec<(u8, How)>,
    /// order of the writes within a set, and duplicates put before them
    perm: u64,
    dups: u8,
}
/// A map from the position of a node to its hash, with the library's key type chosen by inference.
fn hash_map<P: BorshDeserialize + Eq + Hash>(nodes: &BTreeMap<NodeKey, Node>) -> HashMap<P, [u8; 32]> {
    nodes
        .iter()
        .map(|(k, n)| (P::try_from_slice(&k.try_to_vec().unwrap()[8..]).expect("nibble path encoding"), node_hash(n)))
        .collect()
}
fn batch<H: SimpleHasher, P: BorshDeserialize + Eq + Hash>(
    t: impl FnOnce(Option<Vec<&HashMap<P, [u8; 32]>>>) -> anyhow::Result<(Vec<RootHash>, TreeUpdateBatch)>,
    maps: Option<Vec<BTreeMap<NodeKey, Node>>>,
) -> anyhow::Result<(Vec<RootHash>, TreeUpdateBatch)> {
    let m: Option<Vec<HashMap<P, [u8; 32]>>> = maps.map(|v| v.iter().map(hash_map::<P>).collect());
    t(m.as_ref().map(|v| v.iter().collect()))
}
fn c13(c: &C13, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C13, ctx: &mut Ctx) -> R {
        // one version per call, each key once, in order
        let r = c.h.resolve();
        let norm: Vec<BTreeMap<KeyHash, Option<Vec<u8>>>> = r.sets.iter().map(|s| s.iter().cloned().collect()).collect();
        let a_store = Arc::new(TStore::default());
        let a = JellyfishMerkleTree::<TStore, H>::new_migration(a_store.clone(), c.h.migration);
        let mut a_roots = vec![];
        for (i, s) in norm.iter().enumerate() {
            let (root, b) = ok!(a.put_value_set(s.clone(), c.h.base + i as u64), "put_value_set");
            ok!(a_store.apply(&b), "commit");
            a_roots.push(root);
        }
        let a_nodes = a_store.snapshot().nodes;
        // the same, otherwise grouped and ordered
        let b_store = Arc::new(TStore::default());
        let b = JellyfishMerkleTree::<TStore, H>::new_migration(b_store.clone(), c.h.migration);
        let n = norm.len();
        let mut sets: Vec<WSet> = vec![];
        // grouping alone keeps even the identifiers of the nodes; transient writes may renew some
        let mut same_writes = true;
        for (i, s) in r.sets.iter().enumerate() {
            // the writes as generated may name a key several times: the last one wins
            let mut w = s.clone();
            let distinct = norm[i].len() == w.len();
            if distinct && c.perm != 0 {
                shuffle(&mut w, c.perm ^ i as u64);
                ctx.label_if(w.len() > 1, "distinct keys permuted");
                same_writes &= w.len() <= 1;
            } else if distinct {
                w.sort();
            } else {
                same_writes = false;
                ctx.label("repeated writes to a key in a set");
            }
            for d in 0..(c.dups as usize).min(s.len()) {
                let k = s[(c.perm as usize).wrapping_add(d * 7) % s.len()].0;
                let junk = if r.sets[i].iter().all(|x| x.1.is_some()) { Some(vec![9, 9, d as u8]) } else { None };
                w.insert(0, (k, junk));
                same_writes = false;
                ctx.label("junk writes before the real one");
            }
            sets.push(w);
        }
        let (mut i, mut call) = (0, 0);
        while i < n {
            let (g, how) = c.calls.get(call).cloned().unwrap_or((1, How::Sets));
            call += 1;
            let g = (g.max(1) as usize).min(n - i);
            let first = c.h.base + i as u64;
            let slice = &sets[i..i + g];
            // the batch insertion API takes insertions into an existing parent only, and no empty set
            let insertions = batchable(slice, i > 0 || c.h.base == 0);
            ctx.label_if(g > 1, "several versions in a call");
            let res = match how {
                How::Batch | How::BatchHashes if insertions => {
                    let hashes = if matches!(how, How::BatchHashes) {
                        ctx.label("batch API with node hashes");
                        let mut m = vec![];
                        for j in i..i + g {
                            m.push(reachable(&a_nodes, c.h.base + j as u64)?);
                        }
                        Some(m)
                    } else {
                        ctx.label("batch API");
                        None
                    };
                    let vs: Vec<Vec<(KeyHash, Vec<u8>)>> =
                        slice.iter().map(|s| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect()).collect();
                    batch::<H, _>(|m| b.batch_put_value_sets(vs, m, first), hashes)
                }
                _ => b.put_value_sets(slice.to_vec(), first),
            };
            let (roots, up) = ok!(res, "a call writing {g} versions from {first} ({how:?})");
            ck_eq!(roots, a_roots[i..i + g].to_vec(), "roots of versions {first}.. ({how:?}, {g} in the call)");
            ok!(b_store.apply(&up), "commit");
            i += g;
        }
        ctx.nontrivial_if(n >= 2 && call < n || c.calls.iter().take(call).any(|x| !matches!(x.1, How::Sets)));
        let b_nodes = b_store.snapshot().nodes;
        let mut q = queries(&r.keys);
        q.truncate(60);
        for i in 0..n {
            let v = c.h.base + i as u64;
            ck_eq!(ok!(b.get_root_hash(v), "get_root_hash"), a_roots[i], "stored root of version {v}");
            let step = 1 + n * q.len() / 120;
            for k in q.iter().skip(i % step).step_by(step) {
                let (va, pa) = ok!(a.get_with_proof(*k, v), "get_with_proof");
                let (vb, pb) = ok!(b.get_with_proof(*k, v), "get_with_proof of the other grouping");
                ck_eq!(vb, va, "get_with_proof({k:?}, {v})");
                ck_eq!(va.as_ref(), r.contents[i].get(k), "get_with_proof({k:?}, {v})");
                ck!(pa.leaf() == pb.leaf() && pa.siblings() == pb.siblings(), "proofs of {k:?} at {v} differ");
                ck_eq!(ok!(b.get(*k, v), "get"), va, "get({k:?}, {v})");
            }
            check_iter(&b_store, &r.contents[i], v, KeyHash([0; 32]))?;
            let (ra, rb) = (reachable(&a_nodes, v)?, reachable(&b_nodes, v)?);
            ctx.label_if(same_writes, "node identifiers compared");
            if same_writes && c.h.migration {
                ck!(ra.keys().eq(rb.keys()), "reachable nodes of version {v} differ: {:?} / {:?}", ra.keys().collect::<Vec<_>>(), rb.keys().collect::<Vec<_>>());
                ck!(ra == rb, "contents of the reachable nodes of version {v} differ");
            } else if same_writes {
                ck!(ra.keys().eq(rb.keys()), "reachable nodes of version {v} differ");
            }
            let by_path = |m: &BTreeMap<NodeKey, Node>| -> BTreeMap<Vec<u8>, [u8; 32]> { m.iter().map(|(k, n)| (key_parts(k).1, node_hash(n))).collect() };
            ck!(by_path(&ra) == by_path(&rb), "the tree of version {v} has another shape or other hashes");
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C15 {
    h: Hist,
    calls: Vec<(u8, bool)>,
    purges: Vec<bool>,
}
fn c15(c: &C15, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C15, ctx: &mut Ctx) -> R {
        let store = Arc::new(TStore::default());
        let tree = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.h.migration);
        let r = c.h.resolve();
        let n = r.sets.len();
        let (mut i, mut call) = (0, 0);
        while i < n {
            let (g, use_batch) = c.calls.get(call).copied().unwrap_or((1, false));
            let g = (g.max(1) as usize).min(n - i);
            let first = c.h.base + i as u64;
            let slice = &r.sets[i..i + g];
            let before = store.snapshot();
            let (roots, b) = if use_batch && batchable(slice, i > 0 || c.h.base == 0) {
                ctx.label("batch API");
                ok!(tree.batch_put_value_sets(insertions(slice), None, first), "batch_put_value_sets at {first}")
            } else {
                ok!(tree.put_value_sets(slice.to_vec(), first), "put_value_sets at {first}")
            };
            let after = store.snapshot();
            ck!(before == after && store.writes() == call as u64, "computing the batch of {first} modifies the store");
            ck_eq!(roots.len(), g, "number of roots");
            let vers = |v: u64| v >= first && v < first + g as u64;
            for k in b.node_batch.nodes().keys() {
                ck!(!before.nodes.contains_key(k), "the batch of {first} overwrites the committed node {k:?}");
                ck!(vers(k.version()), "the batch of {first} writes a node of another version: {k:?}");
            }
            for (v, k) in b.node_batch.values().keys() {
                ck!(vers(*v), "the batch of {first} writes a value of another version {v}");
                ck!(before.values.get(k).map_or(true, |h| !h.contains_key(v)), "the batch of {first} overwrites a committed value");
            }
            // the values are exactly the writes
            let mut want: BTreeMap<(u64, KeyHash), Option<Vec<u8>>> = BTreeMap::new();
            for (j, s) in slice.iter().enumerate() {
                for (k, v) in s {
                    want.insert((first + j as u64, *k), v.clone());
                }
            }
            ck!(b.node_batch.values() == &want, "values of the batch of {first} are not the writes");
            // statistics
            ck_eq!(b.node_stats.len(), g, "number of statistics of the batch of {first}");
            let mut all = before.nodes.clone();
            all.extend(b.node_batch.nodes().iter().map(|(k, n)| (k.clone(), n.clone())));
            for (j, st) in b.node_stats.iter().enumerate() {
                let v = first + j as u64;
                let new: Vec<&Node> = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).map(|x| x.1).collect();
                ck_eq!(st.new_nodes, new.len(), "new_nodes of version {v}");
                ck_eq!(st.new_leaves, new.iter().filter(|n| matches!(n, Node::Leaf(_))).count(), "new_leaves of version {v}");
                let stale: Vec<&StaleNodeIndex> = b.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).collect();
                ck_eq!(st.stale_nodes, stale.len(), "stale_nodes of version {v}");
                let leaves = stale.iter().filter(|s| matches!(all.get(&s.node_key), Some(Node::Leaf(_)))).count();
                ck_eq!(st.stale_leaves, leaves, "stale_leaves of version {v}");
                ctx.count("new nodes", new.len() as u64);
                // stale are the nodes of the version before, roots aside, which this one does not use
                if i + j > 0 {
                    let now = reachable(&all, v)?;
                    let want: BTreeSet<NodeKey> = reachable(&all, v - 1)?.into_keys().filter(|k| !now.contains_key(k) && !key_parts(k).1.is_empty()).collect();
                    let got: BTreeSet<NodeKey> = stale.iter().map(|s| s.node_key.clone()).filter(|k| !key_parts(k).1.is_empty()).collect();
                    ck!(got == want, "nodes stale since {v}: {got:?}, not {want:?}");
                }
            }
            for s in &b.stale_node_index_batch {
                ck!(all.contains_key(&s.node_key), "stale index names a node that does not exist: {s:?}");
                ck!(vers(s.stale_since_version), "stale index of another version: {s:?}");
            }
            ok!(store.apply(&b), "commit");
            let d = store.snapshot();
            ck!(d.overwrites.is_empty() && d.stale_twice.is_empty(), "overwritten by the commit: {:?} {:?}", d.overwrites, d.stale_twice);
            // complete: the new versions and, without a purge, the older ones
            for j in 0..g {
                let v = first + j as u64;
                let re = reachable(&d.nodes, v)?;
                let leaves: BTreeMap<KeyHash, [u8; 32]> = re
                    .values()
                    .filter_map(|n| match n {
                        Node::Leaf(l) => Some((l.key_hash(), leaf_node_value_hash(l))),
                        _ => None,
                    })
                    .collect();
                let wl: BTreeMap<KeyHash, [u8; 32]> = r.contents[i + j].iter().map(|(k, v)| (*k, H::hash(v))).collect();
                ck!(leaves == wl, "leaves of version {v} are not its contents");
                for (k, val) in &r.contents[i + j] {
                    let got = d.values.get(k).and_then(|h| h.range(..=v).next_back()).and_then(|x| x.1.clone());
                    ck_eq!(got.as_ref(), Some(val), "stored value of {k:?} at {v}");
                }
            }
            i += g;
            if c.purges.get(call).copied().unwrap_or(false) {
                if let Err(e) = store.purge(c.h.base + i as u64 - 1) {
                    return Err(e);
                }
                ctx.label("purged in between");
            }
            call += 1;
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.len() >= 2 && r.contents.iter().any(|c| c.len() >= 2));
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}
pub fn leaf_node_value_hash(l: &jmt::storage::LeafNode) -> [u8; 32] {
    l.try_to_vec().unwrap()[32..64].try_into().unwrap()
}

// ---------------------------------------------------------------- operations shared by C17 and C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Get(u16),
    GetWithProof(u16),
    Excl(u16),
    Range(u16),
    IterFrom(u16),
    IterIdx(u8),
    LeafCount,
    Root,
    Write(Vec<(u16, Option<Val>)>, bool),
    /// several versions in a call, of the batch insertion API if true (the deletions are left out then)
    WriteMany(Vec<Vec<(u16, Option<Val>)>>, bool),
}
impl Op {
    pub fn is_write(&self) -> bool {
        matches!(self, Op::Write(..) | Op::WriteMany(..))
    }
    /// The write sets of the operation.
    pub fn sets(&self, q: &[KeyHash], cont: &KV) -> Vec<WSet> {
        let res = |w: &[(u16, Option<Val>)]| w.iter().map(|(k, x)| (q[*k as usize % q.len()], x.map(|x| x.bytes()))).collect::<WSet>();
        match self {
            Op::Write(w, all) => {
                let mut set: WSet = if *all { cont.keys().map(|k| (*k, None)).collect() } else { vec![] };
                set.extend(res(w));
                vec![set]
            }
            Op::WriteMany(w, false) => w.iter().map(|w| res(w)).collect(),
            Op::WriteMany(w, true) => w
                .iter()
                .map(|w| res(w).into_iter().filter(|x| x.1.is_some()).collect::<WSet>())
                .filter(|s| !s.is_empty())
                .collect(),
            _ => vec![],
        }
    }
}
pub fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        1 => any::<u16>().prop_map(Op::Get),
        3 => any::<u16>().prop_map(Op::GetWithProof),
        3 => any::<u16>().prop_map(Op::Excl),
        2 => any::<u16>().prop_map(Op::Range),
        2 => any::<u16>().prop_map(Op::IterFrom),
        2 => any::<u8>().prop_map(Op::IterIdx),
        1 => Just(Op::LeafCount),
        1 => Just(Op::Root),
        4 => (prop::collection::vec((any::<u16>(), prop_oneof![1 => val().prop_map(Some), 1 => Just(None)]), 1..6), prop::bool::weighted(0.2))
            .prop_map(|(w, all)| Op::Write(w, all)),
        3 => prop_oneof![Just((2u32, false)), Just((10u32, true))].prop_flat_map(|(ins, batch)| {
            let w = prop::collection::vec((any::<u16>(), prop_oneof![ins => val().prop_map(Some), 1 => Just(None)]), 0..5);
            prop::collection::vec(w, 1..4).prop_map(move |w| Op::WriteMany(w, batch))
        }),
    ]
    .boxed()
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Value(Option<Vec<u8>>),
    Proof(Option<Vec<u8>>, Vec<u8>),
    Excl(Vec<u8>),
    Items(Vec<(KeyHash, Vec<u8>)>),
    Count(Option<usize>),
    Root(RootHash),
    Batch(Vec<RootHash>, TreeUpdateBatch),
}
/// Runs the operation at version `v`; an `Err` is what the library reports.
pub fn run_op<S: Store, H: SimpleHasher>(op: &Op, t: &JellyfishMerkleTree<S, H>, store: &Arc<S>, q: &[KeyHash], cont: &KV, v: u64) -> anyhow::Result<Out> {
    let key = |k: u16| q[k as usize % q.len()];
    fn items<S: Store>(it: JellyfishMerkleIterator<S>, limit: usize) -> anyhow::Result<Out> {
        let mut o = vec![];
        for x in it {
            o.push(x?);
            if o.len() > limit {
                anyhow::bail!("ENDLESS iteration");
            }
        }
        Ok(Out::Items(o))
    }
    Ok(match op {
        Op::Get(k) => Out::Value(t.get(key(*k), v)?),
        Op::GetWithProof(k) => {
            let (x, p) = t.get_with_proof(key(*k), v)?;
            Out::Proof(x, p.try_to_vec()?)
        }
        Op::Excl(k) => match t.get_with_exclusion_proof(key(*k), v)? {
            Ok((x, p)) => Out::Proof(Some(x), p.try_to_vec()?),
            Err(e) => Out::Excl(format!("{:?}", excl_parts(e)).into_bytes()),
        },
        Op::Range(k) => {
            // asked for keys of the tree
            let ks: Vec<&KeyHash> = cont.keys().collect();
            let k = ks.get(*k as usize % ks.len().max(1)).copied().copied().unwrap_or(key(*k));
            Out::Proof(None, t.get_range_proof(k, v)?.try_to_vec()?)
        }
        Op::IterFrom(k) => items(JellyfishMerkleIterator::new(store.clone(), v, key(*k))?, cont.len() + 2)?,
        Op::IterIdx(i) => items(JellyfishMerkleIterator::new_by_index(store.clone(), v, *i as usize % (cont.len() + 1))?, cont.len() + 2)?,
        Op::LeafCount => Out::Count(t.get_leaf_count(v)?),
        Op::Root => Out::Root(t.get_root_hash(v)?),
        Op::Write(..) => {
            let (r, b) = t.put_value_set(op.sets(q, cont).remove(0), v + 1)?;
            Out::Batch(vec![r], b)
        }
        Op::WriteMany(_, batch) => {
            let sets = op.sets(q, cont);
            let (r, b) = if *batch { t.batch_put_value_sets(insertions(&sets), None, v + 1)? } else { t.put_value_sets(sets, v + 1)? };
            Out::Batch(r, b)
        }
    })
}
pub fn short(o: &anyhow::Result<Out>) -> String {
    let s = match o {
        Ok(Out::Batch(r, _)) => format!("root {}", r.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>().join(", ")),
        x => format!("{x:?}"),
    };
    s.chars().take(300).collect()
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Commit,
    Purge(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C17 {
    h: Hist,
    /// how many versions are committed when the operations start
    split: u8,
    /// (operation, version, schedule: (before which of its reads, what))
    runs: Vec<(Op, u8, Vec<(u8, Act)>)>,
    /// judge the known finding too
    #[serde(default)]
    strict: bool,
    /// also in threads, this many beside the one that writes
    #[serde(default)]
    threads: u8,
}
/// The known finding: while the write is computed its tree gets empty and a further deletion follows.
pub fn deletes_from_emptied(op: &Op, q: &[KeyHash], cont: &KV) -> bool {
    let mut keys: BTreeSet<KeyHash> = cont.keys().copied().collect();
    op.sets(q, cont).into_iter().any(|set| {
        let mut touched = false;
        set.into_iter().any(|(k, x)| {
            if x.is_some() {
                touched = true;
                keys.insert(k);
            } else if keys.is_empty() && touched {
                return true;
            } else {
                touched |= keys.remove(&k);
            }
            false
        })
    })
}
/// The same operations in threads on the bundled store, while another thread commits and purges.
fn c17_threads<H: SimpleHasher>(c: &C17, r: &Resolved, batches: &[TreeUpdateBatch], split: usize, ctx: &mut Ctx) -> R {
    let q = queries(&r.keys);
    let n = batches.len();
    let base = c.h.base;
    let runs: Vec<(&Op, usize)> = c
        .runs
        .iter()
        .map(|(op, v, _)| (op, *v as usize % split))
        .filter(|(op, i)| !deletes_from_emptied(op, &q, &r.contents[*i]))
        .collect();
    let Some(least) = runs.iter().map(|r| r.1).min() else { return Ok(()) };
    let wants: Vec<_> = runs
        .iter()
        .map(|(op, i)| {
            let st = TStore::default();
            for u in &batches[..=*i] {
                st.apply(u).map_err(|e| format!("commit: {e:?}"))?;
            }
            let st = Arc::new(st);
            let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), c.h.migration);
            Ok(run_op(op, &t, &st, &q, &r.contents[*i], base + *i as u64))
        })
        .collect::<Result<_, String>>()?;
    let store = Arc::new(MockTreeStore::fresh());
    for u in &batches[..split] {
        ok!(store.commit(u.clone()), "commit");
    }
    let bar = std::sync::Barrier::new(c.threads as usize + 1);
    let over = std::sync::atomic::AtomicBool::new(false);
    let out: Vec<R> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for th in 0..c.threads as usize {
            let (bar, over, runs, wants, q, store) = (&bar, &over, &runs, &wants, &q, store.clone());
            hs.push(sc.spawn(move || {
                bar.wait();
                no_panic(|| {
                    let t = JellyfishMerkleTree::<MockTreeStore, H>::new_migration(store.clone(), c.h.migration);
                    let mut last = false;
                    for _ in 0..12 {
                        for k in 0..runs.len() {
                            let k = (k + th) % runs.len();
                            let (op, i) = runs[k];
                            let got = run_op(op, &t, &store, q, &r.contents[i], base + i as u64);
                            let same = match (&wants[k], &got) {
                                (Ok(a), Ok(b)) => a == b,
                                (Err(_), Err(_)) => true,
                                _ => false,
                            };
                            if !same {
                                return Err(format!("{op:?} at version {}: alone {} but in a thread beside one that commits and purges {}", base + i as u64, short(&wants[k]), short(&got)));
                            }
                        }
                        if last {
                            break;
                        }
                        last = over.load(std::sync::atomic::Ordering::SeqCst);
                    }
                    Ok(())
                })
                .and_then(|r| r)
            }));
        }
        let (bar, over, store) = (&bar, &over, store.clone());
        hs.push(sc.spawn(move || {
            bar.wait();
            let done = no_panic(|| {
                let t = JellyfishMerkleTree::<MockTreeStore, H>::new_migration(store.clone(), c.h.migration);
                for j in split..n + 8 {
                    let u = match batches.get(j) {
                        Some(u) => u.clone(),
                        None => ok!(t.put_value_set(r.sets[j % n].clone(), base + j as u64), "put_value_set of version {}", base + j as u64).1,
                    };
                    ok!(store.commit(u), "commit of version {}", base + j as u64);
                    if j % 3 == 0 {
                        store.do_purge(base + least as u64).map_err(|e| format!("purge: {e}"))?;
                    }
                }
                Ok(())
            })
            .and_then(|r| r);
            over.store(true, std::sync::atomic::Ordering::SeqCst);
            done
        }));
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended with a panic".into()))).collect()
    });
    for x in out {
        x?;
    }
    ctx.label("in threads");
    ctx.count("operations in threads", (runs.len() * c.threads as usize) as u64);
    Ok(())
}
fn c17(c: &C17, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C17, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        let n = b.roots.len();
        // all batches, to be committed at the chosen moments
        let mut batches: Vec<TreeUpdateBatch> = vec![];
        {
            let st = Arc::new(TStore::default());
            let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), c.h.migration);
            for i in 0..n {
                let (_, u) = ok!(t.put_value_set(b.r.sets[i].clone(), c.h.base + i as u64), "put_value_set");
                ok!(st.apply(&u), "commit");
                batches.push(u);
            }
        }
        let split = 1 + c.split as usize % n;
        let base_data = {
            let st = TStore::default();
            for u in &batches[..split] {
                ok!(st.apply(u), "commit");
            }
            st.snapshot()
        };
        let q = queries(&b.r.keys);
        for (op, ver, sched) in &c.runs {
            let i = *ver as usize % split;
            let v = c.h.base + i as u64;
            let cont = &b.r.contents[i];
            if !c.strict && i + 1 < n && deletes_from_emptied(op, &q, cont) {
                ctx.label("left out: the known finding");
                continue;
            }
            // a write is judged by what it gives while its parent is the newest version
            let quiet = if op.is_write() {
                let st = TStore::default();
                for u in &batches[..=i] {
                    ok!(st.apply(u), "commit");
                }
                ctx.label_if(i + 1 < split, "a write beside a committed version");
                Arc::new(st)
            } else {
                Arc::new(TStore::from_data(base_data.clone()))
            };
            let t0 = JellyfishMerkleTree::<TStore, H>::new_migration(quiet.clone(), c.h.migration);
            quiet.reset_reads();
            let want = run_op(op, &t0, &quiet, &q, cont, v);
            let reads = quiet.reads();
            let store = Arc::new(TStore::from_data(base_data.clone()));
            let t = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.h.migration);
            let mut plan: Vec<(u64, Act)> = sched.iter().map(|(at, a)| (*at as u64 % (reads + 1), a.clone())).collect();
            plan.sort_by_key(|x| x.0);
            let mut next = split;
            let mine = batches.clone();
            let base = c.h.base;
            store.reset_reads();
            let done = Arc::new(std::sync::Mutex::new((0u64, 0u64, String::new())));
            let d2 = done.clone();
            store.set_hook(Some(Box::new(move |s: &TStore, n: u64| {
                while plan.first().map_or(false, |x| x.0 <= n) {
                    let mut d = d2.lock().unwrap();
                    match plan.remove(0).1 {
                        Act::Commit => {
                            if next < mine.len() {
                                if let Err(e) = s.apply(&mine[next]) {
                                    d.2 = format!("{e:?}");
                                }
                                next += 1;
                                d.0 += 1;
                            }
                        }
                        Act::Purge(p) => {
                            let to = base + p as u64 % (v - base + 1);
                            match s.purge(to) {
                                Err(e) => d.2 = e,
                                Ok(x) => d.1 += x as u64,
                            }
                        }
                    }
                }
            })));
            let got = run_op(op, &t, &store, &q, cont, v);
            store.set_hook(None);
            let (commits, purged, err) = done.lock().unwrap().clone();
            ck!(err.is_empty(), "the interleaved commit or purge fails: {err}");
            ctx.count("operations", 1);
            ctx.count("commits interleaved", commits);
            ctx.count("nodes purged in between", purged);
            ctx.label_if(commits > 0, "a commit in between");
            ctx.label_if(purged > 0, "nodes purged in between");
            ctx.label_if(matches!(op, Op::WriteMany(..)), "a write of several versions");
            ctx.nontrivial_if(commits + purged > 0 && !cont.is_empty());
            let same = match (&want, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.to_string() == b.to_string(),
                _ => false,
            };
            ck!(same, "{op:?} at version {v}: alone {} but with {commits} commits and {purged} nodes purged in between {}", short(&want), short(&got));
        }
        if c.threads > 0 {
            c17_threads::<H>(c, &b.r, &batches, split, ctx)?;
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C18 {
    h: Hist,
    ops: Vec<(Op, u8)>,
}
const MAX_POS: u64 = 48;
fn c18(c: &C18, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C18, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        let n = b.roots.len();
        let q = queries(&b.r.keys);
        for (op, ver) in &c.ops {
            let write = op.is_write();
            let i = *ver as usize % n;
            let v = c.h.base + i as u64;
            // a write is computed on the store as it was when its parent was the newest version
            let (store, t) = if write && i + 1 < n {
                let st = Arc::new(TStore::default());
                let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), c.h.migration);
                for j in 0..=i {
                    let (_, u) = ok!(t.put_value_set(b.r.sets[j].clone(), c.h.base + j as u64), "put_value_set");
                    ok!(st.apply(&u), "commit");
                }
                (st, t)
            } else {
                (b.store.clone(), b.tree.clone())
            };
            let cont = &b.r.contents[i];
            store.reset_reads();
            let want = run_op(op, &t, &store, &q, cont, v);
            let reads = store.reads();
            let before = store.snapshot();
            let step = 1 + reads / MAX_POS;
            let mut at = 0;
            while at < reads {
                for f in [Fault::Error, Fault::Missing] {
                    if f == Fault::Missing && matches!(op, Op::Get(_)) {
                        // a plain read asks the store for the value: a missing value is an absent key
                        continue;
                    }
                    store.fail_read(at, f);
                    let got = no_panic(|| run_op(op, &t, &store, &q, cont, v));
                    let (hit, _) = store.clear_fault();
                    let on_root = store.fault_on_root();
                    store.reset_reads();
                    let got = match got {
                        Err(p) => return Err(format!("{op:?} at version {v}: read {at} of {reads} {f:?}: panic: {p}")),
                        Ok(g) => g,
                    };
                    ctx.count("faults injected", hit as u64);
                    if write && f == Fault::Missing && on_root {
                        // documented: a missing parent root is the empty tree
                        continue;
                    }
                    if let (Ok(g), Ok(w)) = (&got, &want) {
                        ck!(g == w, "{op:?} at version {v}: with read {at} of {reads} {f:?} it returns {} instead of {}", short(&got), short(&want));
                    } else {
                        ck!(got.is_err(), "{op:?} at version {v}: fails alone ({}) but returns {} with read {at} {f:?}", short(&want), short(&got));
                    }
                    if let (true, Err(e)) = (hit, &got) {
                        // only a root is a missing root
                        ck!(on_root || e.downcast_ref::<MissingRootError>().is_none(), "{op:?} at version {v}: read {at} of {reads}, not of the root, is {f:?} and a missing root is reported: {e:?}");
                    }
                    if hit && f == Fault::Error {
                        ck!(got.is_err(), "{op:?} at version {v}: read {at} of {reads} fails and no error is reported");
                        ctx.label("error reported");
                        ctx.nontrivial_if(!cont.is_empty());
                    }
                }
                at += step;
            }
            ck!(store.snapshot() == before, "a failed operation changes the store");
            let again = run_op(op, &t, &store, &q, cont, v);
            let same = match (&again, &want) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ck!(same, "{op:?} at version {v}: after the faults {} instead of {}", short(&again), short(&want));
            // a node really missing
            ctx.count("operations", 1);
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![
        Box::new(Check::<C12> {
            id: "C12",
            level: "exploration",
            rule: "a case is a history of write sets over keys with generated shared prefixes, grouped into calls of put_value_sets and batch_put_value_sets, with purges at generated versions in between; non-trivial: a purge removed nodes while an older version is retained",
            assumptions: &["versions are contiguous", "a purge removes what is stale at or before the given version, as the bundled store does"],
            quick: 3000,
            thorough: 4_000_000,
            strategy: |t| {
                let h = prop_oneof![2 => hist(scaled(HP { versions: 8, ..STD }, t)), 1 => hist(scaled(HP { versions: 8, deletions: false, ..STD }, t))];
                (h, prop::collection::vec((prop_oneof![5 => Just(1u8), 1 => 1u8..5], any::<bool>()), 0..10), prop::collection::vec(prop::option::weighted(0.6, any::<u8>()), 0..12), any::<bool>())
                    .prop_map(|(h, groups, purges, mock)| C12 { h, groups, purges, mock })
                    .boxed()
            },
            run: c12,
        }),
        Box::new(Check::<C13> {
            id: "C13",
            level: "exploration",
            rule: "a case is a history of write sets over keys with generated shared prefixes, a grouping into calls of three kinds (put_value_sets, batch_put_value_sets without and with node hashes), a permutation and repeated writes; non-trivial: calls of several versions or of the batch API",
            assumptions: &["the batch API is given insertions only, non-empty sets, and an existing parent version (or version 0)"],
            quick: 12000,
            thorough: 6_000_000,
            strategy: |t| {
                let how = prop_oneof![2 => Just(How::Sets), 2 => Just(How::Batch), 2 => Just(How::BatchHashes)];
                let h = prop_oneof![1 => hist(scaled(STD, t)), 1 => hist(scaled(HP { deletions: false, ..STD }, t))];
                (h, prop::collection::vec((1u8..6, how), 0..10), prop_oneof![1 => Just(0u64), 1 => any::<u64>()], prop_oneof![2 => Just(0u8), 1 => 1u8..4])
                    .prop_map(|(h, calls, perm, dups)| C13 { h, calls, perm, dups })
                    .boxed()
            },
            run: c13,
        }),
        Box::new(Check::<C15> {
            id: "C15",
            level: "exploration",
            rule: "a case is a history of write sets over keys with generated shared prefixes, grouped into calls of put_value_sets and batch_put_value_sets, with purges in between; non-trivial: at least two versions and a version with at least two keys",
            assumptions: &["versions are contiguous"],
            quick: 25000,
            thorough: 10_000_000,
            strategy: |t| {
                let h = prop_oneof![2 => hist(scaled(STD, t)), 1 => hist(scaled(HP { deletions: false, ..STD }, t))];
                (h, prop::collection::vec((prop_oneof![3 => Just(1u8), 1 => 1u8..5], any::<bool>()), 0..10), prop::collection::vec(prop::bool::weighted(0.2), 0..10))
                    .prop_map(|(h, calls, purges)| C15 { h, calls, purges })
                    .boxed()
            },
            run: c15,
        }),
        Box::new(Check::<C17> {
            id: "C17",
            level: "exploration",
            rule: "a case is a history, a number of versions committed at the start, and operations (reads, proofs, exclusion and range proofs, iterations, counts, write computations) each with a schedule of commits and purges placed before chosen reads of the store, some of them carried out also in threads beside one that commits and purges on the bundled store; non-trivial: a commit or an effective purge happened while an operation on a non-empty version was running",
            assumptions: &["a store access is atomic; interleavings are placed between accesses, or are those of threads", "purges go up to the version being read at most"],
            quick: 16000,
            thorough: 6_000_000,
            strategy: |t| {
                let act = prop_oneof![3 => Just(Act::Commit), 2 => any::<u8>().prop_map(Act::Purge)];
                (hist(scaled(HP { keys: 24, versions: 6, ..STD }, t)), any::<u8>(), prop::collection::vec((op(), any::<u8>(), prop::collection::vec((any::<u8>(), act), 1..6)), 1..8))
                    .prop_map(|(h, split, runs)| C17 { threads: if split % 10 == 0 { 1 + split % 4 } else { 0 }, h, split, runs, strict: false })
                    .boxed()
            },
            run: c17,
        }),
        Box::new(Check::<C18> {
            id: "C18",
            level: "fault_enumeration",
            rule: "a case is a history and operations at versions; every read of the store an operation makes (up to 48 evenly spread) is made to fail once and to find nothing once; non-trivial: a failing read was reported by an operation on a non-empty version",
            assumptions: &["a missing parent root of a write is documented to be the empty tree and is not counted as a fault", "a plain get of a missing value is an absent key"],
            quick: 12000,
            thorough: 4_000_000,
            strategy: |t| {
                (hist(scaled(HP { keys: 24, versions: 5, ..STD }, t)), prop::collection::vec((op(), any::<u8>()), 1..6))
                    .prop_map(|(h, ops)| C18 { h, ops })
                    .boxed()
            },
            run: c18,
        }),
    ]
}
