//! An instrumented store for the Jellyfish tree, and a common interface with the bundled one.
use anyhow::{bail, Result};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::{Version as DbVersion, VersionedDatabase};
use jmt::mock::MockTreeStore;
use jmt::reader::Preimage;
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{KeyHash, OwnedValue};
use parking_lot::Mutex;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Error,
    Missing,
}

#[derive(Default, Clone, PartialEq)]
pub struct Data {
    pub nodes: BTreeMap<NodeKey, Node>,
    pub values: BTreeMap<KeyHash, BTreeMap<u64, Option<OwnedValue>>>,
    pub stale: BTreeSet<StaleNodeIndex>,
    pub pre: BTreeMap<KeyHash, Vec<u8>>,
    /// node identifiers written twice with any content, values written twice with different content
    pub overwrites: Vec<String>,
    pub stale_twice: Vec<String>,
}
type Hook = Box<dyn FnMut(&TStore, u64) + Send>;
#[derive(Default)]
struct Ctl {
    reads: u64,
    budget: Option<u64>,
    fail_read: Option<(u64, Fault)>,
    fault_hit: bool,
    fault_on_node: bool,
    fault_on_root: bool,
    writes: u64,
    fail_write: Option<u64>,
    fail_after: bool,
    write_fault_hit: bool,
    hook: Option<Hook>,
}
#[derive(Clone, Default)]
pub struct TStore {
    d: Arc<Mutex<Data>>,
    c: Arc<Mutex<Ctl>>,
}
impl std::fmt::Debug for TStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TStore")
    }
}

impl TStore {
    pub fn snapshot(&self) -> Data {
        self.d.lock().clone()
    }
    pub fn from_data(d: Data) -> TStore {
        TStore { d: Arc::new(Mutex::new(d)), c: Default::default() }
    }
    pub fn with<T>(&self, f: impl FnOnce(&Data) -> T) -> T {
        f(&self.d.lock())
    }
    pub fn reset_reads(&self) {
        let mut c = self.c.lock();
        c.reads = 0;
        c.fail_read = None;
        c.fault_hit = false;
    }
    pub fn reads(&self) -> u64 {
        self.c.lock().reads
    }
    pub fn writes(&self) -> u64 {
        self.c.lock().writes
    }
    pub fn set_budget(&self, b: Option<u64>) {
        let mut c = self.c.lock();
        c.budget = b;
        c.reads = 0;
    }
    /// The n-th read from now (0-based) fails.
    pub fn fail_read(&self, n: u64, f: Fault) {
        let mut c = self.c.lock();
        c.reads = 0;
        c.fail_read = Some((n, f));
        c.fault_hit = false;
    }
    /// (was the fault reached, was it the read of a node)
    pub fn clear_fault(&self) -> (bool, bool) {
        let mut c = self.c.lock();
        c.fail_read = None;
        (std::mem::take(&mut c.fault_hit), c.fault_on_node)
    }
    /// was the fault at the read of a root node
    pub fn fault_on_root(&self) -> bool {
        self.c.lock().fault_on_root
    }
    pub fn fail_write(&self, n: Option<u64>) {
        let mut c = self.c.lock();
        c.writes = 0;
        c.fail_write = n;
        c.fail_after = false;
        c.write_fault_hit = false;
    }
    /// The failing write is carried out before it reports its failure.
    pub fn fail_write_after(&self, n: u64) {
        self.fail_write(Some(n));
        self.c.lock().fail_after = true;
    }
    pub fn write_fault_hit(&self) -> bool {
        self.c.lock().write_fault_hit
    }
    pub fn set_hook(&self, h: Option<Hook>) {
        let old = std::mem::replace(&mut self.c.lock().hook, h);
        drop(old);
    }
    /// Counts a read; `Ok(true)` means answer as if missing.
    fn on_read(&self, node: bool) -> Result<bool> {
        self.on_read_of(node, false)
    }
    fn on_read_of(&self, node: bool, root: bool) -> Result<bool> {
        let (n, hook) = {
            let mut c = self.c.lock();
            let n = c.reads;
            c.reads += 1;
            if let Some(b) = c.budget {
                if n >= b {
                    bail!("READ-BUDGET-EXCEEDED after {b} reads");
                }
            }
            if let Some((at, f)) = c.fail_read {
                if n == at {
                    c.fault_hit = true;
                    c.fault_on_node = node;
                    c.fault_on_root = root;
                    match f {
                        Fault::Error => bail!("INJECTED read failure"),
                        Fault::Missing => return Ok(true),
                    }
                }
            }
            (n, c.hook.take())
        };
        if let Some(mut h) = hook {
            h(self, n);
            let mut c = self.c.lock();
            if c.hook.is_none() {
                c.hook = Some(h);
            }
        }
        Ok(false)
    }
    /// One atomic write of a whole update.
    pub fn apply(&self, b: &TreeUpdateBatch) -> Result<()> {
        self.write(|d| {
            put_nodes(d, &b.node_batch);
            for s in &b.stale_node_index_batch {
                if !d.stale.insert(s.clone()) {
                    d.stale_twice.push(format!("{s:?}"));
                }
            }
        })
    }
    /// One atomic write; it fails where a failure was asked for, without or with effect.
    fn write(&self, f: impl FnOnce(&mut Data)) -> Result<()> {
        let (fail, after) = {
            let mut c = self.c.lock();
            let n = c.writes;
            c.writes += 1;
            let fail = c.fail_write == Some(n);
            c.write_fault_hit |= fail;
            (fail, c.fail_after)
        };
        if !fail || after {
            f(&mut self.d.lock());
        }
        if fail {
            bail!("INJECTED write failure");
        }
        Ok(())
    }
    /// Removes what is stale at or before `v`. Errors when an index names a node which is not there.
    pub fn purge(&self, v: u64) -> Result<usize, String> {
        let mut d = self.d.lock();
        let l: Vec<StaleNodeIndex> = d.stale.iter().filter(|s| s.stale_since_version <= v).cloned().collect();
        for s in &l {
            if d.nodes.remove(&s.node_key).is_none() {
                return Err(format!("stale index names a node that does not exist: {s:?}"));
            }
            d.stale.remove(s);
        }
        Ok(l.len())
    }
    pub fn put_pre(&self, k: KeyHash, p: &[u8]) {
        self.d.lock().pre.insert(k, p.to_vec());
    }
    pub fn remove_node(&self, k: &NodeKey) -> Option<Node> {
        self.d.lock().nodes.remove(k)
    }
}
fn put_nodes(d: &mut Data, b: &NodeBatch) {
    for (k, n) in b.nodes() {
        if d.nodes.insert(k.clone(), n.clone()).is_some() {
            d.overwrites.push(format!("node {k:?}"));
        }
    }
    for ((v, k), val) in b.values() {
        let h = d.values.entry(*k).or_default();
        if h.insert(*v, val.clone()).is_some() {
            d.overwrites.push(format!("value {v} {k:?}"));
        }
    }
}

impl TreeReader for TStore {
    type Version = DbVersion;
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        if self.on_read_of(true, key_parts(k).1.is_empty())? {
            return Ok(None);
        }
        Ok(self.d.lock().nodes.get(k).cloned())
    }
    fn get_value_option(&self, v: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        if self.on_read(false)? {
            return Ok(None);
        }
        Ok(self.d.lock().values.get(&k).and_then(|h| h.range(..=v.0).next_back()).and_then(|(_, x)| x.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        if self.on_read(false)? {
            return Ok(None);
        }
        let d = self.d.lock();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in &d.nodes {
            if let Node::Leaf(l) = n {
                if best.as_ref().map_or(true, |b| l.key_hash() > b.1.key_hash()) {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
}
impl TreeWriter for TStore {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        self.write(|d| put_nodes(d, b))
    }
}
impl HasPreimage for TStore {
    fn preimage(&self, k: KeyHash) -> Result<Option<Preimage>> {
        if self.on_read(false)? {
            return Ok(None);
        }
        Ok(self.d.lock().pre.get(&k).map(|p| Preimage(p.clone())))
    }
}
impl VersionedDatabase for TStore {
    type Version = DbVersion;
    type NodeIter = std::vec::IntoIter<(NodeKey, Node)>;
    type HistoryIter = std::vec::IntoIter<(KeyHash, Vec<(DbVersion, Option<OwnedValue>)>)>;
    fn get(&self, v: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.get_value_option(v, k)
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> Result<()> {
        self.apply(&b)
    }
    fn nodes(&self) -> Self::NodeIter {
        self.d.lock().nodes.clone().into_iter().collect::<Vec<_>>().into_iter()
    }
    fn value_history(&self) -> Self::HistoryIter {
        let d = self.d.lock();
        d.values
            .iter()
            .map(|(k, h)| (*k, h.iter().map(|(v, x)| (DbVersion(*v), x.clone())).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
            .into_iter()
    }
}

/// What the checks need of a store.
pub trait Store:
    TreeReader<Version = DbVersion> + VersionedDatabase<Version = DbVersion> + TreeWriter + HasPreimage + 'static
{
    fn fresh() -> Self;
    fn commit(&self, b: TreeUpdateBatch) -> Result<()>;
    fn do_purge(&self, v: u64) -> Result<(), String>;
    fn add_preimage<H: jmt::SimpleHasher>(&self, key: &[u8]);
    fn all_nodes(&self) -> BTreeMap<NodeKey, Node>;
}
impl Store for TStore {
    fn fresh() -> Self {
        TStore::default()
    }
    fn commit(&self, b: TreeUpdateBatch) -> Result<()> {
        self.apply(&b)
    }
    fn do_purge(&self, v: u64) -> Result<(), String> {
        self.purge(v).map(|_| ())
    }
    fn add_preimage<H: jmt::SimpleHasher>(&self, key: &[u8]) {
        self.put_pre(KeyHash(H::hash(key)), key)
    }
    fn all_nodes(&self) -> BTreeMap<NodeKey, Node> {
        self.d.lock().nodes.clone()
    }
}
impl Store for MockTreeStore {
    fn fresh() -> Self {
        MockTreeStore::default()
    }
    fn commit(&self, b: TreeUpdateBatch) -> Result<()> {
        self.update(b)
    }
    fn do_purge(&self, v: u64) -> Result<(), String> {
        self.purge_stale_nodes(v).map_err(|e| e.to_string())
    }
    fn add_preimage<H: jmt::SimpleHasher>(&self, key: &[u8]) {
        self.put_key_preimage::<H>(&Preimage(key.to_vec()))
    }
    fn all_nodes(&self) -> BTreeMap<NodeKey, Node> {
        VersionedDatabase::nodes(self).collect()
    }
}

/// A node key from a version and nibbles, through its documented encoding.
pub fn node_key(version: u64, nibbles: &[u8]) -> NodeKey {
    let mut b = vec![];
    version.serialize(&mut b).unwrap();
    (nibbles.len() as u64).serialize(&mut b).unwrap();
    let mut bytes = vec![0u8; nibbles.len().div_ceil(2)];
    for (i, n) in nibbles.iter().enumerate() {
        bytes[i / 2] |= if i % 2 == 0 { n << 4 } else { *n };
    }
    bytes.serialize(&mut b).unwrap();
    NodeKey::try_from_slice(&b).expect("node key encoding")
}
/// (version, nibbles) of a node key, through its encoding.
pub fn key_parts(k: &NodeKey) -> (u64, Vec<u8>) {
    let e = k.try_to_vec().unwrap();
    let (v, n, bytes) = <(u64, u64, Vec<u8>)>::try_from_slice(&e).expect("node key encoding");
    let nib = (0..n as usize).map(|i| if i % 2 == 0 { bytes[i / 2] >> 4 } else { bytes[i / 2] & 15 }).collect();
    (v, nib)
}

/// All nodes reachable from the root of version `v`. `Err` names a missing node.
pub fn reachable(nodes: &BTreeMap<NodeKey, Node>, v: u64) -> Result<BTreeMap<NodeKey, Node>, String> {
    let mut out = BTreeMap::new();
    let mut todo: Vec<(u64, Vec<u8>)> = vec![(v, vec![])];
    while let Some((ver, path)) = todo.pop() {
        let k = node_key(ver, &path);
        let n = nodes.get(&k).ok_or_else(|| format!("missing node {k:?} reachable at version {v}"))?;
        if let Node::Internal(i) = n {
            for (nib, ch) in i.children_sorted() {
                let mut p = path.clone();
                p.push(u8::from(nib));
                if p.len() > 64 {
                    return Err("path longer than 64 nibbles".into());
                }
                todo.push((ch.version, p));
            }
        }
        out.insert(k, n.clone());
    }
    Ok(out)
}
