//! C27 (bundled stores) and C28 (hashing primitives).
use crate::ptrie::*;
use crate::runner::*;
use crate::tstore::node_key;
use crate::{ck, ck_eq, ok};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::{Version as DbVersion, VersionedDatabase};
use jmt::mock::MockTreeStore;
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{KeyHash, RootHash, SimpleHasher, ValueHash};
use patriecia::{Database, InnerTrie, MemoryDB, Preimage, Trie, H256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

type Bytes = Vec<u8>;

// ---------------------------------------------------------------- C27
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp {
    Insert(u8, Bytes),
    Remove(u8),
    InsertBatch(Vec<(u8, Bytes)>),
    RemoveBatch(Vec<u8>),
    /// so many keys at once, put in or (the other way round) taken out
    Many(u32, bool),
    Flush,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SBatch {
    nodes: Vec<(u8, u8)>,
    values: Vec<(u8, u8, Option<Bytes>)>,
    stale: Vec<(u8, u8)>,
    /// how the batch is put together and written
    via: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    PutLeaf(u8, u8, Bytes),
    Batch(SBatch),
    /// a value older than the newest of its key
    Back(u8, u8),
    /// a stale index recorded before
    Again(u8),
    Purge(u8),
    Preimage(Bytes),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Conc {
    Mem { light: bool, writers: u8, readers: u8, stable: u8, rounds: u16, batch: u8 },
    Store { readers: u8, keys: u8, versions: u16, purger: bool, nodes: u8 },
    Tries { threads: u8, keys: u8, commits: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C27 {
    light: bool,
    mem: Vec<MOp>,
    overwrite: bool,
    store: Vec<SOp>,
    conc: Option<Conc>,
}

fn mkey(i: u8) -> Bytes {
    let i = i % 12;
    match i {
        0 => vec![],
        1..=3 => vec![i],
        4..=6 => vec![1, i],
        7..=9 => vec![0; (i - 6) as usize],
        _ => vec![i; 32],
    }
}
fn c27_mem(c: &C27) -> R {
    let a = if c.light { MemoryDB::new(true) } else { MemoryDB::new(false) };
    let b = a.clone();
    let mut m: BTreeMap<Bytes, Bytes> = BTreeMap::new();
    for (i, op) in c.mem.iter().enumerate() {
        // clones are handles on the same storage
        let (w, r) = if i % 2 == 0 { (&a, &b) } else { (&b, &a) };
        let what = format!("operation {i} {op:?}");
        match op {
            MOp::Insert(k, v) => {
                ok!(w.insert(&mkey(*k), v.clone()), "{what}");
                m.insert(mkey(*k), v.clone());
            }
            MOp::Remove(k) => {
                ok!(w.remove(&mkey(*k)), "{what}");
                if c.light {
                    m.remove(&mkey(*k));
                }
            }
            MOp::InsertBatch(v) => {
                ok!(w.insert_batch(v.iter().map(|x| mkey(x.0)).collect(), v.iter().map(|x| x.1.clone()).collect()), "{what}");
                for (k, v) in v {
                    m.insert(mkey(*k), v.clone());
                }
            }
            MOp::RemoveBatch(v) => {
                ok!(w.remove_batch(&v.iter().map(|x| mkey(*x)).collect::<Vec<_>>()), "{what}");
                if c.light {
                    for k in v {
                        m.remove(&mkey(*k));
                    }
                }
            }
            MOp::Many(n, put) => {
                let kv: Vec<(Bytes, Bytes)> = (0..*n).map(|i| (format!("many {i}").into_bytes(), i.to_le_bytes().to_vec())).collect();
                if *put {
                    ok!(w.insert_batch(kv.iter().map(|x| x.0.clone()).collect(), kv.iter().map(|x| x.1.clone()).collect()), "{what}");
                    m.extend(kv);
                } else {
                    ok!(w.remove_batch(&kv.iter().rev().map(|x| x.0.clone()).collect::<Vec<_>>()), "{what}");
                    if c.light {
                        kv.iter().for_each(|x| drop(m.remove(&x.0)));
                    }
                }
            }
            MOp::Flush => ok!(w.flush(), "{what}"),
        }
        for k in 0..12 {
            ck_eq!(ok!(r.get(&mkey(k)), "get"), m.get(&mkey(k)).cloned(), "after {what}: get({})", hex::encode(mkey(k)));
        }
        ck_eq!(ok!(r.len(), "len"), m.len(), "after {what}: len()");
        ck_eq!(ok!(r.is_empty(), "is_empty"), m.is_empty(), "after {what}: is_empty()");
        let mut v = ok!(r.values(), "values");
        v.sort();
        ck_eq!(v, m.clone().into_iter().collect::<Vec<_>>(), "after {what}: values()");
    }
    Ok(())
}
const NKEYS: u8 = 16;
fn skey(i: u8) -> NodeKey {
    let i = i % NKEYS;
    let p: &[u8] = match i / 4 {
        0 => &[],
        1 => &[3],
        2 => &[3, 0],
        _ => &[0, 3, 15],
    };
    node_key([0, 1, 2, 9][i as usize % 4], p)
}
const NHASH: u8 = 8;
fn khash(i: u8) -> KeyHash {
    let i = i % NHASH;
    let mut b = [i / 2 * 60; 32];
    b[31] = i;
    KeyHash(b)
}
const VMAX: u64 = 12;
#[derive(Default)]
struct SModel {
    nodes: BTreeMap<NodeKey, Node>,
    stale: BTreeSet<(u64, NodeKey)>,
    hist: BTreeMap<KeyHash, BTreeMap<u64, Option<Bytes>>>,
    pre: BTreeMap<KeyHash, Bytes>,
}
impl SModel {
    fn newest(&self, k: &KeyHash) -> Option<u64> {
        self.hist.get(k).and_then(|h| h.keys().next_back().copied())
    }
    fn check(&self, s: &MockTreeStore, what: &str) -> R {
        for i in 0..NKEYS {
            let k = skey(i);
            ck_eq!(ok!(s.get_node_option(&k), "get_node_option"), self.nodes.get(&k).cloned(), "{what}: get_node_option({k:?})");
            ck_eq!(s.get_node(&k).ok(), self.nodes.get(&k).cloned(), "{what}: get_node({k:?})");
        }
        for i in 0..NHASH {
            let k = khash(i);
            for v in (0..=VMAX + 1).chain([u64::MAX]) {
                let e = self.hist.get(&k).and_then(|h| h.range(..=v).next_back()).and_then(|x| x.1.clone());
                ck_eq!(ok!(s.get_value_option(DbVersion(v), k), "get_value_option"), e, "{what}: value of {k:?} up to version {v}");
                ck_eq!(ok!(VersionedDatabase::get(s, DbVersion(v), k), "get"), e, "{what}: get() of {k:?} up to version {v}");
                ck_eq!(s.get_value(DbVersion(v), k).ok(), e, "{what}: get_value() of {k:?} up to version {v}");
            }
        }
        ck_eq!(s.num_nodes(), self.nodes.len(), "{what}: num_nodes()");
        let nodes: Vec<_> = VersionedDatabase::nodes(s).collect();
        ck_eq!(nodes.len(), self.nodes.len(), "{what}: length of nodes()");
        ck!(nodes.into_iter().collect::<BTreeMap<_, _>>() == self.nodes, "{what}: nodes()");
        let hist: Vec<_> = VersionedDatabase::value_history(s).collect();
        ck_eq!(hist.len(), self.hist.len(), "{what}: length of value_history()");
        for (k, h) in hist {
            let e = self.hist.get(&k).map(|h| h.iter().map(|(v, x)| (DbVersion(*v), x.clone())).collect::<Vec<_>>());
            ck_eq!(Some(h), e, "{what}: value_history() of {k:?}");
        }
        let live = self.hist.values().filter(|h| h.values().next_back().map_or(false, |v| v.is_some())).count();
        ck_eq!(VersionedDatabase::len(s), live, "{what}: len()");
        ck_eq!(VersionedDatabase::is_empty(s), live == 0, "{what}: is_empty()");
        let latest = self.hist.values().flat_map(|h| h.keys()).max().copied().unwrap_or(0);
        ck_eq!(VersionedDatabase::version(s), DbVersion(latest), "{what}: version()");
        let best = self.nodes.values().filter_map(|n| if let Node::Leaf(l) = n { Some(l.key_hash()) } else { None }).max();
        let got = ok!(s.get_rightmost_leaf(), "get_rightmost_leaf");
        ck_eq!(got.as_ref().map(|x| x.1.key_hash()), best, "{what}: get_rightmost_leaf()");
        if let Some((k, l)) = got {
            ck!(self.nodes.get(&k) == Some(&Node::Leaf(l)), "{what}: get_rightmost_leaf() gives another node's key");
        }
        for (k, p) in &self.pre {
            ck_eq!(ok!(s.preimage(*k), "preimage").map(|p| p.key()), Some(p.clone()), "{what}: preimage of {k:?}");
        }
        for i in 0..NHASH {
            ck!(ok!(s.preimage(khash(i)), "preimage").is_none(), "{what}: a preimage nobody registered");
        }
        Ok(())
    }
}
fn leaf(k: u8, x: u8) -> LeafNode {
    LeafNode::new(khash(k), ValueHash([x; 32]))
}
fn c27_store(c: &C27, ctx: &mut Ctx) -> R {
    let a = MockTreeStore::new(c.overwrite);
    let b = a.clone();
    let mut m = SModel::default();
    m.check(&a, "a new store")?;
    for (i, op) in c.store.iter().enumerate() {
        let (w, r) = if i % 2 == 0 { (&a, &b) } else { (&b, &a) };
        let what = format!("operation {i} {op:?}");
        match op {
            SOp::PutLeaf(n, k, v) => {
                let (nk, kh) = (skey(*n), khash(*k));
                let res = w.put_leaf(nk.clone(), leaf(*k, *n), v.clone());
                if m.nodes.contains_key(&nk) {
                    ck!(res.is_err(), "{what}: put_leaf over an existing node succeeds");
                    ctx.label("leaf over an existing node");
                } else if m.newest(&kh).map_or(false, |x| x > nk.version()) {
                    // refused for its value; whether its node was written is not specified
                    ck!(res.is_err(), "{what}: put_leaf with a value older than the newest succeeds");
                    if let Some(n) = ok!(r.get_node_option(&nk), "get_node_option") {
                        m.nodes.insert(nk, n);
                    }
                } else {
                    ok!(res, "{what}");
                    m.nodes.insert(nk.clone(), Node::Leaf(leaf(*k, *n)));
                    m.hist.entry(kh).or_default().insert(nk.version(), Some(v.clone()));
                }
            }
            SOp::Batch(sb) => {
                let (mut nodes, mut values, mut stale) = (BTreeMap::new(), BTreeMap::new(), BTreeSet::new());
                for (n, k) in &sb.nodes {
                    let nk = skey(*n);
                    if c.overwrite || !m.nodes.contains_key(&nk) {
                        nodes.insert(nk, if k % 5 == 4 { Node::Null } else { Node::Leaf(leaf(*k, k / 5)) });
                    }
                }
                for (v, k, x) in &sb.values {
                    let (v, kh) = (*v as u64 % (VMAX + 1), khash(*k));
                    if m.newest(&kh).map_or(true, |n| n <= v) && (sb.via % 4 != 2 || x.is_some()) {
                        values.insert((v, kh), x.clone());
                    }
                }
                if sb.via % 2 == 0 {
                    for (v, n) in &sb.stale {
                        let (v, nk) = (*v as u64 % (VMAX + 1), skey(*n));
                        let known = m.nodes.contains_key(&nk) || nodes.contains_key(&nk);
                        if known && !m.stale.iter().chain(&stale).any(|x: &(u64, NodeKey)| x.1 == nk) {
                            stale.insert((v, nk));
                        }
                    }
                }
                // the batch, in one of several ways
                let mut nb = NodeBatch::default();
                ck!(nb.is_empty(), "a new batch is not empty");
                match sb.via % 4 {
                    0 => nb.extend(nodes.clone(), values.clone()),
                    1 => {
                        let mut x = NodeBatch::default();
                        // replaced by what is merged in
                        x.extend(nodes.keys().take(1).map(|k| (k.clone(), Node::Leaf(leaf(0, 77)))), values.keys().take(1).map(|k| (*k, Some(vec![77]))));
                        let mut y = NodeBatch::default();
                        y.extend(nodes.clone(), values.clone());
                        x.merge(y);
                        nb = x;
                    }
                    2 => {
                        for (k, n) in &nodes {
                            ck!(nb.insert_node(k.clone(), Node::Null).is_none(), "{what}: insert_node of a new node gives one");
                            ck_eq!(nb.insert_node(k.clone(), n.clone()), Some(Node::Null), "{what}: insert_node over a node");
                        }
                        for ((v, k), x) in &values {
                            nb.insert_value(*v, *k, x.clone().unwrap());
                        }
                    }
                    _ => {
                        nb.extend([(skey(0), Node::Null)], [((99, khash(0)), None)]);
                        nb.clear();
                        ck!(nb.is_empty() && nb.nodes().is_empty() && nb.values().is_empty(), "{what}: a cleared batch is not empty");
                        nb.extend(nodes.clone(), []);
                        nb.extend([], values.clone());
                    }
                }
                ck!(nb.nodes() == &nodes && nb.values() == &values, "{what}: the batch holds something else");
                ck_eq!(nb.is_empty(), nodes.is_empty() && values.is_empty(), "{what}: is_empty() of the batch");
                for i in 0..NKEYS {
                    ck!(nb.get_node(&skey(i)) == nodes.get(&skey(i)), "{what}: get_node() of the batch");
                }
                if sb.via % 2 == 1 {
                    ok!(w.write_node_batch(&nb), "{what}");
                } else {
                    let tb = TreeUpdateBatch {
                        node_batch: nb,
                        stale_node_index_batch: stale.iter().map(|(v, k)| StaleNodeIndex { stale_since_version: *v, node_key: k.clone() }).collect(),
                        node_stats: vec![],
                    };
                    match sb.via % 3 {
                        0 => ok!(w.write_tree_update_batch(tb), "{what}"),
                        1 => ok!(VersionedDatabase::update_batch(w, tb), "{what}"),
                        _ => ok!(VersionedDatabase::update(w, tb), "{what}"),
                    }
                }
                m.nodes.extend(nodes);
                for ((v, k), x) in values {
                    m.hist.entry(k).or_default().insert(v, x);
                }
                m.stale.extend(stale);
            }
            SOp::Back(k, d) => {
                let kh = khash(*k);
                if let Some(n) = m.newest(&kh).filter(|n| *n > 0) {
                    let v = n - 1 - (*d as u64 % n);
                    let mut nb = NodeBatch::default();
                    nb.insert_value(v, kh, vec![1, 2, 3]);
                    ck!(w.write_node_batch(&nb).is_err(), "{what}: a value at version {v} after one at {n} is accepted");
                    let mut map: std::collections::HashMap<KeyHash, Vec<(DbVersion, Option<Bytes>)>> = VersionedDatabase::value_history(r).collect();
                    let was = map.clone();
                    ck!(jmt::mock::put_value(&mut map, DbVersion(v), kh, None).is_err(), "{what}: put_value accepts version {v} after {n}");
                    ck!(map == was, "{what}: a refused put_value changes the history");
                    ctx.label("value version going back");
                }
            }
            SOp::Again(i) => {
                if !m.stale.is_empty() {
                    let (v, k) = m.stale.iter().nth(*i as usize % m.stale.len()).unwrap().clone();
                    let tb = TreeUpdateBatch { stale_node_index_batch: [StaleNodeIndex { stale_since_version: v, node_key: k }].into(), ..Default::default() };
                    ck!(w.write_tree_update_batch(tb).is_err(), "{what}: a node is retired twice at one version");
                    ctx.label("node retired twice");
                }
            }
            SOp::Purge(v) => {
                let v = *v as u64 % (VMAX + 2);
                ok!(w.purge_stale_nodes(v), "{what}");
                let gone: Vec<_> = m.stale.iter().filter(|x| x.0 <= v).cloned().collect();
                for x in gone {
                    m.nodes.remove(&x.1);
                    m.stale.remove(&x);
                    ctx.label("purged");
                }
            }
            SOp::Preimage(p) => {
                w.put_key_preimage::<jmt::Sha256>(&Preimage(p.clone()));
                m.pre.insert(KeyHash(<sha2::Sha256 as sha2::Digest>::digest(p).into()), p.clone());
            }
        }
        m.check(r, &format!("after {what}"))?;
    }
    Ok(())
}

/// Runs threads to their end; a reader runs until all writers are done, and once more.
fn threads(writers: Vec<Box<dyn FnOnce() -> R + Send + '_>>, readers: Vec<Box<dyn Fn() -> R + Send + Sync + '_>>) -> R {
    let done = AtomicBool::new(false);
    let started = AtomicU64::new(0);
    let n = (writers.len() + readers.len()) as u64;
    std::thread::scope(|s| {
        let (done, started) = (&done, &started);
        let gate = move || {
            started.fetch_add(1, SeqCst);
            while started.load(SeqCst) < n {
                std::thread::yield_now();
            }
        };
        let ws: Vec<_> = writers
            .into_iter()
            .map(|w| {
                s.spawn(move || {
                    gate();
                    no_panic(w).unwrap_or_else(|p| Err(format!("a writing thread panics: {p}")))
                })
            })
            .collect();
        let rs: Vec<_> = readers
            .into_iter()
            .map(|r| {
                s.spawn(move || {
                    gate();
                    loop {
                        let last = done.load(SeqCst);
                        no_panic(|| r()).unwrap_or_else(|p| Err(format!("a reading thread panics while another one writes: {p}")))?;
                        if last {
                            return Ok(());
                        }
                    }
                })
            })
            .collect();
        let mut out = Ok(());
        for w in ws {
            out = out.and(w.join().unwrap_or(Err("thread".into())));
        }
        done.store(true, SeqCst);
        for r in rs {
            let r: R = r.join().unwrap_or(Err("thread".into()));
            out = out.and(r);
        }
        out
    })
}
fn num(b: &[u8]) -> u64 {
    u64::from_be_bytes(b.try_into().unwrap_or([0; 8]))
}
fn conc(c: &Conc, ctx: &mut Ctx) -> R {
    match c {
        Conc::Mem { light, writers, readers, stable, rounds, batch } => {
            ctx.label("concurrent use of the node database");
            let db = MemoryDB::new(*light);
            let st: Vec<(Bytes, Bytes)> = (0..*stable as u16 + 1).map(|i| (vec![1, (i >> 8) as u8, i as u8], vec![i as u8; 5])).collect();
            for (k, v) in &st {
                ok!(db.insert(k, v.clone()), "insert");
            }
            let nw = *writers as usize % 3 + 1;
            for w in 0..nw {
                ok!(db.insert(&[2, w as u8], 0u64.to_be_bytes().to_vec()), "insert");
            }
            let seen: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
            let (db, st, seen) = (&db, &st, &seen);
            let batch = *batch as usize % 8 + 1;
            let ws = (0..nw).map(|w| {
                let db = db.clone();
                Box::new(move || -> R {
                    for i in 1..=*rounds as u64 {
                        ok!(db.insert(&[2, w as u8], i.to_be_bytes().to_vec()), "insert");
                        let ks: Vec<Bytes> = (0..batch).map(|j| vec![3, w as u8, j as u8]).collect();
                        ok!(db.insert_batch(ks.clone(), ks.iter().map(|_| i.to_be_bytes().to_vec()).collect()), "insert_batch");
                        for k in &ks {
                            ck_eq!(ok!(db.get(k), "get"), Some(i.to_be_bytes().to_vec()), "a thread's own write, read back");
                        }
                        if i % 3 == 0 {
                            ok!(db.remove_batch(&ks), "remove_batch");
                            for k in &ks {
                                ck_eq!(ok!(db.get(k), "get").is_none(), *light, "a thread's own removal, read back");
                            }
                        }
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> R + Send + '_>
            });
            let rs = (0..*readers % 3 + 1).map(|_| {
                Box::new(move || -> R {
                    for _ in 0..20 {
                        let n = ok!(db.len(), "len");
                        ck!(n >= st.len() + nw && n <= st.len() + nw * (1 + batch), "len() is {n} with {} keys which stay", st.len() + nw);
                        ck!(!ok!(db.is_empty(), "is_empty"), "is_empty() with {} keys which stay", st.len());
                        let v: BTreeMap<Bytes, Bytes> = ok!(db.values(), "values").into_iter().collect();
                        for (k, x) in st {
                            ck_eq!(v.get(k), Some(x), "values() while another thread writes, of a key which stays");
                            ck_eq!(ok!(db.get(k), "get").as_ref(), Some(x), "get() while another thread writes, of a key which stays");
                        }
                        for w in 0..nw {
                            let before = seen[w].load(SeqCst);
                            let now = num(&ok!(db.get(&[2, w as u8]), "get").unwrap_or_default());
                            ck!(now >= before, "a reader sees {now} after {before} was read");
                            seen[w].fetch_max(now, SeqCst);
                            let listed = v.get(&vec![2, w as u8]).map(|x| num(x));
                            ck!(listed.map_or(false, |l| l <= now), "values() has {listed:?}, later get() gives {now}");
                        }
                    }
                    Ok(())
                }) as Box<dyn Fn() -> R + Send + Sync + '_>
            });
            threads(ws.collect(), rs.collect())?;
            for w in 0..nw {
                ck_eq!(ok!(db.get(&[2, w as u8]), "get"), Some((*rounds as u64).to_be_bytes().to_vec()), "last write of writer {w}");
            }
            let removed = *light && *rounds > 0 && *rounds % 3 == 0;
            let n = st.len() + nw * (1 + if removed || *rounds == 0 { 0 } else { batch });
            ck_eq!(ok!(db.len(), "len"), n, "len() in the end");
            Ok(())
        }
        Conc::Store { readers, keys, versions, purger, nodes } => {
            ctx.label("concurrent use of the tree store");
            let s = MockTreeStore::new(false);
            let nk = *keys as u64 % 6 + 1;
            let nn = *nodes as u64 % 4 + 1;
            // key i is written at versions which are multiples of i + 1, and deleted at every fourth of those
            let val = |v: u64, i: u64| -> Option<Bytes> {
                let at = v / (i + 1);
                if at % 4 == 3 {
                    None
                } else {
                    Some(vec![i as u8, at as u8, (at >> 8) as u8])
                }
            };
            let (published, target) = (AtomicU64::new(0), AtomicU64::new(0));
            let top = *versions as u64 + 1;
            let node = |v: u64, j: u64| node_key(v, &[j as u8, 1]);
            let write = |v: u64| -> R {
                let mut b = TreeUpdateBatch::default();
                b.node_batch.extend(
                    (0..nn).map(|j| (node(v, j), Node::Leaf(leaf(j as u8, v as u8)))),
                    (0..nk).filter(|i| v % (i + 1) == 0).map(|i| ((v, khash(i as u8)), val(v, i))),
                );
                if v > 0 {
                    b.stale_node_index_batch = (0..nn).map(|j| StaleNodeIndex { stale_since_version: v, node_key: node(v - 1, j) }).collect();
                }
                ok!(s.write_tree_update_batch(b), "version {v}");
                Ok(())
            };
            write(0)?;
            let (published, target, s) = (&published, &target, &s);
            let write = &write;
            let mut ws: Vec<Box<dyn FnOnce() -> R + Send + '_>> = vec![Box::new(move || {
                for v in 1..=top {
                    write(v)?;
                    published.store(v, SeqCst);
                }
                Ok(())
            })];
            if *purger {
                ws.push(Box::new(move || {
                    while published.load(SeqCst) < top {
                        let p = published.load(SeqCst).saturating_sub(3);
                        target.store(p, SeqCst);
                        ok!(s.purge_stale_nodes(p), "purge_stale_nodes({p}) with {} written", published.load(SeqCst));
                        std::thread::yield_now();
                    }
                    Ok(())
                }));
            }
            let rs = (0..*readers % 3 + 1).map(|_| {
                Box::new(move || -> R {
                    for x in 0..10u64 {
                        let p = published.load(SeqCst);
                        let v = p - (x % (p + 1)).min(p);
                        for i in 0..nk {
                            ck_eq!(ok!(s.get_value_option(DbVersion(v), khash(i as u8)), "get_value_option"), val(v / (i + 1) * (i + 1), i), "value {i} at version {v} with {p} written");
                        }
                        for j in 0..nn {
                            match ok!(s.get_node_option(&node(v, j)), "get_node_option") {
                                Some(n) => ck!(n == Node::Leaf(leaf(j as u8, v as u8)), "node {j} of version {v} is another one"),
                                None => ck!(v < target.load(SeqCst), "node {j} of version {v} is missing, purged up to {} with {p} written", target.load(SeqCst)),
                            }
                        }
                        // a batch is there as a whole: its values, once any of its nodes is
                        let (v, j) = (published.load(SeqCst) + 1, x % nn);
                        if v <= top && (0..60).any(|_| matches!(s.get_node_option(&node(v, j)), Ok(Some(_)))) {
                            for i in (0..nk).rev() {
                                ck_eq!(ok!(s.get_value_option(DbVersion(v), khash(i as u8)), "get_value_option"), val(v / (i + 1) * (i + 1), i), "value {i} at version {v}, of which node {j} is there");
                            }
                            for j in 0..nn {
                                ck!(ok!(s.get_node_option(&node(v, j)), "get_node_option").is_some() || v < target.load(SeqCst), "node {j} of version {v} is missing, of which others are there");
                            }
                        }
                        let n = s.num_nodes() as u64;
                        let t = target.load(SeqCst);
                        ck!(n >= (p + 1).saturating_sub(t) * nn, "num_nodes() is {n}, purged up to {t}, written up to {p}");
                        let l = VersionedDatabase::nodes(s).filter(|(k, _)| k.version() >= t && k.version() <= p).count() as u64;
                        let t = target.load(SeqCst);
                        ck!(l >= (p + 1).saturating_sub(t) * nn, "nodes() lists {l} nodes of versions {t} to {p}");
                        let ver = VersionedDatabase::version(s);
                        ck!(ver.0 >= p && ver.0 <= top, "version() is {ver} with {p} written");
                        ck!(VersionedDatabase::value_history(s).count() as u64 == nk, "value_history() lacks keys");
                    }
                    Ok(())
                }) as Box<dyn Fn() -> R + Send + Sync + '_>
            });
            threads(ws, rs.collect())
        }
        Conc::Tries { threads: n, keys, commits } => {
            ctx.label("concurrent tries over one database");
            let db = Arc::new(MemoryDB::new(false));
            let roots = parking_lot::Mutex::new(Vec::<(H256, PKV)>::new());
            let (db, roots) = (&db, &roots);
            let ws = (0..*n as usize % 3 + 2).map(|t| {
                Box::new(move || -> R {
                    let mut trie = InnerTrie::new(db.clone());
                    let mut cur = PKV::new();
                    for c in 0..*commits as usize % 8 + 2 {
                        for i in 0..*keys as usize % 12 + 2 {
                            // subtrees are shared between the threads' tries
                            let k = vec![(i * 37) as u8, (c % 3) as u8];
                            if (i + c + t) % 5 == 0 {
                                ck_eq!(ok!(trie.remove(&k), "remove"), cur.remove(&k).is_some(), "result of a removal");
                            } else {
                                let v = vec![(c / 2) as u8 + 1; 1 + i * 5];
                                ok!(trie.insert(&k, &v), "insert");
                                cur.insert(k, v);
                            }
                        }
                        let r = ok!(trie.commit(), "commit");
                        ck_eq!(r.0, Mpt::new(&cur).root(), "root of a trie built next to others");
                        let other = {
                            let mut l = roots.lock();
                            l.push((r, cur.clone()));
                            l[(c * 7 + t) % l.len()].clone()
                        };
                        let v: PKV = InnerTrie::new(db.clone()).at_root(other.0).iter().collect();
                        ck!(v == other.1, "a trie at another thread's root lists {} keys instead of {}", v.len(), other.1.len());
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> R + Send + '_>
            });
            let rs = vec![Box::new(move || -> R {
                let l = roots.lock().clone();
                for (r, c) in l.iter().rev().take(3) {
                    let t = InnerTrie::new(db.clone()).at_root(*r);
                    for (k, v) in c.iter().take(5) {
                        ck_eq!(ok!(t.get(k), "get").as_ref(), Some(v), "a trie at another thread's root");
                    }
                }
                Ok(())
            }) as Box<dyn Fn() -> R + Send + Sync + '_>];
            threads(ws.collect(), rs)
        }
    }
}
fn c27(c: &C27, ctx: &mut Ctx) -> R {
    c27_mem(c)?;
    c27_store(c, ctx)?;
    if let Some(x) = &c.conc {
        conc(x, ctx)?;
    }
    ctx.label_if(c.overwrite, "store that may be overwritten");
    ctx.label_if(c.light, "pruning node database");
    ctx.nontrivial_if(c.mem.len() + c.store.len() >= 3 || c.conc.is_some());
    Ok(())
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C28 {
    data: Bytes,
    repeat: u16,
    cuts: Vec<u16>,
    keys: Vec<Bytes>,
    num: u64,
}
fn one_hasher<H: SimpleHasher>(name: &str, data: &[u8], cuts: &[usize], digest: [u8; 32]) -> R {
    ck_eq!(H::hash(data), digest, "{name} of {} bytes in one go", data.len());
    let mut h = H::new();
    let mut at = 0;
    for c in cuts {
        h.update(&data[at..*c]);
        at = *c;
    }
    let g = h.clone();
    h.update(&data[at..]);
    ck_eq!(h.finalize(), digest, "{name} of {} bytes in {} pieces", data.len(), cuts.len() + 1);
    ck_eq!(g.finalize(), H::hash(&data[..at]), "{name}: a cloned hasher");
    ck_eq!(KeyHash::with::<H>(data).0, digest, "KeyHash::with::<{name}>");
    ck_eq!(ValueHash::with::<H>(data).0, digest, "ValueHash::with::<{name}>");
    Ok(())
}
fn text<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> R {
    let j = ok!(serde_json::to_string(x), "{what}: to JSON");
    ck_eq!(&ok!(serde_json::from_str::<T>(&j), "{what}: from JSON"), x, "{what} in JSON");
    let b = ok!(bincode::serialize(x), "{what}: to bincode");
    ck_eq!(&ok!(bincode::deserialize::<T>(&b), "{what}: from bincode"), x, "{what} in bincode");
    ck!(bincode::deserialize::<T>(&b[..b.len() - 1]).is_err(), "{what}: truncated bincode is accepted");
    Ok(())
}
fn bin<T: BorshSerialize + BorshDeserialize + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> R {
    let b = ok!(x.try_to_vec(), "{what}: to borsh");
    ck_eq!(&ok!(T::try_from_slice(&b), "{what}: from borsh"), x, "{what} in borsh");
    ck!(T::try_from_slice(&b[..b.len() - 1]).is_err(), "{what}: truncated borsh is accepted");
    Ok(())
}
/// Records the fields of events.
struct Log(parking_lot::Mutex<Vec<(String, String)>>);
impl tracing::Subscriber for Log {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.is_event() && m.target().starts_with("jmt")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V(Vec<(String, String)>);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0.push((f.name().to_string(), format!("{v:?}")))
            }
        }
        let mut v = V(vec![]);
        e.record(&mut v);
        self.0.lock().extend(v.0);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
/// The bytes which a Rust byte string literal stands for.
fn unliteral(s: &str) -> Option<Bytes> {
    let mut it = s.strip_prefix("b\"")?.strip_suffix('"')?.bytes();
    let mut out = vec![];
    while let Some(b) = it.next() {
        out.push(match b {
            b'\\' => match it.next()? {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'0' => 0,
                b'x' => u8::from_str_radix(std::str::from_utf8(&[it.next()?, it.next()?]).ok()?, 16).ok()?,
                c @ (b'\\' | b'"' | b'\'') => c,
                _ => return None,
            },
            b'"' => return None,
            b => b,
        });
    }
    Some(out)
}
/// Hashing a key gives the same when it is traced, and what is traced, if anything, is the key and its hash.
fn traced(key: &[u8], ctx: &mut Ctx) -> R {
    let log = std::sync::Arc::new(Log(Default::default()));
    let h = no_panic(|| tracing::subscriber::with_default(log.clone(), || KeyHash::with::<jmt::Sha256>(key))).map_err(|p| format!("the traced hashing of a key panics: {p}"))?;
    ck_eq!(h.0, jmt::Sha256::hash(key), "KeyHash::with, traced");
    for (f, v) in log.0.lock().iter() {
        ctx.label("hashing traced");
        match &f[..] {
            "key" => ck_eq!(unliteral(v).as_deref(), Some(key), "the key as traced: {v}"),
            "key_hash" => ck_eq!(v, &format!("{h:?}"), "the key hash as traced"),
            _ => {}
        }
    }
    Ok(())
}
/// Hashes of the serialized default of a type.
fn of_types() -> R {
    fn one<K: Default + Serialize>() -> R {
        ck_eq!(KeyHash::sha256::<K>().0, jmt::Sha256::hash(bincode::serialize(&K::default()).unwrap()), "KeyHash::sha256::<{}>", std::any::type_name::<K>());
        Ok(())
    }
    one::<()>()?;
    one::<u8>()?;
    one::<u64>()?;
    one::<String>()?;
    one::<(u16, Vec<u8>)>()?;
    one::<Option<[u8; 32]>>()
}
fn c28(c: &C28, ctx: &mut Ctx) -> R {
    if c.num % 8 == 0 {
        traced(&c.data, ctx)?;
        for k in &c.keys {
            traced(k, ctx)?;
        }
        of_types()?;
    }
    use sha2::Digest;
    let data: Bytes = c.data.iter().copied().cycle().take(c.data.len() * (c.repeat as usize + 1)).collect();
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize * (data.len() + 1) >> 16).collect();
    cuts.sort();
    let sha: [u8; 32] = sha2::Sha256::digest(&data).into();
    let k: [u8; 32] = sha3::Keccak256::digest(&data).into();
    one_hasher::<jmt::Sha256>("Sha256", &data, &cuts, sha)?;
    one_hasher::<sha2::Sha512_256>("Sha512_256", &data, &cuts, sha2::Sha512_256::digest(&data).into())?;
    one_hasher::<sha3::Keccak256>("Keccak256", &data, &cuts, k)?;
    // the trie's hash
    let h = serde_hash::keccak(&data);
    ck_eq!(h.0, k, "keccak of {} bytes", data.len());
    ck!(h.as_bytes() == k && h.to_fixed_bytes() == k && H256::from(k) == h && H256::from_slice(&k) == h, "bytes of a trie hash");
    ck_eq!(format!("{h:?}"), format!("0x{}", hex::encode(k)), "trie hash as text");
    ck_eq!(format!("{h:x}"), hex::encode(k), "trie hash in hexadecimal");
    ck_eq!(format!("{h}"), format!("0x{}…{}", &hex::encode(k)[..4], &hex::encode(k)[60..]), "short form of a trie hash");
    ck_eq!(ok!(hex::encode(k).parse::<H256>(), "trie hash from hexadecimal"), h, "trie hash from hexadecimal");
    text("a trie hash", &h)?;
    ck_eq!(h.is_zero(), k == [0; 32], "is_zero");
    // hash values in their encodings
    let (kh, vh, rh) = (KeyHash(sha), ValueHash(sha), RootHash(sha));
    text("a key hash", &kh)?;
    text("a value hash", &vh)?;
    text("a root hash", &rh)?;
    bin("a key hash", &kh)?;
    bin("a value hash", &vh)?;
    ck_eq!(format!("{kh:?}"), format!("KeyHash(\"{}\")", hex::encode(sha)), "key hash as text");
    ck_eq!(format!("{rh:?}"), format!("RootHash(\"{}\")", hex::encode(sha)), "root hash as text");
    // the order of hashes is the order of their bytes
    let other: [u8; 32] = sha2::Sha256::digest(&data[..data.len() / 2]).into();
    ck_eq!(KeyHash(sha).cmp(&KeyHash(other)), sha.cmp(&other), "order of key hashes");
    // version numbers
    for n in [c.num, c.num >> 32, c.num & 0xff] {
        let v = DbVersion::from(n);
        ck_eq!(u64::from(v), n, "a version number");
        ck_eq!(DbVersion::from(Vec::<u8>::from(v)), v, "a version number as bytes");
        ck_eq!(v.to_string(), n.to_string(), "a version number as text");
        ck_eq!(v.cmp(&DbVersion::from(c.num)), n.cmp(&c.num), "order of version numbers");
    }
    // preimages
    preimages::<jmt::Sha256>(c)?;
    preimages::<sha2::Sha512_256>(c)?;
    preimages::<sha3::Keccak256>(c)?;
    ctx.label_if(data.is_empty(), "empty input");
    ctx.label_if(data.len() >= 136, "input longer than a Keccak block");
    ctx.label_if(!c.cuts.is_empty(), "incremental");
    ctx.label_if(c.keys.len() > 1, "several preimages");
    ctx.nontrivial_if(!data.is_empty() && !c.cuts.is_empty());
    Ok(())
}
fn preimages<H: SimpleHasher>(c: &C28) -> R {
    let s = MockTreeStore::default();
    for (i, k) in c.keys.iter().enumerate() {
        if i % 3 != 2 {
            s.put_key_preimage::<H>(&Preimage(k.clone()));
        }
    }
    let known: BTreeSet<&Bytes> = c.keys.iter().enumerate().filter(|(i, _)| i % 3 != 2).map(|x| x.1).collect();
    for k in &c.keys {
        let p = ok!(s.preimage(KeyHash(H::hash(k))), "preimage").map(|p| p.key());
        ck_eq!(p, known.get(k).map(|k| k.to_vec()), "preimage of the key {}", hex::encode(k));
    }
    ck_eq!(ok!(s.preimage(KeyHash([7; 32])), "preimage").map(|p| p.key()), None, "preimage of an unknown hash");
    Ok(())
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![
        Box::new(Check::<C27> {
            id: "C27",
            level: "exploration",
            rule: "a case is an operation history on each bundled store, read back in full after every operation, and for some cases threads which write and read at once; non-trivial: three operations or threads",
            assumptions: &["thread interleavings are those the scheduler gives", "batches that would overwrite a node of a store which forbids it are not written (it panics as documented)"],
            quick: 14000,
            thorough: 6_000_000,
            strategy: |t| {
                let n = if t == Tier::Quick { 24 } else { 60 };
                let val = || prop::collection::vec(any::<u8>(), 0..4);
                let mop = prop_oneof![
                    4 => (any::<u8>(), val()).prop_map(|(k, v)| MOp::Insert(k, v)),
                    3 => any::<u8>().prop_map(MOp::Remove),
                    2 => prop::collection::vec((any::<u8>(), val()), 0..5).prop_map(MOp::InsertBatch),
                    2 => prop::collection::vec(any::<u8>(), 0..5).prop_map(MOp::RemoveBatch),
                    1 => Just(MOp::Flush),
                ];
                let many = (prop_oneof![20 => prop::sample::select(vec![31u32, 100, 255, 256, 257, 300]), 5 => prop::sample::select(vec![1000, 1023, 1024, 1025, 1100, 4097]), 1 => Just(66_000)], any::<bool>()).prop_map(|(n, put)| MOp::Many(n, put));
                let mop = prop_oneof![1500 => mop, 2 => many];
                let batch = (
                    prop::collection::vec((any::<u8>(), any::<u8>()), 0..5),
                    prop::collection::vec((any::<u8>(), any::<u8>(), prop::option::weighted(0.7, val())), 0..5),
                    prop::collection::vec((any::<u8>(), any::<u8>()), 0..4),
                    any::<u8>(),
                )
                    .prop_map(|(nodes, values, stale, via)| SOp::Batch(SBatch { nodes, values, stale, via }));
                let sop = prop_oneof![
                    2 => (any::<u8>(), any::<u8>(), val()).prop_map(|(a, b, c)| SOp::PutLeaf(a, b, c)),
                    6 => batch,
                    1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SOp::Back(a, b)),
                    1 => any::<u8>().prop_map(SOp::Again),
                    2 => any::<u8>().prop_map(SOp::Purge),
                    1 => val().prop_map(SOp::Preimage),
                ];
                let conc = prop_oneof![
                    3 => (any::<bool>(), 0u8..3, 0u8..3, prop_oneof![0u8..4, any::<u8>()], 1u16..600, any::<u8>()).prop_map(|(light, writers, readers, stable, rounds, batch)| Conc::Mem { light, writers, readers, stable, rounds, batch }),
                    2 => (0u8..3, any::<u8>(), 1u16..250, any::<bool>(), any::<u8>()).prop_map(|(readers, keys, versions, purger, nodes)| Conc::Store { readers, keys, versions, purger, nodes }),
                    1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(threads, keys, commits)| Conc::Tries { threads, keys, commits }),
                ];
                (any::<bool>(), prop::collection::vec(mop, 0..n), any::<bool>(), prop::collection::vec(sop, 0..n), prop::option::weighted(0.1, conc))
                    .prop_map(|(light, mem, overwrite, store, conc)| C27 { light, mem, overwrite, store, conc })
                    .boxed()
            },
            run: c27,
        }),
        Box::new(Check::<C28> {
            id: "C28",
            level: "exploration",
            rule: "a case is an input with cuts at which it is fed piecewise, keys for a preimage store and a number; non-trivial: a non-empty input in two pieces or more",
            assumptions: &["the digests of the sha2 and sha3 crates are correct"],
            quick: 300000,
            thorough: 8_000_000,
            strategy: |_| {
                (
                    prop_oneof![4 => prop::collection::vec(any::<u8>(), 0..40), 2 => prop::collection::vec(any::<u8>(), 50..150), 1 => prop::collection::vec(any::<u8>(), 130..140)],
                    prop_oneof![6 => Just(0u16), 2 => 0u16..8, 1 => 0u16..60],
                    prop::collection::vec(any::<u16>(), 0..6),
                    prop::collection::vec(prop::collection::vec(prop_oneof![Just(0u8), any::<u8>()], 0..4), 0..6),
                    prop_oneof![any::<u64>(), 0u64..300, Just(u64::MAX)],
                )
                    .prop_map(|(data, repeat, cuts, keys, num)| C28 { data, repeat, cuts, keys, num })
                    .boxed()
            },
            run: c28,
        }),
    ]
}
