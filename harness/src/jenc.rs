//! Checks of the encodings of the Jellyfish tree's objects (C16).
use crate::jchecks::*;
use crate::jchecks2::{check_version, node_hash};
use crate::jgen::*;
use crate::jmodel::Smt;
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ok, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::Version as DbVersion;
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof};
use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, NodeStats, StaleNodeIndex, TreeUpdateBatch};
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher, ValueHash};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const FORMATS: [&str; 3] = ["borsh", "bincode", "json"];
/// How to encode, decode and compare the objects of one type in one format.
trait Obj: Sized {
    const SERDE: bool = true;
    const BORSH: bool = true;
    fn same(&self, o: &Self) -> bool;
    fn enc(&self, f: usize) -> Result<Vec<u8>, String>;
    fn dec(f: usize, b: &[u8]) -> Result<Self, String>;
    fn has(f: usize) -> bool {
        if f == 0 {
            Self::BORSH
        } else {
            Self::SERDE
        }
    }
}
fn sser<T: Serialize>(t: &T, f: usize) -> Result<Vec<u8>, String> {
    if f == 1 {
        bincode::serialize(t).map_err(|e| e.to_string())
    } else {
        serde_json::to_vec(t).map_err(|e| e.to_string())
    }
}
fn sde<T: DeserializeOwned>(f: usize, b: &[u8]) -> Result<T, String> {
    if f == 1 {
        bincode::deserialize(b).map_err(|e| e.to_string())
    } else {
        serde_json::from_slice(b).map_err(|e| e.to_string())
    }
}
macro_rules! obj {
    ($t:ty, both) => {
        impl Obj for $t {
            fn same(&self, o: &Self) -> bool { self == o }
            fn enc(&self, f: usize) -> Result<Vec<u8>, String> {
                if f == 0 { self.try_to_vec().map_err(|e| e.to_string()) } else { sser(self, f) }
            }
            fn dec(f: usize, b: &[u8]) -> Result<Self, String> {
                if f == 0 { <$t>::try_from_slice(b).map_err(|e| e.to_string()) } else { sde(f, b) }
            }
        }
    };
    ($t:ty, borsh) => {
        impl Obj for $t {
            const SERDE: bool = false;
            fn same(&self, o: &Self) -> bool { self == o }
            fn enc(&self, _: usize) -> Result<Vec<u8>, String> { self.try_to_vec().map_err(|e| e.to_string()) }
            fn dec(_: usize, b: &[u8]) -> Result<Self, String> { <$t>::try_from_slice(b).map_err(|e| e.to_string()) }
        }
    };
    ($t:ty, serde) => {
        impl Obj for $t {
            const BORSH: bool = false;
            fn same(&self, o: &Self) -> bool { self == o }
            fn enc(&self, f: usize) -> Result<Vec<u8>, String> { sser(self, f) }
            fn dec(f: usize, b: &[u8]) -> Result<Self, String> { sde(f, b) }
        }
    };
}
obj!(Node, both);
obj!(NodeKey, both);
obj!(LeafNode, both);
obj!(SparseMerkleRangeProof, both);
obj!(SparseMerkleLeafNode, both);
obj!(KeyHash, both);
obj!(ValueHash, both);
obj!(RootHash, serde);
obj!(serde_hash::H256, serde);
obj!(NodeBatch, borsh);
obj!(NodeStats, borsh);
obj!(StaleNodeIndex, borsh);
obj!(TreeUpdateBatch, borsh);
/// A hasher type with serde, which proofs need of theirs.
#[derive(Clone, Serialize, Deserialize)]
#[derive(Debug)]
pub struct SerH(Vec<u8>);
impl SimpleHasher for SerH {
    fn new() -> Self {
        SerH(vec![])
    }
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
    fn finalize(self) -> [u8; 32] {
        <sha2::Sha256 as SimpleHasher>::hash(&self.0)
    }
}
fn proof_as<A: SimpleHasher, B: SimpleHasher>(p: &SparseMerkleProof<A>) -> SparseMerkleProof<B> {
    mk_proof(p.leaf().map(|l| leaf_parts(&l)), p.siblings())
}
impl Obj for SparseMerkleProof<SerH> {
    fn same(&self, o: &Self) -> bool {
        self.leaf() == o.leaf() && self.siblings() == o.siblings()
    }
    fn enc(&self, f: usize) -> Result<Vec<u8>, String> {
        if f == 0 {
            self.try_to_vec().map_err(|e| e.to_string())
        } else {
            sser(self, f)
        }
    }
    fn dec(f: usize, b: &[u8]) -> Result<Self, String> {
        if f == 0 {
            Self::try_from_slice(b).map_err(|e| e.to_string())
        } else {
            sde(f, b)
        }
    }
}

/// The encodings of all objects of one type seen in a case.
struct Seen<T> {
    what: &'static str,
    by_enc: Vec<HashMap<Vec<u8>, T>>,
    n: u64,
}
impl<T: Obj + Clone> Seen<T> {
    fn new(what: &'static str) -> Self {
        Seen { what, by_enc: (0..3).map(|_| HashMap::new()).collect(), n: 0 }
    }
    /// Round trips `x` in every format; the decoded objects are given to `f`.
    fn add(&mut self, x: &T, mut f: impl FnMut(usize, &T) -> R) -> R {
        let w = self.what;
        for fm in (0..3).filter(|f| T::has(*f)) {
            let e = ok!(x.enc(fm), "{} encoding of a {w}", FORMATS[fm]);
            let y = ok!(T::dec(fm, &e), "{} decoding of the encoding of a {w}", FORMATS[fm]);
            ck!(y.same(x), "{}: decoding the encoding of a {w} gives another one ({})", FORMATS[fm], hex::encode(&e));
            ck!(ok!(y.enc(fm), "{} encoding of a decoded {w}", FORMATS[fm]) == e, "{}: a decoded {w} has another encoding", FORMATS[fm]);
            if let Some(o) = self.by_enc[fm].get(&e) {
                ck!(o.same(x), "{}: two different {w}s have the same encoding ({})", FORMATS[fm], hex::encode(&e));
            } else {
                // no encoding is the beginning of another in the binary forms: a cut one is an error
                if fm == 0 && !e.is_empty() {
                    ck!(T::dec(fm, &e[..e.len() - 1]).is_err(), "{}: the encoding of a {w} without its last byte is decoded ({})", FORMATS[fm], hex::encode(&e));
                }
                self.by_enc[fm].insert(e, x.clone());
            }
            f(fm, &y)?;
            self.n += 1;
        }
        Ok(())
    }
}
/// Arbitrary bytes: an error, or a value which is stable from then on.
fn stable<T: Obj>(what: &str, f: usize, b: &[u8], ctx: &mut Ctx) -> R {
    if !T::has(f) {
        return Ok(());
    }
    ctx.count("byte strings decoded", 1);
    let Ok(x) = no_panic(|| T::dec(f, b)).map_err(|p| format!("{}: decoding a {what} from {} panics: {p}", FORMATS[f], hex::encode(b)))? else { return Ok(()) };
    ctx.count("byte strings which are a value", 1);
    let e = ok!(x.enc(f), "{}: encoding of the {what} decoded from {}", FORMATS[f], hex::encode(b));
    let y = ok!(T::dec(f, &e), "{}: decoding of the encoding of the {what} decoded from {}", FORMATS[f], hex::encode(b));
    ck!(x.same(&y), "{}: the {what} decoded from {} changes when encoded and decoded", FORMATS[f], hex::encode(b));
    ck!(ok!(y.enc(f), "encoding") == e, "{}: the encoding of the {what} decoded from {} is not stable", FORMATS[f], hex::encode(b));
    // and in the other formats
    for g in (0..3).filter(|g| *g != f && T::has(*g)) {
        let e = ok!(x.enc(g), "{}: encoding of the {what} decoded from {}", FORMATS[g], hex::encode(b));
        let y = ok!(T::dec(g, &e), "{}: decoding of the encoding of the {what} decoded from {}", FORMATS[g], hex::encode(b));
        ck!(x.same(&y), "{}: the {what} decoded from {} changes when encoded and decoded", FORMATS[g], hex::encode(b));
    }
    if f == 0 {
        // every field is in the encoding and nothing else
        ck!(e.len() == b.len(), "borsh: the {what} decoded from {} has an encoding of another length", hex::encode(b));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum BMut {
    Flip(u16, u8),
    Set(u16, u8),
    Cut(u16),
    Insert(u16, Vec<u8>),
    Remove(u16, u8),
    /// four or eight bytes at a place become a length
    Len(u16, u32, bool),
    Splice(u16, u16),
    /// (JSON) a number becomes another one
    Number(u16, u8, u64),
}
fn bmut() -> BoxedStrategy<BMut> {
    use BMut::*;
    prop_oneof![
        4 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Flip(a, b)),
        3 => (any::<u16>(), prop_oneof![0u8..5, any::<u8>(), Just(255u8)]).prop_map(|(a, b)| Set(a, b)),
        2 => any::<u16>().prop_map(Cut),
        1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..9)).prop_map(|(a, b)| Insert(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Remove(a, b)),
        2 => (any::<u16>(), prop_oneof![0u32..70, any::<u32>(), Just(u32::MAX)], any::<bool>()).prop_map(|(a, b, c)| Len(a, b, c)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Splice(a, b)),
        3 => (any::<u16>(), 0u8..64, any::<u64>()).prop_map(|(a, b, c)| Number(a, b, c)),
    ]
    .boxed()
}
/// The numbers of a JSON document which are not parts of byte arrays.
fn numbers(v: &mut serde_json::Value, f: &mut dyn FnMut(&mut serde_json::Value)) {
    match v {
        serde_json::Value::Number(_) => f(v),
        // hashes are arrays of 32 numbers
        serde_json::Value::Array(a) if a.len() < 32 => a.iter_mut().for_each(|x| numbers(x, f)),
        serde_json::Value::Object(o) => o.values_mut().for_each(|x| numbers(x, f)),
        _ => (),
    }
}
fn apply_bmut(b: &mut Vec<u8>, m: &BMut) {
    let n = b.len();
    if n == 0 {
        if let BMut::Insert(_, x) = m {
            b.extend_from_slice(x);
        }
        return;
    }
    // half of the places are near the beginning, where tags and lengths are
    let at = |p: u16| if p % 2 == 0 { (p as usize / 2) % n } else { (p as usize / 2) % n.min(24) };
    match m {
        BMut::Flip(p, x) => b[at(*p)] ^= 1 << (x % 8),
        BMut::Set(p, x) => b[at(*p)] = *x,
        BMut::Cut(p) => b.truncate(at(*p)),
        BMut::Insert(p, x) => {
            let p = at(*p);
            b.splice(p..p, x.iter().copied());
        }
        BMut::Remove(p, k) => {
            let p = at(*p);
            b.drain(p..(p + *k as usize % 40 + 1).min(n));
        }
        BMut::Len(p, v, long) => {
            let p = at(*p);
            let bytes = (*v as u64).to_le_bytes();
            for (i, x) in bytes.iter().take(if *long { 8 } else { 4 }).enumerate() {
                if p + i < n {
                    b[p + i] = *x;
                }
            }
        }
        BMut::Number(p, bits, x) => {
            let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(b) else { return };
            let mut n = 0usize;
            numbers(&mut v, &mut |_| n += 1);
            if n == 0 {
                return;
            }
            let mut i = 0;
            // of any size, often next to a power of two
            let y = if x % 3 == 0 { (1u64 << bits).wrapping_add(*x / 3 % 3).wrapping_sub(1) } else { x >> bits };
            numbers(&mut v, &mut |z| {
                if i == *p as usize % n {
                    *z = y.into();
                }
                i += 1;
            });
            *b = serde_json::to_vec(&v).unwrap_or_default();
        }
        BMut::Splice(p, q) => {
            let (p, q) = (at(*p), at(*q));
            let t = b[q..].to_vec();
            b.truncate(p);
            b.extend(t);
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C16 {
    h: Hist,
    /// the version continued over decoded nodes
    vi: u8,
    next: Vec<(u16, Option<Val>)>,
    raw: Vec<Vec<u8>>,
    /// (type, object, format, mutations)
    mutated: Vec<(u8, u16, u8, Vec<BMut>)>,
    versions: Vec<u64>,
}
fn decode_as(t: u8, f: usize, b: &[u8], ctx: &mut Ctx) -> R {
    match t % 14 {
        0 => stable::<Node>("node", f, b, ctx),
        1 => stable::<NodeKey>("node key", f, b, ctx),
        2 => stable::<LeafNode>("leaf node", f, b, ctx),
        3 => stable::<SparseMerkleProof<SerH>>("proof", f, b, ctx),
        4 => stable::<SparseMerkleRangeProof>("range proof", f, b, ctx),
        5 => stable::<SparseMerkleLeafNode>("proof leaf", f, b, ctx),
        6 => stable::<KeyHash>("key hash", f, b, ctx),
        7 => stable::<ValueHash>("value hash", f, b, ctx),
        8 => stable::<RootHash>("root hash", f, b, ctx),
        9 => stable::<serde_hash::H256>("H256", f, b, ctx),
        10 => stable::<NodeBatch>("node batch", f, b, ctx),
        11 => stable::<NodeStats>("statistics", f, b, ctx),
        12 => stable::<StaleNodeIndex>("stale node index", f, b, ctx),
        _ => stable::<TreeUpdateBatch>("update batch", f, b, ctx),
    }
}
fn c16(c: &C16, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C16, ctx: &mut Ctx) -> R {
        let r = c.h.resolve();
        let n = r.sets.len();
        let store = Arc::new(TStore::default());
        let tree = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.h.migration);
        // encodings by type, for the second part
        let mut pool: BTreeMap<u8, Vec<Vec<Vec<u8>>>> = BTreeMap::new();
        let mut keep = |t: u8, e: Vec<Vec<u8>>| pool.entry(t).or_default().push(e);
        fn encs<T: Obj>(x: &T) -> Vec<Vec<u8>> {
            (0..3).map(|f| if T::has(f) { x.enc(f).unwrap_or_default() } else { vec![] }).collect()
        }
        let (mut nodes, mut nkeys, mut leaves) = (Seen::<Node>::new("node"), Seen::<NodeKey>::new("node key"), Seen::<LeafNode>::new("leaf node"));
        let (mut khs, mut vhs, mut rhs, mut h256) = (Seen::<KeyHash>::new("key hash"), Seen::<ValueHash>::new("value hash"), Seen::<RootHash>::new("root hash"), Seen::<serde_hash::H256>::new("H256"));
        let (mut batches, mut nbs, mut stales, mut stats) = (Seen::<TreeUpdateBatch>::new("update batch"), Seen::<NodeBatch>::new("node batch"), Seen::<StaleNodeIndex>::new("stale node index"), Seen::<NodeStats>::new("statistics"));
        let (mut proofs, mut ranges, mut pleaves) = (Seen::<SparseMerkleProof<SerH>>::new("proof"), Seen::<SparseMerkleRangeProof>::new("range proof"), Seen::<SparseMerkleLeafNode>::new("proof leaf"));
        let mut roots = vec![];
        let mut call = 0;
        while roots.len() < n {
            let i = roots.len();
            let v = c.h.base + i as u64;
            let (written, b) = write_call(&tree, &c.h, &r.sets, i, call)?;
            call += 1;
            for root in &written {
                rhs.add(root, |_, _| Ok(()))?;
            }
            roots.extend(written.iter().copied());
            batches.add(&b, |_, d| {
                // the decoded batch is as good as the batch
                ck!(d.node_batch.nodes().len() == b.node_batch.nodes().len() && d.node_batch.values().len() == b.node_batch.values().len(), "the decoded batch of {v} has another number of entries");
                ck!(format!("{d:?}") == format!("{b:?}"), "the decoded batch of {v} prints otherwise");
                Ok(())
            })?;
            nbs.add(&b.node_batch, |_, _| Ok(()))?;
            keep(13, encs(&b));
            keep(10, encs(&b.node_batch));
            for s in &b.stale_node_index_batch {
                stales.add(s, |_, _| Ok(()))?;
                keep(12, encs(s));
            }
            for s in &b.node_stats {
                stats.add(s, |_, _| Ok(()))?;
                keep(11, encs(s));
            }
            for (k, nd) in b.node_batch.nodes() {
                nkeys.add(k, |f, d| {
                    ck!(d.version() == k.version() && key_parts(d) == key_parts(k) && d.cmp(k).is_eq(), "{}: the decoded node key differs from {k:?}", FORMATS[f]);
                    ck!(format!("{d:?}") == format!("{k:?}"), "{}: the decoded node key prints otherwise", FORMATS[f]);
                    Ok(())
                })?;
                nodes.add(nd, |f, d| {
                    ck!(node_hash(d) == node_hash(nd), "{}: the decoded node of {k:?} has another hash", FORMATS[f]);
                    ck!(format!("{d:?}") == format!("{nd:?}"), "{}: the decoded node of {k:?} prints otherwise", FORMATS[f]);
                    if let (Node::Internal(d), Node::Internal(n)) = (d, nd) {
                        ck!(d.leaf_count() == n.leaf_count(), "{}: the decoded node of {k:?} has another leaf count", FORMATS[f]);
                        ck!(d.children_sorted().map(|(x, c)| (x, c.clone())).eq(n.children_sorted().map(|(x, c)| (x, c.clone()))), "{}: the decoded node of {k:?} has other children", FORMATS[f]);
                    }
                    Ok(())
                })?;
                keep(0, encs(nd));
                keep(1, encs(k));
                if let Node::Leaf(l) = nd {
                    leaves.add(l, |f, d| {
                        ck!(d.hash() == l.hash() && d.key_hash() == l.key_hash(), "{}: the decoded leaf differs", FORMATS[f]);
                        Ok(())
                    })?;
                    keep(2, encs(l));
                }
            }
            ok!(store.commit(b), "commit of {v}");
            // proofs
            for (i, root) in (i..).zip(written) {
            let v = c.h.base + i as u64;
            let smt = Smt::new::<H>(&r.contents[i]);
            for k in queries(&r.keys).into_iter().step_by(1 + r.keys.len() / 5) {
                khs.add(&k, |_, _| Ok(()))?;
                let p = check_proof_read(&tree, &r.contents[i], &smt, root, k, v)?;
                let val = r.contents[i].get(&k);
                let e = ok!(p.try_to_vec(), "borsh encoding of a proof");
                let d = ok!(SparseMerkleProof::<H>::try_from_slice(&e), "borsh decoding of a proof");
                ck!(d.leaf() == p.leaf() && d.siblings() == p.siblings(), "borsh: decoding the encoding of a proof gives another one ({})", hex::encode(&e));
                let p = proof_as::<H, SerH>(&p);
                proofs.add(&p, |f, d| {
                    let d = proof_as::<SerH, H>(d);
                    ok!(d.verify(root, k, val), "{}: verify of the decoded proof of {k:?} at {v}", FORMATS[f]);
                    ck!(d.verify(root, k, Some(vec![9u8; 70])).is_err(), "{}: the decoded proof of {k:?} proves another value", FORMATS[f]);
                    Ok(())
                })?;
                keep(3, encs(&p));
                if let Some(l) = p.leaf() {
                    pleaves.add(&l, |_, _| Ok(()))?;
                    keep(5, encs(&l));
                }
                if let Some(x) = val {
                    vhs.add(&jmt_value_hash::<H>(x), |_, _| Ok(()))?;
                    let p = ok!(tree.get_range_proof(k, v), "get_range_proof");
                    ranges.add(&p, |f, d| {
                        ck!(d.right_siblings() == p.right_siblings(), "{}: the decoded range proof has other siblings", FORMATS[f]);
                        Ok(())
                    })?;
                    keep(4, encs(&p));
                }
                h256.add(&serde_hash::H256(k.0), |_, d| {
                    ck!(d.as_bytes() == k.0, "the decoded H256 has other bytes");
                    Ok(())
                })?;
                keep(6, encs(&k));
                keep(9, encs(&serde_hash::H256(k.0)));
            }
            }
        }
        ctx.count("objects round tripped", nodes.n + nkeys.n + leaves.n + khs.n + vhs.n + rhs.n + batches.n + nbs.n + stales.n + stats.n + proofs.n + ranges.n + pleaves.n + h256.n);
        // a tree over decoded nodes is as good as the tree
        if n > 0 {
            for f in 0..3 {
                let mut d = store.snapshot();
                let mut ns = BTreeMap::new();
                for (k, nd) in &d.nodes {
                    ns.insert(ok!(NodeKey::dec(f, &k.enc(f)?), "node key"), ok!(Node::dec(f, &nd.enc(f)?), "node"));
                }
                ck!(ns == d.nodes, "{}: the decoded store differs", FORMATS[f]);
                d.nodes = ns;
                let st = Arc::new(TStore::from_data(d));
                let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), c.h.migration);
                let i = c.vi as usize % n;
                let smt = Smt::new::<H>(&r.contents[i]);
                check_version(&st, &t, &r.keys, &r.contents[i], &smt, c.h.base + i as u64, 1 + r.keys.len() / 8)?;
                let v = c.h.base + n as u64;
                let set: WSet = if r.keys.is_empty() { vec![] } else { c.next.iter().map(|(k, v)| (r.keys[*k as usize % r.keys.len()], v.map(|v| v.bytes()))).collect() };
                let (root, b) = ok!(t.put_value_set(set.clone(), v), "put_value_set over decoded nodes");
                let (root2, b2) = ok!(tree.put_value_set(set, v), "put_value_set");
                ck!(root == root2 && b == b2, "{}: a write over decoded nodes gives another batch", FORMATS[f]);
            }
        }
        for x in &c.versions {
            let v = DbVersion(*x);
            let b: Vec<u8> = v.into();
            let w: DbVersion = b.clone().into();
            ck!(w == v && u64::from(w) == *x && DbVersion::from(*x) == v, "version {x} becomes {w} through {}", hex::encode(&b));
            for y in &c.versions {
                let b2: Vec<u8> = DbVersion(*y).into();
                ck!((b == b2) == (x == y), "versions {x} and {y} have the same bytes");
            }
        }
        // arbitrary bytes
        for (j, b) in c.raw.iter().enumerate() {
            for t in 0..14 {
                decode_as(t, j % 3, b, ctx)?;
                decode_as(t, 0, b, ctx)?;
            }
            let _: DbVersion = no_panic(|| DbVersion::from(b.clone())).map_err(|p| format!("a version from {}: {p}", hex::encode(b)))?;
        }
        for (t, o, f, ms) in &c.mutated {
            let have: BTreeSet<u8> = pool.keys().copied().collect();
            let Some(t) = have.iter().nth(*t as usize % have.len().max(1)) else { continue };
            // numbers are changed in the JSON form
            let f = if ms.iter().any(|m| matches!(m, BMut::Number(..))) { 2 } else { *f as usize % 3 };
            let mut b = pool[t][*o as usize % pool[t].len()][f].clone();
            for m in ms {
                apply_bmut(&mut b, m);
            }
            decode_as(*t, f, &b, ctx)?;
            // as another type
            decode_as(t + ms.len() as u8, f, &b, ctx)?;
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.iter().any(|c| c.len() >= 2));
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check::<C16> {
        id: "C16",
        level: "exploration",
        rule: "a case is a history, whose batches, nodes, node keys, stale indexes, statistics and proofs are all round tripped, and byte strings, arbitrary ones and mutated encodings of those objects, given to the decoders; non-trivial: a version of at least two keys",
        assumptions: &["supported encodings are those the types implement: borsh, and serde through bincode and JSON", "printing a node key decoded from inconsistent bytes is not decoding"],
        quick: 4000,
        thorough: 6_000_000,
        strategy: |t| {
            (
                hist(scaled(HP { keys: 24, versions: 4, ..STD }, t)),
                any::<u8>(),
                prop::collection::vec((any::<u16>(), prop::option::weighted(0.6, val())), 1..6),
                prop::collection::vec(prop_oneof![prop::collection::vec(any::<u8>(), 0..12), prop::collection::vec(prop_oneof![0u8..3, any::<u8>()], 0..120)], 0..4),
                prop::collection::vec((any::<u8>(), any::<u16>(), any::<u8>(), prop::collection::vec(bmut(), 0..5)), 0..12),
                prop::collection::vec(any::<u64>(), 0..4),
            )
                .prop_map(|(h, vi, next, raw, mutated, versions)| C16 { h, vi, next, raw, mutated, versions })
                .boxed()
        },
        run: c16,
    })]
}
