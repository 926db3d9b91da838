//! Checks of the Jellyfish tree: maps, roots, proofs, iteration, counts (C01..C08, C14).
use crate::jgen::*;
use crate::jmodel::{self, Smt};
use crate::jnode::{below, inflate, large};
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ck_eq, ok, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::mock::MockTreeStore;
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof};
use jmt::storage::{LeafNode, Node, TreeUpdateBatch};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, MissingRootError, RootHash, SimpleHasher};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const BUDGET: u64 = 200_000;

pub struct Built<S: Store, H: SimpleHasher> {
    pub store: Arc<S>,
    pub tree: JellyfishMerkleTree<S, H>,
    pub roots: Vec<RootHash>,
    pub r: Resolved,
    pub base: u64,
}
impl<S: Store, H: SimpleHasher> Built<S, H> {
    pub fn versions(&self) -> impl Iterator<Item = (usize, u64)> + '_ {
        (0..self.roots.len()).map(move |i| (i, self.base + i as u64))
    }
}
/// Whether the batch insertion API takes these sets: non-empty, of insertions, with a parent.
pub fn batchable(sets: &[WSet], parent: bool) -> bool {
    parent && sets.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1.is_some()))
}
pub fn insertions(sets: &[WSet]) -> Vec<Vec<(KeyHash, Vec<u8>)>> {
    sets.iter().map(|s| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect()).collect()
}
/// Computes what call number `call` of a history writes, which starts with the i-th set.
pub fn write_call<S: Store, H: SimpleHasher>(
    tree: &JellyfishMerkleTree<S, H>,
    h: &Hist,
    sets: &[WSet],
    i: usize,
    call: usize,
) -> Result<(Vec<RootHash>, TreeUpdateBatch), String> {
    let v = h.base + i as u64;
    let how = h.calls.get(call).copied();
    let g = how.map_or(1, |x| x.0.max(1) as usize).min(sets.len() - i);
    let sets = &sets[i..i + g];
    let (roots, batch) = match how {
        None => {
            let (root, batch) = ok!(tree.put_value_set(sets[0].clone(), v), "put_value_set at version {v}");
            (vec![root], batch)
        }
        Some((_, true)) if batchable(sets, i > 0 || h.base == 0) => {
            ok!(tree.batch_put_value_sets(insertions(sets), None, v), "batch_put_value_sets of {g} versions at {v}")
        }
        Some(_) => ok!(tree.put_value_sets(sets.to_vec(), v), "put_value_sets of {g} versions at {v}"),
    };
    ck_eq!(roots.len(), g, "number of roots of {g} versions at {v}");
    Ok((roots, batch))
}
/// Commits a history, a version or several per call; `each` follows every version, after the call which writes it.
pub fn build<S: Store, H: SimpleHasher>(
    h: &Hist,
    mut each: impl FnMut(usize, &Built<S, H>) -> R,
) -> Result<Built<S, H>, String> {
    let store = Arc::new(S::fresh());
    let tree = JellyfishMerkleTree::<S, H>::new_migration(store.clone(), h.migration);
    let r = h.resolve();
    let mut b = Built { store, tree, roots: vec![], r, base: h.base };
    let n = b.r.sets.len();
    let (mut i, mut call) = (0, 0);
    while i < n {
        let v = h.base + i as u64;
        let (roots, batch) = write_call(&b.tree, h, &b.r.sets, i, call)?;
        let g = roots.len();
        call += 1;
        ok!(b.store.commit(batch), "commit of version {v}");
        b.roots.extend(roots);
        for j in i..i + g {
            each(j, &b)?;
        }
        i += g;
    }
    Ok(b)
}
pub fn nothing<S: Store, H: SimpleHasher>(_: usize, _: &Built<S, H>) -> R {
    Ok(())
}

/// Keys worth asking about: the universe, and the immediate neighbours of some of it, and the extremes.
pub fn queries(keys: &[KeyHash]) -> Vec<KeyHash> {
    let mut q: BTreeSet<KeyHash> = keys.iter().copied().collect();
    for k in keys.iter().take(12) {
        q.extend(succ(k));
        q.extend(pred(k));
        let mut m = k.0;
        m[0] ^= 0x10;
        q.insert(KeyHash(m));
        let mut m = k.0;
        m[0] ^= 0x01;
        q.insert(KeyHash(m));
        let mut m = k.0;
        m[1] ^= 0x80;
        q.insert(KeyHash(m));
    }
    q.insert(KeyHash([0; 32]));
    q.insert(KeyHash([0xff; 32]));
    q.into_iter().collect()
}
pub fn hist_labels(h: &Hist, r: &Resolved, ctx: &mut Ctx) {
    ctx.count("versions", r.sets.len() as u64);
    ctx.count("writes", r.sets.iter().map(|s| s.len() as u64).sum());
    let dels = r.sets.iter().flatten().filter(|(_, v)| v.is_none()).count();
    ctx.label_if(dels > 0, "has deletions");
    ctx.label_if(h.calls.iter().any(|c| c.0 > 1), "calls of several versions");
    ctx.label_if(r.contents.iter().any(|c| c.is_empty()), "empty at some version");
    ctx.label_if(r.contents.iter().any(|c| c.len() == 1), "single leaf at some version");
    ctx.label_if(r.contents.iter().any(|c| c.len() > 16), "more than 16 keys");
    ctx.label_if(r.contents.iter().any(|c| c.len() > 256), "more than 256 keys");
    ctx.label_if(r.contents.len() > 16, "more than 16 versions");
    ctx.label_if(r.contents.iter().any(|c| c.values().any(|v| v.len() > 255)), "values longer than 255 bytes");
    ctx.label_if(r.sets.iter().any(|s| s.is_empty()), "empty write set");
    ctx.label_if(h.base > 0, "first version above 0");
    ctx.label_if(!h.migration, "leaf counting off");
    ctx.label_if(r.contents.windows(2).any(|w| w[0] == w[1]), "version without effect");
    let deep = r.contents.iter().any(|c| {
        c.keys().zip(c.keys().skip(1)).any(|(a, b)| (0..30).all(|i| a.0[i] == b.0[i]))
    });
    ctx.label_if(deep, "keys sharing 240 bits");
}

// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C01 {
    h: Hist,
    mock: bool,
}
fn c01(c: &C01, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C01, ctx: &mut Ctx) -> R {
        let mut seen = 0u64;
        let q0 = queries(&c.h.resolve().keys);
        let read = |b: &Built<S, H>, i: usize, q: &[KeyHash], seen: &mut u64| -> R {
            let v = b.base + i as u64;
            for k in q {
                let want = b.r.contents[i].get(k);
                *seen += 1;
                let got = ok!(b.tree.get(*k, v), "get at {v}");
                ck_eq!(got.as_ref(), want, "get({k:?}, {v})");
                ck_eq!(ok!(b.tree.contains(*k, v), "contains"), want.is_some(), "contains({k:?}, {v})");
                let (got, _) = ok!(b.tree.get_with_proof(*k, v), "get_with_proof at {v}");
                ck_eq!(got.as_ref(), want, "get_with_proof({k:?}, {v})");
                if let Some(w) = want {
                    match ok!(b.tree.get_with_exclusion_proof(*k, v), "get_with_exclusion_proof") {
                        Ok((x, _)) => ck_eq!(&x, w, "get_with_exclusion_proof({k:?}, {v})"),
                        Err(_) => return Err(format!("exclusion proof for the present key {k:?} at {v}")),
                    }
                }
            }
            Ok(())
        };
        let b = build::<S, H>(&c.h, |i, b| {
            // right after the commit: the new version, and what was there before
            let some: Vec<KeyHash> = b.r.sets[i].iter().map(|x| x.0).take(6).collect();
            read(b, i, &some, &mut seen)?;
            if i > 0 {
                read(b, i - 1, &some, &mut seen)?;
            }
            Ok(())
        })?;
        let many = b.roots.len() * q0.len() > 1500;
        for (i, _) in b.versions() {
            if many {
                let q: Vec<KeyHash> = q0.iter().copied().skip(i % 3).step_by(3).collect();
                read(&b, i, &q, &mut seen)?
            } else {
                read(&b, i, &q0, &mut seen)?
            }
        }
        // versions without a root
        let last = b.base + b.roots.len() as u64 - 1;
        let mut bad = vec![last + 1, last + 2, u64::MAX - 1];
        if b.base > 0 {
            bad.push(b.base - 1);
        }
        for v in bad {
            for k in q0.iter().take(4) {
                match b.tree.get_with_proof(*k, v) {
                    Ok(_) => return Err(format!("get_with_proof succeeds at version {v}, which has no root")),
                    Err(e) => ck!(e.downcast_ref::<MissingRootError>().map(|m| m.version) == Some(v), "not a missing-root error at version {v}: {e:?}"),
                }
                let want = if v > last { b.r.contents[b.roots.len() - 1].get(k) } else { None };
                ck_eq!(ok!(b.tree.get(*k, v), "get").as_ref(), want, "get({k:?}, {v}) outside the history");
            }
            ck!(ok!(b.tree.get_root_hash_option(v), "get_root_hash_option").is_none(), "a root hash at version {v}");
            ck!(b.tree.get_root_hash(v).is_err(), "a root hash at version {v}");
        }
        ctx.count("reads checked", seen);
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.label_if(c.mock, "on MockTreeStore");
    ctx.nontrivial_if(r.contents.len() >= 2 && r.contents.iter().any(|c| c.len() >= 2));
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c, ctx) } else { go::<TStore, H>(c, ctx) })
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C02 {
    h: Hist,
    /// how the final contents are rebuilt along another history
    perm: u64,
    cuts: Vec<u8>,
    detour: u8,
}
pub fn shuffle<T>(v: &mut [T], mut s: u64) {
    for i in (1..v.len()).rev() {
        s = mix(s);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}
fn c02(c: &C02, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C02, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, |i, b| {
            let v = b.base + i as u64;
            let want = RootHash(Smt::new::<H>(&b.r.contents[i]).root());
            ck_eq!(b.roots[i], want, "root returned by the write of version {v}");
            ck_eq!(ok!(b.tree.get_root_hash(v), "get_root_hash"), want, "stored root of version {v}");
            Ok(())
        })?;
        for (i, v) in b.versions() {
            let want = RootHash(Smt::new::<H>(&b.r.contents[i]).root());
            ck_eq!(ok!(b.tree.get_root_hash(v), "get_root_hash"), want, "stored root of version {v} at the end");
            ck_eq!(ok!(b.tree.get_root_hash_option(v), "get_root_hash_option"), Some(want), "root option of version {v}");
        }
        hist_labels(&c.h, &b.r, ctx);
        ctx.nontrivial_if(b.r.contents.iter().any(|c| c.len() >= 2));
        // the same contents along another history: another order, other versions, and keys that come and go
        let target = b.r.contents.last().cloned().unwrap_or_default();
        if target.is_empty() {
            return Ok(());
        }
        let mut ins: Vec<(KeyHash, Vec<u8>)> = target.iter().map(|(k, v)| (*k, v.clone())).collect();
        shuffle(&mut ins, c.perm);
        let extra: Vec<KeyHash> = b.r.keys.iter().filter(|k| !target.contains_key(*k)).take(c.detour as usize).copied().collect();
        let mut sets: Vec<WSet> = vec![];
        if !extra.is_empty() {
            sets.push(extra.iter().map(|k| (*k, Some(vec![1]))).collect());
        }
        let mut rest = &ins[..];
        for n in &c.cuts {
            if rest.is_empty() {
                break;
            }
            let n = (*n as usize % 5 + 1).min(rest.len());
            sets.push(rest[..n].iter().map(|(k, v)| (*k, Some(v.clone()))).collect());
            rest = &rest[n..];
        }
        sets.push(rest.iter().map(|(k, v)| (*k, Some(v.clone()))).collect());
        sets.push(extra.iter().map(|k| (*k, None)).collect());
        let store = Arc::new(TStore::default());
        let t = JellyfishMerkleTree::<TStore, H>::new(store.clone());
        let mut last = None;
        let (mut i, mut call) = (0, 0);
        while i < sets.len() {
            let g = c.h.calls.get(call).map_or(1, |x| x.0.max(1) as usize).min(sets.len() - i);
            call += 1;
            let (roots, batch) = ok!(t.put_value_sets(sets[i..i + g].to_vec(), i as u64), "put_value_sets of the second history");
            ok!(store.apply(&batch), "commit");
            last = roots.last().copied();
            i += g;
        }
        ck_eq!(last, b.roots.last().copied(), "root of the same contents along another history");
        Ok(())
    }
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

// ---------------------------------------------------------------- C03
pub fn leaf_parts(l: &SparseMerkleLeafNode) -> (KeyHash, [u8; 32]) {
    let b = l.try_to_vec().unwrap();
    (KeyHash(b[..32].try_into().unwrap()), b[32..64].try_into().unwrap())
}
pub fn mk_leaf(k: &KeyHash, vh: &[u8; 32]) -> SparseMerkleLeafNode {
    let mut b = k.0.to_vec();
    b.extend_from_slice(vh);
    SparseMerkleLeafNode::try_from_slice(&b).expect("leaf encoding")
}
pub fn mk_proof<H: SimpleHasher>(leaf: Option<(KeyHash, [u8; 32])>, sib: &[[u8; 32]]) -> SparseMerkleProof<H> {
    let mut b = vec![];
    match leaf {
        None => b.push(0),
        Some((k, h)) => {
            b.push(1);
            b.extend_from_slice(&k.0);
            b.extend_from_slice(&h);
        }
    }
    b.extend_from_slice(&(sib.len() as u32).to_le_bytes());
    for s in sib {
        b.extend_from_slice(s);
    }
    SparseMerkleProof::<H>::try_from_slice(&b).expect("proof encoding")
}
pub fn mk_range(sib: &[[u8; 32]]) -> SparseMerkleRangeProof {
    let mut b = vec![];
    b.extend_from_slice(&(sib.len() as u32).to_le_bytes());
    for s in sib {
        b.extend_from_slice(s);
    }
    SparseMerkleRangeProof::try_from_slice(&b).expect("range proof encoding")
}
/// Everything a proof read must satisfy. Returns the proof.
pub fn check_proof_read<S: Store, H: SimpleHasher>(
    tree: &JellyfishMerkleTree<S, H>,
    contents: &KV,
    smt: &Smt,
    root: RootHash,
    k: KeyHash,
    v: u64,
) -> Result<SparseMerkleProof<H>, String> {
    let want = contents.get(&k);
    let (val, p) = ok!(tree.get_with_proof(k, v), "get_with_proof({k:?}, {v})");
    ck_eq!(val.as_ref(), want, "value of get_with_proof({k:?}, {v})");
    ok!(p.verify(root, k, val.clone()), "verify of the proof of {k:?} at {v} (present: {})", want.is_some());
    match &val {
        Some(x) => ok!(p.verify_existence(root, k, x.clone()), "verify_existence({k:?}, {v})"),
        None => ok!(p.verify_nonexistence(root, k), "verify_nonexistence({k:?}, {v})"),
    }
    let vh = val.as_ref().map(H::hash);
    let leaf = p.leaf().map(|l| leaf_parts(&l));
    ck!(jmodel::verify(&root.0, &k, vh.as_ref(), leaf, p.siblings()), "the independent verifier rejects the proof of {k:?} at {v}");
    let (wl, ws) = smt.proof(&k);
    if p.leaf().is_some() {
        ck_eq!(no_panic(|| p.root_hash())?, root, "root_hash() of the proof of {k:?} at {v}");
    }
    ck!(leaf == wl && p.siblings() == &ws[..], "the proof of {k:?} at {v} is not the canonical one: leaf {leaf:?} / {wl:?}, {} / {} siblings", p.siblings().len(), ws.len());
    Ok(p)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C03 {
    h: Hist,
    mock: bool,
}
fn c03(c: &C03, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C03, ctx: &mut Ctx) -> R {
        let mut n = 0;
        let mut old: Vec<(usize, KeyHash, SparseMerkleProof<H>)> = vec![];
        let b = build::<S, H>(&c.h, |i, b| {
            let smt = Smt::new::<H>(&b.r.contents[i]);
            for k in b.r.keys.iter().take(4) {
                let p = check_proof_read(&b.tree, &b.r.contents[i], &smt, b.roots[i], *k, b.base + i as u64)?;
                old.push((i, *k, p));
                n += 1;
            }
            Ok(())
        })?;
        let q = queries(&b.r.keys);
        for (i, v) in b.versions() {
            let smt = Smt::new::<H>(&b.r.contents[i]);
            let step = 1 + b.roots.len() * q.len() / 600;
            for k in q.iter().skip(i % step).step_by(step) {
                let p = check_proof_read(&b.tree, &b.r.contents[i], &smt, b.roots[i], *k, v)?;
                let p2 = ok!(b.tree.get_proof(*k, v), "get_proof");
                ck!(p.leaf() == p2.leaf() && p.siblings() == p2.siblings(), "get_proof differs from get_with_proof");
                ok!(b.tree.verify_proof(*k, v, b.roots[i], p), "verify_proof of the tree");
                n += 1;
            }
        }
        for (i, k, p) in old {
            ok!(p.verify(b.roots[i], k, b.r.contents[i].get(&k)), "a proof of an older version, after later commits");
        }
        ctx.count("proofs verified", n);
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.iter().any(|c| c.len() >= 2));
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c, ctx) } else { go::<TStore, H>(c, ctx) })
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PMut {
    None,
    FlipSib(u16, u8),
    FlipLeaf(u8),
    DropSib(u16),
    DupSib(u16),
    SwapSib(u16, u16),
    RevSib,
    TruncTop(u16),
    TruncBottom(u16),
    AppendTop(u16, u8),
    AppendBottom(u16, u8),
    SetLeaf(u16),
    NoLeaf,
    LeafValue(u16),
    /// a leaf made of the two children of an internal node at the given height, with the siblings above
    InnerAsLeaf(u16),
    SpliceFrom(u16, u16),
    SetSib(u16, u8),
}
fn pmut() -> BoxedStrategy<PMut> {
    use PMut::*;
    prop_oneof![
        4 => Just(None),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| FlipSib(a, b)),
        1 => any::<u8>().prop_map(FlipLeaf),
        2 => any::<u16>().prop_map(DropSib),
        1 => any::<u16>().prop_map(DupSib),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| SwapSib(a, b)),
        1 => Just(RevSib),
        2 => any::<u16>().prop_map(TruncTop),
        2 => any::<u16>().prop_map(TruncBottom),
        1 => (prop_oneof![Just(1u16), 1u16..300], any::<u8>()).prop_map(|(a, b)| AppendTop(a, b)),
        2 => (prop_oneof![Just(1u16), 1u16..300], any::<u8>()).prop_map(|(a, b)| AppendBottom(a, b)),
        2 => any::<u16>().prop_map(SetLeaf),
        2 => Just(NoLeaf),
        1 => any::<u16>().prop_map(LeafValue),
        3 => any::<u16>().prop_map(InnerAsLeaf),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| SpliceFrom(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| SetSib(a, b)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C04 {
    h: Hist,
    /// (key proved, version, mutations, version whose root is used)
    attacks: Vec<(u16, u8, Vec<PMut>, u8)>,
}
fn fill(b: u8, salt: u64) -> [u8; 32] {
    match b % 4 {
        0 => jmodel::EMPTY,
        1 => [0; 32],
        2 => [b; 32],
        _ => prf32(salt ^ b as u64),
    }
}
fn mutate<H: SimpleHasher>(
    leaf: &mut Option<(KeyHash, [u8; 32])>,
    sib: &mut Vec<[u8; 32]>,
    k: &KeyHash,
    m: &PMut,
    smt: &Smt,
    q: &[KeyHash],
) {
    let n = sib.len();
    match m {
        PMut::None => {}
        PMut::FlipSib(i, b) if n > 0 => sib[*i as usize % n][*b as usize / 8] ^= 1 << (b % 8),
        PMut::FlipLeaf(b) => {
            if let Some((k, v)) = leaf {
                if *b < 128 {
                    k.0[*b as usize / 4] ^= 1 << (b % 8)
                } else {
                    v[(*b as usize - 128) / 4] ^= 1 << (b % 8)
                }
            }
        }
        PMut::DropSib(i) if n > 0 => {
            sib.remove(*i as usize % n);
        }
        PMut::DupSib(i) if n > 0 => {
            let s = sib[*i as usize % n];
            sib.insert(*i as usize % n, s)
        }
        PMut::SwapSib(i, j) if n > 0 => sib.swap(*i as usize % n, *j as usize % n),
        PMut::RevSib => sib.reverse(),
        PMut::TruncTop(i) => sib.truncate(*i as usize % (n + 1)),
        PMut::TruncBottom(i) => {
            sib.drain(..*i as usize % (n + 1));
        }
        PMut::AppendTop(c, b) => (0..*c).for_each(|_| sib.push(fill(*b, 7))),
        PMut::AppendBottom(c, b) => (0..*c).for_each(|_| sib.insert(0, fill(*b, 9))),
        PMut::SetLeaf(i) if !smt.leaves.is_empty() => *leaf = Some(smt.leaves[*i as usize % smt.leaves.len()]),
        PMut::NoLeaf => *leaf = None,
        PMut::LeafValue(i) => {
            if let Some((_, v)) = leaf {
                *v = H::hash(Val { len: 3, tag: *i }.bytes())
            }
        }
        PMut::InnerAsLeaf(d) if n > 0 && n <= 256 => {
            // recompute the two children of the node `d` levels above the leaf
            let d = *d as usize % n;
            let mut h = leaf.map_or(jmodel::EMPTY, |(k, v)| jmodel::leaf_hash(&k, &v));
            for i in 0..d {
                h = if bit(&k.0, n - 1 - i) { jmodel::inner_hash(&sib[i], &h) } else { jmodel::inner_hash(&h, &sib[i]) };
            }
            let (l, r) = if bit(&k.0, n - 1 - d) { (sib[d], h) } else { (h, sib[d]) };
            *leaf = Some((KeyHash(l), r));
            sib.drain(..=d);
        }
        PMut::SpliceFrom(i, at) => {
            let (_, s2) = smt.proof(&q[*i as usize % q.len()]);
            let at = *at as usize % (n + 1);
            sib.truncate(at);
            sib.extend(s2.into_iter().skip(at));
        }
        PMut::SetSib(i, b) if n > 0 => sib[*i as usize % n] = fill(*b, 11),
        _ => {}
    }
}
fn c04(c: &C04, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C04, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        hist_labels(&c.h, &b.r, ctx);
        let q = queries(&b.r.keys);
        let nv = b.roots.len();
        let smts: Vec<Smt> = b.r.contents.iter().map(Smt::new::<H>).collect();
        let (mut tried, mut accepted) = (0u64, 0u64);
        for (ki, vi, muts, ri) in &c.attacks {
            let k0 = q[*ki as usize % q.len()];
            let vi = *vi as usize % nv;
            let (_, p) = ok!(b.tree.get_with_proof(k0, b.base + vi as u64), "get_with_proof");
            let mut leaf = p.leaf().map(|l| leaf_parts(&l));
            let mut sib = p.siblings().to_vec();
            let orig = (leaf, sib.clone());
            for m in muts {
                mutate::<H>(&mut leaf, &mut sib, &k0, m, &smts[vi], &q);
            }
            let altered = (leaf, &sib) != (orig.0, &orig.1);
            let p = mk_proof::<H>(leaf, &sib);
            let ri = if *ri < 128 { vi } else { *ri as usize % nv };
            let root = b.roots[ri];
            let truth = &b.r.contents[ri];
            // the statements: about the proved key, the leaf's key, every key near, a present value, other
            // values, absence
            let mut ks: Vec<KeyHash> = vec![k0];
            ks.extend(leaf.map(|l| l.0));
            ks.extend(q.iter().copied().skip(*ki as usize % 5).step_by(5).take(12));
            if let Some((k, _)) = leaf {
                ks.extend(succ(&k));
                for b in [0usize, 100, 255] {
                    let mut m = k.0;
                    let f = !bit(&m, b);
                    set_bit(&mut m, b, f);
                    ks.push(KeyHash(m));
                }
            }
            // the tree's own verification, of the value at a version against a root, which may be another's
            for k in ks.iter().take(3) {
                for x in [vi, ri] {
                    let val = b.r.contents[x].get(k);
                    let r = no_panic(|| VersionedTrie::verify_proof(&b.tree, *k, b.base + x as u64, root, p.clone())).map_err(|e| format!("the tree's verify_proof panics: {e}"))?;
                    tried += 1;
                    if r.is_ok() {
                        ck!(truth.get(k) == val, "the tree's verify_proof of {k:?} at version {} takes {val:?} to be true under the root of contents where it is {:?}", b.base + x as u64, truth.get(k));
                    }
                    ck_eq!(r.is_ok(), p.verify(root, *k, val).is_ok(), "the tree's verify_proof of {k:?} and the proof's verify disagree");
                }
            }
            for k in ks {
                let mut vals: Vec<Option<Vec<u8>>> = vec![None, truth.get(&k).cloned(), b.r.contents[vi].get(&k0).cloned()];
                vals.push(Some(vec![]));
                vals.push(leaf.and_then(|l| b.r.contents[vi].get(&l.0).cloned()));
                vals.extend(b.r.contents.iter().filter_map(|c| c.get(&k).cloned()).take(3).map(Some));
                if let Some((kk, hh)) = leaf {
                    // a leaf whose parts are themselves raw data
                    vals.push(Some(hh.to_vec()));
                    vals.push(Some(kk.0.to_vec()));
                }
                for val in vals {
                    tried += 1;
                    let r = no_panic(|| p.verify(root, k, val.as_ref())).map_err(|e| format!("verify panics: {e}"))?;
                    if r.is_ok() {
                        accepted += 1;
                        ck!(truth.get(&k) == val.as_ref(), "a proof {}verifies the false statement {k:?} = {val:?} against the root of contents where it is {:?}", if altered { "(altered) " } else { "" }, truth.get(&k));
                    }
                    let r2 = no_panic(|| match &val {
                        Some(v) => p.verify_existence(root, k, v),
                        None => p.verify_nonexistence(root, k),
                    })
                    .map_err(|e| format!("verify_(non)existence panics: {e}"))?;
                    ck_eq!(r2.is_ok(), r.is_ok(), "verify and verify_(non)existence disagree");
                }
            }
            ctx.nontrivial_if(altered && truth.len() >= 2);
        }
        ctx.count("statements tried", tried);
        ctx.count("true statements accepted", accepted);
        Ok(())
    }
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C05 {
    h: Hist,
    mock: bool,
}
pub fn neighbours(c: &KV, k: &KeyHash) -> (Option<KeyHash>, Option<KeyHash>) {
    use std::ops::Bound::*;
    (
        c.range((Unbounded, Excluded(*k))).next_back().map(|x| *x.0),
        c.range((Excluded(*k), Unbounded)).next().map(|x| *x.0),
    )
}
pub type Excl<H> = (Option<SparseMerkleProof<H>>, Option<SparseMerkleProof<H>>);
pub fn excl_parts<H: SimpleHasher>(e: jmt::ExclusionProof<H>) -> Excl<H> {
    use jmt::ExclusionProof::*;
    match e {
        Leftmost { leftmost_right_proof } => (None, Some(leftmost_right_proof)),
        Middle { leftmost_right_proof, rightmost_left_proof } => (Some(rightmost_left_proof), Some(leftmost_right_proof)),
        Rightmost { rightmost_left_proof } => (Some(rightmost_left_proof), None),
    }
}
fn c05(c: &C05, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C05, ctx: &mut Ctx) -> R {
        let b = build::<S, H>(&c.h, nothing)?;
        let q = queries(&b.r.keys);
        let mut n = 0;
        let step = 1 + b.roots.len() * q.len() / 400;
        for (i, v) in b.versions() {
            let cont = &b.r.contents[i];
            if cont.is_empty() {
                continue;
            }
            for k in q.iter().skip(i % step).step_by(step) {
                let r = ok!(b.tree.get_with_exclusion_proof(*k, v), "get_with_exclusion_proof({k:?}, {v})");
                n += 1;
                match r {
                    Ok((x, p)) => {
                        ck_eq!(Some(&x), cont.get(k), "value of the exclusion read of {k:?} at {v}");
                        ok!(p.verify_existence(b.roots[i], *k, x), "inclusion proof of the exclusion read");
                    }
                    Err(e) => {
                        ck!(!cont.contains_key(k), "exclusion proof for the present key {k:?} at {v}");
                        let (wl, wr) = neighbours(cont, k);
                        let (l, r) = excl_parts(e);
                        for (side, w, p) in [("left", wl, l), ("right", wr, r)] {
                            match (w, p) {
                                (None, None) => {}
                                (Some(w), Some(p)) => {
                                    let leaf = p.leaf().map(|l| leaf_parts(&l).0);
                                    ck_eq!(leaf, Some(w), "{side} neighbour of {k:?} at {v}");
                                    ok!(p.verify_existence(b.roots[i], w, &cont[&w]), "proof of the {side} neighbour of {k:?} at {v}");
                                }
                                (w, p) => return Err(format!("{side} neighbour of {k:?} at {v}: expected {w:?}, proof given: {}", p.is_some())),
                            }
                        }
                        ctx.label_if(wl.is_none(), "below all keys");
                        ctx.label_if(wr.is_none(), "above all keys");
                        ctx.label_if(wl.is_some() && wr.is_some(), "between two keys");
                    }
                }
            }
        }
        ctx.count("exclusion reads", n);
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.len() >= 2 && r.contents.iter().any(|c| c.len() >= 2));
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c, ctx) } else { go::<TStore, H>(c, ctx) })
}

// ---------------------------------------------------------------- C06
struct Host;
impl ics23::HostFunctionsProvider for Host {
    fn sha2_256(m: &[u8]) -> [u8; 32] {
        sha2::Sha256::hash(m)
    }
    fn sha2_512(_: &[u8]) -> [u8; 64] {
        [0; 64]
    }
    fn sha2_512_truncated(m: &[u8]) -> [u8; 32] {
        sha2::Sha512_256::hash(m)
    }
    fn sha3_512(_: &[u8]) -> [u8; 64] {
        [0; 64]
    }
    fn ripemd160(_: &[u8]) -> [u8; 20] {
        [0; 20]
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ISet {
    Ops(Vec<(u16, Option<Val>)>),
    Fill(u16),
    DelAllBut(u16),
    Nothing,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C06 {
    base: u64,
    nkeys: u16,
    salt: u16,
    sets: Vec<ISet>,
    queries: Vec<u16>,
    mock: bool,
    #[serde(default)]
    deep: bool,
}
/// Numbers whose keys ("d" and the number) have SHA-256 hashes close to one another: groups of four neighbours, two or three
/// of which have 37 to 52 leading bits in common (found by hashing 2^27 of them).
#[rustfmt::skip]
const DEEP: [u32; 48] = [
    110442267, 134196426, 127418825, 44192402, 86277669, 69750984, 112123121, 114740247, 106544666, 100541233, 54309600, 2431257,
    90254175, 88098095, 67380362, 18627143, 85901115, 104983257, 102671998, 40387022, 3250560, 65872214, 96891054, 88507509,
    86091641, 40158161, 4600951, 41408000, 36377093, 5323582, 59437681, 18863018, 123265735, 124820548, 30244247, 82412819,
    48530497, 107679830, 50824001, 125008693, 31574978, 114793898, 25526080, 63829171, 125308092, 14924352, 21685701, 103252714,
];
fn ikey_deep(salt: u16, i: usize) -> Vec<u8> {
    if i % 2 == 1 && i / 2 < DEEP.len() {
        return format!("d{}", DEEP[(i / 2 + salt as usize) % DEEP.len()]).into_bytes();
    }
    ikey(salt, i)
}
fn ikey(salt: u16, i: usize) -> Vec<u8> {
    let mut k = format!("k{i}").into_bytes();
    let extra = mix((salt as u64) << 20 | i as u64) as usize % 40;
    k.extend(std::iter::repeat_n(salt as u8, extra));
    if i == 0 {
        k = vec![salt as u8];
    }
    k
}
fn c06(c: &C06, ctx: &mut Ctx) -> R {
    fn go<S: Store>(c: &C06, ctx: &mut Ctx) -> R {
        type H = sha2::Sha256;
        let n = c.nkeys as usize;
        let keys: Vec<Vec<u8>> = (0..n * 2 + 4).map(|i| if c.deep { ikey_deep(c.salt, i) } else { ikey(c.salt, i) }).collect();
        let store = Arc::new(S::fresh());
        for k in &keys[..n] {
            store.add_preimage::<H>(k);
        }
        let tree = JellyfishMerkleTree::<S, H>::new(store.clone());
        let mut cur: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        let mut hist = vec![];
        for (i, s) in c.sets.iter().enumerate() {
            let nz = |v: &Val| Val { len: v.len.max(1), tag: v.tag }.bytes();
            let w: Vec<(usize, Option<Vec<u8>>)> = match s {
                ISet::Ops(o) => o.iter().map(|(k, v)| (*k as usize % n, v.as_ref().map(nz))).collect(),
                ISet::Fill(m) => (0..*m as usize % (n + 1)).map(|k| (k, Some(nz(&Val { len: (k % 7) as u32 + 1, tag: *m })))).collect(),
                ISet::DelAllBut(m) => (0..n).filter(|k| *k != *m as usize % n).map(|k| (k, None)).collect(),
                ISet::Nothing => vec![],
            };
            for (k, v) in &w {
                match v {
                    Some(v) => cur.insert(keys[*k].clone(), v.clone()),
                    None => cur.remove(&keys[*k]),
                };
            }
            let ws: WSet = w.into_iter().map(|(k, v)| (KeyHash(H::hash(&keys[k])), v)).collect();
            let v = c.base + i as u64;
            let (root, batch) = ok!(tree.put_value_set(ws, v), "put_value_set");
            ok!(store.commit(batch), "commit");
            hist.push((v, root, cur.clone()));
        }
        let spec = jmt::ics23_spec();
        let mut cnt = 0;
        let qs: Vec<usize> = if keys.len() <= 24 { (0..keys.len()).collect() } else { c.queries.iter().map(|q| *q as usize % keys.len()).collect() };
        for (vi, (v, root, cont)) in hist.iter().enumerate() {
            let rb = root.0.to_vec();
            for q in &qs {
                let k = &keys[*q];
                let want = cont.get(k);
                if cont.is_empty() {
                    continue;
                }
                let (val, p) = ok!(tree.get_with_ics23_proof(k.clone(), *v), "get_with_ics23_proof({k:?}, {v})");
                cnt += 1;
                ck_eq!(val.as_ref(), want, "value of the ics23 read of {k:?} at {v}");
                let other = &keys[(*q + 1) % keys.len()];
                // the published spec bounds the number of siblings (the bounds are not checked by the verifier used here)
                use ics23::commitment_proof::Proof;
                let paths = match &p.proof {
                    Some(Proof::Exist(e)) => vec![e.path.len()],
                    Some(Proof::Nonexist(e)) => [&e.left, &e.right].into_iter().flatten().map(|e| e.path.len()).collect(),
                    _ => vec![],
                };
                for d in paths {
                    ck!(spec.max_depth <= 0 || d <= spec.max_depth as usize, "{d} siblings, the published spec allows {}", spec.max_depth);
                    ck!(spec.min_depth <= 0 || d >= spec.min_depth as usize, "{d} siblings, the published spec requires {}", spec.min_depth);
                    ctx.label_if(d > 40, "over 40 siblings");
                }
                match want {
                    Some(w) => {
                        ck!(ics23::verify_membership::<Host>(&p, &spec, &rb, k, w), "membership of {k:?} at {v} does not verify");
                        ck!(!ics23::verify_membership::<Host>(&p, &spec, &rb, k, &[w.as_slice(), b"x"].concat()), "membership verifies for another value");
                        ck!(!ics23::verify_membership::<Host>(&p, &spec, &rb, other, w), "membership verifies for another key");
                        ck!(!ics23::verify_non_membership::<Host>(&p, &spec, &rb, k), "non-membership of a present key verifies");
                        for (_, r2, c2) in hist.iter().skip(vi + 1).take(2) {
                            let ok2 = ics23::verify_membership::<Host>(&p, &spec, &r2.0.to_vec(), k, w);
                            ck!(!ok2 || c2.get(k) == Some(w), "membership verifies against a root of other contents");
                        }
                        // and the proof carries exactly this key and value
                        match &p.proof {
                            Some(ics23::commitment_proof::Proof::Exist(e)) => ck!(&e.key == k && &e.value == w, "the proof names another key or value"),
                            _ => return Err("not an existence proof".into()),
                        }
                        ctx.label("membership");
                    }
                    None => {
                        ck!(ics23::verify_non_membership::<Host>(&p, &spec, &rb, k), "non-membership of {k:?} at {v} does not verify");
                        for (pk, pv) in cont.iter().take(3) {
                            ck!(!ics23::verify_non_membership::<Host>(&p, &spec, &rb, pk), "non-membership of the present key {pk:?} verifies");
                            ck!(!ics23::verify_membership::<Host>(&p, &spec, &rb, k, pv), "membership of an absent key verifies");
                        }
                        ctx.label("non-membership");
                    }
                }
                let mut bad = rb.clone();
                bad[q % 32] ^= 1;
                ck!(!ics23::verify_membership::<Host>(&p, &spec, &bad, k, want.unwrap_or(&vec![1])), "verifies against another root");
                ck!(!ics23::verify_non_membership::<Host>(&p, &spec, &bad, k), "verifies against another root");
            }
        }
        ctx.count("ics23 proofs", cnt);
        ctx.nontrivial_if(hist.len() >= 2 && hist.iter().any(|h| h.2.len() >= 2));
        Ok(())
    }
    ctx.label_if(c.mock, "on MockTreeStore");
    if c.mock {
        go::<MockTreeStore>(c, ctx)
    } else {
        go::<TStore>(c, ctx)
    }
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C07 {
    h: Hist,
    mock: bool,
    /// a subtree which is stated to have more leaves
    #[serde(default)]
    large: Option<(u16, u64)>,
}
/// Runs an iterator to its end: items, bounded; checks that it stays exhausted.
pub fn drain<S: Store>(mut it: JellyfishMerkleIterator<S>, limit: usize, what: &str) -> Result<Vec<(KeyHash, Vec<u8>)>, String> {
    let mut out = vec![];
    loop {
        match it.next() {
            None => break,
            Some(Ok(x)) => out.push(x),
            Some(Err(e)) => return Err(format!("{what}: unexpected error {e:?}")),
        }
        if out.len() > limit {
            return Err(format!("{what}: more than {limit} items"));
        }
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("{what}: yields {x:?} after its end"));
        }
    }
    Ok(out)
}
pub fn check_iter<S: Store>(store: &Arc<S>, cont: &KV, v: u64, start: KeyHash) -> R {
    let it = ok!(JellyfishMerkleIterator::new(store.clone(), v, start), "iterator from {start:?} at {v}");
    let got = drain(it, cont.len() + 2, &format!("iteration from {start:?} at {v}"))?;
    let want: Vec<(KeyHash, Vec<u8>)> = cont.range(start..).map(|(k, v)| (*k, v.clone())).collect();
    ck!(got == want, "iteration from {start:?} at {v}: got {:?}, expected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>());
    Ok(())
}
pub fn check_iter_idx<S: Store>(store: &Arc<S>, cont: &KV, v: u64, i: usize) -> R {
    let it = ok!(JellyfishMerkleIterator::new_by_index(store.clone(), v, i), "iterator from index {i} at {v}");
    let got = drain(it, cont.len() + 2, &format!("iteration from index {i} at {v}"))?;
    let want: Vec<(KeyHash, Vec<u8>)> = cont.iter().skip(i).map(|(k, v)| (*k, v.clone())).collect();
    ck!(got == want, "iteration from index {i} at {v}: got {:?}, expected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>());
    Ok(())
}
fn c07(c: &C07, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C07, ctx: &mut Ctx) -> R {
        let b = build::<S, H>(&c.h, nothing)?;
        let q = queries(&b.r.keys);
        let mut n = 0u64;
        for (i, v) in b.versions() {
            let cont = &b.r.contents[i];
            let last = i + 1 == b.roots.len();
            let step = if last { 1 } else { 4 };
            for k in q.iter().skip(i % step).step_by(step) {
                check_iter(&b.store, cont, v, *k)?;
                n += 1;
            }
            if c.h.migration {
                let mut idx: Vec<usize> = (0..cont.len() + 2).collect();
                if !last {
                    idx.truncate(6);
                }
                idx.extend([cont.len().saturating_sub(1), cont.len(), usize::MAX]);
                for j in idx {
                    check_iter_idx(&b.store, cont, v, j)?;
                    n += 1;
                }
                let got = drain(ok!(b.tree.iter(v), "iter"), cont.len() + 2, "iter")?;
                ck!(got.iter().map(|x| (&x.0, &x.1)).eq(cont.iter()), "iter() at {v} differs from the contents");
            }
            ctx.count("items expected", cont.len() as u64);
        }
        ctx.count("iterations", n);
        Ok(())
    }
    fn large<H: SimpleHasher>(c: &C07, pick: u16, delta: u64, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        for (i, v) in b.versions().skip(b.roots.len().saturating_sub(2)) {
            let cont = &b.r.contents[i];
            let Some(f) = inflate(&b.store.snapshot(), v, cont, pick, delta)? else { continue };
            ctx.label("indices above a number of leaves stated by a node");
            let store = Arc::new(f.store);
            let want: Vec<(KeyHash, Vec<u8>)> = cont.iter().map(|(k, v)| (*k, v.clone())).collect();
            let after = f.first + f.stored;
            let d = delta as usize;
            let idx = (0..after).map(|j| (j, j)).chain((after..=want.len()).map(|j| (j + d, j))).chain([(usize::MAX, want.len())]);
            for (at, from) in idx {
                let it = ok!(JellyfishMerkleIterator::new_by_index(store.clone(), v, at), "iterator from index {at} at {v}");
                let got = drain(it, want.len() + 2, &format!("iteration from index {at} at {v}"))?;
                ck!(got == want[from..], "iteration from index {at} at {v}, where the keys below {:?} count {} and {d} which are not stored: got {:?}, expected those from the {from}-th on", f.path, f.stored, got.iter().map(|x| x.0).collect::<Vec<_>>());
            }
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.iter().any(|c| c.len() >= 2));
    if let Some((pick, delta)) = c.large.filter(|_| c.h.migration) {
        with_hasher!(c.h.hasher, H => large::<H>(c, pick, delta, ctx))?;
    }
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c, ctx) } else { go::<TStore, H>(c, ctx) })
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C08 {
    h: Hist,
    /// (key, mutations of the right siblings, of the left siblings, of the leaf)
    attacks: Vec<(u16, u8, Vec<SMut>, Vec<SMut>, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SMut {
    Flip(u16, u8),
    Drop(u16),
    Dup(u16),
    Swap(u16, u16),
    Push(u16, u8),
    Insert(u16, u8),
    Clear,
    Rev,
}
pub fn smut() -> BoxedStrategy<SMut> {
    use SMut::*;
    prop_oneof![
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Flip(a, b)),
        any::<u16>().prop_map(Drop),
        any::<u16>().prop_map(Dup),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Swap(a, b)),
        (prop_oneof![3 => Just(1u16), 2 => 1u16..300, 1 => 250u16..270], any::<u8>()).prop_map(|(a, b)| Push(a, b)),
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Insert(a, b)),
        Just(Clear),
        Just(Rev),
    ]
    .boxed()
}
pub fn apply_smut(s: &mut Vec<[u8; 32]>, m: &SMut) {
    let n = s.len();
    match m {
        SMut::Flip(i, b) if n > 0 => s[*i as usize % n][*b as usize / 8] ^= 1 << (b % 8),
        SMut::Drop(i) if n > 0 => {
            s.remove(*i as usize % n);
        }
        SMut::Dup(i) if n > 0 => {
            let x = s[*i as usize % n];
            s.insert(*i as usize % n, x)
        }
        SMut::Swap(i, j) if n > 0 => s.swap(*i as usize % n, *j as usize % n),
        SMut::Push(c, b) => (0..*c).for_each(|_| s.push(fill(*b, 3))),
        SMut::Insert(i, b) => s.insert(*i as usize % (n + 1), fill(*b, 5)),
        SMut::Clear => s.clear(),
        SMut::Rev => s.reverse(),
        _ => {}
    }
}
fn c08(c: &C08, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C08, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        hist_labels(&c.h, &b.r, ctx);
        let q = queries(&b.r.keys);
        let (mut n, mut bad) = (0, 0);
        for (i, v) in b.versions() {
            let cont = &b.r.contents[i];
            let smt = Smt::new::<H>(cont);
            let step = 1 + b.roots.len() * q.len() / 400;
            for k in q.iter().skip(i % step).step_by(step) {
                match cont.get(k) {
                    None => ck!(b.tree.get_range_proof(*k, v).is_err(), "a range proof for the absent key {k:?} at {v}"),
                    Some(x) => {
                        let p = ok!(b.tree.get_range_proof(*k, v), "get_range_proof({k:?}, {v})");
                        let (l, r) = smt.sides(k);
                        ck!(p.right_siblings() == &r[..], "right siblings of the range proof of {k:?} at {v}: {} given, {} expected", p.right_siblings().len(), r.len());
                        let leaf = SparseMerkleLeafNode::from(LeafNode::new(*k, jmt_value_hash::<H>(x)));
                        ok!(p.verify(b.roots[i], leaf, l), "verify of the range proof of {k:?} at {v}");
                        n += 1;
                    }
                }
            }
        }
        for (ki, vi, rm, lm, leafm) in &c.attacks {
            let vi = *vi as usize % b.roots.len();
            let cont = &b.r.contents[vi];
            if cont.is_empty() {
                continue;
            }
            let smt = Smt::new::<H>(cont);
            let (k, vh) = smt.leaves[*ki as usize % smt.leaves.len()];
            let (l0, r0) = smt.sides(&k);
            let (mut l, mut r, mut lk, mut lv) = (l0.clone(), r0.clone(), k, vh);
            rm.iter().for_each(|m| apply_smut(&mut r, m));
            lm.iter().for_each(|m| apply_smut(&mut l, m));
            match leafm % 8 {
                1 => lv[0] ^= 1,
                2 => lk.0[31] ^= 1,
                3 => lk.0[0] ^= 0x80,
                4 => (lk, lv) = smt.leaves[(*ki as usize + 1) % smt.leaves.len()],
                5 => std::mem::swap(&mut lk.0, &mut lv),
                _ => {}
            }
            let altered = (&l, &r, lk, lv) != (&l0, &r0, k, vh);
            let p = mk_range(&r);
            ctx.label_if(l.len() + r.len() > 256, "more than 256 siblings");
            let res = no_panic(|| p.verify(b.roots[vi], mk_leaf(&lk, &lv), l.clone())).map_err(|e| format!("range verify panics with {} + {} siblings: {e}", l.len(), r.len()))?;
            if altered {
                // the leaf swapped for another true leaf with the sides of that leaf is a true statement
                let truth = smt.leaves.binary_search_by(|x| x.0.cmp(&lk)).ok().map(|i| smt.leaves[i].1) == Some(lv) && smt.sides(&lk) == (l.clone(), r.clone());
                ck!(res.is_err() || truth, "an altered range proof verifies: key {lk:?}, {} left and {} right siblings", l.len(), r.len());
                bad += 1;
            } else {
                ok!(res, "verify of the unaltered range proof");
            }
            let mut root = b.roots[vi];
            root.0[3] ^= 4;
            let res = no_panic(|| mk_range(&r0).verify(root, mk_leaf(&k, &vh), l0.clone())).map_err(|e| format!("panic: {e}"))?;
            ck!(res.is_err(), "a range proof verifies against another root");
        }
        ctx.count("range proofs verified", n);
        ctx.count("altered range proofs", bad);
        ctx.nontrivial_if(b.r.contents.iter().any(|c| c.len() >= 2));
        Ok(())
    }
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}
pub fn jmt_value_hash<H: SimpleHasher>(v: &[u8]) -> jmt::ValueHash {
    jmt::ValueHash(H::hash(v))
}

// ---------------------------------------------------------------- C14
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C14 {
    h: Hist,
    mock: bool,
    /// versions written with counting on
    #[serde(default)]
    mixed: Option<u64>,
    /// versions whose internal nodes are stored without counts, as data from before there were any
    #[serde(default)]
    legacy: u64,
    /// a subtree which is stated to have more leaves, and versions written above it: (key, its operation)
    #[serde(default)]
    large: Option<(u16, u64, Vec<Vec<(u16, u8)>>)>,
}
/// The node as stored before there were leaf counts.
fn without_counts(n: &Node) -> Option<Node> {
    use serde_json::Value;
    fn strip(v: &mut Value) {
        match v {
            Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    match k.as_str() {
                        "leaf_count" => *x = Value::Null,
                        "node_type" if x.get("Internal").is_some() => *x = Value::from("InternalLegacy"),
                        _ => strip(x),
                    }
                }
            }
            Value::Array(a) => a.iter_mut().for_each(strip),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(n).ok()?;
    strip(&mut v);
    serde_json::from_value(v).ok()
}
fn c14(c: &C14, ctx: &mut Ctx) -> R {
    /// Each version is written by a tree of its own setting of the counting.
    fn mixed<S: Store, H: SimpleHasher>(c: &C14, m: u64, stripped: &mut u64) -> R {
        let store = Arc::new(S::fresh());
        let r = c.h.resolve();
        let on = JellyfishMerkleTree::<S, H>::new_migration(store.clone(), true);
        let off = JellyfishMerkleTree::<S, H>::new_migration(store.clone(), false);
        let mut all = true;
        for i in 0..r.sets.len() {
            let v = c.h.base + i as u64;
            let with = m >> (i % 64) & 1 == 1;
            all &= with;
            let t = if with { &on } else { &off };
            let (root, mut batch) = ok!(t.put_value_set(r.sets[i].clone(), v), "put_value_set at version {v}, counting: {with}");
            if c.legacy >> (i % 64) & 1 == 1 {
                for (k, n) in batch.node_batch.nodes().clone() {
                    if let Some(o) = without_counts(&n).filter(|o| *o != n) {
                        *stripped += 1;
                        batch.node_batch.insert_node(k, o);
                    }
                }
            }
            ok!(store.commit(batch), "commit of version {v}");
            ck_eq!(root.0, Smt::new::<H>(&r.contents[i]).root(), "root of version {v}, written with counting: {with}");
        }
        for i in 0..r.sets.len() {
            let v = c.h.base + i as u64;
            ck_eq!(ok!(off.get_leaf_count(v), "get_leaf_count"), None, "leaf count with counting off at version {v}");
            let n = ok!(on.get_leaf_count(v), "get_leaf_count");
            if (all && *stripped == 0) || n.is_some() {
                ck_eq!(n, Some(r.contents[i].len()), "leaf count at version {v}, versions written with counting on and off: {m:b}, without counts: {:b}", c.legacy);
            }
            if n.is_some() || *stripped == 0 {
                check_iter_idx::<S>(&store, &r.contents[i], v, r.contents[i].len() / 2)?;
            }
            ck_eq!(ok!(on.get_root_hash(v), "get_root_hash"), ok!(off.get_root_hash(v), "get_root_hash"), "root read with counting on and off");
            let got = ok!(ok!(JellyfishMerkleIterator::new(store.clone(), v, KeyHash([0; 32])), "iterator").collect::<Result<Vec<_>, _>>(), "iteration");
            ck!(got == r.contents[i].clone().into_iter().collect::<Vec<_>>(), "contents of version {v}, versions written with counting on and off: {m:b}");
        }
        Ok(())
    }
    fn go<S: Store, H: SimpleHasher>(c: &C14) -> R {
        let b = build::<S, H>(&c.h, |i, b| {
            if i + 1 < b.roots.len() {
                return Ok(());
            }
            let cont = &b.r.contents[i];
            let v = b.base + i as u64;
            ck_eq!(b.tree.len(), cont.len(), "len() of the tree after version {v}");
            ck_eq!(b.store.len(), cont.len(), "len() of the store after version {v}");
            ck_eq!(b.tree.is_empty(), cont.is_empty(), "is_empty() after version {v}");
            let newest = (0..=i).rev().find(|j| !b.r.sets[*j].is_empty()).map_or(0, |j| b.base + j as u64);
            ck_eq!(b.tree.version(), newest, "version() after version {v}");
            Ok(())
        })?;
        ck!(Arc::ptr_eq(b.tree.reader(), &b.store), "reader() is not the storage the tree was made with");
        for (i, v) in b.versions() {
            let got = ok!(b.tree.get_leaf_count(v), "get_leaf_count");
            let want = if c.h.migration { Some(b.r.contents[i].len()) } else { None };
            ck_eq!(got, want, "leaf count at version {v}");
            if !c.h.migration {
                // what is stored without leaf counting must not claim a wrong number later on
                let t2 = JellyfishMerkleTree::<S, H>::new(b.store.clone());
                if let Some(n) = ok!(t2.get_leaf_count(v), "get_leaf_count") {
                    ck_eq!(n, b.r.contents[i].len(), "leaf count read with counting on, written with it off, at {v}");
                }
            }
        }
        Ok(())
    }
    fn large<H: SimpleHasher>(c: &C14, pick: u16, delta: u64, writes: &[Vec<(u16, u8)>], ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        let Some((i, v)) = b.versions().last() else { return Ok(()) };
        let mut cont = b.r.contents[i].clone();
        let Some(f) = inflate(&b.store.snapshot(), v, &cont, pick, delta)? else { return Ok(()) };
        ctx.label("large numbers of leaves");
        let q: Vec<KeyHash> = queries(&b.r.keys).into_iter().filter(|k| !below(k, &f.path)).collect();
        let t = JellyfishMerkleTree::<TStore, H>::new(Arc::new(f.store));
        ck_eq!(ok!(t.get_leaf_count(v), "get_leaf_count"), Some(cont.len() + delta as usize), "leaf count at version {v}, where {delta} more are stated below {:?}", f.path);
        for (j, w) in writes.iter().enumerate() {
            let Some(v) = v.checked_add(1 + j as u64).filter(|v| *v < u64::MAX) else { break };
            let set: WSet = w.iter().filter(|_| !q.is_empty()).map(|(k, op)| (q[*k as usize % q.len()], (op % 3 > 0).then(|| vec![*op]))).collect();
            let sets = [set];
            let batched = pick.wrapping_add(j as u16) % 2 == 0 && batchable(&sets, true);
            let (roots, batch) = if batched {
                ok!(t.batch_put_value_sets(insertions(&sets), None, v), "batch_put_value_sets")
            } else {
                ok!(t.put_value_sets(sets.to_vec(), v), "put_value_sets")
            };
            ok!(t.reader().apply(&batch), "commit");
            for (k, x) in &sets[0] {
                match x {
                    Some(x) => cont.insert(*k, x.clone()),
                    None => cont.remove(k),
                };
            }
            ck_eq!(roots[0].0, Smt::new::<H>(&cont).root(), "root of version {v}, written beside a large subtree");
            ck_eq!(ok!(t.get_leaf_count(v), "get_leaf_count"), Some(cont.len() + delta as usize), "leaf count at version {v}, written beside a subtree of {delta} more, batch insertion: {batched}");
        }
        Ok(())
    }
    fn by_default<H: SimpleHasher>(c: &C14) -> R {
        let t = JellyfishMerkleTree::<MockTreeStore, H>::default();
        ck!(t.is_empty() && t.len() == 0, "a tree made by default holds something");
        let r = c.h.resolve();
        let (root, batch) = ok!(t.put_value_set(r.sets[0].clone(), 0), "put_value_set");
        ok!(t.reader().commit(batch), "commit");
        ck_eq!(root.0, Smt::new::<H>(&r.contents[0]).root(), "root of a tree made by default");
        ck_eq!((t.len(), ok!(t.get_leaf_count(0), "get_leaf_count")), (r.contents[0].len(), Some(r.contents[0].len())), "length and leaf count of a tree made by default");
        Ok(())
    }
    let r = c.h.resolve();
    if c.mock && !r.sets.is_empty() {
        with_hasher!(c.h.hasher, H => by_default::<H>(c))?;
    }
    hist_labels(&c.h, &r, ctx);
    ctx.nontrivial_if(r.contents.len() >= 2 && r.contents.iter().any(|c| c.len() >= 2));
    if let Some((pick, delta, writes)) = c.large.as_ref().filter(|_| c.h.migration) {
        with_hasher!(c.h.hasher, H => large::<H>(c, *pick, *delta, writes, ctx))?;
    }
    ctx.label_if(c.mixed.is_some(), "versions written with leaf counting on and off");
    with_hasher!(c.h.hasher, H => if c.mock { go::<MockTreeStore, H>(c) } else { go::<TStore, H>(c) })?;
    if let Some(m) = c.mixed {
        let mut n = 0;
        with_hasher!(c.h.hasher, H => if c.mock { mixed::<MockTreeStore, H>(c, m, &mut n) } else { mixed::<TStore, H>(c, m, &mut n) })?;
        ctx.label_if(n > 0, "stored nodes without counts");
    }
    Ok(())
}

macro_rules! rule {
    ($s:expr) => {
        concat!("a case is a write history over a universe of related keys (shared prefixes of any bit length, zero/one tails), per version a write set of puts, overwrites and deletions (also of absent and repeated keys), empty, fill and delete-all sets, three hash functions, first version possibly above 0; ", $s)
    };
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![
        Box::new(Check::<C01> {
            id: "C01",
            level: "exploration",
            rule: rule!("non-trivial: at least two versions and a version with at least two keys"),
            assumptions: &["versions are contiguous, as the write API requires"],
            quick: 20000,
            thorough: 8_000_000,
            strategy: |t| (hist(scaled(STD, t)), any::<bool>()).prop_map(|(h, mock)| C01 { h, mock }).boxed(),
            run: c01,
        }),
        Box::new(Check::<C02> {
            id: "C02",
            level: "exploration",
            rule: rule!("plus a second history to the same contents; non-trivial: a version with at least two keys"),
            assumptions: &["versions are contiguous", "the reference root is the independent sparse Merkle root of jmodel.rs"],
            quick: 30000,
            thorough: 16_000_000,
            strategy: |t| {
                (hist(scaled(STD, t)), any::<u64>(), prop::collection::vec(any::<u8>(), 0..6), 0u8..6)
                    .prop_map(|(h, perm, cuts, detour)| C02 { h, perm, cuts, detour })
                    .boxed()
            },
            run: c02,
        }),
        Box::new(Check::<C03> {
            id: "C03",
            level: "exploration",
            rule: rule!("non-trivial: a version with at least two keys"),
            assumptions: &["versions are contiguous"],
            quick: 6000,
            thorough: 4_000_000,
            strategy: |t| (hist(scaled(STD, t)), any::<bool>()).prop_map(|(h, mock)| C03 { h, mock }).boxed(),
            run: c03,
        }),
        Box::new(Check::<C04> {
            id: "C04",
            level: "exploration",
            rule: rule!("plus proofs altered by 0..4 mutations each (bit flips, siblings dropped/added/reordered/spliced, leaf replaced, forged leaves made of inner hashes) tried on many statements; non-trivial: an altered proof tried against a root of at least two keys"),
            assumptions: &["SHA-256 is collision free for the inputs generated"],
            quick: 20000,
            thorough: 6_000_000,
            strategy: |t| {
                (hist(scaled(HP { keys: 16, versions: 4, ..STD }, t)), prop::collection::vec((any::<u16>(), any::<u8>(), prop::collection::vec(pmut(), 0..4), any::<u8>()), 1..12))
                    .prop_map(|(h, attacks)| C04 { h, attacks })
                    .boxed()
            },
            run: c04,
        }),
        Box::new(Check::<C05> {
            id: "C05",
            level: "exploration",
            rule: rule!("non-trivial: at least two versions and a version with at least two keys"),
            assumptions: &["versions are contiguous", "the empty version has no exclusion proof (documented error)"],
            quick: 12000,
            thorough: 6_000_000,
            strategy: |t| (hist(scaled(STD, t)), any::<bool>()).prop_map(|(h, mock)| C05 { h, mock }).boxed(),
            run: c05,
        }),
        Box::new(Check::<C06> {
            id: "C06",
            level: "exploration",
            rule: "a case is a history of write sets over named keys with SHA-256 key hashes and registered preimages, and keys to ask about, present and absent, at every version; non-trivial: at least two versions and a version with at least two keys",
            assumptions: &["keys and values are non-empty, as ICS23 requires", "the verifier is the published ics23 crate", "H = SHA-256, as the published spec says"],
            quick: 60000,
            thorough: 2_400_000,
            strategy: |t| {
                let m = if t == Tier::Quick { 40u16 } else { 160 };
                let v = (1u32..40, 0u16..9).prop_map(|(len, tag)| Val { len, tag });
                let set = prop_oneof![
                    6 => prop::collection::vec((any::<u16>(), prop::option::weighted(0.7, v)), 1..8).prop_map(ISet::Ops),
                    2 => any::<u16>().prop_map(ISet::Fill),
                    1 => any::<u16>().prop_map(ISet::DelAllBut),
                    1 => Just(ISet::Nothing),
                ];
                (prop_oneof![4 => Just(0u64), 1 => 1u64..5], prop_oneof![1u16..8, 1..m], any::<u16>(), prop::collection::vec(set, 1..6), prop::collection::vec(any::<u16>(), 4..20), any::<bool>(), any::<bool>())
                    .prop_map(|(base, nkeys, salt, sets, queries, mock, deep)| C06 { base, nkeys, salt, sets, queries, mock, deep })
                    .boxed()
            },
            run: c06,
        }),
        Box::new(Check::<C07> {
            id: "C07",
            level: "exploration",
            rule: rule!("iterated from every universe key, neighbours of keys, the extremes, and every index; non-trivial: a version with at least two keys"),
            assumptions: &["iteration by index is asked only of trees with leaf counting on"],
            quick: 15000,
            thorough: 5_000_000,
            strategy: |t| (hist(scaled(STD, t)), any::<bool>(), prop::option::weighted(0.25, (any::<u16>(), large()))).prop_map(|(h, mock, large)| C07 { h, mock, large }).boxed(),
            run: c07,
        }),
        Box::new(Check::<C08> {
            id: "C08",
            level: "exploration",
            rule: rule!("plus altered right and left siblings (up to several hundred) and leaves; non-trivial: a version with at least two keys"),
            assumptions: &["left siblings are computed by the reference tree from the smaller contents"],
            quick: 20000,
            thorough: 8_000_000,
            strategy: |t| {
                (hist(scaled(HP { keys: 24, versions: 4, ..STD }, t)), prop::collection::vec((any::<u16>(), any::<u8>(), prop::collection::vec(smut(), 0..3), prop::collection::vec(smut(), 0..3), any::<u8>()), 1..10))
                    .prop_map(|(h, attacks)| C08 { h, attacks })
                    .boxed()
            },
            run: c08,
        }),
        Box::new(Check::<C14> {
            id: "C14",
            level: "exploration",
            rule: rule!("non-trivial: at least two versions and a version with at least two keys"),
            assumptions: &["versions are contiguous"],
            quick: 40000,
            thorough: 16_000_000,
            strategy: |t| (hist(scaled(STD, t)), any::<bool>(), prop::option::weighted(0.4, any::<u64>()), prop_oneof![Just(0u64), any::<u64>(), (0u32..6).prop_map(|n| (1 << n) - 1)], prop::option::weighted(0.3, (any::<u16>(), large(), prop::collection::vec(prop::collection::vec((any::<u16>(), any::<u8>()), 0..5), 1..4)))).prop_map(|(h, mock, mixed, legacy, large)| C14 { h, mock, mixed, legacy, large }).boxed(),
            run: c14,
        }),
    ]
}
