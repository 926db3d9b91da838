//! Checks of restoring a tree from chunks, and of storage write failures (C09, C10, C11).
use crate::jchecks::*;
use crate::jchecks2::check_version;
use crate::jgen::*;
use crate::jmodel::Smt;
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ck_eq, ok, with_hasher};
use jmt::mock::MockTreeStore;
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::TreeWriter;
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

/// The documented version before the genesis state.
const PRE_GENESIS: u64 = u64::MAX;
type Pairs = Vec<(KeyHash, Vec<u8>)>;
/// The version of the history to copy: the chosen one, or the next after it which is not empty.
fn pick(r: &Resolved, vi: u8) -> Option<usize> {
    let n = r.contents.len();
    (0..n).map(|d| (vi as usize + d) % n).find(|i| !r.contents[*i].is_empty())
}
fn target(v: u64, shift: u8) -> u64 {
    match shift % 4 {
        // the version before the first: a new history may begin on top of it at version 0
        2 if shift > 230 => PRE_GENESIS,
        0 | 1 => v,
        2 => v + 1 + shift as u64,
        _ => v / 2,
    }
}
/// The sizes of the chunks to feed, for `left` remaining pairs.
fn chunk_size(sizes: &[u8], j: usize, left: usize) -> usize {
    let s = sizes.get(j % sizes.len().max(1)).copied().unwrap_or(0) as usize;
    (match s {
        0..=99 => 1 + s % 4,
        100..=179 => 1 + s % 20,
        180..=219 => left / 2,
        _ => left,
    })
    .clamp(1, left)
}
fn new_restore<S: Store, H: SimpleHasher>(store: &Arc<S>, v: u64, root: RootHash, mig: bool, overwrite: bool) -> anyhow::Result<JellyfishMerkleRestore<H>> {
    if overwrite {
        JellyfishMerkleRestore::<H>::new_overwrite(store.clone(), v, root, mig)
    } else {
        JellyfishMerkleRestore::<H>::new(store.clone(), v, root, mig)
    }
}
/// Where a restore has to go on: what is stored so far, from the left.
fn resume_at<S: Store>(store: &S, all: &Pairs, overwrite: bool) -> Result<usize, String> {
    if overwrite {
        return Ok(0);
    }
    Ok(match ok!(store.get_rightmost_leaf(), "get_rightmost_leaf") {
        None => 0,
        Some((_, l)) => all.iter().take_while(|x| x.0 <= l.key_hash()).count(),
    })
}
/// What a completed copy has to give, including a further version.
fn check_copy<S: Store, H: SimpleHasher>(store: &Arc<S>, cont: &KV, keys: &[KeyHash], tv: u64, mig: bool, next: &[(u16, Option<Val>)], others: bool) -> R {
    let t = JellyfishMerkleTree::<S, H>::new_migration(store.clone(), mig);
    let smt = Smt::new::<H>(cont);
    let q = queries(keys);
    let root = RootHash(smt.root());
    if others {
        // values of what was there before may remain, outside the tree
        ck_eq!(ok!(t.get_root_hash(tv), "get_root_hash({tv})"), root, "root of the copy");
        for k in q.iter().take(80) {
            check_proof_read(&t, cont, &smt, root, *k, tv)?;
        }
        for k in cont.keys().take(80) {
            ck_eq!(ok!(t.get(*k, tv), "get").as_ref(), cont.get(k), "get({k:?}, {tv}) of the copy");
        }
        check_iter(store, cont, tv, KeyHash([0; 32]))?;
    } else {
        check_version(store, &t, &q, cont, &smt, tv, 1 + q.len() / 100)?;
        ck_eq!(t.len(), cont.len(), "len() of the copy");
    }
    let want = if mig { Some(cont.len()) } else { None };
    ck_eq!(ok!(t.get_leaf_count(tv), "get_leaf_count"), want, "leaf count of the copy");
    for k in keys.iter().take(5) {
        check_iter(store, cont, tv, *k)?;
    }
    if mig {
        for i in [0, 1, cont.len() / 2, cont.len().saturating_sub(1)] {
            if i < cont.len() {
                check_iter_idx(store, cont, tv, i)?;
            }
        }
    }
    if !others {
        reachable(&store.all_nodes(), tv)?;
    }
    // the copy goes on like any tree
    let set: WSet = next.iter().map(|(k, v)| (keys[*k as usize % keys.len()], v.map(|v| v.bytes()))).collect();
    let mut c2 = cont.clone();
    for (k, v) in &set {
        match v {
            Some(v) => c2.insert(*k, v.clone()),
            None => c2.remove(k),
        };
    }
    let nv = tv.wrapping_add(1);
    // two versions in one call, computed only
    let (s1, s2) = set.split_at(set.len() / 2);
    let mut c1 = cont.clone();
    for (k, v) in s1 {
        match v {
            Some(v) => c1.insert(*k, v.clone()),
            None => c1.remove(k),
        };
    }
    if nv < u64::MAX - 1 {
        let want = vec![RootHash(Smt::new::<H>(&c1).root()), RootHash(Smt::new::<H>(&c2).root())];
        let (roots, b) = ok!(t.put_value_sets(vec![s1.to_vec(), s2.to_vec()], nv), "put_value_sets after the restore");
        ck_eq!(roots, want, "roots of two versions after the restored one");
        for v in [nv, nv + 1] {
            ck!(b.node_batch.get_node(&node_key(v, &[])).is_some(), "the batch of two versions after the restored one lacks the root of {v}");
        }
        if !s1.is_empty() && set.iter().all(|s| s.1.is_some()) {
            let f = |s: &[(KeyHash, Option<Vec<u8>>)]| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect::<Vec<_>>();
            ck_eq!(ok!(t.batch_put_value_sets(vec![f(s1), f(s2)], None, nv), "batch_put_value_sets after the restore").0, want, "roots of two versions put as a batch after the restored one");
        }
    }
    let (root, b) = ok!(t.put_value_set(set, nv), "put_value_set after the restore");
    ok!(store.commit(b), "commit after the restore");
    let smt2 = Smt::new::<H>(&c2);
    ck_eq!(root, RootHash(smt2.root()), "root of the version after the restored one");
    ck_eq!(ok!(t.get_root_hash(nv), "get_root_hash({nv})"), root, "stored root of the version after the restored one");
    for k in keys.iter().take(20) {
        // the values from before the genesis are of a later version number: not to be read after it
        if tv != PRE_GENESIS || !cont.contains_key(k) || next.iter().any(|n| keys[n.0 as usize % keys.len()] == *k) {
            check_proof_read(&t, &c2, &smt2, root, *k, nv)?;
        }
        check_proof_read(&t, cont, &smt, RootHash(smt.root()), *k, tv)?;
    }
    if mig {
        ck_eq!(ok!(t.get_leaf_count(nv), "get_leaf_count"), Some(c2.len()), "leaf count of the version after the restored one");
    }
    if tv == PRE_GENESIS {
        return Ok(());
    }
    check_iter(store, &c2, nv, KeyHash([0; 32]))?;
    if !others {
        // and is pruned like any tree
        store.do_purge(nv)?;
        check_version(store, &t, &q, &c2, &smt2, nv, 1 + q.len() / 30)?;
        let live = reachable(&store.all_nodes(), nv)?;
        for n in store.all_nodes().keys() {
            ck!(live.contains_key(n) || key_parts(n).1.is_empty(), "node {n:?} is left behind by a purge after the restore");
        }
    }
    Ok(())
}
fn clean_hist(t: Tier) -> BoxedStrategy<Hist> {
    hist(scaled(HP { keys: 40, versions: 4, ..STD }, t))
}
fn sizes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![0u8]), 4 => prop::collection::vec(any::<u8>(), 1..8), 1 => Just(vec![255u8])].boxed()
}
fn next_set() -> BoxedStrategy<Vec<(u16, Option<Val>)>> {
    prop::collection::vec((any::<u16>(), prop::option::weighted(0.6, val())), 1..6).boxed()
}

// ---------------------------------------------------------------- C09
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C09 {
    h: Hist,
    vi: u8,
    shift: u8,
    sizes: Vec<u8>,
    /// after which chunks the restore object is dropped and recreated
    stops: Vec<bool>,
    overwrite: bool,
    /// (overwriting) another tree restored at the same version before
    before: u8,
    mock: bool,
    next: Vec<(u16, Option<Val>)>,
}
fn c09(c: &C09, ctx: &mut Ctx) -> R {
    fn go<S: Store, H: SimpleHasher>(c: &C09, ctx: &mut Ctx, store: Arc<S>) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        let Some(i) = pick(&b.r, c.vi) else { return Ok(()) };
        let (v, cont, mig) = (c.h.base + i as u64, &b.r.contents[i], c.h.migration);
        // the bundled store has value versions ascend
        let tv = if c.mock && target(v, c.shift) == PRE_GENESIS { v } else { target(v, c.shift) };
        let all: Pairs = cont.iter().map(|(k, v)| (*k, v.clone())).collect();
        let mut others = false;
        if c.overwrite && c.before > 0 {
            // leave another, complete tree at the target version
            let other: KV = b.r.keys.iter().take(c.before as usize).map(|k| (*k, vec![7, c.before])).collect();
            let st = Arc::new(TStore::default());
            let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), mig);
            let (root, u) = ok!(t.put_value_set(other.iter().map(|(k, v)| (*k, Some(v.clone()))), 0), "put_value_set");
            ok!(st.apply(&u), "commit");
            let last = *other.keys().next_back().unwrap();
            let mut rs = ok!(new_restore::<S, H>(&store, tv, root, mig, true), "new_overwrite");
            ok!(rs.add_chunk(other.into_iter().collect(), ok!(t.get_range_proof(last, 0), "get_range_proof")), "add_chunk");
            ok!(rs.finish(), "finish");
            others = true;
            ctx.label("over another tree");
        }
        let root = b.roots[i];
        let mut rs = ok!(new_restore::<S, H>(&store, tv, root, mig, c.overwrite), "new restore");
        let (mut at, mut j, mut stops) = (0, 0, 0);
        while at < all.len() {
            let n = chunk_size(&c.sizes, j, all.len() - at);
            let proof = ok!(b.tree.get_range_proof(all[at + n - 1].0, v), "get_range_proof");
            ok!(rs.add_chunk(all[at..at + n].to_vec(), proof), "chunk {j} ({} pairs from {at} of {})", n, all.len());
            at += n;
            if c.stops.get(j).copied().unwrap_or(false) {
                drop(rs);
                stops += 1;
                rs = ok!(new_restore::<S, H>(&store, tv, root, mig, c.overwrite), "restore over what was stored after chunk {j}");
                at = resume_at(store.as_ref(), &all, c.overwrite)?;
                ck!(at < all.len(), "all leaves are stored before the end of the restore");
            }
            j += 1;
        }
        ok!(if all.len() % 2 == 0 { rs.finish() } else { Box::new(rs).finish_box() }, "finish");
        ctx.count("chunks", j as u64);
        ctx.count("interruptions", stops);
        ctx.label_if(stops > 0, "interrupted");
        ctx.label_if(stops > 0 && !c.overwrite, "interrupted and resumed");
        ctx.label_if(all.len() == 1, "single leaf");
        ctx.label_if(tv != v, "to another version number");
        ctx.label_if(tv == PRE_GENESIS, "before the genesis version");
        ctx.nontrivial_if(all.len() >= 2 && j >= 2);
        check_copy::<S, H>(&store, cont, &b.r.keys, tv, mig, &c.next, others)
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    ctx.label_if(c.overwrite, "overwriting restore");
    with_hasher!(c.h.hasher, H => if c.mock {
        go::<MockTreeStore, H>(c, ctx, Arc::new(MockTreeStore::new(c.overwrite)))
    } else {
        go::<TStore, H>(c, ctx, Arc::new(TStore::default()))
    })
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alt {
    Value(u16, u8),
    EmptyValue(u16),
    KeyBit(u16, u8),
    Drop(u16),
    /// inserts an absent key
    Insert(u16, u8),
    Swap(u16, u16),
    Dup(u16),
    Reverse,
    /// from an earlier or later position, with the proof of that slice or of the right one
    Slice(u8, u8, bool),
    Empty,
    Proof(SMut),
    ProofOf(u16),
    /// the same slice of another version
    OtherVersion(u8, bool),
    /// without the first pair
    SkipFirst,
    /// values exchanged
    SwapValues(u16, u16),
}
fn alt() -> BoxedStrategy<Alt> {
    use Alt::*;
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Value(a, b)),
        1 => any::<u16>().prop_map(EmptyValue),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| KeyBit(a, b)),
        3 => any::<u16>().prop_map(Drop),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Insert(a, b)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Swap(a, b)),
        1 => any::<u16>().prop_map(Dup),
        1 => Just(Reverse),
        3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Slice(a, b, c)),
        1 => Just(Empty),
        4 => smut().prop_map(Proof),
        2 => any::<u16>().prop_map(ProofOf),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| OtherVersion(a, b)),
        2 => Just(SkipFirst),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| SwapValues(a, b)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C10 {
    h: Hist,
    vi: u8,
    sizes: Vec<u8>,
    /// chunks accepted before the altered one
    good: u8,
    stop: bool,
    alts: Vec<Alt>,
    next: Vec<(u16, Option<Val>)>,
}
fn c10(c: &C10, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C10, ctx: &mut Ctx) -> R {
        let b = build::<TStore, H>(&c.h, nothing)?;
        let Some(i) = pick(&b.r, c.vi) else { return Ok(()) };
        let (v, cont, mig) = (c.h.base + i as u64, &b.r.contents[i], c.h.migration);
        let all: Pairs = cont.iter().map(|(k, v)| (*k, v.clone())).collect();
        let root = b.roots[i];
        let proof_at = |j: usize| -> Result<SparseMerkleRangeProof, String> { Ok(ok!(b.tree.get_range_proof(all[j].0, v), "get_range_proof")) };
        let sib = |p: &SparseMerkleRangeProof| p.right_siblings().to_vec();
        for alt in &c.alts {
            let store = Arc::new(TStore::default());
            let mut rs = ok!(new_restore::<TStore, H>(&store, v, root, mig, false), "new restore");
            let (mut at, mut j) = (0, 0);
            while j < c.good as usize && at < all.len() {
                let n = chunk_size(&c.sizes, j, all.len() - at);
                if at + n == all.len() {
                    break;
                }
                ok!(rs.add_chunk(all[at..at + n].to_vec(), proof_at(at + n - 1)?), "good chunk {j}");
                at += n;
                j += 1;
            }
            let mut after = at;
            if c.stop && j > 0 {
                drop(rs);
                rs = ok!(new_restore::<TStore, H>(&store, v, root, mig, false), "restore again");
                at = resume_at(store.as_ref(), &all, false)?;
                after = at;
                ctx.label("altered chunk after an interruption");
            }
            let n = chunk_size(&c.sizes, j, all.len() - at);
            let good: Pairs = all[at..at + n].to_vec();
            let gp = proof_at(at + n - 1)?;
            let (mut ch, mut sb) = (good.clone(), sib(&gp));
            let m = ch.len();
            match alt {
                Alt::Value(x, f) => {
                    let e = &mut ch[*x as usize % m].1;
                    if e.is_empty() {
                        e.push(*f)
                    } else {
                        let l = e.len();
                        e[*f as usize % l] ^= 1 << (f % 8)
                    }
                }
                Alt::EmptyValue(x) => ch[*x as usize % m].1.clear(),
                Alt::KeyBit(x, bit) => {
                    let k = &mut ch[*x as usize % m].0 .0;
                    let o = crate::jgen::bit(k, *bit as usize);
                    set_bit(k, *bit as usize, !o);
                }
                Alt::Drop(x) => {
                    ch.remove(*x as usize % m);
                }
                Alt::Insert(x, how) => {
                    let near = ch[*x as usize % m].0;
                    let q = queries(&b.r.keys);
                    let k = match how % 3 {
                        0 => succ(&near),
                        1 => pred(&near),
                        _ => q.get(*x as usize % q.len()).copied(),
                    };
                    if let Some(k) = k.filter(|k| !cont.contains_key(k)) {
                        ch.push((k, vec![*how]));
                        ch.sort();
                    }
                }
                Alt::Swap(x, y) => ch.swap(*x as usize % m, *y as usize % m),
                Alt::SwapValues(x, y) => {
                    let (x, y) = (*x as usize % m, *y as usize % m);
                    let t = ch[x].1.clone();
                    ch[x].1 = ch[y].1.clone();
                    ch[y].1 = t;
                }
                Alt::Dup(x) => {
                    let x = *x as usize % m;
                    let e = ch[x].clone();
                    ch.insert(x, e);
                }
                Alt::Reverse => ch.reverse(),
                Alt::Slice(from, len, own) => {
                    let f = *from as usize % all.len();
                    let l = 1 + *len as usize % (all.len() - f);
                    ch = all[f..f + l].to_vec();
                    if *own {
                        sb = sib(&proof_at(f + l - 1)?);
                    }
                }
                Alt::Empty => ch.clear(),
                Alt::Proof(s) => apply_smut(&mut sb, s),
                Alt::ProofOf(x) => sb = sib(&proof_at(*x as usize % all.len())?),
                Alt::OtherVersion(x, own) => {
                    let o = *x as usize % b.roots.len();
                    let os: Pairs = b.r.contents[o].iter().map(|(k, v)| (*k, v.clone())).skip(at).take(n).collect();
                    if let Some(l) = os.last() {
                        if *own {
                            sb = sib(&ok!(b.tree.get_range_proof(l.0, c.h.base + o as u64), "get_range_proof"));
                        }
                        ch = os;
                    }
                }
                Alt::SkipFirst => {
                    ch.remove(0);
                }
            }
            // is it what a correct source could send next?
            let fine = !ch.is_empty() && all[at..].starts_with(&ch) && sb == sib(&proof_at(at + ch.len() - 1)?);
            if fine {
                ctx.label("alteration without effect");
                continue;
            }
            let before = store.snapshot();
            let res = no_panic(|| rs.add_chunk(ch.clone(), mk_range(&sb)));
            match res {
                Err(p) => return Err(format!("{alt:?}: panic: {p}")),
                Ok(Ok(())) => return Err(format!("{alt:?}: the altered chunk ({} pairs, {} siblings) after {after} good pairs is accepted", ch.len(), sb.len())),
                Ok(Err(_)) => {}
            }
            ck!(store.snapshot() == before, "{alt:?}: the rejected chunk leaves something in storage");
            ctx.count("altered chunks rejected", 1);
            ctx.nontrivial_if(all.len() >= 2);
            ctx.label_if(j > 0, "altered chunk after good ones");
            // whatever the object accepts afterwards, it never stores anything else than the source
            {
                let mut a2 = at;
                let mut ended = false;
                while a2 < all.len() {
                    let n = chunk_size(&c.sizes, 3, all.len() - a2);
                    match no_panic(|| rs.add_chunk(all[a2..a2 + n].to_vec(), proof_at(a2 + n - 1).unwrap())) {
                        Err(p) => return Err(format!("{alt:?}: the correct chunk after the rejected one: panic: {p}")),
                        Ok(Err(_)) => {
                            ended = true;
                            break;
                        }
                        Ok(Ok(())) => a2 += n,
                    }
                }
                if !ended {
                    ctx.label("the same object goes on after the rejection");
                    if let Ok(()) = rs.finish() {
                        let t = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), mig);
                        let smt = Smt::new::<H>(cont);
                        check_version(&store, &t, &queries(&b.r.keys), cont, &smt, v, 3)?;
                    }
                    continue;
                }
            }
            // from here on with correct chunks
            let store = Arc::new(TStore::from_data(before));
            let mut rs = ok!(new_restore::<TStore, H>(&store, v, root, mig, false), "restore after the rejected chunk");
            let mut at = resume_at(store.as_ref(), &all, false)?;
            let mut j = 0;
            while at < all.len() {
                let n = chunk_size(&c.sizes, j, all.len() - at);
                ok!(rs.add_chunk(all[at..at + n].to_vec(), proof_at(at + n - 1)?), "correct chunk after the rejected one");
                at += n;
                j += 1;
            }
            ok!(rs.finish(), "finish");
            check_copy::<TStore, H>(&store, cont, &b.r.keys, v, mig, &c.next, false)?;
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

// ---------------------------------------------------------------- C11
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C11 {
    h: Hist,
    vi: u8,
    sizes: Vec<u8>,
    /// restore over a store that holds other, lower versions
    beside: bool,
    next: Vec<(u16, Option<Val>)>,
}
fn c11(c: &C11, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C11, ctx: &mut Ctx) -> R {
        let r = c.h.resolve();
        let n = r.sets.len();
        // commits
        let store = Arc::new(TStore::default());
        let tree = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.h.migration);
        let smts: Vec<Smt> = r.contents.iter().map(|c| Smt::new::<H>(c)).collect();
        let (mut i, mut call) = (0, 0);
        while i < n {
            let v = c.h.base + i as u64;
            let before = store.snapshot();
            let (roots, b) = write_call(&tree, &c.h, &r.sets, i, call)?;
            store.fail_write(Some(0));
            ck!(store.commit(b.clone()).is_err() && store.write_fault_hit(), "the failing commit of {v} reports no error");
            store.fail_write(None);
            ck!(store.snapshot() == before, "the failed commit of {v} leaves something");
            if i > 0 {
                let w = c.h.base + ((c.vi as usize + i) % i) as u64;
                for x in [w, v - 1] {
                    let j = (x - c.h.base) as usize;
                    check_version(&store, &tree, &r.keys, &r.contents[j], &smts[j], x, 1 + r.keys.len() / 8)?;
                }
            }
            for k in r.keys.iter().take(3) {
                ck!(tree.get_with_proof(*k, v).is_err(), "a read of the version {v}, whose commit failed");
            }
            // try again, on a handle opened anew
            let t2 = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.h.migration);
            let (roots2, b2) = write_call(&t2, &c.h, &r.sets, i, call)?;
            ck!(roots == roots2 && b == b2, "the second attempt at {v} gives another batch");
            for (j, root) in roots.iter().enumerate() {
                ck_eq!(*root, RootHash(smts[i + j].root()), "root of {}", v + j as u64);
            }
            ok!(store.commit(b2), "commit of {v}");
            i += roots.len();
            call += 1;
            ctx.count("failed writes", 1);
        }
        let src = store;
        // a restore
        let Some(i) = pick(&r, c.vi) else { return Ok(()) };
        let (v, cont, mig) = (c.h.base + i as u64, &r.contents[i], c.h.migration);
        let all: Pairs = cont.iter().map(|(k, v)| (*k, v.clone())).collect();
        let root = RootHash(smts[i].root());
        let (init, tv) = if c.beside { (src.snapshot(), c.h.base + n as u64 + 5) } else { (Data::default(), v) };
        let over = c.beside;
        // feeds all chunks from what is stored; Err(true) is the reported failure, and where
        let run = |store: &Arc<TStore>| -> Result<Result<u64, ()>, String> {
            let mut rs = match new_restore::<TStore, H>(store, tv, root, mig, over) {
                Ok(r) => r,
                Err(e) => return Err(format!("opening the restore fails: {e:?}")),
            };
            let mut at = resume_at(store.as_ref(), &all, over)?;
            let mut j = 0;
            while at < all.len() {
                let n = chunk_size(&c.sizes, j, all.len() - at);
                let p = ok!(tree.get_range_proof(all[at + n - 1].0, v), "get_range_proof");
                match no_panic(|| rs.add_chunk(all[at..at + n].to_vec(), p)) {
                    Err(p) => return Err(format!("add_chunk panics: {p}")),
                    Ok(Err(e)) => {
                        ck!(store.write_fault_hit(), "add_chunk fails without a failing write: {e:?}");
                        return Ok(Err(()));
                    }
                    Ok(Ok(())) => ck!(!store.write_fault_hit(), "the failed write of a chunk is not reported"),
                }
                at += n;
                j += 1;
            }
            match no_panic(|| rs.finish()) {
                Err(p) => Err(format!("finish panics: {p}")),
                Ok(Err(e)) => {
                    ck!(store.write_fault_hit(), "finish fails without a failing write: {e:?}");
                    Ok(Err(()))
                }
                Ok(Ok(())) => {
                    ck!(!store.write_fault_hit(), "the failed write of the end is not reported");
                    Ok(Ok(j as u64 + 1))
                }
            }
        };
        let full = Arc::new(TStore::from_data(init.clone()));
        let Ok(writes) = run(&full)? else { return Err("restore fails".into()) };
        let done = full.snapshot();
        let mut at = 0;
        let step = 1 + writes / 24;
        while at < writes {
            for after in [false, true] {
                let st = Arc::new(TStore::from_data(init.clone()));
                if after {
                    st.fail_write_after(at)
                } else {
                    st.fail_write(Some(at))
                }
                let r1 = run(&st)?;
                ck!(st.write_fault_hit(), "write {at} of {writes} was never made");
                ck!(r1.is_err(), "write {at} of {writes} fails and the restore reports success");
                st.fail_write(None);
                ctx.count("failed writes", 1);
                if over {
                    // the other versions are as they were
                    let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), mig);
                    let j = (c.vi as usize + at as usize) % n;
                    check_version(&st, &t, &r.keys, &r.contents[j], &smts[j], c.h.base + j as u64, 1 + r.keys.len() / 6)?;
                }
                let complete = st.with(|d| d.nodes.contains_key(&node_key(tv, &[])));
                if !complete && !over {
                    // a read fails while the restore is opened again
                    let before = st.snapshot();
                    let n = {
                        st.reset_reads();
                        ok!(new_restore::<TStore, H>(&st, tv, root, mig, false).map(|_| ()), "opening the restore");
                        st.reads()
                    };
                    for a in (0..n).step_by(1 + n as usize / 40) {
                        st.fail_read(a, Fault::Error);
                        let x = no_panic(|| new_restore::<TStore, H>(&st, tv, root, mig, false).map(|_| ()));
                        let hit = st.clear_fault().0;
                        let x = x.map_err(|p| format!("opening a restore panics as its read {a} of {n} fails: {p}"))?;
                        ck!(hit && x.is_err(), "read {a} of {n} fails and opening the restore succeeds");
                        ctx.count("failed reads of an opening restore", 1);
                    }
                    ck!(st.snapshot() == before, "opening a restore writes");
                }
                if !complete || over {
                    ck!(run(&st)?.is_ok(), "resuming after the failure of write {at} of {writes} fails again");
                    ctx.label("resumed after a failed write");
                } else {
                    ck!(after && at + 1 == writes, "the root is stored before the end");
                }
                let d = st.snapshot();
                ck!(d.nodes == done.nodes, "after the failure of write {at} of {writes} and resuming, the nodes differ from those of an undisturbed restore");
                ck!(d.values == done.values, "after the failure of write {at} of {writes} and resuming, the values differ from those of an undisturbed restore");
            }
            at += step;
        }
        ctx.nontrivial_if(all.len() >= 2);
        if !over {
            // over what is complete
            ctx.label("opened over a complete restore");
            let before = full.snapshot();
            match no_panic(|| new_restore::<TStore, H>(&full, tv, root, mig, false).map(|_| ())) {
                Err(p) => return Err(format!("opening a restore over a completed one panics: {p}")),
                Ok(Ok(())) => return Err("opening a restore over a completed one succeeds".into()),
                Ok(Err(_)) => {}
            }
            ck!(full.snapshot() == before, "opening a restore over a completed one changes it");
            check_copy::<TStore, H>(&full, cont, &r.keys, tv, mig, &c.next, false)?;
        }
        Ok(())
    }
    let r = c.h.resolve();
    hist_labels(&c.h, &r, ctx);
    with_hasher!(c.h.hasher, H => go::<H>(c, ctx))
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    fn _w(_: &dyn TreeWriter) {}
    vec![
        Box::new(Check::<C09> {
            id: "C09",
            level: "exploration",
            rule: "a case is a history over keys with generated shared prefixes, a version of it to copy, sizes of chunks, the chunks after which the restore object is dropped and recreated, fresh or overwriting; non-trivial: at least two pairs in at least two chunks",
            assumptions: &["the copied version is not empty", "a store being restored with `new` holds nothing else, as the interface assumes"],
            quick: 9000,
            thorough: 6_000_000,
            strategy: |t| {
                (clean_hist(t), any::<u8>(), any::<u8>(), sizes(), prop::collection::vec(prop::bool::weighted(0.35), 0..8), (prop::bool::weighted(0.3), prop_oneof![1 => Just(0u8), 1 => 1u8..20]), any::<bool>(), next_set())
                    .prop_map(|(h, vi, shift, sizes, stops, (overwrite, before), mock, next)| C09 { h, vi, shift, sizes, stops, overwrite, before, mock, next })
                    .boxed()
            },
            run: c09,
        }),
        Box::new(Check::<C10> {
            id: "C10",
            level: "exploration",
            rule: "a case is a history, a version to copy, a number of correct chunks, perhaps an interruption, and alterations of the next chunk or its proof; non-trivial: an altered chunk of a tree of at least two pairs",
            assumptions: &["SHA-256 and Keccak are collision free for the inputs generated", "a chunk which happens to be a correct next slice with its correct proof is not altered"],
            quick: 5000,
            thorough: 5_000_000,
            strategy: |t| {
                (hist(scaled(HP { keys: 24, versions: 3, ..STD }, t)), any::<u8>(), sizes(), 0u8..6, any::<bool>(), prop::collection::vec(alt(), 1..8), next_set())
                    .prop_map(|(h, vi, sizes, good, stop, alts, next)| C10 { h, vi, sizes, good, stop, alts, next })
                    .boxed()
            },
            run: c10,
        }),
        Box::new(Check::<C11> {
            id: "C11",
            level: "fault_enumeration",
            rule: "a case is a history and a version to copy in chunks; every commit fails once before it is retried, and every write of the restore (up to 24 evenly spread) fails once without effect and once after its effect; non-trivial: a restore of at least two pairs",
            assumptions: &["one write is atomic", "a restore object whose write failed is discarded and a new one opened over what is stored"],
            quick: 5000,
            thorough: 2_000_000,
            strategy: |t| {
                (hist(scaled(HP { keys: 24, versions: 4, ..STD }, t)), any::<u8>(), sizes(), prop::bool::weighted(0.3), next_set())
                    .prop_map(|(h, vi, sizes, beside, next)| C11 { h, vi, sizes, beside, next })
                    .boxed()
            },
            run: c11,
        }),
    ]
}
