//! Check that operations need only the nodes on the paths they concern (C30): what they give on a storage which holds
//! nothing else is what they give on the whole one.
use crate::jchecks::*;
use crate::jchecks2::*;
use crate::jgen::*;
use crate::jmodel::Smt;
use crate::ptrie::*;
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ck_eq, ok, with_hasher};
use jmt::storage::{Node, NodeKey};
use jmt::{JellyfishMerkleTree, KeyHash, SimpleHasher};
use patriecia::{InnerTrie, Trie};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum C30 {
    /// a history, and operations at versions of it
    J(Hist, Vec<(Op, u8)>),
    /// a history, and operations on a committed root: keys to insert or remove
    P(PHist, Vec<(u16, Vec<(u16, Option<PVal>)>)>),
}

fn nib(k: &KeyHash, i: usize) -> u8 {
    (k.0[i / 2] >> (4 * (1 - i % 2))) & 15
}
fn on_path(path: &[u8], k: &KeyHash) -> bool {
    path.iter().enumerate().all(|(i, n)| nib(k, i) == *n)
}
/// The keys whose paths an operation concerns, whether the nodes right below those are, too, and the keys whose
/// values it reads.
fn concerns(op: &Op, q: &[KeyHash], cont: &KV, smt: &Smt) -> (Vec<KeyHash>, bool, Vec<KeyHash>) {
    let key = |k: u16| q[k as usize % q.len()];
    let all: Vec<KeyHash> = cont.keys().copied().collect();
    match op {
        Op::Get(k) => (vec![], false, vec![key(*k)]),
        Op::GetWithProof(k) => {
            // a proof of absence shows the leaf at the end of the key's path in the binary tree
            let mut l = vec![key(*k)];
            l.extend(smt.proof(&l[0]).0.map(|x| x.0));
            (l, false, vec![key(*k)])
        }
        Op::Excl(k) => {
            let k = key(*k);
            let mut l = vec![k];
            l.extend(smt.proof(&k).0.map(|x| x.0));
            if !cont.contains_key(&k) {
                let (a, b) = neighbours(cont, &k);
                l.extend(a);
                l.extend(b);
            }
            (l.clone(), false, l)
        }
        Op::Range(k) => {
            let k = all.get(*k as usize % all.len().max(1)).copied().unwrap_or(key(*k));
            (vec![k], false, vec![k])
        }
        Op::IterFrom(k) => {
            let k = key(*k);
            let from: Vec<KeyHash> = all.iter().filter(|x| **x >= k).copied().collect();
            let mut l = from.clone();
            l.push(k);
            (l, false, from)
        }
        Op::IterIdx(i) => {
            let from = all[*i as usize % (all.len() + 1)..].to_vec();
            (from.clone(), false, from)
        }
        Op::LeafCount | Op::Root => (vec![], false, vec![]),
        Op::Write(..) | Op::WriteMany(..) => {
            let sets = op.sets(q, cont);
            let deletes = sets.iter().flatten().any(|x| x.1.is_none());
            (sets.into_iter().flatten().map(|x| x.0).collect(), deletes, vec![])
        }
    }
}
fn jmt<H: SimpleHasher>(h: &Hist, ops: &[(Op, u8)], ctx: &mut Ctx) -> R {
    let b = build::<TStore, H>(h, nothing)?;
    let n = b.roots.len();
    let q = queries(&b.r.keys);
    let whole = b.store.snapshot();
    for (op, ver) in ops {
        let i = *ver as usize % n;
        let v = h.base + i as u64;
        let cont = &b.r.contents[i];
        if deletes_from_emptied(op, &q, cont) {
            ctx.label("left out: the known finding");
            continue;
        }
        let reach = reachable(&whole.nodes, v)?;
        let (keys, below, vals) = concerns(op, &q, cont, &Smt::new::<H>(cont));
        let part: BTreeMap<NodeKey, Node> = reach
            .iter()
            .filter(|(k, _)| {
                let p = key_parts(k).1;
                p.is_empty() || keys.iter().any(|x| on_path(&p, x) || below && on_path(&p[..p.len() - 1], x))
            })
            .map(|(k, n)| (k.clone(), n.clone()))
            .collect();
        // the others are not there, or are there and hold something else, which would be found out
        let values: BTreeMap<_, _> = vals.iter().filter_map(|k| whole.values.get(k).map(|h| (*k, h.clone()))).collect();
        let full = TStore::from_data(Data { nodes: reach.clone(), values: whole.values.clone(), ..Default::default() });
        let run = |st: TStore| {
            let st = Arc::new(st);
            let t = JellyfishMerkleTree::<TStore, H>::new_migration(st.clone(), h.migration);
            let r = run_op(op, &t, &st, &q, cont, v);
            (r, st.reads())
        };
        let (want, reads) = run(full);
        let left = part.len();
        let (got, _) = run(TStore::from_data(Data { nodes: part, values, ..Default::default() }));
        ctx.count("operations on a part of a tree", 1);
        ctx.count("nodes left out", (reach.len() - left) as u64);
        ctx.count("storage reads of these", reads);
        ctx.nontrivial_if(left < reach.len());
        ctx.label_if(op.is_write(), "write to a part of a tree");
        ctx.label_if(below, "deletion from a part of a tree");
        let same = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.to_string() == b.to_string(),
            _ => false,
        };
        ck!(
            same,
            "{op:?} at version {v}: on the whole tree {} but where the {} nodes off its paths are not there {}",
            short(&want),
            reach.len() - left,
            short(&got)
        );
        if let (Ok(Out::Batch(roots, _)), true) = (&got, op.is_write()) {
            let mut c = cont.clone();
            for (set, root) in op.sets(&q, cont).into_iter().zip(roots) {
                for (k, x) in set {
                    match x {
                        Some(x) => c.insert(k, x),
                        None => c.remove(&k),
                    };
                }
                ck_eq!(root.0, Smt::new::<H>(&c).root(), "root of {op:?} on a part of version {v}");
            }
        }
    }
    Ok(())
}
/// The hashes an encoded node refers to.
fn refs(i: &Item, out: &mut Vec<Bytes>) {
    match i {
        Item::Str(s) if s.len() == 32 => out.push(s.clone()),
        Item::Str(_) => {}
        Item::List(l, _) => l.iter().for_each(|x| refs(x, out)),
    }
}
fn pmt(h: &PHist, runs: &[(u16, Vec<(u16, Option<PVal>)>)], ctx: &mut Ctx) -> R {
    let mut s = St::<PDb>::new(h);
    for op in &h.ops {
        s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
    }
    s.step(&POp::Commit).map_err(|e| format!("the last commit: {e}"))?;
    let whole = s.db.map();
    for (at, run) in runs {
        // an earlier root, on retaining storage
        let (root, cont) = match h.light {
            true => s.roots[s.roots.len() - 1].clone(),
            false => s.roots[*at as usize % s.roots.len()].clone(),
        };
        let m = Mpt::new(&cont);
        ck!(root.as_bytes() == m.root(), "the root is {root:?}");
        let keys: Vec<Bytes> = run.iter().map(|x| s.key(x.0)).collect();
        let mut path: BTreeSet<Bytes> = BTreeSet::from([m.root_node()]);
        path.extend(keys.iter().flat_map(|k| m.proof(k)));
        let removes = run.iter().any(|x| x.1.is_none());
        let mut part: BTreeMap<Bytes, Bytes> = path.iter().map(|n| (keccak(n).to_vec(), n.clone())).collect();
        if removes {
            // a removal may join a node with the one below it, and look at what that one extends to
            let mut level: Vec<Bytes> = path.iter().cloned().collect();
            for _ in 0..2 {
                let mut r = vec![];
                for n in &level {
                    if let Ok((i, _)) = item(n) {
                        refs(&i, &mut r);
                    }
                }
                level = r.iter().filter_map(|x| whole.get(x)).cloned().collect();
                part.extend(level.iter().map(|n| (keccak(n).to_vec(), n.clone())));
            }
        }
        let left = m.nodes().len();
        ctx.count("operations on a part of a trie", 1);
        ctx.count("nodes left out", left.saturating_sub(part.len()) as u64);
        ctx.nontrivial_if(part.len() < left);
        let db = Arc::new(PDb::with_map(part.clone(), false));
        let mut t = InnerTrie::new(db.clone()).at_root(root);
        let what = format!("where only {} of {left} nodes are there", part.len());
        for k in &keys {
            read(&t, &cont, k).map_err(|e| format!("{what}: {e}"))?;
            if !cont.is_empty() {
                let p = ok!(t.get_proof(k), "get_proof({}) {what}", hex::encode(k));
                let mut want = m.proof(k);
                let mut got = p.clone();
                want.sort();
                got.sort();
                ck_eq!(got, want, "nodes of the proof of {} {what}", hex::encode(k));
            }
        }
        let mut c = cont.clone();
        for (k, (_, x)) in keys.iter().zip(run) {
            match x {
                Some(x) => {
                    ok!(t.insert(k, &x.bytes(false, 0)), "insert({}) {what}", hex::encode(k));
                    c.insert(k.clone(), x.bytes(false, 0));
                }
                None => {
                    let was = ok!(t.remove(k), "remove({}) {what}", hex::encode(k));
                    ck_eq!(was, c.remove(k).is_some(), "result of remove({}) {what}", hex::encode(k));
                }
            }
        }
        for k in &keys {
            read(&t, &c, k).map_err(|e| format!("after the changes, {what}: {e}"))?;
        }
        let r = ok!(t.commit(), "commit {what}");
        ck_eq!(hex::encode(r.as_bytes()), hex::encode(Mpt::new(&c).root()), "root after the changes, {what}");
        // what it wrote, with all that was there before, is the new trie
        let mut all = whole.clone();
        all.extend(db.map());
        let t2 = InnerTrie::new(Arc::new(PDb::with_map(all, false))).at_root(r);
        let got: PKV = t2.iter().collect();
        ck!(got == c, "the trie committed {what} has {} entries, expected {}", got.len(), c.len());
        ctx.label_if(removes, "removal from a part of a trie");
    }
    Ok(())
}
fn c30(c: &C30, ctx: &mut Ctx) -> R {
    match c {
        C30::J(h, ops) => {
            let r = h.resolve();
            hist_labels(h, &r, ctx);
            with_hasher!(h.hasher, H => jmt::<H>(h, ops, ctx))
        }
        C30::P(h, runs) => {
            plabels(h, ctx);
            pmt(h, runs, ctx)
        }
    }
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check::<C30> {
        id: "C30",
        level: "exploration",
        rule: "a case is a history of a Jellyfish tree with reads, proofs, iterations and writes at versions of it, or a history of a Patricia trie with reads, proofs and changes at its roots; each is done on a storage which holds only the nodes on the paths of its keys (for deletions those right below these, too); non-trivial: nodes were left out",
        assumptions: &["versions are contiguous"],
        quick: 30000,
        thorough: 6_000_000,
        strategy: |t| {
            let j = (hist(scaled(STD, t)), prop::collection::vec((op(), any::<u8>()), 1..8)).prop_map(|(h, o)| C30::J(h, o));
            let change = (any::<u16>(), prop_oneof![1 => pval().prop_map(Some), 1 => Just(None)]);
            let only = |x: bool| (any::<u16>(), pval()).prop_map(move |(k, v)| (k, x.then_some(v)));
            let run = prop_oneof![
                2 => prop::collection::vec(only(true), 1..5),
                2 => prop::collection::vec(only(false), 1..5),
                2 => prop::collection::vec(change, 1..6),
            ];
            let p = (phist(pscaled(PP { bulk: 150, ..PSTD }, t)), prop::collection::vec((any::<u16>(), run), 1..6)).prop_map(|(h, r)| C30::P(h, r));
            prop_oneof![1 => j, 1 => p].boxed()
        },
        run: c30,
    })]
}
