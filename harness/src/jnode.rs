//! Check of the stored inner nodes and of the queries they answer (C29).
use crate::jchecks::*;
use crate::jchecks2::node_hash;
use crate::jgen::*;
use crate::jmodel::{inner_hash, leaf_hash, sub, Hash, Smt, EMPTY};
use crate::runner::*;
use crate::tstore::*;
use crate::{ck, ck_eq, ok, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::storage::{Node, NodeKey};
use jmt::{JellyfishMerkleTree, KeyHash, SimpleHasher};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

/// What a child of an inner node is.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
struct Ch {
    /// 0 absent, 1 a leaf, 2 an inner node, 3 an inner node of unknown leaf count
    kind: u8,
    salt: u16,
}
#[derive(Clone, Debug)]
struct RefChild {
    hash: Hash,
    version: u64,
    leaf: bool,
    count: Option<usize>,
}
type RefNode = BTreeMap<u8, RefChild>;
/// The hash of the subtree of the children [start, start + width), by the rule of the binary tree.
fn range_hash(n: &RefNode, start: u8, width: u8) -> Hash {
    let inside: Vec<&RefChild> = n.range(start..start + width).map(|x| x.1).collect();
    match inside.len() {
        0 => EMPTY,
        1 if inside[0].leaf || width == 1 => inside[0].hash,
        _ => inner_hash(&range_hash(n, start, width / 2), &range_hash(n, start + width / 2, width / 2)),
    }
}
/// Which child a query for `nib` ends at, and the siblings from the top down.
fn descend(n: &RefNode, nib: u8) -> (Option<u8>, Vec<Hash>) {
    let (mut start, mut width) = (0u8, 16u8);
    let mut sib = vec![];
    loop {
        width /= 2;
        let (l, r) = (start, start + width);
        start = if nib & width != 0 {
            sib.push(range_hash(n, l, width));
            r
        } else {
            sib.push(range_hash(n, r, width));
            l
        };
        let inside: Vec<(&u8, &RefChild)> = n.range(start..start + width).collect();
        match inside.len() {
            0 => return (None, sib),
            1 if inside[0].1.leaf || width == 1 => return (Some(*inside[0].0), sib),
            _ => {}
        }
    }
}
/// Everything an inner node at `version`, `path` answers, against what its children are.
fn check_inner(node: &Node, version: u64, path: &[u8], want: &RefNode) -> Result<Hash, String> {
    let Node::Internal(i) = node else { return Err("not an inner node".into()) };
    let key = node_key(version, path);
    let what = format!("inner node {key:?}");
    let listed: Vec<(u8, Hash, u64, bool, Option<usize>)> =
        i.children_sorted().map(|(n, c)| (u8::from(n), c.hash, c.version, c.is_leaf(), c.leaf_count())).collect();
    let reference: Vec<(u8, Hash, u64, bool, Option<usize>)> =
        want.iter().map(|(n, c)| (*n, c.hash, c.version, c.leaf, c.count)).collect();
    ck_eq!(listed, reference, "{what}: children_sorted");
    let mut un: Vec<(u8, Hash, u64, bool, Option<usize>)> =
        i.children_unsorted().map(|(n, c)| (u8::from(n), c.hash, c.version, c.is_leaf(), c.leaf_count())).collect();
    un.sort();
    ck_eq!(un, reference, "{what}: children_unsorted");
    let (mut ex, mut lf) = (0u16, 0u16);
    for (n, c) in want {
        ex |= 1 << n;
        lf |= (c.leaf as u16) << n;
    }
    ck_eq!(i.generate_bitmaps(), (ex, lf), "{what}: generate_bitmaps");
    let count = want.values().map(|c| c.count).sum::<Option<usize>>();
    ck_eq!(i.leaf_count(), count, "{what}: leaf_count");
    let hash = range_hash(want, 0, 16);
    ck_eq!(i.hash(), hash, "{what}: hash");
    let child_key = |n: u8| -> NodeKey {
        let mut p = path.to_vec();
        p.push(n);
        node_key(want[&n].version, &p)
    };
    for n in 0u8..16 {
        let c = i.child(n.into()).map(|c| (c.hash, c.version, c.is_leaf(), c.leaf_count()));
        ck_eq!(c, want.get(&n).map(|c| (c.hash, c.version, c.leaf, c.count)), "{what}: child({n})");
        // for an only child: itself, and a nibble which leaves its path at each of the four levels
        let only = want.keys().next().filter(|_| want.len() == 1 && path.len() > 2);
        if path.len() >= 64 || only.is_some_and(|c| (c ^ n).count_ones() > 1) {
            continue;
        }
        let (at, sib) = descend(want, n);
        let (got, gsib) = i.get_child_with_siblings(&key, n.into());
        ck_eq!(got, at.map(child_key), "{what}: the child get_child_with_siblings({n}) gives");
        ck_eq!(gsib, sib, "{what}: the siblings get_child_with_siblings({n}) gives");
        ck_eq!(
            i.get_child_without_siblings(&key, n.into()),
            at.map(child_key),
            "{what}: the child get_child_without_siblings({n}) gives"
        );
        // what they are for: they lead back to the node's hash
        let mut h = at.map_or(EMPTY, |c| want[&c].hash);
        for (d, s) in gsib.iter().enumerate().rev() {
            h = if n >> (3 - d) & 1 == 1 { inner_hash(s, &h) } else { inner_hash(&h, s) };
        }
        ck_eq!(h, hash, "{what}: the hash the siblings of child {n} lead to");
    }
    Ok(hash)
}
fn enc<T: BorshSerialize>(t: &T, b: &mut Vec<u8>) {
    t.serialize(b).unwrap()
}
/// An inner node with these children, through its encoding.
fn encoded(want: &RefNode, migration: bool) -> Result<Node, String> {
    let mut b = vec![1u8];
    for n in 0u8..16 {
        match want.get(&n) {
            None => b.push(0),
            Some(c) => {
                b.push(1);
                enc(&c.hash, &mut b);
                enc(&c.version, &mut b);
                match (c.leaf, c.count) {
                    (true, _) => b.push(0),
                    (false, None) => b.push(1),
                    (false, Some(k)) => {
                        b.push(2);
                        enc(&(k as u64), &mut b);
                    }
                }
            }
        }
    }
    enc(&(want.len() as u64), &mut b);
    enc(&want.values().map(|c| c.count.map(|x| x as u64)).sum::<Option<u64>>(), &mut b);
    enc(&migration, &mut b);
    Node::try_from_slice(&b).map_err(|e| format!("an inner node with {want:?} cannot be decoded: {e}"))
}

/// A version one subtree of which is stated to have `delta` more leaves than are stored, as if they were. What does
/// not go into that subtree cannot tell.
pub struct Inflated {
    pub store: TStore,
    /// the path of the subtree
    pub path: Vec<u8>,
    /// the index of its first key, and the number of those which are stored
    pub first: usize,
    pub stored: usize,
}
pub fn below(k: &KeyHash, path: &[u8]) -> bool {
    path.iter().enumerate().all(|(i, n)| k.0[i / 2] >> (if i % 2 == 0 { 4 } else { 0 }) & 15 == *n)
}
pub fn inflate(data: &Data, v: u64, cont: &KV, pick: u16, delta: u64) -> Result<Option<Inflated>, String> {
    let nodes = reachable(&data.nodes, v)?;
    let by_path: BTreeMap<Vec<u8>, &NodeKey> = nodes.keys().map(|k| (key_parts(k).1, k)).collect();
    let inner: Vec<&Vec<u8>> = by_path.iter().filter(|(p, k)| !p.is_empty() && matches!(nodes[*k], Node::Internal(_))).map(|x| x.0).collect();
    if inner.is_empty() {
        return Ok(None);
    }
    let path = inner[pick as usize % inner.len()].clone();
    let mut d = data.clone();
    for l in 0..path.len() {
        let key = by_path[&path[..l]];
        let Node::Internal(i) = &nodes[key] else { return Err(format!("{key:?} is not an inner node")) };
        let mut want: RefNode =
            i.children_sorted().map(|(n, c)| (u8::from(n), RefChild { hash: c.hash, version: c.version, leaf: c.is_leaf(), count: c.leaf_count() })).collect();
        let c = want.get_mut(&path[l]).and_then(|c| c.count.as_mut()).ok_or_else(|| format!("{key:?} states no count of a child"))?;
        *c += delta as usize;
        d.nodes.insert(key.clone(), encoded(&want, true)?);
    }
    let first = cont.keys().position(|k| below(k, &path)).ok_or("an inner node above no key")?;
    let stored = cont.keys().filter(|k| below(k, &path)).count();
    Ok(Some(Inflated { store: TStore::from_data(d), path, first, stored }))
}
/// Numbers of leaves around the limits of integer types.
pub fn large() -> BoxedStrategy<u64> {
    (prop_oneof![Just(8u32), Just(16), Just(31), Just(32), 8u32..60], 0u64..80).prop_map(|(s, b)| (1u64 << s) - 40 + b).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C29 {
    /// inner nodes given directly: version, path length, children
    direct: Vec<(u64, u8, Vec<Ch>)>,
    /// trees in which every child of the node at this depth (nibbles) is chosen: keys below each nibble, where
    /// further keys leave the first one's path, per version which keys are written or deleted
    shape: Option<Shape>,
    h: Option<Hist>,
    migration: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    depth: u8,
    salt: u16,
    /// number of keys (0..3) below each of the 16 nibbles, and how deep the fork of those is
    below: Vec<(u8, u8)>,
    /// per version: a bit per key (by position) written in that version, and a bit per key deleted
    writes: Vec<(u64, u64)>,
    base: u64,
}
impl Shape {
    fn keys(&self) -> Vec<KeyHash> {
        let depth = self.depth as usize % 63;
        let prefix = prf32(self.salt as u64);
        let mut out = vec![];
        for (n, (cnt, fork)) in self.below.iter().enumerate().take(16) {
            let mut first = [0u8; 32];
            for j in 0..*cnt as usize {
                let mut k = if j == 0 { prf32(0x77 ^ (self.salt as u64) << 16 ^ (n as u64) << 8) } else { first };
                if j == 0 {
                    for b in 0..depth * 4 {
                        set_bit(&mut k, b, bit(&prefix, b));
                    }
                    for b in 0..4 {
                        set_bit(&mut k, depth * 4 + b, n >> (3 - b) & 1 == 1);
                    }
                    first = k;
                } else {
                    // leaves the first key's path at a bit below the nibble
                    let room = 256 - (depth + 1) * 4;
                    let b = depth * 4 + 4 + (*fork as usize * j) % room;
                    let v = bit(&k, b);
                    set_bit(&mut k, b, !v);
                }
                out.push(KeyHash(k));
            }
        }
        out
    }
}
/// The nodes of every version describe their children and the contents below them.
fn check_tree(store: &TStore, v: u64, cont: &KV, leaves: &[(KeyHash, Hash)], last: bool, memo: &mut BTreeMap<NodeKey, Hash>, ctx: &mut Ctx) -> R {
    let nodes = store.with(|d| d.nodes.clone());
    let reach = reachable(&nodes, v)?;
    let root = &reach[&node_key(v, &[])];
    ck_eq!(node_hash(root), sub(leaves, 0), "hash of the root node of version {v}");
    // from the bottom up: what a node's hash must be follows from those of its children
    let mut list: Vec<(u64, Vec<u8>, &NodeKey, &Node)> = reach.iter().map(|(k, n)| (key_parts(k), k, n)).map(|((v, p), k, n)| (v, p, k, n)).collect();
    list.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
    for (ver, path, k, n) in list {
        ck_eq!(k.version(), ver, "version of {k:?}");
        // the others were asked when they were written
        if ver != v && !last && memo.contains_key(k) {
            continue;
        }
        let below: Vec<(KeyHash, Hash)> = leaves
            .iter()
            .filter(|(x, _)| path.iter().enumerate().all(|(i, n)| (x.0[i / 2] >> (4 * (1 - i % 2))) & 15 == *n))
            .copied()
            .collect();
        match n {
            Node::Null => ck!(path.is_empty() && cont.is_empty(), "an empty node {k:?} in a tree of {} keys", cont.len()),
            Node::Leaf(l) => {
                ck!(below.len() == 1 && below[0].0 == l.key_hash(), "leaf {k:?} holds {:?}, the keys there are {below:?}", l.key_hash());
                let h = leaf_hash(&below[0].0, &below[0].1);
                ck_eq!(l.hash(), h, "hash of leaf {k:?}");
                memo.insert(k.clone(), h);
            }
            Node::Internal(i) => {
                ck!(below.len() >= 2, "inner node {k:?} above {} keys", below.len());
                ctx.count("stored inner nodes", 1);
                let mut want = RefNode::new();
                for n in 0u8..16 {
                    let inside: Vec<(KeyHash, Hash)> =
                        below.iter().filter(|(x, _)| (x.0[path.len() / 2] >> (4 * (1 - path.len() % 2))) & 15 == n).copied().collect();
                    if inside.is_empty() {
                        continue;
                    }
                    // its version is that of the node which is stored there
                    let Some(c) = i.child(n.into()) else { return Err(format!("{k:?} has no child {n}, {} keys are there", inside.len())) };
                    let mut p = path.clone();
                    p.push(n);
                    let ck = node_key(c.version, &p);
                    let Some(hash) = memo.get(&ck).filter(|_| reach.contains_key(&ck)) else { return Err(format!( "{k:?} refers to {ck:?}, which is not there")) };
                    ck!(c.version <= ver, "{k:?} refers to the later {ck:?}");
                    want.insert(
                        n,
                        RefChild {
                            hash: *hash,
                            version: c.version,
                            leaf: inside.len() == 1,
                            count: Some(inside.len()),
                        },
                    );
                }
                ctx.label_if(want.len() == 1, "inner node with one child");
                ctx.label_if(want.len() == 16, "inner node with 16 children");
                ctx.label_if(path.len() >= 32, "inner node 32 nibbles deep or more");
                let h = check_inner(n, ver, &path, &want)?;
                ck!(*n == encoded(&want, true)? || *n == encoded(&want, false)?, "stored node {k:?} is not the node of its children: {n:?}");
                memo.insert(k.clone(), h);
            }
        }
    }
    Ok(())
}
fn c29(c: &C29, ctx: &mut Ctx) -> R {
    fn go<H: SimpleHasher>(c: &C29, ctx: &mut Ctx) -> R {
        for (version, len, ch) in &c.direct {
            let mut want = RefNode::new();
            for (n, ch) in ch.iter().enumerate().take(16) {
                let s = (ch.salt as u64) << 8 | n as u64;
                if ch.kind > 0 {
                    want.insert(
                        n as u8,
                        RefChild {
                            hash: if ch.salt == 0 { EMPTY } else { prf32(s) },
                            version: mix(s) % (version.saturating_add(1)).max(1),
                            leaf: ch.kind == 1,
                            count: match ch.kind {
                                1 => Some(1),
                                2 => Some(2 + if ch.salt % 5 == 0 { (ch.salt as usize) << (ch.salt % 41) } else { ch.salt as usize }),
                                _ => None,
                            },
                        },
                    );
                }
            }
            // neither of these is ever made
            if want.is_empty() || want.len() == 1 && want.values().all(|c| c.leaf) {
                continue;
            }
            let path: Vec<u8> = prf32(*version ^ *len as u64).iter().flat_map(|b| [b >> 4, b & 15]).take(*len as usize % 65).collect();
            let n = encoded(&want, c.migration)?;
            check_inner(&n, *version, &path, &want)?;
            ctx.nontrivial_if(want.len() >= 2);
            ctx.count("inner nodes given directly", 1);
        }
        if let Some(s) = &c.shape {
            let keys = s.keys();
            let store = Arc::new(TStore::fresh());
            let tree = JellyfishMerkleTree::<TStore, H>::new_migration(store.clone(), c.migration);
            let mut cont = KV::new();
            let mut memo = BTreeMap::new();
            for (i, (w, d)) in s.writes.iter().enumerate() {
                let v = s.base + i as u64;
                let mut set: WSet = vec![];
                for (j, k) in keys.iter().enumerate() {
                    if w >> (j % 64) & 1 == 1 {
                        let val = if i % 2 == 0 { vec![i as u8, j as u8] } else { vec![i as u8; j % 5] };
                        set.push((*k, Some(val.clone())));
                        cont.insert(*k, val);
                    } else if d >> (j % 64) & 1 == 1 {
                        set.push((*k, None));
                        cont.remove(k);
                    }
                }
                let (root, b) = ok!(tree.put_value_set(set, v), "put_value_set at {v}");
                ok!(store.apply(&b), "commit");
                let smt = Smt::new::<H>(&cont);
                ck_eq!(root.0, smt.root(), "root of version {v}");
                check_tree(&store, v, &cont, &smt.leaves, i + 1 == s.writes.len(), &mut memo, ctx)?;
                ctx.nontrivial_if(cont.len() >= 2);
                ctx.label_if(cont.is_empty(), "empty version");
            }
            ctx.label("shaped tree");
        }
        if let Some(h) = &c.h {
            let b = build::<TStore, H>(h, nothing)?;
            let mut memo = BTreeMap::new();
            for (i, v) in b.versions() {
                let smt = Smt::new::<H>(&b.r.contents[i]);
                check_tree(&b.store, v, &b.r.contents[i], &smt.leaves, i + 1 == b.roots.len(), &mut memo, ctx)?;
                ctx.nontrivial_if(b.r.contents[i].len() >= 2);
            }
            ctx.label("history");
        }
        Ok(())
    }
    with_hasher!(c.h.as_ref().map_or(0, |h| h.hasher), H => go::<H>(c, ctx))
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check::<C29> {
        id: "C29",
        level: "exploration",
        rule: "a case is some inner nodes with arbitrary children (each absent, leaf, inner, inner of unknown count), and a tree shaped so that one node at any depth has chosen children (0..3 keys below each nibble, forking at any bit), written and thinned over several versions, or a write history over related keys; every reachable inner node of every version is asked everything for all 16 nibbles; non-trivial: a node with at least two children, or a version with at least two keys",
        assumptions: &["inner nodes have at least two children, or one which is an inner node, as the tree's constructor requires", "versions are contiguous"],
        quick: 30000,
        thorough: 8_000_000,
        strategy: |t| {
            let ch = (prop_oneof![4 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)], prop_oneof![8 => any::<u16>(), 1 => Just(0u16)]).prop_map(|(kind, salt)| Ch { kind, salt });
            let some = prop_oneof![
                3 => prop::collection::vec(ch.clone(), 16),
                // few children
                3 => prop::collection::vec((0usize..16, ch), 1..5).prop_map(|l| {
                    let mut v = vec![Ch { kind: 0, salt: 0 }; 16];
                    for (i, c) in l {
                        v[i] = c;
                    }
                    v
                }),
            ];
            let version = prop_oneof![3 => 0u64..20, 1 => any::<u64>(), 1 => Just(u64::MAX)];
            let direct = prop::collection::vec((version, any::<u8>(), some), 0..5);
            let cnt = prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
            let below = prop_oneof![
                3 => prop::collection::vec((cnt.clone(), any::<u8>()), 16),
                3 => prop::collection::vec((0usize..16, 1u8..4, any::<u8>()), 1..5).prop_map(|l| {
                    let mut v = vec![(0u8, 0u8); 16];
                    for (i, c, f) in l {
                        v[i] = (c, f);
                    }
                    v
                }),
                1 => prop::collection::vec((1u8..4, any::<u8>()), 16),
            ];
            let mask = prop_oneof![3 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(0u64), 2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b), 1 => (0u32..48).prop_map(|i| 1 << i)];
            let shape = (prop_oneof![2 => 0u8..4, 1 => 0u8..63, 1 => 60u8..63], any::<u16>(), below, prop::collection::vec((mask.clone(), mask), 1..5), prop_oneof![3 => Just(0u64), 1 => 1u64..300])
                .prop_map(|(depth, salt, below, writes, base)| Shape { depth, salt, below, writes, base });
            let hp = HP { bulk: 0.002, ..scaled(STD, t) };
            (direct, prop::option::weighted(0.6, shape), prop::option::weighted(0.15, hist(hp)), any::<bool>())
                .prop_map(|(direct, shape, h, migration)| C29 { direct, shape, h, migration })
                .boxed()
        },
        run: c29,
    })]
}
