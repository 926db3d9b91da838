//! Checks of the Patricia trie (C19 to C26).
use crate::jchecks::shuffle;
use crate::ptrie::*;
use crate::runner::*;
use crate::{ck, ck_eq, ok, with_db};
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, TrieError, TrieIterator, H256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

fn hex_(b: &[u8]) -> String {
    hex::encode(b)
}
/// Both iterators and the listing.
fn check_piter<D: PStore>(t: &InnerTrie<D>, c: &PKV, what: &str) -> R {
    let want: Vec<(Bytes, Bytes)> = c.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let n = want.len() + 2;
    let mut it = t.iter();
    let got: Vec<_> = it.by_ref().take(n).collect();
    ck!(got == want, "{what}: iter() gives {} where the contents are {}", show(&got), show(&want));
    for _ in 0..3 {
        ck!(it.next().is_none(), "{what}: iter() goes on after its end");
    }
    let mut it = OwnedTrieIterator::new(t.clone());
    let got: Vec<_> = it.by_ref().take(n).collect();
    ck!(got == want, "{what}: the owning iterator gives {} where the contents are {}", show(&got), show(&want));
    ck!(it.next().is_none(), "{what}: the owning iterator goes on after its end");
    let got: Vec<_> = TrieIterator::new(t).take(n).collect();
    ck!(got == want, "{what}: TrieIterator gives {} where the contents are {}", show(&got), show(&want));
    let got = ok!(t.values(), "values()");
    ck!(got == want, "{what}: values() gives {} where the contents are {}", show(&got), show(&want));
    Ok(())
}
fn show(v: &[(Bytes, Bytes)]) -> String {
    let mut s: Vec<String> = v.iter().take(12).map(|(k, v)| format!("{}={}", hex_(k), hex_(&v[..v.len().min(6)]))).collect();
    if v.len() > 12 {
        s.push(format!("... {} entries", v.len()));
    }
    format!("[{}]", s.join(" "))
}
fn nontrivial(h: &PHist, ctx: &mut Ctx, most: usize, commits: usize) {
    let _ = h;
    ctx.label_if(commits >= 2, "two commits or more");
    ctx.nontrivial_if(most >= 2);
}

// ---------------------------------------------------------------- C19
fn c19(h: &PHist, ctx: &mut Ctx) -> R {
    fn go<D: PStore>(h: &PHist, ctx: &mut Ctx) -> R {
        let mut s = St::<D>::new(h);
        let (mut most, mut commits) = (0, 0);
        for op in &h.ops {
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            most = most.max(s.cur.len());
            match op {
                POp::Commit | POp::RootHash | POp::Reopen | POp::Back(_) | POp::RemoveAll | POp::RemoveUnder(..) => {
                    commits += 1;
                    s.read_all().map_err(|e| format!("after {op:?}: {e}"))?
                }
                _ => {
                    for k in &s.keys {
                        s.read(k).map_err(|e| format!("after {op:?}: {e}"))?
                    }
                }
            }
        }
        s.read_all()?;
        ctx.count("operations", h.ops.len() as u64);
        nontrivial(h, ctx, most, commits);
        Ok(())
    }
    plabels(h, ctx);
    with_db!(h, D => go::<D>(h, ctx))
}

// ---------------------------------------------------------------- C20
fn c20(h: &PHist, ctx: &mut Ctx) -> R {
    fn go<D: PStore>(h: &PHist, ctx: &mut Ctx) -> R {
        let mut s = St::<D>::new(h);
        let (mut most, mut commits) = (0, 0);
        let mut ops = h.ops.clone();
        ops.push(POp::Commit);
        for (i, op) in ops.iter().enumerate() {
            let before = s.roots.len();
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            most = most.max(s.cur.len());
            if s.roots.len() > before {
                commits += 1;
                let m = Mpt::new(&s.cur);
                let (root, want) = (s.roots[before].0, m.root());
                ck!(root.as_bytes() == want, "root after operation {i}: {} where the contents have {}", hex_(root.as_bytes()), hex_(&want));
                if s.cur.is_empty() {
                    ctx.label("empty trie");
                    ck_eq!(hex_(root.as_bytes()), "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421", "root of the empty trie");
                }
                ctx.label_if(m.root_node().len() < 32 && !s.cur.is_empty(), "root shorter than a hash");
                ctx.count("roots compared", 1);
                // a commit with nothing to do
                ck!(ok!(s.trie.commit(), "second commit").as_bytes() == want, "a second commit gives another root");
                ck!(ok!(s.trie.root_hash(), "root_hash").as_bytes() == want, "root_hash() gives another root");
            }
        }
        // another way to the same contents
        let mut v: Vec<_> = s.cur.iter().collect();
        shuffle(&mut v, h.ops.len() as u64);
        let mut t = InnerTrie::new(Arc::new(MemoryDB::new(false)));
        for (j, (k, x)) in v.iter().enumerate() {
            if j % 3 == 0 {
                ok!(t.insert(k, &[7; 33]), "insert");
            }
            ok!(t.insert(k, x), "insert");
            let mut other = (*k).clone();
            other.push(0x42);
            if j % 2 == 0 && !s.cur.contains_key(&other) {
                ok!(t.insert(&other, b"x"), "insert");
                if j % 4 == 0 {
                    ok!(t.commit(), "commit");
                }
                ok!(t.remove(&other), "remove");
            }
        }
        ck!(ok!(t.commit(), "commit") == s.roots.last().unwrap().0, "another history to the same contents has another root");
        nontrivial(h, ctx, most, commits);
        Ok(())
    }
    plabels(h, ctx);
    with_db!(h, D => go::<D>(h, ctx))
}

// ---------------------------------------------------------------- C21
fn c21(h: &PHist, ctx: &mut Ctx) -> R {
    fn check<D: PStore>(s: &mut St<D>, root: H256, ctx: &mut Ctx) -> R {
        let m = Mpt::new(&s.cur);
        let other = InnerTrie::new(Arc::new(MemoryDB::new(true)));
        let q = pqueries(&s.keys);
        let step = 1 + q.len() / 60;
        for k in q.iter().skip(s.roots.len() % step).step_by(step) {
            let p = ok!(s.trie.get_proof(k), "get_proof({})", hex_(k));
            ck!(p == m.proof(k), "the proof of {} is not the nodes on its path", hex_(k));
            let want = s.cur.get(k);
            for (who, r) in [("the trie", s.trie.verify_proof(root, k, p.clone())), ("an empty trie", other.verify_proof(root, k, p.clone()))] {
                ck_eq!(ok!(r, "{who} verifies the proof of {}", hex_(k)).as_ref(), want, "what {who} reads in the proof of {}", hex_(k));
            }
            // the order of the nodes does not matter
            let mut rev = p;
            rev.reverse();
            ck_eq!(ok!(other.verify_proof(root, k, rev), "reversed proof").as_ref(), want, "value from the reversed proof of {}", hex_(k));
            ctx.count("proofs", 1);
        }
        Ok(())
    }
    fn go<D: PStore>(h: &PHist, ctx: &mut Ctx) -> R {
        let mut s = St::<D>::new(h);
        let (mut most, mut commits) = (0, 0);
        let mut ops = h.ops.clone();
        ops.push(POp::Commit);
        for op in &ops {
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            if let (Some(i), false) = (s.at, s.dirty) {
                if s.cur.is_empty() || s.dirty || s.at.is_none() || !matches!(op, POp::Commit | POp::RootHash | POp::Reopen | POp::Back(_) | POp::Swap | POp::Fork) {
                    continue;
                }
                ctx.label_if(matches!(op, POp::Reopen | POp::Back(_)), "after reopening");
                commits += 1;
                most = most.max(s.cur.len());
                let root = s.roots[i].0;
                check(&mut s, root, ctx).map_err(|e| format!("after {op:?}: {e}"))?;
                for k in &s.keys {
                    s.read(k).map_err(|e| format!("after proofs: {e}"))?;
                }
                if commits % 2 == 0 {
                    ck!(ok!(s.trie.commit(), "commit after proofs") == root, "requesting proofs changes the root");
                }
            }
        }
        check_piter(&s.trie, &s.cur, "after proofs")?;
        nontrivial(h, ctx, most, commits);
        Ok(())
    }
    plabels(h, ctx);
    with_db!(h, D => go::<D>(h, ctx))
}

// ---------------------------------------------------------------- C22
/// A node as RLP, not necessarily a proper one.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw {
    Bytes(Vec<u8>),
    Str(Vec<u8>),
    Leaf(Vec<u8>, Vec<u8>),
    /// compact key, child
    Pair(Vec<u8>, Box<Raw>),
    /// the sixteen children by index, and the value
    Branch(Vec<(u8, Raw)>, Vec<u8>),
    /// a branch with a value which is a list
    OddBranch(Box<Raw>),
    List(Vec<Raw>),
    /// 32 bytes: the hash of another crafted node, or of nothing
    Hash(u8),
    /// a list or string header which claims another length
    Header(u8, u32, Vec<u8>),
    /// nested this many times in extensions
    Deep(u16, Vec<u8>),
}
fn raw_enc(r: &Raw, pool: &[Bytes]) -> Bytes {
    match r {
        Raw::Bytes(b) => b.clone(),
        Raw::Str(s) => rlp_str(s),
        Raw::Leaf(k, v) => rlp_list(&[rlp_str(&hp(&k.iter().map(|x| x & 15).collect::<Vec<_>>(), true)), rlp_str(v)]),
        Raw::Pair(k, c) => rlp_list(&[rlp_str(k), raw_enc(c, pool)]),
        Raw::Branch(c, v) => {
            let mut items = vec![vec![0x80]; 16];
            for (i, r) in c {
                items[*i as usize % 16] = raw_enc(r, pool);
            }
            items.push(rlp_str(v));
            rlp_list(&items)
        }
        Raw::OddBranch(r) => {
            let mut items = vec![vec![0x80]; 16];
            items.push(raw_enc(r, pool));
            rlp_list(&items)
        }
        Raw::List(v) => rlp_list(&v.iter().map(|r| raw_enc(r, pool)).collect::<Vec<_>>()),
        Raw::Hash(i) => rlp_str(&pool.get(*i as usize).map(|b| keccak(b)).unwrap_or([*i; 32])),
        Raw::Header(b, n, rest) => {
            let mut o = vec![*b];
            o.extend(n.to_be_bytes());
            o.extend(rest);
            o
        }
        Raw::Deep(n, p) => {
            let core = rlp_list(&[vec![0x20], rlp_str(b"v")]);
            let (mut len, mut heads) = (core.len(), vec![]);
            for _ in 0..*n {
                let mut head = vec![];
                rlp_len(0xc0, rlp_str(p).len() + len, &mut head);
                head.extend(rlp_str(p));
                len += head.len();
                heads.push(head);
            }
            heads.into_iter().rev().flatten().chain(core).collect()
        }
    }
}
fn compact() -> BoxedStrategy<Vec<u8>> {
    (prop_oneof![8 => prop::sample::select(vec![0x00u8, 0x11, 0x10, 0x1f, 0x20, 0x31, 0x30]), 2 => any::<u8>()], prop::collection::vec(prop_oneof![Just(0u8), Just(0x11), any::<u8>()], 0..3))
        .prop_map(|(f, mut t)| {
            t.insert(0, f);
            t
        })
        .boxed()
}
fn raw() -> BoxedStrategy<Raw> {
    let leaf = prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Raw::Bytes),
        2 => prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..34), 1 => Just(vec![])].prop_map(Raw::Str),
        4 => (prop::collection::vec(0u8..16, 0..6), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(k, v)| Raw::Leaf(k, v)),
        3 => (0u8..8).prop_map(Raw::Hash),
        1 => (0x80u8..=255, any::<u32>(), prop::collection::vec(any::<u8>(), 0..6)).prop_map(|(a, b, c)| Raw::Header(a, b, c)),
        1 => (prop_oneof![4 => 0u16..40, 2 => 0u16..1500, 1 => 20_000u16..65_000], prop_oneof![Just(vec![0x00u8]), compact()]).prop_map(|(n, p)| Raw::Deep(n, p)),
    ];
    leaf.prop_recursive(3, 16, 4, |inner| {
        prop_oneof![
            4 => (prop_oneof![6 => compact(), 1 => Just(vec![])], inner.clone()).prop_map(|(k, r)| Raw::Pair(k, Box::new(r))),
            3 => (prop::collection::vec((0u8..16, inner.clone()), 0..4), prop::collection::vec(any::<u8>(), 0..4)).prop_map(|(c, v)| Raw::Branch(c, v)),
            1 => inner.clone().prop_map(|r| Raw::OddBranch(Box::new(r))),
            1 => prop::collection::vec(inner, 0..4).prop_map(Raw::List),
        ]
        .boxed()
    })
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PMutation {
    Drop(u8),
    Swap(u8, u8),
    Flip(u8, u16, u8),
    SetByte(u8, u16, u8),
    Cut(u8, u16),
    Append(u8, Vec<u8>),
    Foreign(u16, u16),
    Add(Vec<u8>),
    Replace(u8, Vec<u8>),
    Empty,
    Dup(u8),
    /// a branch or leaf of the proof with another value, under the same position
    Crafted(u8, Raw),
}
fn pmutation() -> BoxedStrategy<PMutation> {
    use PMutation::*;
    prop_oneof![
        3 => any::<u8>().prop_map(Drop),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Swap(a, b)),
        4 => (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| Flip(a, b, c)),
        3 => (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| SetByte(a, b, c)),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Cut(a, b)),
        1 => (any::<u8>(), prop::collection::vec(any::<u8>(), 1..4)).prop_map(|(a, b)| Append(a, b)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Foreign(a, b)),
        1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Add),
        1 => (any::<u8>(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(a, b)| Replace(a, b)),
        1 => Just(Empty),
        1 => any::<u8>().prop_map(Dup),
        2 => (any::<u8>(), raw()).prop_map(|(a, b)| Crafted(a, b)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C22 {
    h: PHist,
    /// (key of the proof, key verified, mutations)
    attacks: Vec<(u16, u16, Vec<PMutation>)>,
    /// crafted nodes; a later one may refer to an earlier one
    crafted: Vec<Raw>,
    keys: Vec<Vec<u8>>,
    /// stored nodes replaced or changed
    corrupt: Vec<(u16, PMutation)>,
    chain: u16,
}
fn one_node(b: &mut Bytes, m: &PMutation, pool: &[Bytes]) {
    let n = b.len();
    match m {
        PMutation::Flip(_, p, x) if n > 0 => b[*p as usize % n] ^= 1 << (x % 8),
        PMutation::SetByte(_, p, x) if n > 0 => b[*p as usize % n.min(40)] = *x,
        PMutation::Cut(_, p) if n > 0 => b.truncate(*p as usize % n),
        PMutation::Append(_, t) => b.extend(t),
        PMutation::Add(x) | PMutation::Replace(_, x) => *b = x.clone(),
        PMutation::Empty => b.clear(),
        PMutation::Crafted(_, r) => *b = raw_enc(r, pool),
        _ => {}
    }
}
fn c22(c: &C22, ctx: &mut Ctx) -> R {
    let h = &c.h;
    let mut s = St::<PDb>::new(h);
    for op in &h.ops {
        s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
    }
    s.step(&POp::Commit)?;
    let q = pqueries(&s.keys);
    let verifier = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    // verification says the same from wherever it is called
    let mut vtries = vec![s.trie.clone(), s.trie.clone(), s.trie.at_root(s.roots[0].0)];
    for k in s.keys.iter().take(6) {
        ok!(vtries[1].insert(k, b"not committed"), "insert");
        ok!(vtries[2].remove(k).or_else(|e| if h.light { Ok(false) } else { Err(e) }), "remove");
    }
    let from = |i: usize, root: H256, k: &[u8], p: Vec<Bytes>| if i % 2 == 0 { verifier.verify_proof(root, k, p) } else { vtries[i / 2 % vtries.len()].verify_proof(root, k, p) };
    // every crafted node, with those before it
    let mut pool: Vec<Bytes> = vec![];
    for r in &c.crafted {
        let e = raw_enc(r, &pool);
        pool.push(e);
    }
    // altered proofs of true roots
    let roots: Vec<(H256, PKV)> = s.roots.iter().rev().take(3).cloned().collect();
    for (ri, (root, cont)) in roots.iter().enumerate() {
        if cont.is_empty() {
            continue;
        }
        let m = Mpt::new(cont);
        for (ai, (pk, vk, ms)) in c.attacks.iter().enumerate() {
            let pk = &q[*pk as usize % q.len()];
            let vk = &q[*vk as usize % q.len()];
            let mut p = m.proof(pk);
            for mu in ms {
                let n = p.len().max(1);
                match mu {
                    PMutation::Drop(i) if !p.is_empty() => {
                        p.remove(*i as usize % n);
                    }
                    PMutation::Swap(i, j) if !p.is_empty() => p.swap(*i as usize % n, *j as usize % n),
                    PMutation::Dup(i) if !p.is_empty() => {
                        let x = p[*i as usize % n].clone();
                        p.push(x)
                    }
                    PMutation::Foreign(r, k) => {
                        let o = &roots[*r as usize % roots.len()].1;
                        if !o.is_empty() {
                            p.extend(Mpt::new(o).proof(&q[*k as usize % q.len()]))
                        }
                    }
                    PMutation::Add(x) => p.push(x.clone()),
                    PMutation::Empty => p.clear(),
                    PMutation::Flip(i, ..) | PMutation::SetByte(i, ..) | PMutation::Cut(i, ..) | PMutation::Append(i, ..) | PMutation::Replace(i, ..) | PMutation::Crafted(i, ..) if !p.is_empty() => {
                        one_node(&mut p[*i as usize % n], mu, &pool)
                    }
                    _ => {}
                }
            }
            for k in [pk, vk] {
                let r = no_panic(|| from(ai + ri, *root, k, p.clone())).map_err(|e| format!("verifying an altered proof panics: {e}"))?;
                let true_nodes = m.proof(k);
                let complete = true_nodes.iter().all(|n| p.contains(n));
                match r {
                    Ok(v) => {
                        ck!(v.as_ref() == cont.get(k), "an altered proof verifies to {:?} for the key {} (root {ri})", v.map(|v| hex_(&v)), hex_(k));
                        ctx.count("altered proofs which still prove the truth", 1);
                    }
                    Err(e) => {
                        ck!(!complete, "a proof which contains all nodes on the path of {} fails: {e:?}", hex_(k));
                        ck!(e == TrieError::InvalidProof, "an invalid proof gives {e:?}");
                        ctx.count("altered proofs refused", 1);
                    }
                }
            }
        }
    }
    // proofs for made up roots: an answer or an error
    for e in &pool {
        for k in c.keys.iter().chain(q.iter().take(3)) {
            for pr in [pool.clone(), vec![e.clone()]] {
                let r = no_panic(|| from(k.len(), H256(keccak(e)), k, pr.clone())).map_err(|p| format!("verifying a proof whose root node is {} panics: {p}", hex_(&e[..e.len().min(200)])))?;
                let root = keccak(e);
                let want = look(&root, k, |h| pr.iter().find(|n| (n.len() >= 32 || h == root) && keccak(n) == h).cloned());
                want.check(&r).map_err(|x| format!("verify_proof of {} for a root node {} {x}", hex_(k), hex_(&e[..e.len().min(200)])))?;
                ctx.count("proofs of crafted nodes", 1);
                match want {
                    Look::Must(Some(_)) => ctx.label("crafted nodes prove a value"),
                    Look::Must(None) => ctx.label("crafted nodes prove absence"),
                    Look::May(_) => ctx.label("crafted nodes no trie has"),
                    Look::Fail => ctx.label("crafted nodes which prove nothing"),
                    Look::Open => ctx.label("crafted nodes readers differ on"),
                }
            }
        }
    }
    if c.chain > 0 {
        // nodes which are only the hash of the next
        let mut e = rlp_list(&[vec![0x20], rlp_str(&[b'v'; 40])]);
        let mut p = vec![e.clone()];
        for _ in 0..c.chain {
            e = rlp_str(&keccak(&e));
            p.push(e.clone());
        }
        let _ = no_panic(|| verifier.verify_proof(H256(keccak(&e)), &[], p)).map_err(|p| format!("verifying a chain of hashes panics: {p}"))?;
    }
    // storage which holds malformed nodes
    let (root, cont) = s.roots.last().unwrap().clone();
    let base = s.db.map();
    let mut cases: Vec<(H256, std::collections::BTreeMap<Bytes, Bytes>, bool)> = vec![];
    for (i, m) in &c.corrupt {
        let mut map = base.clone();
        let k = map.keys().nth(*i as usize % map.len()).unwrap().clone();
        let mut b = map[&k].clone();
        one_node(&mut b, m, &pool);
        // no node may be made to contain itself or one above it
        let refs = map.keys().any(|h| h.len() == 32 && b.windows(32).any(|w| w == &h[..]) && !map[&k].windows(32).any(|w| w == &h[..]));
        if refs {
            continue;
        }
        let same = b == map[&k];
        map.insert(k, b);
        cases.push((root, map, same));
    }
    for e in &pool {
        let map = pool.iter().map(|p| (keccak(p).to_vec(), p.clone())).collect();
        cases.push((H256(keccak(e)), map, false));
    }
    for (root, map, same) in cases {
        let db = Arc::new(PDb::with_map(map.clone(), h.light));
        db.set_budget(50_000);
        let t = InnerTrie::new(db.clone()).at_root(root);
        let at = |w: &str, k: &Bytes, p: String| format!("{w}({}) over malformed nodes panics: {p}; root {}", hex_(k), hex_(root.as_bytes()));
        for k in c.keys.iter().chain(q.iter().take(6)) {
            let g = no_panic(|| t.get(k)).map_err(|p| at("get", k, p))?;
            let has = no_panic(|| t.contains(k)).map_err(|p| at("contains", k, p))?;
            let want = look(root.as_bytes(), k, |h| map.get(h).cloned());
            let w = |w: &str, x: String| format!("{w}({}) over malformed nodes {x}; root {}", hex_(k), hex_(root.as_bytes()));
            want.check(&g).map_err(|x| w("get", x))?;
            ck!(has.is_ok() == g.is_ok() && has.as_ref().map_or(true, |h| *h == g.as_ref().unwrap().is_some()), "{}", w("contains", format!("gives {has:?} where get gives {g:?}")));
            if same {
                ck!(g == Ok(cont.get(k).cloned()), "get over unchanged nodes");
            }
            let _ = no_panic(|| t.clone().insert(k, b"new value")).map_err(|p| at("insert", k, p))?;
            let _ = no_panic(|| t.clone().remove(k)).map_err(|p| at("remove", k, p))?;
            let _ = no_panic(|| t.clone().get_proof(k)).map_err(|p| at("get_proof", k, p))?;
            db.set_budget(50_000);
        }
        no_panic(|| t.iter().take(400).count()).map_err(|p| at("iter", &vec![], p))?;
        no_panic(|| OwnedTrieIterator::new(t.clone()).take(400).count()).map_err(|p| at("owned iter", &vec![], p))?;
        db.set_budget(50_000);
        // and a write back of what could be read
        let mut w = t.clone();
        let k = c.keys.first().cloned().unwrap_or_default();
        no_panic(|| {
            if w.insert(&k, b"new value").is_ok() {
                let _ = w.commit();
            }
        })
        .map_err(|p| at("insert and commit", &k, p))?;
        ctx.count("stores with malformed nodes", 1);
    }
    ctx.nontrivial_if(!c.attacks.is_empty() && roots.iter().any(|r| r.1.len() >= 2));
    plabels(h, ctx);
    Ok(())
}

// ---------------------------------------------------------------- C23
fn c23(h: &PHist, ctx: &mut Ctx) -> R {
    fn readable<D: PStore>(s: &St<D>, i: usize, dense: bool) -> R {
        let (root, c) = &s.roots[i];
        let t = s.trie.at_root(*root);
        let w = format!("root {i} of {}", s.roots.len());
        for k in c.keys() {
            read(&t, c, k).map_err(|e| format!("{w}: {e}"))?;
        }
        if dense {
            for k in pqueries(&s.keys) {
                read(&t, c, &k).map_err(|e| format!("{w}: {e}"))?;
            }
        }
        check_piter(&t, c, &w)
    }
    fn go<D: PStore>(h: &PHist, ctx: &mut Ctx, nodes: impl Fn(&D, &[u8]) -> bool) -> R {
        let mut s = St::<D>::new(h);
        let (mut most, mut commits) = (0, 0);
        let mut ops = h.ops.clone();
        ops.push(POp::Commit);
        for op in &ops {
            let before = s.roots.len();
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            most = most.max(s.cur.len());
            if s.roots.len() == before {
                continue;
            }
            commits += 1;
            readable(&s, before, true).map_err(|e| format!("after {op:?}: {e}"))?;
            for n in Mpt::new(&s.cur).nodes() {
                let k = keccak(&n);
                ck!(nodes(&s.db, &k), "after {op:?}: the node {} of the committed trie is not stored", hex_(&k));
            }
            if h.light {
                // nothing is kept but the nodes of the present trie and those which were roots
                let mut live: BTreeSet<Bytes> = Mpt::new(&s.cur).nodes().iter().map(|n| keccak(n).to_vec()).collect();
                live.extend(s.roots.iter().map(|r| r.0.as_bytes().to_vec()));
                for (k, _) in ok!(s.db.values(), "values of the storage") {
                    ck!(live.contains(&k), "after {op:?}: the pruning storage still holds the node {}, which is no longer used", hex_(&k));
                }
            }
            if !h.light && before > 0 {
                readable(&s, (before * 7) % before.max(1), false).map_err(|e| format!("after {op:?}: {e}"))?;
            }
            ctx.count("roots read back", 1);
            // the handle itself
            check_piter(&s.trie, &s.cur, "the handle after a commit")?;
        }
        if !h.light {
            for i in 0..s.roots.len() {
                readable(&s, i, i % 3 == 0)?;
            }
        }
        nontrivial(h, ctx, most, commits);
        Ok(())
    }
    plabels(h, ctx);
    with_db!(h, D => go::<D>(h, ctx, |d, k| d.get(k).ok().flatten().is_some()))
}

// ---------------------------------------------------------------- C24
fn c24(h: &PHist, ctx: &mut Ctx) -> R {
    fn go<D: PStore>(h: &PHist, ctx: &mut Ctx) -> R {
        let mut s = St::<D>::new(h);
        let (mut most, mut commits) = (0, 0);
        check_piter(&s.trie, &s.cur, "a new trie")?;
        for op in &h.ops {
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            most = most.max(s.cur.len());
            commits += matches!(op, POp::Commit) as usize;
            check_piter(&s.trie, &s.cur, &format!("after {op:?}"))?;
            ctx.count("listings", 1);
            // a listing in between changes nothing
            if let Some((k, _)) = s.cur.iter().next() {
                read(&s.trie, &s.cur, k)?;
            }
        }
        nontrivial(h, ctx, most, commits);
        Ok(())
    }
    plabels(h, ctx);
    with_db!(h, D => go::<D>(h, ctx))
}

// ---------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C25 {
    h: PHist,
    /// which operations meet failures
    at: Vec<bool>,
}
fn c25(c: &C25, ctx: &mut Ctx) -> R {
    let h = &c.h;
    let mut s = St::<PDb>::new(h);
    let mut most = 0;
    let mut ops = h.ops.clone();
    ops.push(POp::Commit);
    let mut failures = 0;
    for (i, op) in ops.iter().enumerate() {
        if c.at.get(i % c.at.len().max(1)).copied().unwrap_or(true) {
            // operations which consist of several would be carried out in part
            let k = match op {
                POp::Insert(k, _) | POp::Remove(k) | POp::Proof(k) | POp::Read(k) => Some(s.key(*k)),
                POp::Commit | POp::RootHash => Some(vec![]),
                _ => None,
            };
            if let Some(k) = k {
                // a trial on a copy tells the number of accesses
                let (copy, map) = (s.trie.clone(), s.db.map());
                s.db.fail(None);
                let _ = no_panic(|| match op {
                    POp::Insert(k, v) => s.trie.insert(&s.key(*k), &v.bytes(s.uniq, *k as usize % s.keys.len())).map(drop),
                    POp::Remove(_) => s.trie.remove(&k).map(drop),
                    POp::Proof(_) => s.trie.get_proof(&k).map(drop),
                    POp::Read(_) => s.trie.contains(&k).and_then(|_| s.trie.get(&k)).map(drop),
                    _ => s.trie.commit().map(drop),
                });
                let (n, reads) = s.db.accesses();
                s.trie = copy;
                s.db.set_map(map);
                let mut trials: Vec<(PFault, u64)> = (0..n).map(|a| (PFault::Error, a)).collect();
                trials.extend((0..reads).map(|a| (PFault::Missing, a)));
                if i % 2 == 1 {
                    trials.rotate_left(n as usize);
                }
                trials.push((PFault::Error, u64::MAX));
                // a failed commit has written its root
                let mut written = false;
                for (kind, at) in trials {
                    let before = s.db.map();
                    s.db.fail(Some((at, kind)));
                    let val = match op {
                        POp::Insert(k, v) => v.bytes(s.uniq, *k as usize % s.keys.len()),
                        _ => vec![],
                    };
                    let r: Result<Result<String, TrieError>, String> = no_panic(|| match op {
                        POp::Insert(..) => s.trie.insert(&k, &val).map(|_| "done".to_string()),
                        POp::Remove(_) => s.trie.remove(&k).map(|b| format!("removed: {b}")),
                        POp::Proof(_) => s.trie.get_proof(&k).map(|p| format!("a proof of {} nodes", p.len())),
                        POp::Read(_) => {
                            let c = s.trie.contains(&k);
                            if c.is_err() {
                                return c.map(|_| String::new());
                            }
                            s.trie.get(&k).map(|v| format!("{:?}", v.map(|v| hex_(&v))))
                        }
                        _ => s.trie.commit().map(|r| format!("root {}", hex_(r.as_bytes()))),
                    });
                    let hit = s.db.hit();
                    s.db.fail(None);
                    let what = format!("operation {i} {op:?} with {kind:?} at its access {at}");
                    let r = r.map_err(|p| format!("{what}: panic: {p}"))?;
                    let Some((acc, key, _)) = hit else {
                        // all positions were tried
                        let e = ok!(r, "{what}, which was not hit");
                        match op {
                            POp::Insert(..) => {
                                s.cur.insert(k, val);
                                s.dirty = true;
                            }
                            POp::Remove(_) => {
                                let had = s.cur.remove(&k).is_some();
                                ck_eq!(e, format!("removed: {had}"), "{what}: result of the removal");
                                s.dirty = true;
                            }
                            POp::Commit | POp::RootHash => {
                                let root = Mpt::new(&s.cur).root();
                                ck_eq!(e, format!("root {}", hex_(&root)), "{what}: root");
                                s.committed(H256(root));
                            }
                            POp::Read(_) => ck_eq!(e, format!("{:?}", s.cur.get(&k).map(|v| hex_(v))), "{what}: value"),
                            _ => {}
                        }
                        break;
                    };
                    failures += 1;
                    let e = match r {
                        Ok(x) => return Err(format!("{what} ({acc}): no error but {x}")),
                        Err(e) => e,
                    };
                    match (kind, &e) {
                        (PFault::Error, TrieError::Database(m)) => ck!(m.contains("INJECTED"), "{what}: the error does not name its cause: {e:?}"),
                        (PFault::Missing, TrieError::MissingTrieNode { node_hash, .. }) => ck!(node_hash.as_bytes() == &key[..], "{what}: the error names {node_hash:?}, the missing node is {}", hex_(&key)),
                        _ => return Err(format!("{what} ({acc}): the error is {e:?}")),
                    }
                    if let (PFault::Missing, TrieError::MissingTrieNode { err_key, root_hash, traversed, .. }) = (kind, &e) {
                        if !matches!(op, POp::Commit | POp::RootHash) {
                            let at = s.at.map(|i| s.roots[i].0);
                            ck_eq!(root_hash, &at, "{what}: the root named by the error");
                            if let Some(t) = traversed {
                                ck!(nibbles(&k).starts_with(t.get_data()), "{what}: the error names the path {:?}, the key is {}", t.get_data(), hex_(&k));
                                let d = s.at.and_then(|i| Mpt::new(&s.roots[i].1).depth_of(&k, &key));
                                ck!(d == Some(t.get_data().len()), "{what}: the error names the path {:?} to the node, which is below {d:?} nibbles of {}", t.get_data(), hex_(&k));
                            }
                        }
                        // `contains` leaves it out
                        if !matches!(op, POp::Commit | POp::RootHash) && !(matches!(op, POp::Read(_)) && at < reads / 2) {
                            ck!(err_key.as_ref() == Some(&k), "{what}: the error names the key {err_key:?}, asked was {}", hex_(&k));
                        }
                    }
                    ctx.label_if(acc == "get", "failed read");
                    ctx.label_if(acc == "insert", "failed write");
                    ctx.label_if(acc == "remove", "failed removal from storage");
                    ctx.label_if(kind == PFault::Missing, "missing node");
                    if !matches!(op, POp::Commit | POp::RootHash) {
                        ck!(s.db.map() == before, "{what}: the storage changed");
                    } else if !h.light {
                        // what was committed before is untouched
                        let now = s.db.map();
                        ck!(before.iter().all(|(k, v)| now.get(k) == Some(v)), "{what}: the failed commit changes what was stored");
                    }
                    if matches!(op, POp::Commit | POp::RootHash) {
                        // one of the two roots is complete in the storage
                        written |= acc != "insert";
                        if !written {
                            if let Some((root, c)) = s.at.map(|i| &s.roots[i]) {
                                check_piter(&s.trie.at_root(*root), c, &format!("the root committed before {what}"))?;
                            }
                        } else {
                            check_piter(&s.trie.at_root(H256(Mpt::new(&s.cur).root())), &s.cur, &format!("the root written by {what}"))?;
                        }
                    }
                    // the contents are as they were
                    for k in &s.keys {
                        s.read(k).map_err(|e| format!("after {what}: {e}"))?;
                    }
                    check_piter(&s.trie, &s.cur, &format!("after {what}"))?;
                }
            }
            if matches!(op, POp::Insert(..) | POp::Remove(_) | POp::Commit | POp::RootHash | POp::Read(_)) {
                // done above, without a failure
                if matches!(op, POp::Commit | POp::RootHash) {
                    whole(&s, h.light)?;
                }
                continue;
            }
        }
        s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
        most = most.max(s.cur.len());
        if matches!(op, POp::Commit | POp::RootHash) {
            whole(&s, h.light)?;
        }
    }
    /// Iteration while storage fails.
    fn faulty(s: &St<PDb>, sel: usize, ctx: &mut Ctx) -> R {
        let Some((root, c)) = s.roots.last() else { return Ok(()) };
        let t = s.trie.at_root(*root);
        s.db.fail(None);
        let _ = t.iter().take(c.len() + 2).count();
        let (_, reads) = s.db.accesses();
        let step = 1 + reads / 12;
        for kind in [PFault::Error, PFault::Missing, PFault::Down] {
            let mut at = sel as u64 % step;
            while at < reads {
                for owned in [false, true] {
                    let what = format!("iteration, owning: {owned}, of root {} with {kind:?} at read {at} of {reads}", hex_(root.as_bytes()));
                    s.db.fail(Some((at, kind)));
                    // an end reported for a failure is not the end of an iterator which goes on
                    s.db.set_budget(reads * 4 + 100);
                    let got: Result<Vec<(Bytes, Bytes)>, String> = no_panic(|| if owned { OwnedTrieIterator::new(t.clone()).take(c.len() + 2).collect() } else { t.iter().take(c.len() + 2).collect() });
                    s.db.no_budget();
                    s.db.fail(None);
                    let got = got.map_err(|p| format!("{what}: panic: {p}"))?;
                    ck!(got.windows(2).all(|w| w[0].0 < w[1].0), "{what}: not in order: {}", show(&got));
                    for (k, v) in &got {
                        ck!(c.get(k) == Some(v), "{what}: gives {} = {}, which the trie does not hold", hex_(k), hex_(v));
                    }
                    ctx.count("iterations with a failed read", 1);
                }
                at += step;
            }
        }
        check_piter(&t, c, "after iterations which met failures")
    }
    fn whole(s: &St<PDb>, light: bool) -> R {
        let n = s.roots.len();
        for i in if light { n - 1..n } else { 0..n } {
            let (root, c) = &s.roots[i];
            let t = s.trie.at_root(*root);
            check_piter(&t, c, &format!("root {i} of {n}, after failures"))?;
            ck!(root.as_bytes() == Mpt::new(c).root(), "root {i} of {n} after failures");
        }
        Ok(())
    }
    faulty(&s, c.at.len(), ctx)?;
    ctx.count("failures", failures);
    ctx.nontrivial_if(failures > 0 && s.roots.iter().any(|r| r.1.len() >= 2));
    let _ = most;
    plabels(h, ctx);
    Ok(())
}

// ---------------------------------------------------------------- C26
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C26 {
    h: PHist,
    next: Vec<POp>,
    text: Vec<(u16, u8, u8)>,
    other: String,
}
fn c26(c: &C26, ctx: &mut Ctx) -> R {
    // everything in memory: no commits, but for tries whose nodes are all within their root
    let h = &c.h;
    let mut s = St::<MemoryDB>::new(h);
    for op in h.ops.iter().filter(|o| !matches!(o, POp::Commit | POp::RootHash | POp::Reopen | POp::Back(_) | POp::Swap | POp::Fork)) {
        s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
    }
    let m = Mpt::new(&s.cur);
    if m.nodes().len() == 1 && h.light {
        s.step(&POp::Commit)?;
        ctx.label("committed, within its root");
    }
    let depth = m.depth();
    let mut forms: Vec<(&str, InnerTrie<MemoryDB>)> = vec![];
    let json = ok!(serde_json::to_string(&s.trie), "JSON of the trie");
    let display = s.trie.to_string();
    ck!(!display.is_empty(), "the display form is empty");
    // JSON readers limit nesting to 128; a node is at most three levels
    if depth <= 38 {
        forms.push(("JSON", ok!(serde_json::from_str(&json), "trie from JSON")));
        forms.push(("display form", ok!(serde_json::from_str(&display), "trie from its display form")));
        forms.push(("JSON value", ok!(serde_json::from_value(ok!(serde_json::to_value(&s.trie), "JSON value")), "trie from a JSON value")));
    } else {
        ctx.label("deeper than JSON nests");
    }
    let bin = ok!(bincode::serialize(&s.trie), "bincode of the trie");
    forms.push(("bincode", ok!(bincode::deserialize(&bin), "trie from bincode")));
    let want = ok!(s.trie.clone().commit(), "commit");
    ck!(want.as_bytes() == m.root(), "root of the trie");
    for (f, t) in forms {
        for k in pqueries(&s.keys) {
            read(&t, &s.cur, &k).map_err(|e| format!("{f}: {e}"))?;
        }
        check_piter(&t, &s.cur, f)?;
        ck!(ok!(serde_json::to_string(&t), "JSON again") == json, "{f}: the restored trie has another JSON form");
        ck!(ok!(bincode::serialize(&t), "bincode again") == bin, "{f}: the restored trie has another bincode form");
        let mut t2 = t.clone();
        ck!(ok!(t2.commit(), "commit of the restored trie") == want, "{f}: the restored trie commits to another root");
        check_piter(&t2, &s.cur, f)?;
        // and goes on like any trie
        let mut s2 = St::<MemoryDB>::new(h);
        s2.db = t.db();
        s2.trie = t;
        s2.cur = s.cur.clone();
        for op in &c.next {
            s2.step(op).map_err(|e| format!("{f}: {op:?}: {e}"))?;
        }
        s2.step(&POp::Commit).map_err(|e| format!("{f}: {e}"))?;
        ck!(s2.roots.last().unwrap().0.as_bytes() == Mpt::new(&s2.cur).root(), "{f}: root after further operations");
        s2.read_all().map_err(|e| format!("{f}, after further operations: {e}"))?;
        check_piter(&s2.trie, &s2.cur, f)?;
        ctx.count("tries restored", 1);
    }
    // arbitrary and altered input
    let mut inputs = vec![c.other.clone()];
    for (at, what, x) in &c.text {
        let mut b = json.clone().into_bytes();
        let n = b.len();
        let p = *at as usize % n;
        match what % 4 {
            0 => b.truncate(p),
            1 => b[p] = *x,
            2 => b.insert(p, *x),
            _ => {
                b.remove(p);
            }
        }
        let mut y = bin.clone();
        let n = y.len();
        match what % 3 {
            0 => y.truncate(p % n),
            1 => y[p % n] = *x,
            _ => y.insert(p % n, *x),
        }
        let _ = no_panic(|| bincode::deserialize::<InnerTrie<MemoryDB>>(&y).map(|_| ())).map_err(|p| format!("decoding altered bincode panics: {p}"))?;
        inputs.push(String::from_utf8_lossy(&b).into_owned());
    }
    for i in inputs {
        let _ = no_panic(|| serde_json::from_str::<InnerTrie<MemoryDB>>(&i).map(|_| ())).map_err(|p| format!("decoding {i:?} panics: {p}"))?;
        ctx.count("altered inputs", 1);
    }
    ctx.nontrivial_if(s.cur.len() >= 2);
    plabels(h, ctx);
    Ok(())
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    const HIST: &str = "a case is a universe of keys with many prefixes of one another and a history of inserts, removals, commits, proof requests and reopenings over them, on retaining or pruning storage; non-trivial: the trie holds two keys at some time";
    const LIGHT: &str = "on pruning storage different keys have different values (equal subtrees under two prefixes are a known finding)";
    macro_rules! h {
        ($id:expr, $f:expr, $q:expr, $t:expr, $p:expr) => {
            Box::new(Check::<PHist> { id: $id, level: "exploration", rule: HIST, assumptions: &[LIGHT, "one handle at a time works on a pruning storage"], quick: $q, thorough: $t, strategy: |t| phist(pscaled($p, t)), run: $f })
        };
    }
    vec![
        h!("C19", c19, 24000, 10_000_000, PSTD),
        h!("C20", c20, 40000, 10_000_000, PSTD),
        h!("C21", c21, 12000, 6_000_000, PP { ops: 24, ..PSTD }),
        Box::new(Check::<C22> {
            id: "C22",
            level: "exploration",
            rule: "a case is a history, altered proofs of its keys, crafted nodes used as proofs and as storage, and changes to stored nodes; non-trivial: altered proofs of a root with two keys or more",
            assumptions: &["Keccak-256 is collision free for the inputs generated", "malformed storage does not make a node contain itself"],
            quick: 16000,
            thorough: 8_000_000,
            strategy: |t| {
                (
                    phist(pscaled(PP { keys: 14, ops: 14, back: false, ..PSTD }, t)),
                    prop::collection::vec((any::<u16>(), any::<u16>(), prop::collection::vec(pmutation(), 0..4)), 0..14),
                    prop::collection::vec(raw(), 0..5),
                    prop::collection::vec(prop::collection::vec(prop_oneof![Just(0u8), Just(1), Just(0x11), any::<u8>()], 0..5), 1..4),
                    prop::collection::vec((any::<u16>(), pmutation()), 0..5),
                    prop_oneof![20 => Just(0u16), 2 => 1u16..20, 1 => any::<u16>()],
                )
                    .prop_map(|(h, attacks, crafted, keys, corrupt, chain)| C22 { h, attacks, crafted, keys, corrupt, chain })
                    .boxed()
            },
            run: c22,
        }),
        h!("C23", c23, 18000, 8_000_000, PSTD),
        h!("C24", c24, 18000, 8_000_000, PP { ops: 30, ..PSTD }),
        Box::new(Check::<C25> {
            id: "C25",
            level: "fault_enumeration",
            rule: "a case is a history; each of its chosen operations meets a failure at each of its storage accesses in turn, as an error and as a missing node, before it is carried out; non-trivial: at least one failure, and a committed trie of two keys",
            assumptions: &[LIGHT, "a failed access has no effect on the storage"],
            quick: 12000,
            thorough: 6_000_000,
            strategy: |t| (phist(pscaled(PP { keys: 12, ops: 24, back: true, bulk: 70 }, t)), prop::collection::vec(prop::bool::weighted(0.7), 1..6)).prop_map(|(h, at)| C25 { h: PHist { mem: false, ..h }, at }).boxed(),
            run: c25,
        }),
        Box::new(Check::<C26> {
            id: "C26",
            level: "exploration",
            rule: "a case is a history without commits, whose trie is serialized and restored in four forms and then goes on, and altered or arbitrary input; non-trivial: a trie of two keys or more",
            assumptions: &["JSON is used up to the nesting its reader accepts (128 levels), bincode beyond it", "nodes which are only in the database are not part of the serialized form"],
            quick: 12000,
            thorough: 6_000_000,
            strategy: |t| {
                (
                    phist(pscaled(PP { keys: 24, ops: 24, back: false, ..PSTD }, t)),
                    prop::collection::vec(pop(false), 0..8),
                    prop::collection::vec((any::<u16>(), any::<u8>(), prop_oneof![any::<u8>(), Just(b'"'), Just(b'{'), Just(b'9'), Just(b'g')]), 0..8),
                    "\\PC{0,40}",
                )
                    .prop_map(|(h, next, text, other)| C26 { h, next, text, other })
                    .boxed()
            },
            run: c26,
        }),
    ]
}
