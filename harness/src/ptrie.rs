//! Patricia trie: reference model, generators, an instrumented database and the driver of histories.
use crate::jgen::mix;
use crate::runner::*;
use crate::{ck, ck_eq, ok};
use parking_lot::Mutex;
use patriecia::{Database, InnerTrie, MemoryDB, Trie, H256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha3::{Digest, Keccak256};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Bytes = Vec<u8>;
pub type PKV = BTreeMap<Bytes, Bytes>;

// ---------------------------------------------------------------- reference model
pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
pub fn rlp_len(base: u8, n: usize, out: &mut Bytes) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be: Bytes = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + be.len() as u8);
        out.extend(be);
    }
}
pub fn rlp_str(s: &[u8]) -> Bytes {
    if s.len() == 1 && s[0] < 0x80 {
        return s.to_vec();
    }
    let mut o = vec![];
    rlp_len(0x80, s.len(), &mut o);
    o.extend_from_slice(s);
    o
}
/// a list of already encoded items
pub fn rlp_list(items: &[Bytes]) -> Bytes {
    let n = items.iter().map(|x| x.len()).sum();
    let mut o = vec![];
    rlp_len(0xc0, n, &mut o);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
/// hex-prefix encoding
pub fn hp(nib: &[u8], leaf: bool) -> Bytes {
    let f = if leaf { 2 } else { 0 };
    let mut o = vec![];
    let rest = if nib.len() % 2 == 1 {
        o.push(((f + 1) << 4) | nib[0]);
        &nib[1..]
    } else {
        o.push(f << 4);
        nib
    };
    for p in rest.chunks(2) {
        o.push(p[0] << 4 | p[1]);
    }
    o
}
pub fn nibbles(k: &[u8]) -> Bytes {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
/// The reference trie of some contents.
pub struct Mpt {
    items: Vec<(Bytes, Bytes)>,
}
impl Mpt {
    pub fn new(c: &PKV) -> Mpt {
        Mpt { items: c.iter().map(|(k, v)| (nibbles(k), v.clone())).collect() }
    }
    /// the encoding of the node for items[a..b], which agree on their first d nibbles
    fn node(&self, a: usize, b: usize, d: usize) -> Bytes {
        let s = &self.items[a..b];
        if s.is_empty() {
            return vec![0x80];
        }
        if s.len() == 1 {
            return rlp_list(&[rlp_str(&hp(&s[0].0[d..], true)), rlp_str(&s[0].1)]);
        }
        let (f, l) = (&s[0].0, &s[s.len() - 1].0);
        let common = (d..f.len().min(l.len())).take_while(|i| f[*i] == l[*i]).count();
        if common > 0 {
            return rlp_list(&[rlp_str(&hp(&f[d..d + common], false)), reference(&self.node(a, b, d + common))]);
        }
        let mut out = vec![];
        for n in 0..16u8 {
            let (x, y) = self.child(a, b, d, n);
            out.push(reference(&self.node(x, y, d + 1)));
        }
        out.push(if f.len() == d { rlp_str(&s[0].1) } else { vec![0x80] });
        rlp_list(&out)
    }
    fn child(&self, a: usize, b: usize, d: usize, n: u8) -> (usize, usize) {
        let s = &self.items[a..b];
        let x = s.partition_point(|i| i.0.len() <= d || i.0[d] < n);
        let y = s.partition_point(|i| i.0.len() <= d || i.0[d] <= n);
        (a + x, a + y)
    }
    pub fn root_node(&self) -> Bytes {
        self.node(0, self.items.len(), 0)
    }
    pub fn root(&self) -> [u8; 32] {
        keccak(&self.root_node())
    }
    /// The encodings of the nodes on the path of `key`: the root, and then each referred to by hash.
    pub fn proof(&self, key: &[u8]) -> Vec<Bytes> {
        let k = nibbles(key);
        let mut out = vec![self.root_node()];
        let (mut a, mut b, mut d) = (0, self.items.len(), 0);
        loop {
            let s = &self.items[a..b];
            if s.len() < 2 {
                return out;
            }
            let (f, l) = (&s[0].0, &s[s.len() - 1].0);
            let common = (d..f.len().min(l.len())).take_while(|i| f[*i] == l[*i]).count();
            if common > 0 {
                if k.len() < d + common || k[d..d + common] != f[d..d + common] {
                    return out;
                }
                d += common;
            } else {
                if k.len() == d {
                    return out;
                }
                let (x, y) = self.child(a, b, d, k[d]);
                (a, b) = (x, y);
                d += 1;
            }
            let n = self.node(a, b, d);
            if n.len() >= 32 {
                out.push(n);
            }
        }
    }
    /// How many nibbles of `key` lead to the node of this hash on its path.
    pub fn depth_of(&self, key: &[u8], hash: &[u8]) -> Option<usize> {
        let k = nibbles(key);
        let (mut a, mut b, mut d) = (0, self.items.len(), 0);
        loop {
            if keccak(&self.node(a, b, d)) == hash {
                return Some(d);
            }
            let s = &self.items[a..b];
            if s.len() < 2 {
                return None;
            }
            let (f, l) = (&s[0].0, &s[s.len() - 1].0);
            let common = (d..f.len().min(l.len())).take_while(|i| f[*i] == l[*i]).count();
            if common > 0 {
                if k.len() < d + common || k[d..d + common] != f[d..d + common] {
                    return None;
                }
                d += common;
            } else {
                if k.len() == d {
                    return None;
                }
                (a, b) = self.child(a, b, d, k[d]);
                d += 1;
            }
        }
    }
    /// all nodes stored for these contents: the root and every one referred to by hash
    pub fn nodes(&self) -> BTreeSet<Bytes> {
        let mut out = BTreeSet::from([self.root_node()]);
        let mut todo = vec![(0, self.items.len(), 0)];
        while let Some((a, b, d)) = todo.pop() {
            let e = self.node(a, b, d);
            if e.len() >= 32 {
                out.insert(e);
            }
            let s = &self.items[a..b];
            if s.len() < 2 {
                continue;
            }
            let (f, l) = (&s[0].0, &s[s.len() - 1].0);
            let common = (d..f.len().min(l.len())).take_while(|i| f[*i] == l[*i]).count();
            if common > 0 {
                todo.push((a, b, d + common));
            } else {
                for n in 0..16 {
                    let (x, y) = self.child(a, b, d, n);
                    if x < y {
                        todo.push((x, y, d + 1));
                    }
                }
            }
        }
        out
    }
    /// the deepest nesting of nodes
    pub fn depth(&self) -> usize {
        let mut best = 0;
        let mut todo = vec![(0, self.items.len(), 0, 1)];
        while let Some((a, b, d, h)) = todo.pop() {
            best = best.max(h);
            let s = &self.items[a..b];
            if s.len() < 2 {
                continue;
            }
            let (f, l) = (&s[0].0, &s[s.len() - 1].0);
            let common = (d..f.len().min(l.len())).take_while(|i| f[*i] == l[*i]).count();
            if common > 0 {
                todo.push((a, b, d + common, h + 1));
            } else {
                for n in 0..16 {
                    let (x, y) = self.child(a, b, d, n);
                    if x < y {
                        todo.push((x, y, d + 1, h + 1));
                    }
                }
            }
        }
        best
    }
}
fn reference(e: &[u8]) -> Bytes {
    if e.len() < 32 {
        e.to_vec()
    } else {
        rlp_str(&keccak(e))
    }
}

// ---------------------------------------------------------------- reference reader of encoded nodes
/// What a lookup in some encoded nodes is to give.
#[derive(Clone, Debug, PartialEq)]
pub enum Look {
    /// the nodes on the path are the ones a trie has: exactly this
    Must(Option<Bytes>),
    /// they can be read, but no trie has such nodes, or parts off the path cannot be read: this or an error
    May(Option<Bytes>),
    /// a node on the path is missing, or is none: an error
    Fail,
    /// encoded in a way another reader may or may not take
    Open,
}
#[derive(Debug, Clone)]
pub enum Item {
    Str(Bytes),
    List(Vec<Item>, usize),
}
pub enum Bad {
    /// ends before what its header says
    Short,
    /// not the one way to encode it
    Odd,
}
/// one canonical RLP item, and what follows
pub fn item(b: &[u8]) -> Result<(Item, &[u8]), Bad> {
    let h = *b.first().ok_or(Bad::Short)?;
    if h < 0x80 {
        return Ok((Item::Str(vec![h]), &b[1..]));
    }
    let base = if h < 0xc0 { 0x80 } else { 0xc0 };
    let (n, at) = match (h - base) as usize {
        n @ 0..=55 => (n, 1),
        m => {
            let l = m - 55;
            let d = b.get(1..1 + l).ok_or(Bad::Short)?;
            if d[0] == 0 {
                return Err(Bad::Odd);
            }
            let n = d.iter().fold(0u128, |a, x| a << 8 | *x as u128);
            if n < 56 {
                return Err(Bad::Odd);
            }
            (usize::try_from(n).map_err(|_| Bad::Odd)?, 1 + l)
        }
    };
    let pay = b.get(at..at.checked_add(n).ok_or(Bad::Odd)?).ok_or(Bad::Short)?;
    let rest = &b[at + n..];
    if base == 0x80 {
        if n == 1 && pay[0] < 0x80 {
            return Err(Bad::Odd);
        }
        return Ok((Item::Str(pay.to_vec()), rest));
    }
    let (mut p, mut out) = (pay, vec![]);
    while !p.is_empty() {
        // what is short inside a list is whole in what holds it: readers differ
        let (i, r) = item(p).map_err(|_| Bad::Odd)?;
        out.push(i);
        p = r;
    }
    Ok((Item::List(out, at + n), rest))
}
/// is this embedded item, with all in it, one that a trie has?
fn proper(i: &Item, stored: bool) -> bool {
    match i {
        Item::Str(s) => !stored && (s.is_empty() || s.len() == 32),
        Item::List(v, n) => {
            (stored || *n < 32)
                && match &v[..] {
                    [Item::Str(k), c] => match unhp(k) {
                        Some((_, true, canon)) => canon && matches!(c, Item::Str(x) if !x.is_empty()),
                        Some((p, false, canon)) => canon && !p.is_empty() && proper(c, false) && matches!(c, Item::Str(x) if x.len() == 32) | matches!(c, Item::List(v, _) if v.len() == 17),
                        None => false,
                    },
                    v if v.len() == 17 => {
                        v[..16].iter().all(|c| proper(c, false))
                            && matches!(&v[16], Item::Str(_))
                            && v.iter().filter(|c| !matches!(c, Item::Str(s) if s.is_empty())).count() >= 2
                    }
                    _ => false,
                }
        }
    }
}
/// nibbles, whether of a leaf, whether the unused nibble is zero
fn unhp(k: &[u8]) -> Option<(Bytes, bool, bool)> {
    let f = *k.first()?;
    if f >> 4 > 3 {
        return None;
    }
    let mut o = vec![];
    if f & 0x10 != 0 {
        o.push(f & 15);
    }
    o.extend(nibbles(&k[1..]));
    Some((o, f & 0x20 != 0, f & 0x10 != 0 || f & 15 == 0))
}
/// Looks `key` up in the nodes `get` returns, starting with the one stored as `root`.
pub fn look(root: &[u8], key: &[u8], get: impl Fn(&[u8]) -> Option<Bytes>) -> Look {
    if root == keccak(&[0x80]) {
        return Look::Open; // the empty trie needs no node
    }
    let k = nibbles(key);
    let mut d = 0;
    let mut all = true;
    let mut hash = root.to_vec();
    loop {
        let Some(b) = get(&hash) else { return Look::Fail };
        let mut cur = match item(&b) {
            Err(Bad::Short) => return Look::Fail,
            Err(Bad::Odd) => return Look::Open,
            Ok((_, rest)) if !rest.is_empty() => return Look::Fail,
            Ok((i, _)) => i,
        };
        // an empty node is only ever stored as the root of an empty trie
        let empty_root = d == 0 && hash == root && matches!(&cur, Item::Str(s) if s.is_empty());
        all &= empty_root || proper(&cur, true);
        let mut stored = true;
        let answer = |v: Option<Bytes>, all: bool| if all { Look::Must(v) } else { Look::May(v) };
        loop {
            cur = match cur {
                Item::Str(s) if s.is_empty() => return answer(None, all),
                Item::Str(s) if s.len() == 32 && !stored => {
                    hash = s;
                    break;
                }
                Item::Str(_) => return Look::Fail,
                Item::List(_, n) if !stored && n >= 32 => return Look::Fail,
                Item::List(mut v, _) if v.len() == 2 => {
                    let c = v.pop().unwrap();
                    let Item::Str(p) = &v[0] else { return Look::Fail };
                    let Some((p, leaf, _)) = unhp(p) else { return Look::Fail };
                    if leaf {
                        return match c {
                            Item::Str(x) if k[d..] == p => answer(Some(x), all),
                            Item::Str(_) => answer(None, all),
                            Item::List(..) if k[d..] == p => Look::Fail,
                            Item::List(..) => Look::May(None),
                        };
                    }
                    if p.is_empty() {
                        return Look::Fail;
                    }
                    if !k[d..].starts_with(&p) {
                        return answer(None, all);
                    }
                    d += p.len();
                    c
                }
                Item::List(mut v, _) if v.len() == 17 => {
                    if d == k.len() {
                        return match v.pop().unwrap() {
                            Item::Str(s) if s.is_empty() => answer(None, all),
                            Item::Str(s) => answer(Some(s), all),
                            // an empty list may be read as no value
                            Item::List(l, _) if l.is_empty() => Look::Open,
                            Item::List(..) => Look::Fail,
                        };
                    }
                    d += 1;
                    v.swap_remove(k[d - 1] as usize)
                }
                Item::List(..) => return Look::Fail,
            };
            stored = false;
        }
    }
}
impl Look {
    pub fn check<E: std::fmt::Debug>(&self, got: &Result<Option<Bytes>, E>) -> Result<(), String> {
        let good = match (self, got) {
            (Look::Must(a), Ok(b)) => a == b,
            (Look::Must(_), Err(_)) => false,
            (Look::May(a), Ok(b)) => a == b,
            (Look::Fail, Ok(_)) => false,
            _ => true,
        };
        if good {
            Ok(())
        } else {
            Err(format!("gives {got:?} where the nodes on the path mean {self:?}"))
        }
    }
}

// ---------------------------------------------------------------- generators
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KSpec {
    /// an earlier key without its last bytes and with others
    From(u8, u8, Vec<u8>),
    Raw(Vec<u8>),
    /// a long key of this length sharing the first bytes with the other long ones
    Long(u8, u8, u16),
    /// the same, far longer
    Huge(u32, u32, u16),
}
pub fn build_pkeys(s: &[KSpec]) -> Vec<Bytes> {
    let mut out: Vec<Bytes> = vec![];
    for k in s {
        let key = match k {
            KSpec::From(b, cut, tail) => {
                let base: Bytes = if out.is_empty() { vec![] } else { out[*b as usize % out.len()].clone() };
                let mut x = base[..base.len() - (*cut as usize).min(base.len())].to_vec();
                x.extend(tail);
                x
            }
            KSpec::Raw(v) => v.clone(),
            KSpec::Huge(len, shared, salt) => {
                let n = 1 + *len % 70_000;
                (0..n).map(|i| if i < *shared % (n + 1) { 0x5a } else { mix(*salt as u64 * 71 + i as u64) as u8 }).collect()
            }
            KSpec::Long(len, shared, salt) => {
                let n = 1 + *len as usize % 70;
                (0..n).map(|i| if i < *shared as usize % (n + 1) { 0x5a } else { mix(*salt as u64 * 71 + i as u64) as u8 }).collect()
            }
        };
        if !out.contains(&key) {
            out.push(key);
        }
    }
    out
}
fn huge() -> BoxedStrategy<KSpec> {
    (prop_oneof![8 => prop::sample::select(vec![127u32, 128, 255, 256, 257, 300, 512, 513]), 4 => 100u32..1100, 1 => prop::sample::select(vec![4096, 32767, 32768, 65535, 65536])], prop_oneof![any::<u32>(), 0u32..3], any::<u16>())
        .prop_map(|(a, b, c)| KSpec::Huge(a, b, c))
        .boxed()
}
pub fn bulk_pkeys(near: &[u8], n: u16, salt: u16) -> Vec<Bytes> {
    (0..n)
        .map(|i| {
            let mut k = near[..near.len().min(salt as usize % 4)].to_vec();
            match salt % 5 {
                // all below one prefix, two bytes
                0 | 1 => k.extend(i.to_be_bytes()),
                2 => k.extend(i.reverse_bits().to_be_bytes()),
                // far apart
                3 => k.extend((0..32u64).map(|j| mix(((salt as u64) << 20 | i as u64) * 32 + j) as u8)),
                // prefixes of one another, by rows
                _ => k.extend((0..=i % 7).map(|j| (i / 7 * 16 + j) as u8)),
            }
            k
        })
        .collect()
}
fn nibbly() -> BoxedStrategy<u8> {
    prop_oneof![4 => prop::sample::select(vec![0u8, 1, 0x10, 0x11, 0xff, 0xf0, 0x0f]), 1 => any::<u8>()].boxed()
}
pub fn kspec() -> BoxedStrategy<KSpec> {
    prop_oneof![
        160 => (any::<u8>(), prop_oneof![3 => Just(0u8), 3 => 1u8..4, 1 => Just(255u8)], prop::collection::vec(nibbly(), 0..4)).prop_map(|(a, b, c)| KSpec::From(a, b, c)),
        40 => prop::collection::vec(nibbly(), 0..4).prop_map(KSpec::Raw),
        1 => huge(),
        40 => (prop_oneof![Just(31u8), any::<u8>()], any::<u8>(), any::<u16>()).prop_map(|(a, b, c)| KSpec::Long(a, b, c)),
    ]
    .boxed()
}
pub fn puniverse(max: usize) -> BoxedStrategy<Vec<KSpec>> {
    prop_oneof![
        6 => prop::collection::vec(kspec(), 1..max),
        1 => prop::collection::vec((any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(a, b, c)| KSpec::Long(a, b, c)), 1..max),
        // a chain of prefixes
        1 => prop::collection::vec(nibbly().prop_map(|b| KSpec::From(255, 0, vec![b])), 1..max.min(24)),
        // all over one or two nibbles
        1 => prop::collection::vec((0u8..4, prop::collection::vec(prop::sample::select(vec![0u8, 1, 0x10, 0x11]), 1..4)).prop_map(|(_, t)| KSpec::Raw(t)), 1..max),
    ]
    .boxed()
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct PVal {
    pub len: u32,
    pub tag: u8,
}
impl PVal {
    pub fn bytes(&self, uniq: bool, key: usize) -> Bytes {
        let n = (self.len as usize).max(1);
        (0..n)
            .map(|i| match i {
                // no two keys have equal values
                0 if uniq => key as u8,
                0 => self.tag,
                _ => mix(self.tag as u64 * 977 + i as u64) as u8,
            })
            .collect()
    }
}
pub fn pval() -> BoxedStrategy<PVal> {
    (prop_oneof![150 => 1u32..4, 200 => 22u32..36, 150 => 1u32..60, 50 => 50u32..70, 50 => 250u32..260, 10 => prop::sample::select(vec![127u32, 128, 129, 200, 511, 512, 513]), 1 => prop::sample::select(vec![1000u32, 1023, 1024, 1025, 4096, 65530, 65535, 65536, 70000])], prop_oneof![3 => 0u8..3, 1 => any::<u8>(), 1 => Just(0x7fu8), 1 => Just(0x80u8)])
        .prop_map(|(len, tag)| PVal { len, tag })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp {
    Insert(u16, PVal),
    InsertEmpty(u16),
    Remove(u16),
    /// the value it has already, if any
    Again(u16),
    RemoveAll,
    /// all but one
    RemoveBut(u16),
    /// every key under the first bytes of this one
    RemoveUnder(u16, u8),
    /// the first n keys of the universe
    Fill(u16, PVal),
    /// removes and inserts again as it was
    Recreate(u16),
    /// n keys besides the universe, under the first bytes of one of its keys
    Bulk(u16, u16, PVal),
    /// removes every n-th key, or all others
    Thin(u8, bool),
    /// changes or removes every n-th key, or all others, and then makes each what it was
    Undo(u8, u8),
    /// changes one bit of a value present
    Tweak(u16, u16),
    Commit,
    RootHash,
    Proof(u16),
    Read(u16),
    Reopen,
    /// back to an earlier root (retaining storage)
    Back(u16),
    /// goes on with the other of two tries on the same (retaining) storage, which starts out empty
    Swap,
    /// makes the other trie on the same (retaining) storage a clone of this one, as it is
    Fork,
}
pub fn pop(back: bool) -> BoxedStrategy<POp> {
    use POp::*;
    prop_oneof![
        10 => (any::<u16>(), pval()).prop_map(|(a, b)| Insert(a, b)),
        1 => any::<u16>().prop_map(InsertEmpty),
        7 => any::<u16>().prop_map(Remove),
        1 => any::<u16>().prop_map(Again),
        1 => Just(RemoveAll),
        1 => any::<u16>().prop_map(RemoveBut),
        2 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| RemoveUnder(a, b)),
        2 => (any::<u16>(), pval()).prop_map(|(a, b)| Fill(a, b)),
        1 => any::<u16>().prop_map(Recreate),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Undo(a, b)),
        1 => any::<(u16, u16)>().prop_map(|(a, b)| Tweak(a, b)),
        6 => Just(Commit),
        1 => Just(RootHash),
        1 => any::<u16>().prop_map(Proof),
        2 => any::<u16>().prop_map(Read),
        4 => Just(Reopen),
        2 => any::<u16>().prop_map(move |a| if back { Back(a) } else { Read(a) }),
        1 => any::<u16>().prop_map(move |a| if back { if a % 3 == 0 { Fork } else { Swap } } else { Proof(a) }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PHist {
    pub keys: Vec<KSpec>,
    pub ops: Vec<POp>,
    /// pruning storage
    pub light: bool,
    /// the bundled database
    pub mem: bool,
    /// values differ between keys
    pub uniq: bool,
    /// starts from the default trie, with the default (retaining) storage
    #[serde(default)]
    pub dflt: bool,
}
#[derive(Clone, Copy)]
pub struct PP {
    pub keys: usize,
    pub ops: usize,
    pub back: bool,
    /// the most keys in a bulk
    pub bulk: u16,
}
pub const PSTD: PP = PP { bulk: 400, keys: 20, ops: 40, back: true };
pub fn pscaled(p: PP, t: Tier) -> PP {
    match t {
        Tier::Quick => p,
        Tier::Thorough => PP { keys: p.keys * 2, ops: p.ops * 2, ..p },
    }
}
/// Histories. On pruning storage the values of different keys differ, as equal subtrees below two prefixes are a
/// known finding.
pub fn phist(p: PP) -> BoxedStrategy<PHist> {
    let n = prop_oneof![3 => 17u16..60, 1 => p.bulk / 3..p.bulk];
    let then = prop::collection::vec(prop_oneof![(any::<u8>(), any::<bool>()).prop_map(|(a, b)| POp::Thin(a, b)), any::<(u8, u8)>().prop_map(|(a, b)| POp::Undo(a, b)), Just(POp::Commit), Just(POp::Commit), Just(POp::Reopen)], 0..6);
    // undone in the commit that follows
    let undo = any::<(u8, u8)>().prop_map(|(a, b)| vec![POp::Commit, POp::Undo(a, b), POp::Commit]);
    let bulk = (n, any::<u16>(), pval(), any::<u16>(), prop_oneof![3 => then, 1 => undo]);
    (puniverse(p.keys), prop_oneof![1 => prop::collection::vec(pop(p.back), 0..6), 6 => prop::collection::vec(pop(p.back), 0..p.ops)], any::<bool>(), any::<bool>(), any::<bool>(), prop::option::weighted(0.016, bulk))
        .prop_map(|(keys, mut ops, light, mem, uniq, bulk)| {
            if let Some((n, salt, v, at, then)) = bulk {
                ops.truncate(12);
                let at = at as usize % (ops.len() + 1);
                ops.splice(at..at, then);
                ops.insert(at, POp::Bulk(n, salt, PVal { len: v.len.min(300), ..v }));
            }
            (keys, ops, light, mem, uniq)
        })
        .prop_map(|(keys, ops, light, mem, uniq)| PHist { dflt: ops.len() % 4 == 1, keys, ops, light, mem, uniq: uniq || light })
        .boxed()
}

// ---------------------------------------------------------------- databases
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PFault {
    Error,
    Missing,
    /// every access from this one on fails
    Down,
}
#[derive(Debug, Default)]
struct PInner {
    map: BTreeMap<Bytes, Bytes>,
    light: bool,
    n: u64,
    reads: u64,
    fault: Option<(u64, PFault)>,
    hit: Option<(&'static str, Bytes, PFault)>,
    budget: Option<u64>,
}
/// A database with failures on demand.
#[derive(Clone, Debug, Default)]
pub struct PDb(Arc<Mutex<PInner>>);
#[derive(Debug, Clone)]
pub struct PErr(pub String);
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for PErr {}
impl PDb {
    /// Fails the n-th access from now on (a missing node: the n-th read).
    pub fn fail(&self, f: Option<(u64, PFault)>) {
        let mut d = self.0.lock();
        d.n = 0;
        d.reads = 0;
        d.fault = f;
        d.hit = None;
    }
    /// What was hit: the kind of access and its key.
    pub fn hit(&self) -> Option<(&'static str, Bytes, PFault)> {
        self.0.lock().hit.clone()
    }
    /// Accesses since the last `fail`, and how many of them were reads.
    pub fn accesses(&self) -> (u64, u64) {
        let d = self.0.lock();
        (d.n, d.reads)
    }
    pub fn set_map(&self, m: BTreeMap<Bytes, Bytes>) {
        self.0.lock().map = m;
    }
    pub fn map(&self) -> BTreeMap<Bytes, Bytes> {
        self.0.lock().map.clone()
    }
    pub fn put(&self, k: Bytes, v: Bytes) {
        self.0.lock().map.insert(k, v);
    }
    pub fn with_map(m: BTreeMap<Bytes, Bytes>, light: bool) -> PDb {
        PDb(Arc::new(Mutex::new(PInner { map: m, light, ..Default::default() })))
    }
    pub fn no_budget(&self) {
        self.0.lock().budget = None;
    }
    pub fn set_budget(&self, b: u64) {
        let mut d = self.0.lock();
        d.n = 0;
        d.budget = Some(b);
    }
    /// Whether all of these are stored.
    pub fn holds<'a>(&self, mut k: impl Iterator<Item = &'a Bytes>) -> bool {
        let d = self.0.lock();
        k.all(|k| d.map.contains_key(k))
    }
    fn access(&self, what: &'static str, k: &[u8]) -> Result<bool, PErr> {
        Hook::run(what);
        let mut d = self.0.lock();
        let n = d.n;
        let reads = d.reads;
        d.n += 1;
        d.reads += (what == "get") as u64;
        if d.budget.map_or(false, |b| n >= b) {
            drop(d);
            panic!("the operation makes more storage accesses than any terminating one needs");
        }
        if let Some((at, f)) = d.fault {
            let now = match f {
                PFault::Missing => what == "get" && at == reads,
                PFault::Error => at == n,
                PFault::Down => n >= at,
            };
            if now {
                d.hit = Some((what, k.to_vec(), f));
                return if f == PFault::Missing { Ok(true) } else { Err(PErr(format!("INJECTED {what} failure"))) };
            }
        }
        Ok(false)
    }
}
impl Database for PDb {
    type Error = PErr;
    fn get(&self, k: &[u8]) -> Result<Option<Bytes>, PErr> {
        if self.access("get", k)? {
            return Ok(None);
        }
        Ok(self.0.lock().map.get(k).cloned())
    }
    fn insert(&self, k: &[u8], v: Bytes) -> Result<(), PErr> {
        self.access("insert", k)?;
        self.0.lock().map.insert(k.to_vec(), v);
        Ok(())
    }
    fn remove(&self, k: &[u8]) -> Result<(), PErr> {
        self.access("remove", k)?;
        let mut d = self.0.lock();
        if d.light {
            d.map.remove(k);
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), PErr> {
        Ok(())
    }
    fn len(&self) -> Result<usize, PErr> {
        Ok(self.0.lock().map.len())
    }
    fn values(&self) -> Result<Vec<(Bytes, Bytes)>, PErr> {
        Ok(self.0.lock().map.clone().into_iter().collect())
    }
    fn is_empty(&self) -> Result<bool, PErr> {
        Ok(self.0.lock().map.is_empty())
    }
}
/// What this thread does before each access to a `PDb`, other than those it makes itself.
pub struct Hook;
thread_local! {
    static HOOK: std::cell::RefCell<Option<Box<dyn FnMut(&'static str)>>> = const { std::cell::RefCell::new(None) };
}
impl Hook {
    /// Until the guard is dropped.
    pub fn set(f: impl FnMut(&'static str) + 'static) -> Hook {
        HOOK.with(|h| *h.borrow_mut() = Some(Box::new(f)));
        Hook
    }
    fn run(what: &'static str) {
        if let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) {
            f(what);
            HOOK.with(|h| *h.borrow_mut() = Some(f));
        }
    }
}
impl Drop for Hook {
    fn drop(&mut self) {
        HOOK.with(|h| *h.borrow_mut() = None);
    }
}
pub trait PStore: Database + 'static {
    fn fresh(light: bool) -> Self;
}
impl PStore for PDb {
    fn fresh(light: bool) -> Self {
        PDb::with_map(BTreeMap::new(), light)
    }
}
impl PStore for MemoryDB {
    fn fresh(light: bool) -> Self {
        MemoryDB::new(light)
    }
}
#[macro_export]
macro_rules! with_db {
    ($h:expr, $D:ident => $body:expr) => {
        if $h.mem {
            type $D = patriecia::MemoryDB;
            $body
        } else {
            type $D = $crate::ptrie::PDb;
            $body
        }
    };
}

// ---------------------------------------------------------------- driver
pub struct St<D: PStore> {
    pub db: Arc<D>,
    pub trie: InnerTrie<D>,
    pub cur: PKV,
    pub keys: Vec<Bytes>,
    /// roots committed, with their contents
    pub roots: Vec<(H256, PKV)>,
    /// index in `roots` of the last commit of this handle
    pub at: Option<usize>,
    pub dirty: bool,
    pub light: bool,
    pub uniq: bool,
    other: Option<(InnerTrie<D>, PKV, Option<usize>, bool)>,
}
impl<D: PStore> St<D> {
    pub fn new(h: &PHist) -> St<D> {
        let trie = if h.dflt && !h.light { InnerTrie::<D>::default() } else { InnerTrie::new(Arc::new(D::fresh(h.light))) };
        St { db: trie.db(), trie, cur: PKV::new(), keys: build_pkeys(&h.keys), roots: vec![], at: None, dirty: false, light: h.light, uniq: h.uniq, other: None }
    }
    /// A new trie on a storage in use.
    pub fn on(db: Arc<D>, h: &PHist) -> St<D> {
        St { trie: InnerTrie::new(db.clone()), db, cur: PKV::new(), keys: build_pkeys(&h.keys), roots: vec![], at: None, dirty: false, light: h.light, uniq: h.uniq, other: None }
    }
    pub fn key(&self, i: u16) -> Bytes {
        self.keys[i as usize % self.keys.len()].clone()
    }
    pub fn insert(&mut self, k: &Bytes, v: Bytes) -> R {
        ok!(self.trie.insert(k, &v), "insert({}, {} bytes)", hex::encode(k), v.len());
        self.cur.insert(k.clone(), v);
        self.dirty = true;
        Ok(())
    }
    pub fn remove(&mut self, k: &Bytes) -> R {
        let got = ok!(self.trie.remove(k), "remove({})", hex::encode(k));
        let want = self.cur.remove(k).is_some();
        ck_eq!(got, want, "result of remove({})", hex::encode(k));
        self.dirty = true;
        Ok(())
    }
    pub fn committed(&mut self, root: H256) {
        self.roots.push((root, self.cur.clone()));
        self.at = Some(self.roots.len() - 1);
        self.dirty = false;
    }
    /// Carries out one operation, checking its result.
    pub fn step(&mut self, op: &POp) -> R {
        match op {
            POp::Insert(k, v) => {
                let i = *k as usize % self.keys.len();
                let key = self.keys[i].clone();
                self.insert(&key, v.bytes(self.uniq, i))?
            }
            POp::InsertEmpty(k) => {
                let key = self.key(*k);
                ck!(self.trie.insert(&key, &[]).is_err(), "inserting an empty value is not refused");
            }
            POp::Remove(k) => {
                let key = self.key(*k);
                self.remove(&key)?
            }
            POp::Again(k) => {
                let n = self.cur.len().max(1);
                if let Some((k, v)) = self.cur.iter().nth(*k as usize % n).map(|(k, v)| (k.clone(), v.clone())) {
                    self.insert(&k, v)?
                }
            }
            POp::RemoveAll => {
                for k in self.cur.keys().cloned().collect::<Vec<_>>() {
                    self.remove(&k)?
                }
            }
            POp::RemoveBut(i) => {
                let n = self.cur.len().max(1);
                for (j, k) in self.cur.keys().cloned().collect::<Vec<_>>().iter().enumerate() {
                    if j != *i as usize % n {
                        self.remove(k)?
                    }
                }
            }
            POp::RemoveUnder(k, n) => {
                let p = self.key(*k);
                let p = &p[..p.len().min(*n as usize)];
                for k in self.cur.keys().filter(|k| k.starts_with(p)).cloned().collect::<Vec<_>>() {
                    self.remove(&k)?
                }
            }
            POp::Fill(n, v) => {
                let m = *n as usize % (self.keys.len() + 1);
                for i in 0..m {
                    let k = self.keys[i].clone();
                    let v = PVal { len: v.len, tag: v.tag.wrapping_add(i as u8 / 2) };
                    self.insert(&k, v.bytes(self.uniq, i))?
                }
            }
            POp::Recreate(i) => {
                let n = self.cur.len().max(1);
                if let Some((k, v)) = self.cur.iter().nth(*i as usize % n).map(|(k, v)| (k.clone(), v.clone())) {
                    self.remove(&k)?;
                    self.insert(&k, v)?
                }
            }
            POp::Bulk(n, salt, v) => {
                let b = bulk_pkeys(&self.keys[0], *n, *salt);
                for (i, k) in b.iter().enumerate() {
                    let mut x = v.bytes(false, 0);
                    if self.uniq {
                        // as in `PVal::bytes`: the first byte is above all of those
                        let id = [0xee, i as u8, (i >> 8) as u8];
                        x.splice(..x.len().min(3), id);
                    } else if i % 3 == 0 {
                        x[0] = i as u8;
                    }
                    self.insert(k, x)?
                }
                for k in b.iter().step_by((b.len() / 3).max(1)) {
                    if self.keys.len() < 0xee && !self.keys.contains(k) {
                        self.keys.push(k.clone())
                    }
                }
            }
            POp::Tweak(k, bit) => {
                let n = self.cur.len().max(1);
                if let Some((k, mut v)) = self.cur.iter().nth(*k as usize % n).map(|(k, v)| (k.clone(), v.clone())) {
                    // the first bytes tell keys apart
                    let from = if self.uniq { 3 } else { 0 };
                    if v.len() > from {
                        let (n, at) = (v.len(), *bit as usize / 8);
                        v[if at % 3 == 0 { n - 1 } else { from + at % (n - from) }] ^= 1 << (bit % 8);
                        self.insert(&k, v)?
                    }
                }
            }
            POp::Undo(m, how) => {
                let m = *m as usize % 7 + 1;
                let sel: Vec<(Bytes, Bytes)> =
                    self.cur.iter().enumerate().filter(|(j, _)| (j % m == 0) != (m > 1 && how & 1 == 1)).map(|(_, (k, v))| (k.clone(), v.clone())).collect();
                for (k, v) in &sel {
                    if how & 2 == 0 {
                        self.remove(k)?
                    } else {
                        let mut v = v.clone();
                        *v.last_mut().unwrap() ^= 1 + (how & 4);
                        self.insert(k, v)?
                    }
                }
                let back: Vec<_> = if how & 8 == 0 { sel } else { sel.into_iter().rev().collect() };
                for (k, v) in &back {
                    self.insert(k, v.clone())?
                }
            }
            POp::Thin(m, rest) => {
                let m = *m as usize % 7 + 2;
                for (j, k) in self.cur.keys().cloned().collect::<Vec<_>>().iter().enumerate() {
                    if (j % m == 0) != *rest {
                        self.remove(k)?
                    }
                }
            }
            POp::Commit => {
                let r = ok!(self.trie.commit(), "commit");
                self.committed(r)
            }
            POp::RootHash => {
                let r = ok!(self.trie.root_hash(), "root_hash");
                self.committed(r)
            }
            POp::Proof(k) => {
                // that it verifies is claimed of committed, non-empty tries, that it changes nothing, of all
                let key = self.key(*k);
                ok!(self.trie.get_proof(&key), "get_proof({})", hex::encode(&key));
            }
            POp::Read(k) => {
                let key = self.key(*k);
                self.read(&key)?
            }
            POp::Reopen => {
                if let Some(i) = self.at {
                    self.trie = self.trie.at_root(self.roots[i].0);
                    self.cur = self.roots[i].1.clone();
                    self.dirty = false;
                }
            }
            POp::Fork => {
                if !self.light {
                    self.other = Some((self.trie.clone(), self.cur.clone(), self.at, self.dirty));
                }
            }
            POp::Swap => {
                if !self.light {
                    let (mut trie, mut cur, mut at, mut dirty) = self.other.take().unwrap_or_else(|| (InnerTrie::new(self.db.clone()), PKV::new(), None, false));
                    std::mem::swap(&mut trie, &mut self.trie);
                    std::mem::swap(&mut cur, &mut self.cur);
                    std::mem::swap(&mut at, &mut self.at);
                    std::mem::swap(&mut dirty, &mut self.dirty);
                    self.other = Some((trie, cur, at, dirty));
                    self.read_all().map_err(|e| format!("the other trie on the same storage: {e}"))?;
                }
            }
            POp::Back(i) => {
                if !self.light && !self.roots.is_empty() {
                    let i = *i as usize % self.roots.len();
                    self.trie = self.trie.at_root(self.roots[i].0);
                    self.cur = self.roots[i].1.clone();
                    self.at = Some(i);
                    self.dirty = false;
                }
            }
        }
        Ok(())
    }
    pub fn read(&self, k: &Bytes) -> R {
        read(&self.trie, &self.cur, k)
    }
    pub fn read_all(&self) -> R {
        for k in pqueries(&self.keys) {
            self.read(&k)?;
        }
        Ok(())
    }
}
pub fn read<D: PStore>(t: &InnerTrie<D>, c: &PKV, k: &Bytes) -> R {
    ck_eq!(ok!(t.get(k), "get({})", hex::encode(k)).as_ref(), c.get(k), "get({})", hex::encode(k));
    ck_eq!(ok!(t.contains(k), "contains({})", hex::encode(k)), c.contains_key(k), "contains({})", hex::encode(k));
    Ok(())
}
/// The keys and their relatives.
pub fn pqueries(keys: &[Bytes]) -> Vec<Bytes> {
    let mut s: BTreeSet<Bytes> = keys.iter().cloned().collect();
    s.insert(vec![]);
    for k in keys {
        for x in [0u8, 0x10, 0xff] {
            let mut y = k.clone();
            y.push(x);
            s.insert(y);
        }
        if let Some((l, rest)) = k.split_last() {
            s.insert(rest.to_vec());
            for x in [1u8, 0x10] {
                let mut y = rest.to_vec();
                y.push(l ^ x);
                s.insert(y);
            }
        }
        if k.len() > 2 {
            s.insert(k[..k.len() / 2].to_vec());
            let mut y = k.clone();
            y[0] ^= 0x11;
            s.insert(y);
        }
    }
    s.into_iter().collect()
}
pub fn plabels(h: &PHist, ctx: &mut Ctx) {
    let keys = build_pkeys(&h.keys);
    ctx.label_if(h.light, "pruning storage");
    ctx.label_if(!h.light, "retaining storage");
    ctx.label_if(h.mem, "bundled database");
    ctx.label_if(h.dflt && !h.light, "from the default trie");
    ctx.label_if(keys.contains(&vec![]), "with the empty key");
    ctx.label_if(keys.iter().any(|k| keys.iter().any(|o| o.len() > k.len() && o.starts_with(k))), "with keys that are prefixes");
    ctx.label_if(h.ops.iter().any(|o| matches!(o, POp::Reopen | POp::Back(_))), "with reopening");
    ctx.label_if(!h.light && h.ops.iter().any(|o| matches!(o, POp::Swap)), "two tries on one storage");
}
