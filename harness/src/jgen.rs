//! Generated inputs for the Jellyfish tree: key universes and histories, as small recipes.
use crate::runner::Tier;
use jmt::KeyHash;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn prf32(salt: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4u64 {
        o[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&mix(salt.wrapping_mul(31).wrapping_add(i * 0x1234567)).to_le_bytes());
    }
    o
}

/// A key derived from an earlier key of the universe: same prefix up to `bit`, that bit flipped, and a
/// tail which is the same, zeros, ones or pseudo-random.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeySpec {
    pub base: u16,
    pub bit: u8,
    pub tail: u8,
    pub salt: u16,
}
pub fn bit(k: &[u8; 32], i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
pub fn set_bit(k: &mut [u8; 32], i: usize, v: bool) {
    let m = 1u8 << (7 - i % 8);
    if v {
        k[i / 8] |= m
    } else {
        k[i / 8] &= !m
    }
}
pub fn build_keys(specs: &[KeySpec]) -> Vec<KeyHash> {
    let mut out: Vec<[u8; 32]> = vec![];
    for (i, s) in specs.iter().enumerate() {
        let mut k = if i == 0 {
            match s.tail {
                1 => [0u8; 32],
                2 => [0xffu8; 32],
                _ => prf32(s.salt as u64),
            }
        } else {
            out[s.base as usize % i]
        };
        if i > 0 {
            let b = s.bit as usize;
            let v = !bit(&k, b);
            set_bit(&mut k, b, v);
            let r = prf32(0xabcdef ^ ((s.salt as u64) << 20) ^ i as u64);
            for j in b + 1..256 {
                match s.tail {
                    0 => {}
                    1 => set_bit(&mut k, j, false),
                    2 => set_bit(&mut k, j, true),
                    _ => set_bit(&mut k, j, bit(&r, j)),
                }
            }
        }
        out.push(k);
    }
    out.into_iter().map(KeyHash).collect()
}
pub fn succ(k: &KeyHash) -> Option<KeyHash> {
    let mut b = k.0;
    for i in (0..32).rev() {
        if b[i] == 0xff {
            b[i] = 0;
        } else {
            b[i] += 1;
            return Some(KeyHash(b));
        }
    }
    None
}
pub fn pred(k: &KeyHash) -> Option<KeyHash> {
    let mut b = k.0;
    for i in (0..32).rev() {
        if b[i] == 0 {
            b[i] = 0xff;
        } else {
            b[i] -= 1;
            return Some(KeyHash(b));
        }
    }
    None
}

pub fn key_spec() -> BoxedStrategy<KeySpec> {
    let bitpos = prop_oneof![
        4 => 0u8..16,
        2 => 248u8..=255,
        2 => 0u8..=255,
        2 => (0u8..64).prop_map(|n| n * 4 + 3),
        1 => (0u8..64).prop_map(|n| n * 4),
    ];
    (any::<u16>(), bitpos, prop_oneof![3 => Just(3u8), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u16..1000)
        .prop_map(|(base, bit, tail, salt)| KeySpec { base, bit, tail, salt })
        .boxed()
}
pub fn universe(max: usize) -> BoxedStrategy<Vec<KeySpec>> {
    prop_oneof![
        2 => prop::collection::vec(key_spec(), 1..=max.min(4)),
        5 => prop::collection::vec(key_spec(), 1..=max.min(24)),
        1 => prop::collection::vec(key_spec(), 1..=max),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Val {
    pub len: u32,
    pub tag: u16,
}
impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len as usize);
        let mut i = 0u64;
        while v.len() < self.len as usize {
            v.extend_from_slice(&mix(((self.tag & 0xff) as u64) << 16 | i).to_le_bytes());
            i += 1;
        }
        v.truncate(self.len as usize);
        // those of a higher tag differ from those of the lower by one bit
        match (self.tag >> 8, v.len()) {
            (0, _) | (_, 0) => {}
            (1, n) => v[n - 1] ^= 1,
            (2, _) => v[0] ^= 0x80,
            (x, n) => v[x as usize * 7 % n] ^= 8,
        }
        v
    }
}
pub fn val() -> BoxedStrategy<Val> {
    (
        prop_oneof![
            100 => Just(0u32),
            600 => 1u32..6,
            200 => Just(32u32),
            100 => Just(64u32),
            100 => 0u32..=300,
            10 => prop::sample::select(vec![31u32, 33, 55, 56, 63, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
            3 => prop::sample::select(vec![1000u32, 1023, 1024, 1025, 4096, 16383, 16384, 65535, 65536, 70000]),
        ],
        prop_oneof![5 => 0u16..6, 1 => (0u16..2, 1u16..9).prop_map(|(a, b)| b << 8 | a)],
    )
        .prop_map(|(len, tag)| Val { len, tag })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SetSpec {
    Ops(Vec<(u16, Option<Val>)>),
    Empty,
    /// deletes everything present
    DelAll,
    /// deletes everything present but the k-th
    DelAllBut(u16),
    /// writes the first n keys of the universe
    Fill(u16, Val),
    /// rewrites values already there
    Rewrite(u16),
    /// writes n keys besides the universe: random ones, or, from bit `at` on, the numbers below n after the
    /// prefix of a key of the universe
    Bulk { n: u16, at: u8, salt: u16, v: Val },
    /// deletes every n-th key present, or all others
    Thin(u16, bool),
}
pub fn bulk_keys(keys: &[KeyHash], n: u16, at: u8, salt: u16) -> Vec<KeyHash> {
    (0..n)
        .map(|i| {
            let r = prf32(0x5b5b ^ ((salt as u64) << 24) ^ i as u64);
            if at < 8 || keys.is_empty() {
                return KeyHash(r);
            }
            let at = at.min(240) as usize;
            let mut k = keys[salt as usize % keys.len()].0;
            for b in 0..16 {
                // dense, or spread
                let x = if salt % 2 == 0 { i } else { i.reverse_bits() };
                set_bit(&mut k, at + b, x >> (15 - b) & 1 == 1);
            }
            if salt % 3 > 0 {
                for b in at + 16..256 {
                    set_bit(&mut k, b, bit(&r, b));
                }
            }
            KeyHash(k)
        })
        .collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub hasher: u8,
    pub migration: bool,
    pub base: u64,
    pub keys: Vec<KeySpec>,
    pub sets: Vec<SetSpec>,
    /// how many sets each call takes, and whether the batch insertion API is used where it can be; one otherwise
    #[serde(default)]
    pub calls: Vec<(u8, bool)>,
}
pub type KV = BTreeMap<KeyHash, Vec<u8>>;
pub type WSet = Vec<(KeyHash, Option<Vec<u8>>)>;

pub struct Resolved {
    pub keys: Vec<KeyHash>,
    pub sets: Vec<WSet>,
    /// contents[i]: after sets[i], at version base + i
    pub contents: Vec<KV>,
}
impl Hist {
    pub fn resolve(&self) -> Resolved {
        let mut keys = build_keys(&self.keys);
        let mut more: Vec<KeyHash> = vec![];
        let n = keys.len().max(1);
        let mut cur = KV::new();
        let (mut sets, mut contents) = (vec![], vec![]);
        for s in &self.sets {
            let w: WSet = match s {
                SetSpec::Ops(o) => o.iter().map(|(k, v)| (keys[*k as usize % n], v.map(|v| v.bytes()))).collect(),
                SetSpec::Empty => vec![],
                SetSpec::DelAll => cur.keys().map(|k| (*k, None)).collect(),
                SetSpec::DelAllBut(i) => {
                    let m = cur.len().max(1);
                    cur.keys().enumerate().filter(|(j, _)| *j != *i as usize % m).map(|(_, k)| (*k, None)).collect()
                }
                SetSpec::Fill(c, v) => keys
                    .iter()
                    .take(*c as usize % (n + 1))
                    .enumerate()
                    .map(|(i, k)| (*k, Some(Val { len: v.len, tag: v.tag.wrapping_add(i as u16) }.bytes())))
                    .collect(),
                SetSpec::Bulk { n, at, salt, v } => {
                    let b = bulk_keys(&keys, *n, *at, *salt);
                    more.extend(b.iter().step_by((b.len() / 3).max(1)).take(4).copied());
                    more.extend(b.last());
                    b.into_iter().enumerate().map(|(i, k)| (k, Some(Val { len: v.len, tag: v.tag.wrapping_add(i as u16) }.bytes()))).collect()
                }
                SetSpec::Thin(m, rest) => {
                    let m = *m as usize % 7 + 2;
                    cur.keys().enumerate().filter(|(j, _)| (j % m == 0) != *rest).map(|(_, k)| (*k, None)).collect()
                }
                SetSpec::Rewrite(c) => cur.iter().take(*c as usize % 8).map(|(k, v)| (*k, Some(v.clone()))).collect(),
            };
            for (k, v) in &w {
                match v {
                    Some(v) => {
                        cur.insert(*k, v.clone());
                    }
                    None => {
                        cur.remove(k);
                    }
                }
            }
            sets.push(w);
            contents.push(cur.clone());
        }
        keys.extend(more);
        Resolved { keys, sets, contents }
    }
    pub fn version(&self, i: usize) -> u64 {
        self.base + i as u64
    }
}

#[derive(Clone, Copy)]
pub struct HP {
    pub keys: usize,
    pub versions: usize,
    pub set: usize,
    pub deletions: bool,
    pub hashers: bool,
    pub base: bool,
    /// how often a history has sets of many keys, and how often many versions
    pub bulk: f64,
}
pub const STD: HP = HP { bulk: 0.01, keys: 40, versions: 8, set: 12, deletions: true, hashers: true, base: true };

fn bulk(deletions: bool) -> BoxedStrategy<(Vec<SetSpec>, u8)> {
    let short = prop_oneof![4 => 1u32..6, 1 => Just(32u32)];
    let b = (prop_oneof![6 => 17u16..80, 2 => 200u16..600, 1 => 1000u16..1200], prop_oneof![2 => Just(0u8), 3 => any::<u8>()], any::<u16>(), short, 0u16..6)
        .prop_map(|(n, at, salt, len, tag)| SetSpec::Bulk { n, at, salt, v: Val { len, tag } });
    let then = if deletions {
        prop_oneof![2 => (any::<u16>(), any::<bool>()).prop_map(|(n, r)| SetSpec::Thin(n, r)), 1 => Just(SetSpec::DelAll), 2 => any::<u16>().prop_map(SetSpec::DelAllBut), 1 => b.clone()].boxed()
    } else {
        b.clone().boxed()
    };
    (b, prop::collection::vec(then, 0..3), any::<u8>()).prop_map(|(b, mut t, at)| (
        {
            t.insert(0, b);
            t
        },
        at,
    )).boxed()
}
/// First versions at the boundaries of their encodings.
fn bases() -> Vec<u64> {
    let mut b: Vec<u64> = (1..9).flat_map(|k| [(1u64 << (7 * k)) - 3, (1u64 << (8 * k - 1) << 1).wrapping_sub(3)]).collect();
    b.pop();
    b.extend([255, 1 << 40, (1 << 63) - 2, u64::MAX - 400]);
    b
}
/// A long history on few keys.
fn long(op: BoxedStrategy<(u16, Option<Val>)>) -> BoxedStrategy<(Vec<SetSpec>, u8)> {
    let set = prop_oneof![8 => prop::collection::vec(op, 1..=2).prop_map(SetSpec::Ops), 1 => Just(SetSpec::Empty), 1 => any::<u16>().prop_map(SetSpec::Rewrite)];
    (prop_oneof![8 => prop::collection::vec(set.clone(), 12..40), 2 => prop::collection::vec(set.clone(), 60..75), 1 => prop::collection::vec(set, 125..145)], 1u8..6).boxed()
}
pub fn hist(p: HP) -> BoxedStrategy<Hist> {
    let op = if p.deletions {
        (any::<u16>(), prop_oneof![2 => val().prop_map(Some), 1 => Just(None)]).boxed()
    } else {
        (any::<u16>(), val().prop_map(Some)).boxed()
    };
    let ops = prop_oneof![
        3 => prop::collection::vec(op.clone(), 1..=3),
        3 => prop::collection::vec(op.clone(), 1..=p.set),
    ]
    .prop_map(SetSpec::Ops);
    let fill = (any::<u16>(), val()).prop_map(|(n, v)| SetSpec::Fill(n, v));
    let set = if p.deletions {
        prop_oneof![
            10 => ops,
            3 => fill.clone(),
            1 => Just(SetSpec::Empty),
            1 => Just(SetSpec::DelAll),
            2 => any::<u16>().prop_map(SetSpec::DelAllBut),
            1 => any::<u16>().prop_map(SetSpec::Rewrite),
        ]
        .boxed()
    } else {
        prop_oneof![10 => ops, 3 => fill.clone(), 1 => any::<u16>().prop_map(SetSpec::Rewrite)].boxed()
    };
    let base = if p.base {
        prop_oneof![5 => Just(0u64), 2 => 1u64..4, 1 => prop::sample::select(bases())].boxed()
    } else {
        Just(0u64).boxed()
    };
    let hasher = if p.hashers { prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)].boxed() } else { Just(0u8).boxed() };
    (hasher, prop_oneof![4 => Just(true), 1 => Just(false)], base, universe(p.keys), prop::collection::vec(set, 1..=p.versions),
        prop::option::weighted(0.5, (any::<u16>(), val())), prop::option::weighted(p.bulk, bulk(p.deletions)), prop::option::weighted(p.bulk, long(op)),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((prop_oneof![2 => Just(1u8), 1 => 2u8..6], any::<bool>()), 1..8)])
        .prop_map(|(hasher, migration, base, mut keys, mut sets, first, bulk, long, calls)| {
            if let Some((b, at)) = bulk {
                // a large tree: some sets of many keys
                sets.truncate(5);
                let at = at as usize % (sets.len() + 1);
                sets.splice(at..at, b);
            }
            else if let Some((l, n)) = long {
                // many versions
                sets.truncate(3);
                keys.truncate(n as usize);
                sets.extend(l);
            }
            if let Some((n, v)) = first {
                sets.insert(0, SetSpec::Fill(n, v));
            }
            Hist { hasher, migration, base, keys, sets, calls }
        })
        .boxed()
}
pub fn scaled(p: HP, t: Tier) -> HP {
    match t {
        Tier::Quick => p,
        Tier::Thorough => HP { keys: p.keys * 3, versions: p.versions * 2, set: p.set * 2, ..p },
    }
}

/// Runs `$body` with the type alias `$H` for the hasher number.
#[macro_export]
macro_rules! with_hasher {
    ($h:expr, $H:ident => $body:expr) => {
        match $h % 3 {
            0 => {
                type $H = sha2::Sha256;
                $body
            }
            1 => {
                type $H = sha2::Sha512_256;
                $body
            }
            _ => {
                type $H = sha3::Keccak256;
                $body
            }
        }
    };
}
