//! The reference model: an independent 256-bit sparse Merkle tree over sorted contents.
use crate::jgen::{bit, KV};
use jmt::{KeyHash, SimpleHasher};
use sha2::{Digest, Sha256};

pub type Hash = [u8; 32];
pub const EMPTY: Hash = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn leaf_hash(k: &KeyHash, vh: &Hash) -> Hash {
    let mut d = Sha256::default();
    Digest::update(&mut d, b"JMT::LeafNode");
    Digest::update(&mut d, k.0);
    Digest::update(&mut d, vh);
    Digest::finalize(d).into()
}
pub fn inner_hash(l: &Hash, r: &Hash) -> Hash {
    let mut d = Sha256::default();
    Digest::update(&mut d, b"JMT::IntrnalNode");
    Digest::update(&mut d, l);
    Digest::update(&mut d, r);
    Digest::finalize(d).into()
}

/// Contents as sorted (key, value hash) pairs.
pub struct Smt {
    pub leaves: Vec<(KeyHash, Hash)>,
}
impl Smt {
    pub fn new<H: SimpleHasher>(c: &KV) -> Smt {
        Smt { leaves: c.iter().map(|(k, v)| (*k, H::hash(v))).collect() }
    }
    pub fn root(&self) -> Hash {
        sub(&self.leaves, 0)
    }
    /// The canonical proof for `key`: the leaf at the end of its path (if any) and the siblings from the
    /// bottom up.
    pub fn proof(&self, key: &KeyHash) -> (Option<(KeyHash, Hash)>, Vec<Hash>) {
        let mut s = &self.leaves[..];
        let mut sib = vec![];
        let mut d = 0;
        while s.len() > 1 {
            let m = s.partition_point(|(k, _)| !bit(&k.0, d));
            let (l, r) = s.split_at(m);
            if bit(&key.0, d) {
                sib.push(sub(l, d + 1));
                s = r;
            } else {
                sib.push(sub(r, d + 1));
                s = l;
            }
            d += 1;
        }
        sib.reverse();
        (s.first().copied(), sib)
    }
    /// The left and the right siblings (bottom first) on the path of a present key.
    pub fn sides(&self, key: &KeyHash) -> (Vec<Hash>, Vec<Hash>) {
        let (_, sib) = self.proof(key);
        let (mut l, mut r) = (vec![], vec![]);
        let n = sib.len();
        for (i, s) in sib.iter().enumerate() {
            if bit(&key.0, n - 1 - i) {
                l.push(*s)
            } else {
                r.push(*s)
            }
        }
        (l, r)
    }
}
pub fn sub(s: &[(KeyHash, Hash)], d: usize) -> Hash {
    match s.len() {
        0 => EMPTY,
        1 => leaf_hash(&s[0].0, &s[0].1),
        _ => {
            let m = s.partition_point(|(k, _)| !bit(&k.0, d));
            inner_hash(&sub(&s[..m], d + 1), &sub(&s[m..], d + 1))
        }
    }
}

/// An independent verifier of what a proof claims.
pub fn verify(root: &Hash, key: &KeyHash, vh: Option<&Hash>, leaf: Option<(KeyHash, Hash)>, sib: &[Hash]) -> bool {
    if sib.len() > 256 {
        return false;
    }
    let n = sib.len();
    match (vh, &leaf) {
        (Some(v), Some((k, h))) => {
            if k != key || h != v {
                return false;
            }
        }
        (Some(_), None) => return false,
        (None, Some((k, _))) => {
            if k == key || (0..n).any(|i| bit(&k.0, i) != bit(&key.0, i)) {
                return false;
            }
        }
        (None, None) => {}
    }
    let mut h = leaf.map_or(EMPTY, |(k, v)| leaf_hash(&k, &v));
    for (i, s) in sib.iter().enumerate() {
        h = if bit(&key.0, n - 1 - i) { inner_hash(s, &h) } else { inner_hash(&h, s) };
    }
    &h == root
}
