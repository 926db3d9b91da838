//! C31: Patricia tries that share a storage.
use crate::ptrie::*;
use crate::runner::*;
use crate::{ck, ck_eq, ok};
use patriecia::{InnerTrie, MemoryDB, Trie, H256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C31 {
    /// a history, the operations of others, and how many storage accesses lie between them. An even number beside the
    /// operations: they start from nothing; an odd one says before which operation of the first (one divisible by 4
    /// with rest 3: before which commit) they start as clones of it
    Turns(PHist, Vec<(Vec<POp>, u16)>, Vec<u8>),
    /// one history for each thread, on the bundled database; the first is carried out before the others begin
    Threads(PHist, Vec<Vec<POp>>),
    /// pruning storage, looked at before each access of a commit
    Moments(PHist),
}

fn hex_(b: &[u8]) -> String {
    hex::encode(b)
}
/// The contents of a committed root, read from a trie opened there.
fn complete<D: PStore>(db: &Arc<D>, root: H256, c: &PKV, what: &str) -> R {
    let t = InnerTrie::new(db.clone()).at_root(root);
    for k in c.keys() {
        read(&t, c, k).map_err(|e| format!("{what}: {e}"))?;
    }
    let got: Vec<_> = t.iter().collect();
    ck!(got.len() == c.len() && got.iter().zip(c).all(|(a, b)| &a.0 == b.0 && &a.1 == b.1), "{what}: iteration yields {} entries, expected {}", got.len(), c.len());
    Ok(())
}
fn root_right<D: PStore>(s: &St<D>, before: usize) -> R {
    for (r, c) in &s.roots[before..] {
        ck_eq!(hex_(r.as_bytes()), hex_(&Mpt::new(c).root()), "root of a commit of {} entries", c.len());
    }
    Ok(())
}
/// One more thing done by a trie: the operation, and reading what it concerns.
fn turn<D: PStore>(s: &mut St<D>, op: &POp, n: usize) -> R {
    let before = s.roots.len();
    s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
    root_right(s, before)?;
    for i in 0..2 {
        let k = s.key((n * 7 + i) as u16);
        s.read(&k).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    if n % 3 == 0 {
        let got: PKV = s.trie.iter().collect();
        ck!(got == s.cur, "after {op:?}: iteration yields {} entries, expected {}", got.len(), s.cur.len());
    }
    if !s.dirty && !s.cur.is_empty() && n % 2 == 0 {
        let (root, c) = s.at.map(|i| s.roots[i].clone()).unwrap_or_default();
        if s.at.is_some() {
            let k = s.key(n as u16);
            let p = ok!(s.trie.get_proof(&k), "get_proof({})", hex_(&k));
            ck_eq!(ok!(s.trie.verify_proof(root, &k, p), "verify_proof({})", hex_(&k)).as_ref(), c.get(&k), "what the proof of {} says", hex_(&k));
        }
    }
    Ok(())
}

fn turns(h: &PHist, others: &[(Vec<POp>, u16)], gaps: &[u8], ctx: &mut Ctx) -> R {
    struct Other {
        s: Option<St<PDb>>,
        ops: std::vec::IntoIter<POp>,
        n: usize,
    }
    struct Shared {
        others: Vec<Other>,
        gaps: std::iter::Cycle<std::vec::IntoIter<u8>>,
        left: u8,
        next: usize,
        done: u64,
        inside: u64,
        failed: Option<String>,
    }
    let mut s = St::<PDb>::new(h);
    let db = s.db.clone();
    let sh = Rc::new(RefCell::new(Shared {
        others: others.iter().map(|(o, _)| Other { s: None, ops: o.clone().into_iter(), n: 0 }).collect(),
        gaps: gaps.to_vec().into_iter().cycle(),
        left: gaps[0],
        next: 0,
        done: 0,
        inside: 0,
        failed: None,
    }));
    let hook = sh.clone();
    let _guard = Hook::set(move |what| {
        let mut x = hook.borrow_mut();
        if x.left > 0 {
            x.left -= 1;
            return;
        }
        x.left = x.gaps.next().unwrap_or(0);
        if x.others.is_empty() || x.failed.is_some() {
            return;
        }
        let i = x.next % x.others.len();
        x.next += 1;
        let o = &mut x.others[i];
        let Some(t) = o.s.as_mut() else { return };
        let Some(op) = o.ops.next() else { return };
        o.n += 1;
        let e = turn(t, &op, o.n).err();
        x.done += 1;
        x.inside += (what != "get") as u64;
        if let Some(e) = e {
            x.failed = Some(format!("trie {i} of those working between the accesses of another, at its operation {}: {e}", x.others[i].n));
        }
    });
    let mut ops = h.ops.clone();
    ops.push(POp::Commit);
    let commits: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| matches!(o, POp::Commit | POp::RootHash)).map(|(i, _)| i).collect();
    let from = |at: u16| match at % 4 {
        0 | 2 => 0,
        1 => at as usize / 4 % ops.len(),
        _ => commits[at as usize / 4 % commits.len()],
    };
    for (n, op) in ops.iter().enumerate() {
        {
            let mut x = sh.borrow_mut();
            for (o, (_, at)) in x.others.iter_mut().zip(others) {
                if o.s.is_none() && from(*at) <= n {
                    let mut t = St::<PDb>::on(db.clone(), h);
                    if *at % 2 == 1 {
                        (t.trie, t.cur, t.at, t.dirty, t.roots) = (s.trie.clone(), s.cur.clone(), s.at, s.dirty, s.roots.clone());
                    }
                    o.s = Some(t);
                }
            }
        }
        let r = turn(&mut s, op, n);
        if let Some(e) = sh.borrow_mut().failed.take() {
            return Err(e);
        }
        r.map_err(|e| format!("while others work on the same storage, {e}"))?;
    }
    drop(_guard);
    let x = sh.borrow();
    let mut all: Vec<(H256, PKV)> = s.roots.clone();
    for o in &x.others {
        if let Some(t) = &o.s {
            all.extend(t.roots.iter().cloned());
            // what it has not committed is still its own
            for k in t.keys.iter() {
                t.read(k).map_err(|e| format!("one of the tries at the end: {e}"))?;
            }
        }
    }
    let mut seen = BTreeSet::new();
    for (r, c) in &all {
        if seen.insert(*r) {
            complete(&db, *r, c, "a root committed by one of several tries")?;
        }
    }
    ctx.count("operations of others between two accesses of one", x.done);
    ctx.label_if(x.inside > 0, "others working in the middle of a commit");
    ctx.label_if(x.others.iter().any(|o| o.s.as_ref().map_or(false, |t| t.roots.len() > s.roots.len() / 2)), "others committing");
    ctx.nontrivial_if(x.done > 0 && s.roots.len() > 1);
    Ok(())
}

fn threads(h: &PHist, runs: &[Vec<POp>], ctx: &mut Ctx) -> R {
    let mut first = St::<MemoryDB>::new(h);
    for (n, op) in h.ops.iter().enumerate() {
        turn(&mut first, op, n)?;
    }
    let db = first.db.clone();
    let bar = Barrier::new(runs.len());
    let start: Vec<St<MemoryDB>> = (0..runs.len())
        .map(|_| {
            let mut t = St::<MemoryDB>::on(db.clone(), h);
            (t.trie, t.cur, t.at, t.dirty, t.roots) = (first.trie.clone(), first.cur.clone(), first.at, first.dirty, first.roots.clone());
            t
        })
        .collect();
    let out: Vec<Result<Vec<(H256, PKV)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = start
            .into_iter()
            .zip(runs)
            .map(|(mut t, ops)| {
                let bar = &bar;
                sc.spawn(move || {
                    bar.wait();
                    no_panic(|| {
                        for (n, op) in ops.iter().enumerate() {
                            turn(&mut t, op, n)?;
                        }
                        let r = t.trie.commit().map_err(|e| format!("commit: {e}"))?;
                        t.committed(r);
                        root_right(&t, t.roots.len() - 1)?;
                        Ok::<_, String>(t.roots)
                    })
                    .and_then(|r| r)
                })
            })
            .collect();
        hs.into_iter().map(|x| x.join().unwrap_or_else(|_| Err("a thread ended with a panic".into()))).collect()
    });
    let mut seen = BTreeSet::new();
    for (i, r) in out.into_iter().enumerate() {
        let roots = r.map_err(|e| format!("thread {i} of {} on one storage: {e}", runs.len()))?;
        for (r, c) in roots {
            if seen.insert(r) {
                complete(&db, r, &c, "a root committed by one of several threads")?;
            }
        }
    }
    ctx.label("threads");
    ctx.count("threads", runs.len() as u64);
    ctx.nontrivial_if(seen.len() > 1);
    Ok(())
}

fn moments(h: &PHist, ctx: &mut Ctx) -> R {
    let mut s = St::<PDb>::new(h);
    let db = s.db.clone();
    let mut ops = h.ops.clone();
    ops.push(POp::Commit);
    let mut looked = 0;
    for op in &ops {
        if !matches!(op, POp::Commit | POp::RootHash) {
            s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            continue;
        }
        // the nodes of the trie last committed and of the one to be committed
        let set = |c: &PKV| -> BTreeSet<Bytes> { Mpt::new(c).nodes().iter().map(|n| keccak(n).to_vec()).collect() };
        let old = s.at.map(|i| set(&s.roots[i].1)).unwrap_or_default();
        let new = set(&s.cur);
        let bad = Rc::new(RefCell::new((None::<String>, 0u64)));
        let (b, d) = (bad.clone(), db.clone());
        let guard = Hook::set(move |what| {
            let mut b = b.borrow_mut();
            b.1 += 1;
            if b.0.is_some() || b.1 > 400 {
                return;
            }
            let has = |n: &BTreeSet<Bytes>| d.holds(n.iter());
            if !has(&old) && !has(&new) {
                b.0 = Some(format!("before storage access {} of the commit, of the kind {what}, neither the trie committed last nor the one being committed is there as a whole", b.1));
            }
        });
        let r = s.step(op);
        drop(guard);
        r.map_err(|e| format!("{op:?}: {e}"))?;
        let b = bad.borrow();
        if let Some(e) = &b.0 {
            return Err(e.clone());
        }
        looked += b.1;
        complete(&db, s.roots.last().expect("committed").0, &s.cur, "the root just committed")?;
    }
    ctx.count("moments of a commit looked at", looked);
    ctx.label("moments of commits on pruning storage");
    ctx.nontrivial_if(s.roots.len() > 1 && looked > 8);
    Ok(())
}

fn c31(c: &C31, ctx: &mut Ctx) -> R {
    match c {
        C31::Turns(h, o, g) => {
            plabels(h, ctx);
            turns(h, o, g, ctx)
        }
        C31::Threads(h, r) => {
            plabels(h, ctx);
            threads(h, r, ctx)
        }
        C31::Moments(h) => {
            plabels(h, ctx);
            moments(h, ctx)
        }
    }
}

pub fn checks() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check::<C31> {
        id: "C31",
        level: "exploration",
        rule: "a case is a history of a trie, between whose storage accesses other tries on the same retaining storage carry out operations of theirs (commits included) by a generated schedule; or one history and threads that go on from it on the bundled database; or a history on pruning storage looked at before each access of its commits; non-trivial: others did something and two roots were committed, or more than 8 moments",
        assumptions: &["a storage access is atomic", "on pruning storage the values of different keys differ, and one trie works at a time"],
        quick: 60000,
        thorough: 6_000_000,
        strategy: |t| {
            let p = pscaled(PP { keys: 14, ops: 24, back: true, bulk: 70 }, t);
            let keep = move |p: PP| phist(p).prop_map(|h| PHist { light: false, mem: false, ..h });
            let act = || prop_oneof![6 => pop(true), 3 => Just(POp::Commit)];
            let other = (prop::collection::vec(act(), 4..60), any::<u16>()).prop_map(|(mut o, at)| {
                if at % 4 == 3 && at / 4 % 4 > 0 {
                    // the same commit in the middle of that commit
                    o.insert(0, POp::Commit);
                }
                (o, at)
            });
            let gaps = prop_oneof![2 => prop::collection::vec(0u8..4, 1..6), 1 => prop::collection::vec(0u8..40, 1..6)];
            let a = (keep(p), prop::collection::vec(other, 1..4), gaps).prop_map(|(h, o, g)| C31::Turns(h, o, g));
            let th = (keep(PP { ops: 10, ..p }), prop::collection::vec(prop::collection::vec(act(), 4..24), 2..5)).prop_map(|(h, r)| C31::Threads(PHist { mem: true, ..h }, r));
            let m = phist(p).prop_map(|h| C31::Moments(PHist { light: true, mem: false, uniq: true, dflt: false, ..h }));
            prop_oneof![8 => a, 1 => th, 4 => m].boxed()
        },
        run: c31,
    })]
}
