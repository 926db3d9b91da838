//! The property-test engine: deterministic generation with proptest strategies, sharded over
//! threads, with shrinking, replay files, known findings and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Collected while one case runs.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub counts: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}
impl Ctx {
    /// Marks that this case belongs to a class (counted once per case).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Adds to a measured total.
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.counts.entry(l).or_default() += n;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)*) => { match (&$a, &$b) { (a, b) => {
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    } } };
}
/// Unwraps a result of the code under test where an error is a violation.
#[macro_export]
macro_rules! ok {
    ($e:expr, $($m:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err(format!("{}: unexpected error: {:?}", format!($($m)*), e)) } };
}

pub struct Check<C> {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Ctx) -> R,
}

pub trait DynCheck: Sync {
    fn id(&self) -> &'static str;
    fn known(&self, verif: &std::path::Path, i: usize) -> i32 {
        let l = known_findings(verif, self.id());
        let Some(k) = l.get(i) else { return 2 };
        match self.replay(&k["case"]) {
            Ok(Err(m)) => {
                println!("{}", m.chars().take(200).collect::<String>());
                1
            }
            Ok(Ok(())) => 0,
            Err(e) => {
                eprintln!("known finding cannot be replayed: {e}");
                2
            }
        }
    }
    fn run_all(&self, tier: Tier, seed: u64, out: &OutDirs) -> i32;
    fn replay(&self, v: &Value) -> Result<R, String>;
    fn one(&self, tier: Tier, seed: u64, idx: u64) -> R;
    fn case_json(&self, tier: Tier, seed: u64, idx: u64) -> Value;
}

pub struct OutDirs {
    pub verif: PathBuf,
    /// where the in-flight case indices are kept, for the parent process
    pub progress: Option<PathBuf>,
    /// known findings: listed, and failing as they did
    pub known: (u64, u64),
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn case_seed(id: &str, seed: u64, idx: u64) -> [u8; 32] {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ idx.wrapping_mul(0xD1342543DE82EF95));
    let mut out = [0u8; 32];
    for i in 0..4 {
        h = mix(h.wrapping_add(i as u64));
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

thread_local! {
    static PANIC_INFO: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " | ");
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("{s}");
        }
        PANIC_INFO.with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs `f`; a panic becomes an `Err` with the panic's message and location.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        let info = PANIC_INFO.with(|p| p.borrow().clone());
        if info.is_empty() {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic: {m}")
        } else {
            info
        }
    })
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + 'static> Check<C> {
    fn tree(&self, tier: Tier, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = C>> {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &case_seed(self.id, seed, idx));
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        Box::new((self.strategy)(tier).new_tree(&mut runner).expect("strategy must produce a value"))
    }
    fn exec(&self, c: &C, ctx: &mut Ctx) -> R {
        match no_panic(|| (self.run)(c, ctx)) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {p}")),
        }
    }
    fn shrink(&self, tier: Tier, seed: u64, idx: u64, first_msg: String) -> (C, String, u64) {
        let mut tree = self.tree(tier, seed, idx);
        let mut best = (tree.current(), first_msg);
        let (mut runs, t0) = (0u64, Instant::now());
        if !tree.simplify() {
            return (best.0, best.1, runs);
        }
        loop {
            if runs >= 20_000 || t0.elapsed() > Duration::from_secs(60) {
                break;
            }
            runs += 1;
            let cur = tree.current();
            let more = match self.exec(&cur, &mut Ctx::default()) {
                Err(m) => {
                    best = (cur, m);
                    tree.simplify()
                }
                Ok(()) => tree.complicate(),
            };
            if !more {
                break;
            }
        }
        (best.0, best.1, runs)
    }
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + 'static> DynCheck for Check<C> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn one(&self, tier: Tier, seed: u64, idx: u64) -> R {
        let c = self.tree(tier, seed, idx).current();
        self.exec(&c, &mut Ctx::default())
    }
    fn case_json(&self, tier: Tier, seed: u64, idx: u64) -> Value {
        serde_json::to_value(self.tree(tier, seed, idx).current()).unwrap_or(Value::Null)
    }
    fn replay(&self, v: &Value) -> Result<R, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad case: {e}"))?;
        Ok(self.exec(&c, &mut Ctx::default()))
    }
    fn run_all(&self, tier: Tier, seed: u64, out: &OutDirs) -> i32 {
        let t0 = Instant::now();
        let mut total = if tier == Tier::Quick { self.quick } else { self.thorough };
        if let Ok(s) = std::env::var("VH_SCALE") {
            if let Ok(x) = s.parse::<f64>() {
                total = ((total as f64) * x) as u64;
            }
        }
        // a time budget for the thorough tier only; the quick tier is fixed work
        let soft_limit = if tier == Tier::Thorough {
            Some(Duration::from_secs(
                std::env::var("VH_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(720),
            ))
        } else {
            None
        };

        let (known_listed, known_hit) = out.known;
        let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        #[derive(Default)]
        struct Acc {
            evals: u64,
            nontrivial: u64,
            labels: BTreeMap<&'static str, u64>,
            counts: BTreeMap<&'static str, u64>,
            hashes: HashSet<u64>,
            samples: BTreeMap<u64, Value>,
            fails: BTreeMap<u64, String>,
        }
        let acc = Mutex::new(Acc::default());
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, acc, out) = (&next, &stop, &acc, &out);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut a = Acc::default();
                        let mut prog = out.progress.as_ref().map(|p| {
                            std::fs::File::create(p.join(format!("{t}"))).expect("progress file")
                        });
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(l) = soft_limit {
                                if t0.elapsed() > l {
                                    break;
                                }
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= total {
                                break;
                            }
                            if let Some(f) = prog.as_mut() {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_all_at(&i.to_le_bytes(), 0);
                            }
                            let c = self.tree(tier, seed, i).current();
                            let mut ctx = Ctx::default();
                            let r = self.exec(&c, &mut ctx);
                            a.evals += 1;
                            for l in &ctx.labels {
                                *a.labels.entry(l).or_default() += 1;
                            }
                            for (l, n) in &ctx.counts {
                                *a.counts.entry(l).or_default() += n;
                            }
                            if ctx.nontrivial {
                                a.nontrivial += 1;
                                let js = serde_json::to_string(&c).unwrap_or_default();
                                let mut h = 0xcbf29ce484222325u64;
                                for b in js.bytes() {
                                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                                }
                                a.hashes.insert(h);
                                if js.len() < 4000 && (a.samples.len() < 3) {
                                    a.samples.insert(i, serde_json::to_value(&c).unwrap_or(Value::Null));
                                }
                            }
                            if let Err(m) = r {
                                a.fails.insert(i, m);
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        if let Some(f) = prog.as_mut() {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&u64::MAX.to_le_bytes(), 0);
                            let _ = f.flush();
                        }
                        let mut g = acc.lock().unwrap();
                        g.evals += a.evals;
                        g.nontrivial += a.nontrivial;
                        for (l, n) in a.labels {
                            *g.labels.entry(l).or_default() += n;
                        }
                        for (l, n) in a.counts {
                            *g.counts.entry(l).or_default() += n;
                        }
                        g.hashes.extend(a.hashes);
                        g.samples.extend(a.samples);
                        g.fails.extend(a.fails);
                    })
                    .expect("spawn");
            }
        });
        let a = acc.into_inner().unwrap();
        let mut violations = 0;
        let mut exit = 0;
        let mut shrunk_note = Value::Null;
        if let Some((idx, msg)) = a.fails.iter().next() {
            violations = 1;
            exit = 1;
            if let Some(p) = &out.progress {
                // should shrinking crash or hang, the parent reports the case as it was found
                let case = self.case_json(tier, seed, *idx);
                let doc = json!({"property": self.id, "seed": seed, "index": idx, "message": msg, "case": case});
                let _ = std::fs::write(p.join("found.tmp"), doc.to_string());
                let _ = std::fs::rename(p.join("found.tmp"), p.join("found.json"));
            }
            let (case, m, runs) = self.shrink(tier, seed, *idx, msg.clone());
            let dir = out.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-s{}-i{}.json", self.id, seed, idx));
            let doc = json!({"property": self.id, "seed": seed, "index": idx, "message": m,
                "unshrunk_message": msg, "shrink_runs": runs, "case": case});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            println!("failure: {m}");
            println!("VIOLATION property={} replay={}", self.id, path.display());
            shrunk_note = json!({"index": idx, "message": m, "replay": path.display().to_string()});
        }
        let samples: Vec<Value> = a.samples.into_iter().take(3).map(|(i, c)| json!({"index": i, "case": c})).collect();
        let class: BTreeMap<_, _> = a.labels.iter().collect();
        let ev = json!({
            "property": self.id,
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed,
            "level": self.level,
            "coverage": {
                "evaluations": a.evals,
                "distinct_nontrivial": a.hashes.len(),
                "nontrivial": a.nontrivial,
                "rule": self.rule,
                "samples": samples,
                "classes": class,
                "measured": a.counts,
                "planned_cases": total,
                "known_findings_listed": known_listed,
                "known_findings_reproduced": known_hit,
                "failure": shrunk_note,
            },
            "assumptions": self.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let evd = out.verif.join("evidence");
        let _ = std::fs::create_dir_all(&evd);
        let p = evd.join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        println!(
            "{}: {} cases, {} non-trivial ({} distinct), {} violation(s), {:.1}s",
            self.id, a.evals, a.nontrivial, a.hashes.len(), violations, t0.elapsed().as_secs_f64()
        );
        if std::env::var("VH_VERBOSE").is_ok() {
            println!("  classes: {}", serde_json::to_string(&class).unwrap());
            println!("  measured: {}", serde_json::to_string(&a.counts).unwrap());
        }
        exit
    }
}

pub fn known_findings(verif: &std::path::Path, id: &str) -> Vec<Value> {
    let p = verif.join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(_) => return vec![],
    };
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k["property"] == id)
        .collect()
}
