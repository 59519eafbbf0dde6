//! Choice-sequence property-testing engine.
//!
//! A case is a deterministic function of a sequence of bounded integer choices. Random
//! search draws the choices from a seeded generator; shrinking edits the recorded
//! sequence (delete, zero, lower) and re-runs the same function; a replay file stores
//! the sequence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

// ---------------------------------------------------------------- random source

#[allow(dead_code)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// Source of choices for one case.
pub struct Src {
    replay: Vec<u64>,
    rng: Option<Rng>,
    pub record: Vec<u64>,
    /// Ranges of choices that made one list element (with its continuation choice).
    pub spans: Vec<(usize, usize)>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: vec![], rng: Some(Rng::new(seed)), record: vec![], spans: vec![], pos: 0 }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { replay: choices, rng: None, record: vec![], spans: vec![], pos: 0 }
    }
    /// A value in `0..bound`; 0 is the simplest one.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let v = match &mut self.rng {
            Some(rng) => {
                if bound == u64::MAX {
                    rng.next()
                } else {
                    rng.next() % bound
                }
            }
            None => self.replay.get(self.pos).copied().unwrap_or(0).min(bound - 1),
        };
        self.pos += 1;
        self.record.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo) as u64 + 1) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64 + 1) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.chance(num, den) {
            Some(f(self))
        } else {
            None
        }
    }
    /// List of `min..=max` elements, element-wise continuation so that deletion shrinks well.
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        // choose an expected size class so that both short and long lists occur
        let avg = (min + 1 + self.idx(max - min + 1)) as u64;
        let mut out = vec![];
        while out.len() < max {
            let start = self.pos;
            if out.len() >= min && !self.chance(avg, avg + 1) {
                break;
            }
            out.push(f(self));
            self.spans.push((start, self.pos));
        }
        out
    }
    pub fn string(&mut self, min: usize, max: usize, alphabet: &[char]) -> String {
        self.vec(min, max, |s| *s.pick(alphabet)).into_iter().collect()
    }
    pub fn word(&mut self, min: usize, max: usize, alphabet: &str) -> String {
        let a: Vec<char> = alphabet.chars().collect();
        self.string(min, max, &a)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 keeps the element in place
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// Identifies a recorded known finding; `None` for anything else.
    pub sig: Option<String>,
}
impl Fail {
    pub fn sig(sig: &str, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: Some(sig.to_string()) }
    }
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), sig: None }
    }
}
pub type Res = Result<(), Fail>;

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Rendered input: used for the distinctness hash, samples and replay files.
    pub input: String,
    /// Scratch directory of this worker thread (exists, private, emptied per use by the case).
    pub scratch: PathBuf,
}
impl Case {
    pub fn label(&mut self, l: impl Into<String>) {
        let l = l.into();
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::engine::Fail::from(format!($($arg)*))); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::engine::Fail::from(format!(
                "{}\n  got:      {:?}\n  expected: {:?}", format!($($arg)*), a, b)));
        }
    }};
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Known finding probes: (signature, function that returns Some(what fails) while it still fails).
    pub probes: Vec<(&'static str, fn() -> Option<String>)>,
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs code under test, turning a panic into a message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let msg = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
        Fail::from(format!("{what} panicked: {msg}"))
    })
}

fn run_case(f: CaseFn, src: &mut Src, scratch: &PathBuf) -> (Case, Res) {
    let mut case = Case { scratch: scratch.clone(), ..Default::default() };
    let res = catch_unwind(AssertUnwindSafe(|| f(src, &mut case)));
    let res = res.unwrap_or_else(|_| {
        let msg = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
        Err(Fail::from(format!("panicked: {msg}")))
    });
    (case, res)
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- shrinking

fn shrink(
    f: CaseFn,
    start: Vec<u64>,
    fail: Fail,
    scratch: &PathBuf,
    known: &HashSet<String>,
) -> (Vec<u64>, Case, Fail) {
    let deadline = Instant::now() + Duration::from_secs(45);
    let mut best = start;
    let mut best_fail = fail;
    let spans = RefCell::new(vec![]);
    {
        let mut src = Src::replay(best.clone());
        let _ = run_case(f, &mut src, scratch);
        *spans.borrow_mut() = src.spans;
    }
    let orig_sig = best_fail.sig.clone();
    let mut attempts = 0u32;
    let mut try_seq = |cand: &[u64], best: &mut Vec<u64>, best_fail: &mut Fail| -> bool {
        attempts += 1;
        if attempts > 20_000 || Instant::now() > deadline {
            return false;
        }
        let mut src = Src::replay(cand.to_vec());
        let (_case, res) = run_case(f, &mut src, scratch);
        if let Err(fl) = res {
            let is_known = fl.sig.as_ref().is_some_and(|s| known.contains(s));
            if is_known || fl.sig != orig_sig {
                return false;
            }
            let mut rec = src.record;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
            if better {
                *spans.borrow_mut() = src.spans;
                *best = rec;
                *best_fail = fl;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete list elements, the longest first
        loop {
            let mut sp = spans.borrow().clone();
            sp.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
            sp.dedup();
            let mut progress = false;
            for (a, b) in sp {
                if b > best.len() || a >= b {
                    continue;
                }
                let mut cand = best.clone();
                cand.drain(a..b);
                if try_seq(&cand, &mut best, &mut best_fail) {
                    progress = true;
                    break;
                }
            }
            if !progress || Instant::now() > deadline {
                break;
            }
        }
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !try_seq(&cand, &mut best, &mut best_fail) {
                    i += if size > 8 { size / 2 } else { 1 };
                }
            }
            if size == 1 {
                break;
            }
            size = if size > 8 { size / 2 } else { size - 1 };
        }
        // zero and lower single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !try_seq(&cand, &mut best, &mut best_fail) {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    let mut guard = 0;
                    while lo + 1 < hi && guard < 64 {
                        guard += 1;
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() {
                            break;
                        }
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if try_seq(&cand, &mut best, &mut best_fail) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    // a length-like choice: lower it and drop one following choice
                    if i < best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        if i + 1 < cand.len() {
                            cand.remove(i + 1);
                            try_seq(&cand, &mut best, &mut best_fail);
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || Instant::now() > deadline {
            break;
        }
    }
    let mut src = Src::replay(best.clone());
    let (case, res) = run_case(f, &mut src, scratch);
    match res {
        Err(fl) => (best, case, fl),
        // not deterministic: report the recorded failure all the same
        Ok(()) => (best, case, best_fail),
    }
}

// ---------------------------------------------------------------- known findings

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Signatures listed as known (unrepaired) findings of a property: lines
/// `known: property=<id> signature=<signature> <what fails>` of known_findings.txt.
/// Lines starting with `fixed:` suppress nothing.
pub fn known_findings(id: &str) -> HashSet<String> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(" signature="))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, rest)| rest.split_whitespace().next().map(ToString::to_string))
        .collect()
}

// ---------------------------------------------------------------- the runner

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    known: BTreeMap<String, u64>,
    failures: Vec<(u64, Vec<u64>, Fail, String)>,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    hash_of(&(seed, prop, sub, i))
}

fn truncate(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("…[truncated]");
        t
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var("VP_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| {
            std::env::temp_dir().join(format!("vp-check-{}", std::process::id()))
        });
        std::fs::create_dir_all(&base).expect("scratch");
        Scratch(base)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        // only ever a directory this process made
        std::fs::remove_dir_all(&self.0).ok();
    }
}

pub fn write_replay(id: &str, sub: &str, v: &Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{id}-{sub}-{:016x}.json", hash_of(&v.to_string())));
    std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).ok();
    path
}

const HANG_SECS: u64 = 120;

pub fn run_prop(prop: &Prop, tier: &str, seed: u64, journal: Option<PathBuf>) -> i32 {
    let start = Instant::now();
    let known = known_findings(prop.id);
    let scratch = Scratch::new();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let mut all: Vec<(&Sub, SubStats)> = vec![];
    let mut violations = 0;
    let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VP_SUB").ok();

    // (sub index + 1, case index, start) of what each thread is doing
    let current: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> = Arc::new(
        (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect(),
    );
    let finished = Arc::new(AtomicBool::new(false));
    {
        let current = current.clone();
        let finished = finished.clone();
        let id = prop.id.to_string();
        let names: Vec<&'static str> = prop.subs.iter().map(|s| s.name).collect();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            if finished.load(Ordering::SeqCst) {
                return;
            }
            let now = start.elapsed().as_secs();
            for t in current.iter() {
                let s = t.0.load(Ordering::SeqCst);
                if s > 0 && now.saturating_sub(t.2.load(Ordering::SeqCst)) > HANG_SECS {
                    let sub = names[s as usize - 1];
                    let i = t.1.load(Ordering::SeqCst);
                    let v = json!({"property": id, "sub": sub,
                        "seed": case_seed(seed, &id, sub, i),
                        "message": format!("no result after {HANG_SECS} s")});
                    let p = write_replay(&id, sub, &v);
                    println!("VIOLATION property={id} replay={}", p.display());
                    std::process::exit(1);
                }
            }
        });
    }

    for (si, sub) in prop.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let total = if tier == "thorough" { sub.thorough } else { sub.quick };
        let total = ((total as f64) * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(SubStats::default());
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let stop = &stop;
                let stats = &stats;
                let known = &known;
                let current = &current;
                let journal = journal.as_ref();
                let dir = scratch.0.join(format!("t{t}"));
                std::fs::create_dir_all(&dir).expect("scratch");
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        use std::os::unix::fs::FileExt as _;
                        let jf = journal.map(|p| {
                            std::fs::OpenOptions::new().write(true).open(p).expect("journal")
                        });
                        let mut local = SubStats::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            current[t].1.store(i, Ordering::SeqCst);
                            current[t].2.store(start.elapsed().as_secs(), Ordering::SeqCst);
                            current[t].0.store(si as u64 + 1, Ordering::SeqCst);
                            if let Some(jf) = &jf {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                jf.write_all_at(&b, t as u64 * 16).ok();
                            }
                            let mut src = Src::random(case_seed(seed, prop.id, sub.name, i));
                            let (case, res) = run_case(sub.f, &mut src, &dir);
                            current[t].0.store(0, Ordering::SeqCst);
                            local.evaluations += 1;
                            for l in &case.labels {
                                *local.labels.entry(l.clone()).or_default() += 1;
                            }
                            if case.nontrivial {
                                local.nontrivial += 1;
                                local.distinct.insert(hash_of(&case.input));
                                if local.samples.len() < 2 {
                                    local.samples.push((
                                        i,
                                        json!({"sub": sub.name, "case": i, "labels": case.labels,
                                               "input": truncate(&case.input, 1200)}),
                                    ));
                                }
                            }
                            if let Err(fl) = res {
                                match &fl.sig {
                                    Some(s) if known.contains(s) => {
                                        *local.known.entry(s.clone()).or_default() += 1;
                                    }
                                    _ => {
                                        local.failures.push((i, src.record, fl, case.input));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                        }
                        if let Some(jf) = &jf {
                            jf.write_all_at(&[0u8; 16], t as u64 * 16).ok();
                        }
                        let mut st = stats.lock().unwrap();
                        st.evaluations += local.evaluations;
                        st.nontrivial += local.nontrivial;
                        st.distinct.extend(local.distinct);
                        for (l, n) in local.labels {
                            *st.labels.entry(l).or_default() += n;
                        }
                        for (l, n) in local.known {
                            *st.known.entry(l).or_default() += n;
                        }
                        st.samples.extend(local.samples);
                        st.failures.extend(local.failures);
                    })
                    .expect("thread");
            }
        });
        let mut stats = stats.into_inner().unwrap();
        stats.samples.sort_by_key(|(i, _)| *i);
        stats.samples.truncate(2);
        stats.failures.sort_by_key(|(i, ..)| *i);
        if let Some((i, record, fail, _)) = stats.failures.first().cloned() {
            violations += 1;
            let dir = scratch.0.join("shrink");
            std::fs::create_dir_all(&dir).ok();
            let f = sub.f;
            let known = &known;
            let (choices, case, fail) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || shrink(f, record, fail, &dir, known))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let v = json!({"property": prop.id, "sub": sub.name, "case": i, "verif_seed": seed,
                "choices": choices, "message": fail.msg, "input": case.input});
            let p = write_replay(prop.id, sub.name, &v);
            println!("--- {} / {} (case {i}), shrunk to {} choices", prop.id, sub.name, choices.len());
            println!("{}", truncate(&case.input, 3000));
            println!("{}", truncate(&fail.msg, 3000));
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            std::io::stdout().flush().ok();
        }
        all.push((sub, stats));
    }
    finished.store(true, Ordering::SeqCst);

    // known findings: each listed one is demonstrated with its own pinned input
    for (sig, probe) in &prop.probes {
        if known.contains(*sig) {
            if let Ok(Some(what)) = catch_unwind(AssertUnwindSafe(probe)) {
                println!("KNOWN-FINDING: property={} {} ({})", prop.id, what, sig);
            }
        }
    }

    let evaluations: u64 = all.iter().map(|(_, s)| s.evaluations).sum();
    let distinct: u64 = all.iter().map(|(_, s)| s.distinct.len() as u64).sum();
    let samples: Vec<Value> =
        all.iter().flat_map(|(_, s)| s.samples.iter().map(|(_, v)| v.clone())).collect();
    let per_sub: BTreeMap<&str, Value> = all
        .iter()
        .map(|(sub, s)| {
            (sub.name, json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial,
                "distinct_nontrivial": s.distinct.len(), "labels": s.labels,
                "known_finding_hits": s.known}))
        })
        .collect();
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": prop.rule, "samples": samples, "per_sub": per_sub,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).ok();
    std::fs::write(
        evdir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
        prop.id,
        evaluations,
        distinct,
        violations,
        start.elapsed().as_secs_f64()
    );
    if std::env::var("VP_VERBOSE").is_ok() {
        for (sub, s) in &all {
            println!("  {}: {} / nontrivial {} / {:?}", sub.name, s.evaluations, s.nontrivial, s.labels);
        }
    }
    i32::from(violations > 0)
}

/// Runs one case, from a seed or a stored choice sequence.
pub fn run_single(prop: &Prop, sub: &str, choices: Option<Vec<u64>>, seed: Option<u64>) -> i32 {
    let scratch = Scratch::new();
    let Some(sub) = prop.subs.iter().find(|s| s.name == sub) else {
        println!("no such sub-check {sub}");
        return 2;
    };
    let f = sub.f;
    let dir = scratch.0.clone();
    let (case, res) = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let mut src = match choices {
                Some(c) => Src::replay(c),
                None => Src::random(seed.unwrap_or(0)),
            };
            run_case(f, &mut src, &dir)
        })
        .unwrap()
        .join()
        .unwrap();
    println!("{}", case.input);
    match res {
        Ok(()) => {
            println!("held");
            0
        }
        Err(f) => {
            println!("FAILED: {}", f.msg);
            1
        }
    }
}
