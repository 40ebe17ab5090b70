//! Stages, tallies, seeding, shrinking, crash isolation.
use crate::guided::{Places, Pool};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static mut PANIC_FD: i32 = -1;

thread_local! {
    /// Whether a panic is the checked code's and is going to be caught.
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panicked: {msg} ({loc})");
        let fd = unsafe { PANIC_FD };
        if fd >= 0 {
            let line = format!("P{text}\n");
            unsafe { libc::write(fd, line.as_ptr() as *const _, line.len()) };
        }
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness: {text}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn guarded(f: impl FnOnce() -> Check) -> Check {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())),
    }
}

/// What a check tells the engine about one case.
#[derive(Default)]
pub struct Tally {
    nontrivial: bool,
    classes: Vec<(&'static str, u64)>,
}
impl Tally {
    #[inline]
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        self.count(c, 1)
    }
    #[inline]
    pub fn count(&mut self, c: &'static str, n: u64) {
        if n == 0 {
            return;
        }
        for e in &mut self.classes {
            if std::ptr::eq(e.0, c) {
                e.1 += n;
                return;
            }
        }
        self.classes.push((c, n));
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct StageReport {
    pub stage: String,
    pub rule: String,
    pub kind: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    /// Number of distinct non-trivial cases in this worker when not given as hashes.
    pub distinct: u64,
    #[serde(skip)]
    pub hashes: Vec<u64>,
    pub exhaustive: bool,
    pub classes: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub property: String,
    pub stage: String,
    pub variant: String,
    pub input: serde_json::Value,
    pub message: String,
    #[serde(default)]
    pub shrunk: bool,
}

#[repr(C)]
pub struct Progress {
    pub stage: u64,
    pub case: u64,
    pub beat: u64,
}

#[derive(Clone, Debug)]
pub enum Mode {
    Run,
    /// Stage index and case index from which every case runs in a child process.
    Isolate(u64, u64),
    Replay { stage: String, input: serde_json::Value },
}

pub struct Ctx {
    pub property: String,
    pub mode: Mode,
    pub variant: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    /// Scale applied to random case counts (used by the `chk` variant).
    pub divisor: u64,
    /// Workers of both variants.
    pub jobs: u64,
    /// Multiplies the number of cases of the random stages of the quick tier.
    pub scale: f64,
    pub reports: Vec<StageReport>,
    pub failure: Option<Failure>,
    pub replayed: bool,
    pub progress: *mut Progress,
    stage_no: u64,
    pub deadline: Option<Instant>,
    /// A directory of this worker's own.
    pub scratch: String,
    /// Where drivers and libraries built by check.py are.
    pub tools: String,
    /// Coverage-guided search instead of everything else.
    pub guided: bool,
    /// Where the current case of a guided search is kept.
    pub current: String,
}

struct FxLike(u64);
impl Hasher for FxLike {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = FxLike(0x9e3779b97f4a7c15);
    t.hash(&mut h);
    h.finish()
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// CPU seconds after which an isolated case counts as not returning.
const HANG_CPU_S: i64 = 40;

impl Ctx {
    pub fn new(property: &str, mode: Mode, variant: &'static str, seed: u64, thorough: bool, shard: u64, nshards: u64) -> Ctx {
        Ctx {
            property: property.into(),
            mode,
            variant,
            seed,
            thorough,
            shard,
            nshards,
            divisor: 1,
            jobs: 1,
            scale: 1.0,
            reports: vec![],
            failure: None,
            replayed: false,
            progress: std::ptr::null_mut(),
            stage_no: 0,
            deadline: None,
            scratch: "/tmp".into(),
            tools: String::new(),
            guided: false,
            current: String::new(),
        }
    }

    fn beat(&self, case: u64) {
        if !self.progress.is_null() {
            unsafe {
                std::ptr::write_volatile(&mut (*self.progress).stage, self.stage_no);
                std::ptr::write_volatile(&mut (*self.progress).case, case);
                let b = std::ptr::read_volatile(&(*self.progress).beat);
                std::ptr::write_volatile(&mut (*self.progress).beat, b + 1);
            }
        }
    }

    /// Some(first case) when the stage is to run; in replay mode runs the case itself.
    fn enter<V: DeserializeOwned>(&mut self, stage: &str, check: &dyn Fn(&V, &mut Tally) -> Check) -> Option<(u64, bool)> {
        self.stage_no += 1;
        if self.failure.is_some() {
            return None;
        }
        match self.mode.clone() {
            Mode::Run => Some((0, false)),
            Mode::Isolate(s, c) => {
                if self.stage_no < s {
                    None
                } else if self.stage_no == s {
                    Some((c, true))
                } else {
                    None
                }
            }
            Mode::Replay { stage: s, input } => {
                if s == stage {
                    self.replayed = true;
                    match serde_json::from_value::<V>(input.clone()) {
                        Ok(v) => {
                            let mut t = Tally::default();
                            if let Err(m) = guarded(|| check(&v, &mut t)) {
                                self.failure = Some(Failure { property: self.property.clone(), stage: stage.into(), variant: self.variant.into(), input, message: m, shrunk: true });
                            }
                        }
                        Err(e) => {
                            eprintln!("replay input does not parse: {e}");
                            std::process::exit(2);
                        }
                    }
                }
                None
            }
        }
    }

    fn run_case<V>(&self, isolated: bool, v: &V, check: &dyn Fn(&V, &mut Tally) -> Check, t: &mut Tally) -> Check {
        if isolated {
            isolate(|| guarded(|| check(v, &mut Tally::default())))
        } else {
            guarded(|| check(v, t))
        }
    }

    /// A complete (or, for `stride > 1`, thinned) enumeration of an indexed domain.
    /// `thin` is the stride in the `chk` variant.
    pub fn enumerate<V>(&mut self, stage: &str, rule: &str, total: u64, thin: u64, make: impl Fn(u64) -> V, check: impl Fn(&V, &mut Tally) -> Check)
    where
        V: Serialize + DeserializeOwned + Debug,
    {
        let Some((first, isolated)) = self.enter::<V>(stage, &check) else { return };
        if self.guided {
            return;
        }
        let mut r = StageReport { stage: stage.into(), rule: rule.into(), kind: "enumeration".into(), exhaustive: self.variant == "release", ..Default::default() };
        let stride = if self.variant == "release" { 1 } else { thin.max(1) };
        let mut t = Tally::default();
        let n = total.div_ceil(stride);
        // Contiguous blocks dealt to the shards in turn.
        let block = (n / (4 * self.nshards)).clamp(1, 64);
        let mut b = self.shard * block;
        // the offset within the stride depends on the seed, so that thinning is not always the same
        let off = if stride > 1 { mix(self.seed ^ hash_of(stage)) % stride } else { 0 };
        'outer: while b < n {
            for j in b..(b + block).min(n) {
                if j < first {
                    continue;
                }
                let idx = j * stride + off;
                if idx >= total {
                    break 'outer;
                }
                let v = make(idx);
                self.beat(j);
                if j % 64 == 0 {
                    if let Some(d) = self.deadline {
                        if Instant::now() > d {
                            r.exhaustive = false;
                            break 'outer;
                        }
                    }
                }
                t.nontrivial = false;
                let res = self.run_case(isolated, &v, &check, &mut t);
                r.evaluations += 1;
                if t.nontrivial {
                    r.nontrivial += 1;
                    if self.variant == "release" {
                        r.distinct += 1;
                    }
                    if r.samples.len() < 2 && mix(idx) % 7 == 0 {
                        r.samples.push(serde_json::to_value(&v).unwrap_or_default());
                    }
                }
                if let Err(m) = res {
                    self.failure = Some(Failure { property: self.property.clone(), stage: stage.into(), variant: self.variant.into(), input: serde_json::to_value(&v).unwrap_or_default(), message: m, shrunk: true });
                    break 'outer;
                }
                if isolated && j > first + 4096 {
                    break 'outer;
                }
            }
            b += block * self.nshards;
        }
        for (c, n) in std::mem::take(&mut t.classes) {
            *r.classes.entry(c.to_string()).or_default() += n;
        }
        self.reports.push(r);
    }

    /// Random search: `quick` / `thorough` cases in total over the shards of this variant.
    pub fn explore<S, V>(&mut self, stage: &str, rule: &str, quick: u64, thorough: u64, strat: impl FnOnce() -> S, check: impl Fn(&V, &mut Tally) -> Check)
    where
        S: Strategy<Value = V>,
        V: Serialize + DeserializeOwned + Hash + Debug + Clone,
    {
        let Some((first, isolated)) = self.enter::<V>(stage, &check) else { return };
        if self.guided {
            return self.guide(stage, rule, quick, thorough, &strat(), &check, isolated);
        }
        let total = (if self.thorough { thorough } else { (quick as f64 * self.scale) as u64 }) / self.divisor;
        let n = total.div_ceil(self.nshards).max(1);
        let strat = strat();
        let mut r = StageReport { stage: stage.into(), rule: rule.into(), kind: "random".into(), ..Default::default() };
        let mut seen: HashSet<u64, std::hash::BuildHasherDefault<Ident>> = HashSet::default();
        let mut t = Tally::default();
        let salt = hash_of(stage) ^ hash_of(&self.property) ^ mix(self.shard) ^ hash_of(self.variant);
        for i in first..n {
            if i % 64 == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        break;
                    }
                }
            }
            let Some(mut tree) = self.tree(&strat, salt, i) else { continue };
            let v = tree.current();
            self.beat(i);
            t.nontrivial = false;
            let res = self.run_case(isolated, &v, &check, &mut t);
            r.evaluations += 1;
            if t.nontrivial {
                r.nontrivial += 1;
                if seen.len() < 4_000_000 && seen.insert(hash_of(&v)) && r.samples.len() < 1 && i % 5 == 3 {
                    r.samples.push(serde_json::to_value(&v).unwrap_or_default());
                }
            }
            if let Err(m) = res {
                // shrink
                let mut best = (v, m);
                let started = Instant::now();
                let mut iters = 0;
                let mut scratch = Tally::default();
                if tree.simplify() {
                    loop {
                        let v = tree.current();
                        self.beat(i);
                        let more = match self.run_case(isolated, &v, &check, &mut scratch) {
                            Err(m) if m.starts_with("harness:") && !best.1.starts_with("harness:") => tree.complicate(),
                            Err(m) => {
                                best = (v, m);
                                tree.simplify()
                            }
                            Ok(()) => tree.complicate(),
                        };
                        iters += 1;
                        if !more || iters > 20_000 || started.elapsed() > Duration::from_secs(20) {
                            break;
                        }
                    }
                }
                self.failure = Some(Failure { property: self.property.clone(), stage: stage.into(), variant: self.variant.into(), input: serde_json::to_value(&best.0).unwrap_or_default(), message: best.1, shrunk: true });
                break;
            }
            if isolated && i > first + 4096 {
                break;
            }
        }
        for (c, n) in std::mem::take(&mut t.classes) {
            *r.classes.entry(c.to_string()).or_default() += n;
        }
        r.hashes = seen.into_iter().collect();
        self.reports.push(r);
    }
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    fn guide<S, V>(&mut self, stage: &str, rule: &str, quick: u64, thorough: u64, strat: &S, check: &dyn Fn(&V, &mut Tally) -> Check, isolated: bool)
    where
        S: Strategy<Value = V>,
        V: Serialize + DeserializeOwned + Hash + Debug + Clone,
    {
        let salt = hash_of(stage) ^ hash_of(&self.property) ^ mix(self.shard) ^ hash_of("guided");
        let mut places = Places::new(self.seed ^ salt);
        let mut r = StageReport { stage: format!("{stage} (coverage-guided)"), rule: rule.into(), kind: "coverage-guided".into(), ..Default::default() };
        let fresh = |me: &Ctx, i: u64| me.tree(strat, salt, i).and_then(|t| serde_json::to_value(t.current()).ok());
        for i in 0..400 {
            if let Some(v) = fresh(self, i) {
                places.learn(&v);
            }
        }
        let fail = |me: &Ctx, places: &Places, v: serde_json::Value, m: String, isolated: bool| {
            let (v, m) = places.shrink(v, m, &mut |w| {
                me.beat(0);
                match serde_json::from_value::<V>(w.clone()) {
                    Ok(x) => me.run_case(isolated, &x, check, &mut Tally::default()),
                    Err(_) => Ok(()),
                }
            });
            Failure { property: me.property.clone(), stage: stage.into(), variant: me.variant.into(), input: v, message: m, shrunk: true }
        };
        if isolated {
            // the case that was running when the process died
            if let Some(v) = std::fs::read_to_string(&self.current).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(s.trim_end_matches('\0')).ok()) {
                if let Ok(x) = serde_json::from_value::<V>(v.clone()) {
                    if let Err(m) = self.run_case(true, &x, check, &mut Tally::default()) {
                        self.failure = Some(fail(self, &places, v, m, true));
                    }
                }
            }
            return;
        }
        let total = if self.thorough { thorough / 4 } else { (quick as f64 * self.scale / 4.0) as u64 };
        let n = total.div_ceil(self.nshards).max(1);
        let mut seen: HashSet<u64, std::hash::BuildHasherDefault<Ident>> = HashSet::default();
        let mut pool = Pool::default();
        let mut t = Tally::default();
        let mut compared: Vec<(u64, u64)> = vec![];
        let mut keep = map_file(&self.current);
        let began = guide::reached().0;
        // one stage must not use up the others' time
        let end = Instant::now() + Duration::from_secs(if self.thorough { 900 } else { 12 });
        for i in 0..n {
            if i % 64 == 0 && (Instant::now() > end || self.deadline.is_some_and(|d| Instant::now() > d)) {
                break;
            }
            let v = match pool.pick(&mut places.rng) {
                Some(mut v) if !places.rng.chance(1, 6) => {
                    for _ in 0..1 << places.rng.below(4) {
                        places.mutate(&mut v, &compared);
                    }
                    v
                }
                _ => {
                    let Some(v) = fresh(self, 400 + i) else { continue };
                    places.learn(&v);
                    v
                }
            };
            let Ok(x) = serde_json::from_value::<V>(v.clone()) else {
                *r.classes.entry("mutated into something else".into()).or_default() += 1;
                continue;
            };
            keep.put(&v);
            self.beat(i);
            t.nontrivial = false;
            let (res, new) = guide::observe(|| self.run_case(false, &x, check, &mut t));
            r.evaluations += 1;
            if t.nontrivial {
                r.nontrivial += 1;
                if seen.len() < 4_000_000 && seen.insert(hash_of(&x)) && r.samples.is_empty() && new > 0 && i > n / 2 {
                    r.samples.push(v.clone());
                }
            }
            if let Err(m) = res {
                self.failure = Some(fail(self, &places, v, m, false));
                break;
            }
            compared.clear();
            compared.extend_from_slice(guide::compared());
            if new > 0 {
                pool.add(v);
            }
        }
        r.classes.insert("cases that reached something new, over workers".into(), pool.added);
        r.classes.insert("branches reached first in this stage, over workers".into(), guide::reached().0 - began);
        r.hashes = seen.into_iter().collect();
        self.reports.push(r);
    }

    fn tree<S: Strategy>(&self, strat: &S, salt: u64, i: u64) -> Option<S::Tree> {
        let s = mix(mix(self.seed ^ salt).wrapping_add(i));
        let mut seed = [0u8; 32];
        for (k, c) in seed.chunks_mut(8).enumerate() {
            c.copy_from_slice(&mix(s.wrapping_add(k as u64)).to_le_bytes());
        }
        let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        strat.new_tree(&mut runner).ok()
    }

    /// As `explore`, for checks that are much cheaper for many cases at once: `check` says which case failed and how.
    /// Only in the release variant.
    pub fn explore_batches<S, V>(&mut self, stage: &str, rule: &str, (quick, thorough, batch): (u64, u64, u64), strat: impl FnOnce() -> S, nontrivial: impl Fn(&V) -> bool, check: impl Fn(&[V], &dyn Fn()) -> Result<(), (usize, String)>)
    where
        S: Strategy<Value = V>,
        V: Serialize + DeserializeOwned + Hash + Debug + Clone,
    {
        let one = |v: &V, _: &mut Tally| check(std::slice::from_ref(v), &|| ()).map_err(|e| e.1);
        let Some((_, isolated)) = self.enter::<V>(stage, &one) else { return };
        if isolated || self.guided {
            return;
        }
        // the work is outside this process: both variants' workers share it
        let n = (if self.thorough { thorough } else { quick }).div_ceil(self.jobs).max(1);
        let strat = strat();
        let mut r = StageReport { stage: stage.into(), rule: rule.into(), kind: "random".into(), ..Default::default() };
        let mut seen: HashSet<u64, std::hash::BuildHasherDefault<Ident>> = HashSet::default();
        let salt = hash_of(stage) ^ hash_of(&self.property) ^ mix(self.shard) ^ hash_of(self.variant);
        let mut i = 0;
        while i < n && self.failure.is_none() {
            if self.deadline.is_some_and(|d| Instant::now() > d) {
                break;
            }
            let trees: Vec<S::Tree> = (i..(i + batch).min(n)).filter_map(|k| self.tree(&strat, salt, k)).collect();
            let vs: Vec<V> = trees.iter().map(|t| t.current()).collect();
            self.beat(i);
            let me: &Ctx = self;
            let res = check(&vs, &|| me.beat(i));
            i += batch;
            for v in &vs {
                r.evaluations += 1;
                if nontrivial(v) {
                    r.nontrivial += 1;
                    if seen.insert(hash_of(v)) && r.samples.is_empty() {
                        r.samples.push(serde_json::to_value(v).unwrap_or_default());
                    }
                }
            }
            if let Err((k, m)) = res {
                if m.starts_with("harness:") {
                    self.failure = Some(Failure { property: self.property.clone(), stage: stage.into(), variant: self.variant.into(), input: serde_json::Value::Null, message: m, shrunk: false });
                    break;
                }
                let mut best = (vs[k].clone(), m);
                let mut shrunk = false;
                let mut tree = trees.into_iter().nth(k).unwrap();
                let started = Instant::now();
                let mut more = one(&best.0, &mut Tally::default()).is_err() && tree.simplify();
                while more && started.elapsed() < Duration::from_secs(60) {
                    let v = tree.current();
                    self.beat(i);
                    shrunk = true;
                    more = match one(&v, &mut Tally::default()) {
                        Err(m) if m.starts_with("harness:") => tree.complicate(),
                        Err(m) => {
                            best = (v, m);
                            tree.simplify()
                        }
                        Ok(()) => tree.complicate(),
                    };
                }
                self.failure = Some(Failure { property: self.property.clone(), stage: stage.into(), variant: self.variant.into(), input: serde_json::to_value(&best.0).unwrap_or_default(), message: best.1, shrunk });
            }
        }
        r.hashes = seen.into_iter().collect();
        self.reports.push(r);
    }
}

/// Keeps the current case where it survives this process.
struct Keep(*mut u8, usize);
const KEEP: usize = 1 << 20;
fn map_file(path: &str) -> Keep {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path) else { return Keep(std::ptr::null_mut(), 0) };
    f.set_len(KEEP as u64).unwrap();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), KEEP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    Keep(if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }, 0)
}
impl Keep {
    fn put(&mut self, v: &serde_json::Value) {
        if self.0.is_null() {
            return;
        }
        let all = unsafe { std::slice::from_raw_parts_mut(self.0, KEEP) };
        let mut w: &mut [u8] = all;
        let n = if serde_json::to_writer(&mut w, v).is_ok() { KEEP - w.len() } else { 0 };
        if self.1 > n {
            all[n..self.1].fill(0);
        }
        self.1 = n;
    }
}
impl Drop for Keep {
    fn drop(&mut self) {
        if !self.0.is_null() {
            unsafe { libc::munmap(self.0 as *mut _, KEEP) };
        }
    }
}

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

/// Runs `f` in a forked child with a CPU-time limit; death by signal becomes an error.
pub fn isolate(f: impl FnOnce() -> Check) -> Check {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("harness: pipe failed".into());
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            PANIC_FD = fds[1];
            let lim = libc::rlimit { rlim_cur: HANG_CPU_S as u64, rlim_max: HANG_CPU_S as u64 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let msg = match f() {
                Ok(()) => "O\n".to_string(),
                Err(m) => format!("E{m}"),
            };
            let mut off = 0;
            while off < msg.len() {
                let n = libc::write(fds[1], msg.as_ptr().add(off) as *const _, msg.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&out).to_string();
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                return Err(format!("did not return within {HANG_CPU_S} s of CPU time"));
            }
            let p = text.lines().find(|l| l.starts_with('P')).map(|l| format!("; {}", &l[1..])).unwrap_or_default();
            return Err(format!("process killed by signal {sig}{p}"));
        }
        // "P..." lines may precede when a panic was caught and handled.
        if let Some(i) = text.find("O\n") {
            if text[..i].is_empty() || text[..i].ends_with('\n') {
                return Ok(());
            }
        }
        for (i, l) in text.lines().enumerate() {
            if let Some(m) = l.strip_prefix('E') {
                let rest: Vec<&str> = text.lines().skip(i + 1).collect();
                return Err(format!("{m}{}{}", if rest.is_empty() { "" } else { "\n" }, rest.join("\n")));
            }
        }
        Err(format!("child ended without an answer: {text}"))
    }
}
