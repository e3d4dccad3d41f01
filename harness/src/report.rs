//! Case runner, panic capture, watchdog, evidence and replay files.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub const MAX_THREADS: usize = 64;
/// wall-clock ms (since start) at which the current library call of a worker began, 0 = none
static CALL_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CASE_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CALL_CASE: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CALL_OOM: [AtomicBool; MAX_THREADS] = [const { AtomicBool::new(false) }; MAX_THREADS];

pub struct Counting;
const LIMIT: i64 = 3 << 30;
// The allocator observes how much memory one library call keeps alive, so that an unbounded loop
// that grows is reported as such instead of exhausting the machine.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if IN_LIB.try_with(|c| c.get()).unwrap_or(0) > 0 {
            let v = LIVE.with(|c| {
                c.set(c.get() + l.size() as i64);
                c.get()
            });
            if v > LIMIT {
                let s = SLOT.with(|c| c.get());
                if s < MAX_THREADS {
                    CALL_OOM[s].store(true, Ordering::SeqCst);
                    loop {
                        std::thread::sleep(Duration::from_secs(1));
                    }
                }
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if IN_LIB.try_with(|c| c.get()).unwrap_or(0) > 0 {
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
        }
        std::alloc::System.dealloc(p, l)
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Run library code. Err(message) if it panicked.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| s.get());
    let outer = IN_LIB.with(|c| {
        c.set(c.get() + 1);
        c.get()
    }) == 1;
    if outer {
        LIVE.with(|c| c.set(0));
        if slot < MAX_THREADS {
            CALL_START[slot].store(now_ms(), Ordering::Relaxed);
        }
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    if outer && slot < MAX_THREADS {
        CALL_START[slot].store(0, Ordering::Relaxed);
    }
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// one line
    pub what: String,
    /// how it came about (trace of operations, bytes)
    pub trace: Vec<String>,
    /// stable class used to match known findings
    pub class: String,
}

impl Viol {
    pub fn new(class: &str, what: String) -> Viol {
        Viol { what, trace: vec![], class: class.into() }
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub cases: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn nontrivial<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, max: usize, f: impl FnOnce() -> String) {
        if self.samples.len() < max {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.cases += o.cases;
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub budget: Duration,
    pub start: Instant,
    pub stats: Stats,
    pub viols: Vec<(String, u64, Viol)>,
    pub known: Vec<(String, String)>, // (class, text)
    pub known_hits: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
    pub only: Option<(String, u64)>,
    pub out: String,
    pub variant: String,
    pub truncated: bool,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        let base = if self.thorough() { thorough } else { quick };
        match std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((base as f64 * f) as u64).max(1),
            None => base,
        }
    }

    /// Run `n` cases of part `part`; each gets an independent deterministic Rng.
    pub fn cases<F>(&mut self, part: &str, n: u64, f: F)
    where
        F: Fn(&mut crate::prng::Rng, u64, &mut Stats) -> Result<(), Viol> + Sync,
    {
        if !self.viols.is_empty() {
            return;
        }
        let range = match &self.only {
            Some((p, i)) => {
                if p != part {
                    return;
                }
                *i..*i + 1
            }
            None => 0..n,
        };
        let tag = part.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
        let next = AtomicU64::new(range.start);
        let end = range.end;
        let stop = AtomicBool::new(false);
        let viols: Mutex<Vec<(u64, Viol)>> = Mutex::new(vec![]);
        let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
        let all: Mutex<Stats> = Mutex::new(Stats::default());
        let knownhits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let deadline = self.start + self.budget;
        let trunc = AtomicBool::new(false);
        let live = AtomicUsize::new(0);
        let seed = self.seed;
        let known = &self.known;
        let id = self.id.clone();
        let hang: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let threads = if end - range.start == 1 { 1 } else { self.threads };
        // make a hang reportable: a watchdog thread ends the process with the verdict
        let out_dir = self.out.clone();
        let variant = self.variant.clone();
        let tier = self.tier.clone();
        std::thread::scope(|s| {
            for t in 0..threads {
                live.fetch_add(1, Ordering::SeqCst);
                let (next, stop, viols, errs, all, trunc, live, knownhits) =
                    (&next, &stop, &viols, &errs, &all, &trunc, &live, &knownhits);
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|c| c.set(t));
                        let mut st = Stats::default();
                        while !stop.load(Ordering::Relaxed) {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= end {
                                break;
                            }
                            if Instant::now() > deadline {
                                trunc.store(true, Ordering::Relaxed);
                                break;
                            }
                            CALL_CASE[t].store(i, Ordering::Relaxed);
                            CASE_START[t].store(now_ms(), Ordering::Relaxed);
                            let mut rng = crate::prng::Rng::derive(seed, tag, i);
                            st.cases += 1;
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, i, &mut st)));
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => {
                                    if let Some((_c, _)) = known.iter().find(|(c, _)| *c == v.class) {
                                        *knownhits.lock().unwrap().entry(v.class.clone()).or_insert(0) += 1;
                                    } else {
                                        viols.lock().unwrap().push((i, v));
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    if m.starts_with("panic at ") && m.contains("/src/mqtt/") {
                                        // the library itself, in a call that is not expected to fail
                                        viols.lock().unwrap().push((i, Viol::new("panic", m.clone())));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                    errs.lock().unwrap().push(format!("case {i}: {m}"));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        CASE_START[t].store(0, Ordering::Relaxed);
                        all.lock().unwrap().merge(st);
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let live = &live;
            let hang = &hang;
            s.spawn(move || {
                while live.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = now_ms();
                    for t in 0..threads {
                        let st = CALL_START[t].load(Ordering::Relaxed);
                        let oom = CALL_OOM[t].load(Ordering::SeqCst);
                        let cs = CASE_START[t].load(Ordering::Relaxed);
                        if oom
                            || (st != 0 && now.saturating_sub(st) > 120_000)
                            || (cs != 0 && now.saturating_sub(cs) > 240_000)
                        {
                            let i = CALL_CASE[t].load(Ordering::Relaxed);
                            let what = if oom {
                                "a library call kept allocating (more than 3 GiB live): unbounded loop"
                            } else {
                                "no answer: a library call did not return within 120 s, or a case within 240 s"
                            };
                            *hang.lock().unwrap() = Some((i, what.into()));
                            let v = Viol::new("hang", what.into());
                            let path = write_replay(&out_dir, &id, &variant, &tier, seed, part, i, &v);
                            println!("VIOLATION property={id} replay={path}");
                            println!("  {}", v.what);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        self.stats.merge(all.into_inner().unwrap());
        if trunc.load(Ordering::Relaxed) {
            self.truncated = true;
        }
        for (k, n) in knownhits.into_inner().unwrap() {
            *self.known_hits.entry(k).or_insert(0) += n;
        }
        self.harness_errors.extend(errs.into_inner().unwrap());
        let mut vs = viols.into_inner().unwrap();
        vs.sort_by_key(|(i, _)| *i);
        for (i, v) in vs {
            self.viols.push((part.to_string(), i, v));
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
pub fn write_replay(
    dir: &str,
    id: &str,
    variant: &str,
    tier: &str,
    seed: u64,
    part: &str,
    case: u64,
    v: &Viol,
) -> String {
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{id}-{variant}-{part}-{seed}-{case}.json");
    let tr: Vec<String> = v.trace.iter().map(|s| format!("    {}", esc(s))).collect();
    let s = format!(
        "{{\n  \"property\": {},\n  \"variant\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"part\": {},\n  \"case\": {case},\n  \"class\": {},\n  \"what\": {},\n  \"how_to_replay\": {},\n  \"trace\": [\n{}\n  ]\n}}\n",
        esc(id), esc(variant), esc(tier), esc(part), esc(&v.class), esc(&v.what),
        esc(&format!("cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} ./check.sh {id} --variant {variant} --part {part} --case {case}")),
        tr.join(",\n")
    );
    let _ = std::fs::write(&path, s);
    path
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(400);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if n < b.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
