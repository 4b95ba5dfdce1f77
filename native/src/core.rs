//! Case runner: counts, samples, watchdog, memory guard, panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Guard;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TRIPPED: AtomicBool = AtomicBool::new(false);
const LIMIT: usize = 3 << 30;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), Ordering::Relaxed);
        if n + l.size() > LIMIT && !TRIPPED.swap(true, Ordering::SeqCst) {
            report_and_exit("uses more than 3 GB of memory (unbounded growth)");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Guard = Guard;

static CUR: Mutex<String> = Mutex::new(String::new());
static CUR_NO: AtomicU64 = AtomicU64::new(0);
static CUR_START: AtomicU64 = AtomicU64::new(0);
static RESULT: Mutex<String> = Mutex::new(String::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);

fn now_ms() -> u64 {
    let g = T0.lock().unwrap();
    g.unwrap().elapsed().as_millis() as u64
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report_and_exit(why: &str) -> ! {
    let path = RESULT.lock().map(|g| g.clone()).unwrap_or_default();
    let cur = CUR.lock().map(|g| g.clone()).unwrap_or_default();
    let s = format!(
        "{{\"status\":\"fail\",\"case\":{},\"case_no\":{},\"message\":{}}}",
        js(&cur),
        CUR_NO.load(Ordering::Relaxed),
        js(why)
    );
    let _ = std::fs::write(&path, s);
    std::process::exit(1)
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub only: Option<u64>,
    trace: Option<std::fs::File>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rule: Vec<String>,
    deadline: Instant,
    pub exhaustive_note: Vec<String>,
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64, result: &str, only: Option<u64>, trace: Option<String>, budget: u64) -> Self {
        *RESULT.lock().unwrap() = result.to_string();
        *T0.lock().unwrap() = Some(Instant::now());
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let st = CUR_START.load(Ordering::Relaxed);
            if st != 0 && now_ms() > st + 60_000 {
                report_and_exit("does not terminate within 60 s");
            }
        });
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            thorough,
            seed,
            evals: 0,
            only,
            trace: trace.map(|p| std::fs::File::create(p).unwrap()),
            distinct: HashSet::new(),
            samples: vec![],
            rule: vec![],
            deadline: Instant::now() + Duration::from_secs(budget),
            exhaustive_note: vec![],
        }
    }
    /// true while the time budget for random exploration lasts
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.to_string());
    }
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, nontrivial: bool, f: F) {
        self.evals += 1;
        if let Some(o) = self.only {
            if o != self.evals {
                return;
            }
        }
        if nontrivial && self.distinct.len() < 4_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 5 && nontrivial && (self.evals % 97 == 1 || self.samples.is_empty()) {
            self.samples.push(desc.clone());
        }
        if let Some(t) = &mut self.trace {
            let _ = writeln!(t, "{} {}", self.evals, desc.replace('\n', "\\n"));
        }
        *CUR.lock().unwrap() = desc;
        CUR_NO.store(self.evals, Ordering::Relaxed);
        CUR_START.store(now_ms().max(1), Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        let took = now_ms().saturating_sub(CUR_START.swap(0, Ordering::Relaxed));
        if took > 1000 && std::env::var_os("NATIVE_SLOW").is_some() {
            eprintln!("{} ms: {}", took, CUR.lock().unwrap().chars().take(100).collect::<String>());
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => report_and_exit(&m),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or("?".into());
                report_and_exit(&format!("panicked: {}", m))
            }
        }
    }
    pub fn finish(self) -> ! {
        let path = RESULT.lock().unwrap().clone();
        let s = format!(
            "{{\"status\":\"ok\",\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"exhaustive\":{}}}",
            self.evals,
            self.distinct.len(),
            js(&self.rule.join("; ")),
            self.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","),
            js(&self.exhaustive_note.join("; "))
        );
        std::fs::write(path, s).unwrap();
        std::process::exit(0)
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// what any iterator owes its users, however it is consumed: `n` items, item `i` as `eq` says
#[macro_export]
macro_rules! laws {
    ($what:expr, $n:expr, [$($setup:tt)*], $mk:expr, |$x:ident, $i:ident| $eq:expr) => {{
        let n: usize = $n;
        let ks: Vec<usize> = if n <= 6 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
        for k in ks {
            macro_rules! want {
                ($how:expr, $got:expr, $at:expr) => {
                    match $got {
                        Some($x) => {
                            let $i: usize = $at;
                            ensure!($i < n && $eq, "{}: {}: wrong item {}", $what, $how, $i);
                        }
                        None => ensure!($at >= n, "{}: {}: item {} of {} is missing", $what, $how, $at, n),
                    }
                };
            }
            {
                $($setup)*
                let mut it = $mk;
                for j in 0..k.min(n) {
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= n - j && hi.map_or(true, |h| h >= n - j), "{}: {} items are left, size_hint() says {:?}", $what, n - j, (lo, hi));
                    want!("next", it.next(), j);
                }
                // what is left, by internal iteration
                let mut at = k.min(n);
                let mut bad = None;
                if k <= n {
                    it.for_each(|$x| {
                        let $i: usize = at;
                        if !($i < n && $eq) && bad.is_none() {
                            bad = Some(at);
                        }
                        at += 1;
                    });
                    ensure!(bad.is_none(), "{}: for_each after {} items: wrong item {:?}", $what, k, bad);
                    ensure!(at == n, "{}: for_each after {} items ends at {} of {}", $what, k, at, n);
                }
            }
            {
                $($setup)*
                let mut it = $mk;
                want!(format!("nth({})", k), it.nth(k), k);
                if k + 1 < n {
                    want!(format!("next after nth({})", k), it.next(), k + 1);
                }
            }
            if k <= n {
                {
                    $($setup)*
                    let mut it = $mk;
                    for j in 0..k {
                        want!("next", it.next(), j);
                    }
                    let c = it.count();
                    ensure!(c == n - k, "{}: count() after {} of {} items is {}", $what, k, n, c);
                }
                if k < n {
                    $($setup)*
                    let mut it = $mk;
                    for j in 0..k {
                        want!("next", it.next(), j);
                    }
                    want!("last", it.last(), n - 1);
                }
                {
                    $($setup)*
                    let mut it = $mk.skip(k);
                    want!(format!("skip({})", k), it.next(), k);
                }
                {
                    $($setup)*
                    let mut it = $mk.step_by(k + 1);
                    want!("step_by", it.next(), 0);
                    want!(format!("step_by({})", k + 1), it.next(), k + 1);
                }
            }
        }
    }};
}
/// likewise from the back
#[macro_export]
macro_rules! laws_back {
    ($what:expr, $n:expr, $mk:expr, |$x:ident, $i:ident| $eq:expr) => {{
        let n: usize = $n;
        for k in 0..=n.min(6) {
            let mut it = $mk;
            if let Some($x) = it.nth_back(k) {
                let $i: usize = n - 1 - k;
                ensure!($eq, "{}: nth_back({}) is wrong", $what, k);
            } else {
                ensure!(k >= n, "{}: nth_back({}) of {} is missing", $what, k, n);
            }
            let left = n.saturating_sub(k + 1);
            ensure!(it.len() == left, "{}: len() after nth_back({}) is {}, expected {}", $what, k, it.len(), left);
            let mut at = 0;
            while let Some($x) = it.next() {
                let $i: usize = at;
                ensure!($eq, "{}: item {} after nth_back({}) is wrong", $what, at, k);
                at += 1;
            }
            ensure!(at == left, "{}: {} items after nth_back({}), expected {}", $what, at, k, left);
        }
    }};
}
