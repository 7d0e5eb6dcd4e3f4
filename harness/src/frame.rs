use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e3779b97f4a7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub struct G {
    pub rng: Rng,
    pub size: usize,
    /// index of the case inside its family; fixed cases come first
    pub case: usize,
}
#[allow(dead_code)]
impl G {
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.rng.next() % n as u64) as usize
        }
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.rng.next() % ((b - a + 1) as u64)) as i64
    }
    /// 0..usual, or now and then (one time in `den`) 0..rare
    pub fn upto(&mut self, den: usize, rare: usize, usual: usize) -> usize {
        let n = if self.below(den) == 0 { rare } else { usual };
        self.below(n)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &'a [&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    pub fn pickc(&mut self, v: &[char]) -> char {
        v[self.below(v.len())]
    }
    pub fn text(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| alphabet[self.below(alphabet.len())]).collect()
    }
    /// any char at all, biased to interesting blocks
    pub fn any_char(&mut self) -> char {
        let (a, b) = match self.below(14) {
            0 => (0x20, 0x7e),
            1 => (0x3041, 0x3096),
            2 => (0x30a0, 0x30ff),
            3 => (0x4e00, 0x9faf),
            4 => (0xff00, 0xffef),
            5 => (0x3000, 0x303f),
            6 => (0xa0, 0x24f),
            7 => (0xac00, 0xd7a3),
            8 => (0x1f300, 0x1faff),
            9 => (0x2000, 0x2fff),
            10 => (0x300, 0x36f),
            11 => (0x0, 0x1f),
            12 => (0x0, 0xd7ff),
            _ => (0xe000, 0x10ffff),
        };
        char::from_u32(self.range(a, b) as u32).unwrap_or('x')
    }
    pub fn any_text(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.any_char()).collect()
    }
}
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable signature used to recognise known findings
    pub sig: String,
    pub input: String,
    pub expected: String,
    pub got: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T: std::fmt::Debug, U: std::fmt::Debug>(sig: &str, input: String, expected: T, got: U) -> R {
    Err(Fail { sig: sig.into(), input, expected: format!("{:?}", expected), got: format!("{:?}", got) })
}
#[macro_export]
macro_rules! expect_eq {
    ($sig:expr, $input:expr, $want:expr, $got:expr) => {{
        let (w, g) = (&$want, &$got);
        if w != g {
            return $crate::frame::fail($sig, $input, w, g);
        }
    }};
}
#[macro_export]
macro_rules! expect {
    ($sig:expr, $input:expr, $what:expr, $cond:expr) => {{
        if !$cond {
            return $crate::frame::fail($sig, $input, $what, "does not hold");
        }
    }};
}

pub struct Fam {
    pub prop: &'static str,
    pub name: &'static str,
    /// number of cases in the quick tier
    pub cases: usize,
    /// what the family checks, for the evidence file
    pub what: &'static str,
    pub run: fn(&mut G) -> R,
}

thread_local! {
    static NOTE: RefCell<String> = RefCell::new(String::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static DIR: RefCell<Option<PathBuf>> = RefCell::new(None);
}
fn resident_gb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 30
}
/// remember the input about to be given to the code under test, for the report of a panic or hang
pub fn note(s: impl Into<String>) {
    let s = s.into();
    NOTE.with(|n| *n.borrow_mut() = s.clone());
    SLOT.with(|i| {
        if let Some(i) = *i.borrow() {
            *NOTES.lock().unwrap().entry(i).or_default() = s;
        }
    });
}
thread_local! { static SLOT: RefCell<Option<usize>> = RefCell::new(None); }
static NOTES: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
static CASES: AtomicU64 = AtomicU64::new(0);
/// elementary checks (finer than cases)
pub static CHECKS: AtomicU64 = AtomicU64::new(0);
pub fn tick(n: u64) {
    CHECKS.fetch_add(n, Ordering::Relaxed);
}
fn scratch_root() -> PathBuf {
    std::env::temp_dir().join(format!("vxh-{}", std::process::id()))
}
/// a fresh scratch directory for the running case (reused and emptied by the next case of this thread)
pub fn scratch() -> PathBuf {
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            static N: AtomicUsize = AtomicUsize::new(0);
            *d = Some(scratch_root().join(format!("w{}", N.fetch_add(1, Ordering::Relaxed))));
        }
        let p = d.clone().unwrap();
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        p
    })
}
/// run code under test that must not panic; Err carries the panic message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}
fn mix(a: u64, s: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ a;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h.wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15)));
    r.next()
}
thread_local! { static ROUTE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// which of the ways to do the same thing is taken now: 0..n, in turns
pub fn route(n: u64) -> u64 {
    ROUTE.with(|r| {
        let k = r.get();
        r.set(k + 1);
        k % n
    })
}
fn run_case(f: &Fam, seed: u64, case: usize) -> R {
    let mut g = G { rng: Rng::new(mix(seed, f.name, case as u64)), size: 2 + (case % 97) / 8, case };
    note("");
    ROUTE.with(|r| r.set(case as u64));
    CASES.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| (f.run)(&mut g))) {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            let input = NOTE.with(|n| n.borrow().clone());
            Err(Fail { sig: format!("panic {}", msg), input, expected: "no panic".into(), got: msg })
        }
    }
}

struct Args {
    prop: String,
    seed: u64,
    mult: f64,
    secs: u64,
    out: Option<String>,
    only: Option<String>,
    case: Option<usize>,
}

pub fn main_with(fams: Vec<Fam>) {
    let mut a = Args { prop: String::new(), seed: 1, mult: 1.0, secs: 600, out: None, only: None, case: None };
    let mut it = std::env::args().skip(1);
    let mut ignore: Vec<String> = vec![];
    while let Some(x) = it.next() {
        match x.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--mult" => a.mult = it.next().unwrap().parse().unwrap(),
            "--secs" => a.secs = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next(),
            "--family" => a.only = it.next(),
            "--case" => a.case = Some(it.next().unwrap().parse().unwrap()),
            "--ignore" => ignore.push(it.next().unwrap()),
            "--list" => {
                for f in &fams {
                    println!("{} {} {} {}", f.prop, f.name, f.cases, f.what);
                }
                return;
            }
            p => a.prop = p.to_string(),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| l.file().rsplit("/repo/").next().unwrap_or("").to_string()).unwrap_or_default();
        let msg: String = msg.chars().take(300).collect();
        PANIC.with(|p| *p.borrow_mut() = format!("[{}] {}", loc, msg));
        if std::env::var("VXH_TRACE").is_ok() {
            eprintln!("{:?} {}", i.location(), msg);
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let sel: Vec<&Fam> = fams
        .iter()
        .filter(|f| (a.prop.is_empty() || f.prop == a.prop) && a.only.as_ref().map(|o| o == f.name).unwrap_or(true))
        .collect();
    // work items: (family, case) in chunks, interleaved so that every family makes progress
    let mut items: Vec<(usize, usize, usize)> = vec![];
    if let Some(c) = a.case {
        for (i, _) in sel.iter().enumerate() {
            items.push((i, c, c + 1));
        }
    } else {
        for (i, f) in sel.iter().enumerate() {
            let n = ((f.cases as f64) * a.mult).ceil() as usize;
            let step = (n / 64).max(1);
            let mut k = 0;
            while k < n {
                items.push((i, k, (k + step).min(n)));
                k += step;
            }
        }
        items.sort_by_key(|&(i, k, _)| (k * 1000 / ((sel[i].cases as f64 * a.mult) as usize).max(1), i));
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..nthreads).map(|_| AtomicU64::new(0)).collect());
    let fails: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let done: Arc<Mutex<BTreeMap<String, usize>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let t0 = Instant::now();
    let running = Arc::new(AtomicUsize::new(nthreads));
    let fams_arc: Arc<Vec<Fam>> = Arc::new(
        sel.iter().map(|f| Fam { prop: f.prop, name: f.name, cases: f.cases, what: f.what, run: f.run }).collect(),
    );
    let cur: Arc<Mutex<BTreeMap<usize, (usize, usize)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    for t in 0..nthreads {
        let (next, stop, started, fails, done, running, fs, items, cur, ignore) = (
            next.clone(),
            stop.clone(),
            started.clone(),
            fails.clone(),
            done.clone(),
            running.clone(),
            fams_arc.clone(),
            items.clone(),
            cur.clone(),
            ignore.clone(),
        );
        let seed = a.seed;
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                SLOT.with(|s| *s.borrow_mut() = Some(t));
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= items.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (fi, lo, hi) = items[k];
                    for case in lo..hi {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        cur.lock().unwrap().insert(t, (fi, case));
                        started[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let r = run_case(&fs[fi], seed, case);
                        started[t].store(0, Ordering::Relaxed);
                        *done.lock().unwrap().entry(fs[fi].name.to_string()).or_default() += 1;
                        if let Err(f) = r {
                            let known = ignore.iter().any(|s| f.sig.contains(s.as_str()));
                            let mut v = fails.lock().unwrap();
                            v.push(json!({"property": fs[fi].prop, "family": fs[fi].name, "case": case, "seed": seed,
                                "sig": f.sig, "input": f.input, "expected": f.expected, "got": f.got, "known": known}));
                            if v.iter().filter(|x| x["known"] == json!(false)).count() >= 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                running.fetch_sub(1, Ordering::Relaxed);
            })
            .unwrap();
    }
    let mut hang = false;
    let mut turns = 0u32;
    while running.load(Ordering::Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        let now = t0.elapsed().as_millis() as u64;
        if now > a.secs * 1000 {
            stop.store(true, Ordering::Relaxed);
        }
        for (t, s) in started.iter().enumerate() {
            let s = s.load(Ordering::Relaxed);
            if s != 0 && now > s + 45000 {
                let (fi, case) = cur.lock().unwrap()[&t];
                let input = NOTES.lock().unwrap().get(&t).cloned().unwrap_or_default();
                fails.lock().unwrap().push(json!({"property": fams_arc[fi].prop, "family": fams_arc[fi].name, "case": case,
                    "seed": a.seed, "sig": "hang", "input": input, "expected": "termination", "got": "no result after 45 s", "known": false}));
                hang = true;
            }
        }
        // the case that has been running for longest when the memory is nearly used up
        turns += 1;
        if turns % 20 == 0 && resident_gb() >= 12 {
            let longest = started.iter().enumerate().map(|(t, s)| (s.load(Ordering::Relaxed), t)).filter(|x| x.0 != 0).min();
            if let Some((_, t)) = longest {
                let (fi, case) = cur.lock().unwrap()[&t];
                let input = NOTES.lock().unwrap().get(&t).cloned().unwrap_or_default();
                fails.lock().unwrap().push(json!({"property": fams_arc[fi].prop, "family": fams_arc[fi].name, "case": case,
                    "seed": a.seed, "sig": "memory", "input": input, "expected": "termination", "got": "no result before 12 GB were used up", "known": false}));
                hang = true;
            }
        }
        if hang {
            break;
        }
    }
    let fails = fails.lock().unwrap().clone();
    let what: BTreeMap<&str, &str> = fams_arc.iter().map(|f| (f.name, f.what)).collect();
    let rep = json!({"cases": CASES.load(Ordering::Relaxed), "checks": CHECKS.load(Ordering::Relaxed),
        "families": *done.lock().unwrap(), "what": what, "planned": items.iter().map(|x| x.2 - x.1).sum::<usize>(),
        "failures": fails, "secs": t0.elapsed().as_secs_f64()});
    let s = serde_json::to_string_pretty(&rep).unwrap();
    match a.out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{}", s),
    }
    let _ = std::fs::remove_dir_all(scratch_root());
    let bad = fails.iter().any(|x| x["known"] == json!(false));
    std::process::exit(if bad { 1 } else { 0 });
}
