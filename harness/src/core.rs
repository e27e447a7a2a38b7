//! Property-based testing core: a choice-sequence generator (every random decision of a case is one
//! recorded integer), a deterministic multi-threaded runner, an integrated shrinker working on the
//! recorded choices, replay files, known findings, and the evidence file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// FNV-1a, so that runs do not depend on the std hasher.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {fn default() -> Self {Fnv(0xcbf29ce484222325)}}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {Rng(self.0).next()}
    fn write(&mut self, b: &[u8]) {for x in b {self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);}}
}
pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {let mut h = Fnv::default(); x.hash(&mut h); h.finish()}

enum Src {Random(Rng), Replay(Vec<u64>)}

/// The source of every choice of one case, plus what the case reports about itself.
pub struct G {
    src: Src,
    pos: usize,
    pub choices: Vec<u64>,
    pub labels: Vec<String>,
    /// Human readable inputs of the case: the sample in the evidence, and the text of a replay file.
    pub inputs: Vec<String>,
    pub nontrivial: bool,
    pub case: u64,
    pub thread: usize
}

impl G {
    pub fn random(seed: u64) -> Self {Self::new(Src::Random(Rng(seed)))}
    pub fn replay(choices: Vec<u64>) -> Self {Self::new(Src::Replay(choices))}
    fn new(src: Src) -> Self {Self {src, pos: 0, choices: Vec::new(), labels: Vec::new(), inputs: Vec::new(), nontrivial: false, case: 0, thread: 0}}

    /// A choice in `0..n`. 0 is always the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.src {
            Src::Random(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Src::Replay(v) => v.get(self.pos).copied().unwrap_or(0).min(n - 1)
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {self.below(n as u64) as usize}
    /// Inclusive range; shrinks to `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {lo + self.below((hi - lo + 1) as u64) as i64}
    /// An integer around zero: 0, 1, -1, 2, -2, ...
    pub fn around(&mut self, n: i64) -> i64 {let v = self.below(2 * n as u64 + 1) as i64; if v % 2 == 1 {(v + 1) / 2} else {-(v / 2)}}
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {self.below(den) >= den - num}
    pub fn flip(&mut self) -> bool {self.below(2) == 1}
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {xs[self.usize(xs.len())]}
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {xs[self.usize(xs.len())].clone()}
    /// Index chosen by weight.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let mut v = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {if v < *w {return i;} v -= w;}
        0
    }
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = min + self.usize(max - min + 1);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> Option<T> {if self.flip() {Some(f(self))} else {None}}

    pub fn label(&mut self, l: impl Into<String>) {self.labels.push(l.into());}
    pub fn input(&mut self, l: impl Into<String>) {self.inputs.push(l.into());}
    pub fn nontrivial(&mut self) {self.nontrivial = true;}
}

/// Why a case failed. `sig` is what a known finding is matched on.
#[derive(Debug, Clone)]
pub struct Fail {pub sig: String, pub msg: String}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {Err(Fail {sig: sig.into(), msg: msg.into()})}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {if !$c {return $crate::core::fail($sig, format!($($a)*));}}
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($r:tt)*) => {match (&$a, &$b) {
        (a, b) => if a != b {return $crate::core::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($r)*), a, b));}
    }}
}

/// One generated check of a property.
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: fn(&mut G) -> Res
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// For each listed finding, its signature and a reproduction on the real code.
    pub repro: Vec<(&'static str, fn() -> Res)>
}

thread_local! {static PANIC: RefCell<Option<String>> = const {RefCell::new(None)}; static IN_CASE: RefCell<bool> = const {RefCell::new(false)};}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let msg = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_CASE.with(|x| *x.borrow()) {PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));} else {default(i)}
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|x| *x.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub fn run_case(f: fn(&mut G) -> Res, g: &mut G) -> Res {
    match guard(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(msg) => {
            if msg.contains("harness/src") || msg.starts_with("panic at src/") {
                // A panic of the harness itself is an error of the check, never a violation.
                let cut = |x: String| x.chars().take(1500).collect::<String>(); println!("HARNESS ERROR: {}\ninputs: {}", cut(msg), cut(format!("{:#?}", g.inputs)));
                std::process::exit(3);
            }
            Err(Fail {sig: format!("panic {}", msg.split(": ").next().unwrap_or("").trim_start_matches("panic at ").rsplit('/').next().unwrap_or("")), msg})
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Cases that failed as a listed finding.
    pub known: u64,
    pub fail: Option<(u64, Vec<u64>, Fail)>
}

fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {hash_of(&(seed, id, sub, i))}

/// A case that takes longer does not terminate as far as anyone can tell, which breaks every property.
const CASE_LIMIT_MS: u64 = 100_000;
/// Likewise for a case that takes this much memory (the checks themselves stay below 1 GB).
const MEMORY_LIMIT_MB: u64 = 12_000;
fn memory_mb() -> u64 {std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20}
/// Reports a case that cannot be stopped from within, and ends the process.
fn runaway(id: &str, sub: &str, seed: u64, case: u64, why: &str) -> ! {
    let dir = std::env::var("UCH_DIR").unwrap_or_else(|_| "/verif".into());
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{id}-{sub}-runaway-{case}.json");
    let _ = std::fs::write(&path, serde_json::json!({"property": id, "sub": sub, "seed": seed, "case": case, "message": why}).to_string());
    println!("FAILED {id}/{sub} case {case} [runaway]: {why}");
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
}

/// A case that kills the process (a stack overflow, an abort) breaks the property it was tried for as surely as a
/// wrong answer does. The handler only writes what was made ready before the case, and ends the process.
mod deadly {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicPtr, Ordering};
    thread_local! {pub static CASE: Cell<u64> = const {Cell::new(u64::MAX)};}
    struct Ready {path: std::ffi::CString, before: String, after: String, line: String}
    static READY: AtomicPtr<Ready> = AtomicPtr::new(std::ptr::null_mut());
    unsafe extern "C" {
        fn signal(n: i32, f: usize) -> usize;
        fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    fn put(fd: i32, s: &[u8]) {unsafe {let _ = write(fd, s.as_ptr().cast(), s.len());}}
    extern "C" fn handler(_: i32) {
        let r = READY.load(Ordering::Acquire);
        let case = CASE.try_with(|x| x.get()).unwrap_or(u64::MAX);
        if r.is_null() || case == u64::MAX {put(2, b"HARNESS ERROR: aborted outside of any case\n"); unsafe {_exit(3)}}
        let r = unsafe {&*r};
        let mut digits = [b'0'; 20];
        let (mut n, mut at) = (case, 20);
        loop {at -= 1; digits[at] = b'0' + (n % 10) as u8; n /= 10; if n == 0 {break;}}
        unsafe {
            let fd = open(r.path.as_ptr(), 0o1 | 0o100 | 0o1000, 0o644u32);
            if fd >= 0 {put(fd, r.before.as_bytes()); put(fd, &digits[at..]); put(fd, r.after.as_bytes());}
            put(1, b"FAILED [aborts] case "); put(1, &digits[at..]); put(1, b"\n"); put(1, r.line.as_bytes());
            _exit(1)
        }
    }
    pub fn ready(id: &str, sub: &str, seed: u64) {
        let dir = std::env::var("UCH_DIR").unwrap_or_else(|_| "/verif".into());
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{id}-{sub}-aborts.json");
        let r = Ready {
            before: format!("{{\"property\": \"{id}\", \"sub\": \"{sub}\", \"seed\": {seed}, \"case\": "),
            after: ", \"message\": \"the process is aborted\"}\n".into(),
            line: format!("VIOLATION property={id} replay={path}\n"),
            path: std::ffi::CString::new(path).expect("path")
        };
        READY.store(Box::into_raw(Box::new(r)), Ordering::Release);
        unsafe {signal(6, handler as *const () as usize);}
    }
}

pub fn run_sub(id: &str, sub: &Sub, seed: u64, cases: u64, known: &[String]) -> Stats {
    deadly::ready(id, sub.name, seed);
    let threads = sub.threads.max(1);
    let start = Instant::now();
    // For trying many mutants: the first failure ends it.
    let fast = std::env::var_os("UCH_FAST").is_some();
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let at: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let beats = &beats; let done = &done; let at = &at;
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut st = Stats::default();
                let mut i = t as u64;
                while i < cases {
                    beats[t].store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                    at[t].store(i, Ordering::Relaxed);
                    let mut g = G::random(case_seed(seed, id, sub.name, i));
                    g.case = i; g.thread = t;
                    deadly::CASE.with(|x| x.set(i));
                    let r = run_case(sub.f, &mut g);
                    deadly::CASE.with(|x| x.set(u64::MAX));
                    st.evals += 1;
                    for l in &g.labels {*st.labels.entry(format!("{}:{}", sub.name, l)).or_default() += 1;}
                    if g.nontrivial {
                        let h = hash_of(&g.inputs);
                        if st.nontrivial.insert(h) && st.samples.len() < 4 && (i / threads as u64) % 7 == 0 {
                            let mut s = g.inputs.join(" | ");
                            if s.len() > 600 {let mut n = 600; while !s.is_char_boundary(n) {n -= 1;} s.truncate(n); s.push_str("...");}
                            st.samples.push(format!("[{}] {}", sub.name, s));
                        }
                    }
                    if let Err(f) = r {
                        if known.contains(&f.sig) {st.known += 1;} else if fast {println!("FAILED {id}/{} case {i} [{}]", sub.name, f.sig); std::process::exit(1);} else {st.fail = Some((i, g.choices, f)); break;}
                    }
                    i += threads as u64;
                }
                beats[t].store(u64::MAX, Ordering::Relaxed);
                done.fetch_add(1, Ordering::Relaxed);
                st
            }).expect("spawn")
        }).collect();
        {
            let beats = &beats; let done = &done; let at = &at;
            s.spawn(move || {
                let mut n = 0u64;
                while done.load(Ordering::Relaxed) < threads as u64 {
                    std::thread::sleep(std::time::Duration::from_millis(if n < 100 {2} else {100}));
                    n += 1;
                    let now = start.elapsed().as_millis() as u64;
                    let mut worst: Option<(u64, u64)> = None;
                    for (b, at) in beats.iter().zip(at) {let b = b.load(Ordering::Relaxed); if b != u64::MAX && worst.is_none_or(|w| b < w.0) {worst = Some((b, at.load(Ordering::Relaxed)));}}
                    let Some((b, case)) = worst else {continue};
                    if b + CASE_LIMIT_MS < now {runaway(id, sub.name, seed, case, &format!("still running after {CASE_LIMIT_MS} ms"));}
                    if n % 5 == 0 && memory_mb() > MEMORY_LIMIT_MB {runaway(id, sub.name, seed, case, "takes up all memory");}
                }
            });
        }
        hs.into_iter().map(|h| match h.join() {Ok(x) => x, Err(_) => {eprintln!("HARNESS ERROR: worker died"); std::process::exit(3)}}).collect::<Vec<_>>()
    });
    let mut all = Stats::default();
    for st in out {
        all.evals += st.evals;
        all.known += st.known;
        all.nontrivial.extend(st.nontrivial);
        for (k, v) in st.labels {*all.labels.entry(k).or_default() += v;}
        all.samples.extend(st.samples);
        if let Some(f) = st.fail && all.fail.as_ref().is_none_or(|a| f.0 < a.0) {all.fail = Some(f);}
    }
    all.samples.truncate(4);
    all
}

/// Shrinks the recorded choices while the case keeps failing in the same way.
pub fn shrink(sub: &Sub, choices: Vec<u64>, fail: Fail) -> (Vec<u64>, Fail, Vec<String>) {
    let start = Instant::now();
    let mut best = choices;
    let mut bf = fail;
    let mut inputs = Vec::new();
    let mut budget = 4000u64;
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail, inputs: &mut Vec<String>| -> bool {
        if budget == 0 || start.elapsed().as_secs() > 40 {return false;}
        budget -= 1;
        let mut g = G::replay(c);
        if let Err(f) = run_case(sub.f, &mut g) {
            if f.sig != bf.sig {return false;}
            let better = g.choices.len() < best.len() || (g.choices.len() == best.len() && g.choices < *best);
            if better || inputs.is_empty() {*best = g.choices; *bf = f; *inputs = g.inputs; return better;}
        }
        false
    };
    attempt(best.clone(), &mut best, &mut bf, &mut inputs);
    loop {
        let mut progress = false;
        let mut size = (best.len() / 2).max(1);
        while size > 0 {
            let mut at = 0;
            while at < best.len() {
                let mut c = best.clone();
                c.drain(at..(at + size).min(c.len()));
                if attempt(c, &mut best, &mut bf, &mut inputs) {progress = true} else {at += size.max(1)}
            }
            size /= 2;
        }
        for i in 0..best.len() {
            for v in [0, 1, best.get(i).copied().unwrap_or(0) / 2, best.get(i).copied().unwrap_or(0).saturating_sub(1)] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if attempt(c, &mut best, &mut bf, &mut inputs) {progress = true;}
                }
            }
        }
        if !progress {break;}
    }
    (best, bf, inputs)
}

/// A listed finding: `{"property","sub","sig","what"}`; `fixed` entries are plain text and suppress nothing.
#[derive(Debug, Clone, serde::Deserialize)]
pub struct Finding {pub property: String, pub sub: String, pub sig: String, pub what: String}

pub fn load_findings(dir: &str) -> Vec<Finding> {
    std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("finding: ")).map(|l| serde_json::from_str(l).expect("known-findings.txt: bad entry")).collect()
}

pub fn run_prop(p: &Prop, tier: &str, seed: u64, dir: &str) -> i32 {
    let start = Instant::now();
    let findings: Vec<Finding> = load_findings(dir).into_iter().filter(|f| f.property == p.id).collect();
    let mut total = Stats::default();
    let mut violations = Vec::new();
    let mut known = 0u64;
    for f in &findings {
        match p.repro.iter().find(|r| r.0 == f.sig).map(|r| guard(r.1)) {
            Some(Ok(Err(e))) if e.sig == f.sig => println!("KNOWN-FINDING: property={} {}", p.id, f.what),
            Some(Err(_)) if f.sig.starts_with("panic ") => println!("KNOWN-FINDING: property={} {}", p.id, f.what),
            _ => eprintln!("note: listed finding does not fail here: {}", f.what)
        }
    }
    let only = std::env::var("UCH_SUB").ok();
    let scale: f64 = std::env::var("UCH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    for sub in &p.subs {
        if only.as_ref().is_some_and(|o| o != sub.name) {continue;}
        let n = ((if tier == "thorough" {sub.thorough} else {sub.quick}) as f64 * scale).ceil() as u64;
        let t0 = Instant::now();
        let sigs: Vec<String> = findings.iter().filter(|f| f.sub == sub.name).map(|f| f.sig.clone()).collect();
        let mut st = run_sub(p.id, sub, seed, n, &sigs);
        eprintln!("{} {}: {} cases, {} distinct non-trivial, {:.1}s", p.id, sub.name, st.evals, st.nontrivial.len(), t0.elapsed().as_secs_f64());
        let sfail = st.fail.take();
        total.evals += st.evals;
        known += st.known;
        total.nontrivial.extend(st.nontrivial.iter().map(|x| x ^ hash_of(sub.name)));
        for (k, v) in std::mem::take(&mut st.labels) {*total.labels.entry(k).or_default() += v;}
        total.samples.extend(std::mem::take(&mut st.samples));
        if let Some((i, choices, f)) = sfail {
            // A smaller case may run away where this one did not.
            let (finished, name) = (std::sync::Arc::new(AtomicU64::new(0)), sub.name);
            {let (done, id) = (finished.clone(), p.id); std::thread::spawn(move || {
                for _ in 0..600 {std::thread::sleep(std::time::Duration::from_millis(250)); if done.load(Ordering::Relaxed) == 1 {return;} if memory_mb() > MEMORY_LIMIT_MB {break;}}
                runaway(id, name, seed, i, "fails, and smaller cases do not terminate");
            });}
            deadly::CASE.with(|x| x.set(i));
            let (choices, f, inputs) = shrink(sub, choices, f);
            deadly::CASE.with(|x| x.set(u64::MAX));
            finished.store(1, Ordering::Relaxed);
            let _ = std::fs::create_dir_all(format!("{dir}/replays"));
            let path = format!("{dir}/replays/{}-{}-{:016x}.json", p.id, sub.name, hash_of(&choices));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": p.id, "sub": sub.name, "seed": seed, "case": i, "choices": choices, "sig": f.sig, "inputs": inputs, "message": f.msg})).unwrap());
            println!("FAILED {}/{} case {i} [{}]: {}", p.id, sub.name, f.sig, f.msg);
            for x in &inputs {println!("  input: {x}");}
            violations.push((path, f));
        }
    }
    let mut cov = serde_json::json!({
        "evaluations": total.evals, "distinct_nontrivial": total.nontrivial.len(), "rule": p.rule,
        "samples": total.samples, "classes": total.labels
    });
    if known > 0 {cov["cases_failing_as_a_known_finding"] = known.into();}
    let ev = serde_json::json!({"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": start.elapsed().as_secs_f64(), "violations": violations.len(), "assumptions": p.assumptions});
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()) {eprintln!("evidence: {e}"); return 3;}
    for (path, _) in &violations {println!("VIOLATION property={} replay={}", p.id, path);}
    if violations.is_empty() {0} else {1}
}

pub fn replay(p: &Prop, file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let sub = p.subs.iter().find(|s| s.name == v["sub"]).expect("sub");
    let mut g = match v["choices"].as_array() {
        Some(c) => G::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => G::random(case_seed(v["seed"].as_u64().unwrap(), p.id, sub.name, v["case"].as_u64().unwrap()))
    };
    if let (Some(seed), Some(case)) = (v["seed"].as_u64(), v["case"].as_u64()) {deadly::ready(p.id, sub.name, seed); deadly::CASE.with(|x| x.set(case));}
    let r = run_case(sub.f, &mut g);
    deadly::CASE.with(|x| x.set(u64::MAX));
    for x in &g.inputs {println!("  input: {x}");}
    match r {
        Ok(()) => {println!("held"); 0},
        Err(f) => {println!("FAILED [{}]: {}", f.sig, f.msg); println!("VIOLATION property={} replay={}", p.id, file); 1}
    }
}
