//! P15: the cache against a map, over histories with several handles, processes, threads, crashes and unfinished files.
use crate::cli::Scratch;
use crate::core::*;
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use url_cleaner::glue::*;

type Entry = Option<Option<String>>;
const CATS: &[&str] = &["redirect", "a", "A", "a ", "a\0", "", "é", "É", "a'b", "%", "x y", "1", "1.0"];
const KEYS: &[&str] = &["k", "K", "k ", "", "https://h/?a=1", "https://h/?a=2", "é", "e\u{301}", "_", "\u{1F600}", "k\0", "k\0l", "\"", "1", "01"];
fn key(g: &mut G) -> (String, String) {
    let c = if g.chance(1, 10) {crate::gn::string(g, 4)} else {g.of(CATS).to_string()};
    let k = if g.chance(1, 10) {crate::gn::string(g, 6)} else {g.of(KEYS).to_string()};
    (c, k)
}
/// Another entry that a careless comparison takes for this one.
fn near(g: &mut G, (c, k): &(String, String)) -> (String, String) {
    let mut vary = |s: &str| match g.usize(7) {0 => format!("{s} "), 1 => s.to_uppercase(), 2 => s.to_lowercase(), 3 => format!("{s}\0"), 4 => s.trim_end().to_string(), 5 => format!(" {s}"), _ => format!("{s}\u{301}")};
    if c.len() <= k.len() {(vary(c), k.clone())} else {(c.clone(), vary(k))}
}
fn value(g: &mut G, n: usize) -> Option<String> {match g.weighted(&[5, 2, 2, 1]) {0 => Some(format!("v{n}")), 1 => None, 2 => Some(g.of(&["", "\0", "é", "a\nb", "null", "NULL", "123", "1e5", "a\0b"]).to_string()), _ => Some(format!("{n}-").repeat(2000))}}

/// The state a cache file may be in before the first use.
fn prepare(g: &mut G, path: &str, model: &mut HashMap<(String, String), Option<String>>) {
    match g.weighted(&[4, 2, 2, 1]) {
        0 => {},
        1 => {g.label("empty file"); std::fs::write(path, b"").expect("harness/src: file");},
        2 => {
            g.label("filled before");
            let c = Cache::from(CachePath::from(path));
            for i in 0..1 + g.usize(3) {let k = key(g); let v = value(g, 900 + i); c.write(&k.0, &k.1, v.as_deref()).expect("harness/src: first writes"); model.insert(k, v);}
        },
        _ => {
            // Connected and left, with nothing in it.
            g.label("connected before");
            let mut c = InnerCache::from(CachePath::from(path));
            c.connect().map(|_| ()).expect("harness/src: first connection");
        }
    }
}
fn spelled(g: &mut G, p: &str) -> String {if g.chance(1, 8) {format!("file://{p}")} else {p.to_string()}}

/// One sequence of operations over several handles of a file (or clones of a memory cache).
fn p15_history(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let mut model: HashMap<(String, String), Option<String>> = HashMap::new();
    let memory = g.chance(1, 4);
    if !memory {prepare(g, &path, &mut model);}
    let mut handles: Vec<Cache> = vec![Cache::from(if memory {CachePath::Memory} else {let p = spelled(g, &path); CachePath::from(p)})];
    let n = 2 + g.usize(14);
    let (mut overwrites, mut reopened) = (0, 0);
    let mut used: Vec<(String, String)> = model.keys().cloned().collect();
    used.sort();
    for i in 0..n {
        let h = g.usize(handles.len());
        match g.weighted(&[5, 5, 1, 1]) {
            0 => {
                let k = if !used.is_empty() && g.flip() {let k = used[g.usize(used.len())].clone(); if g.chance(1, 3) {near(g, &k)} else {k}} else {key(g)};
                let v = value(g, i);
                g.input(format!("write {h} {k:?} {:?}", v.as_ref().map(|x| &x[..x.len().min(20)])));
                if model.contains_key(&k) {overwrites += 1;}
                if let Err(e) = handles[h].write(&k.0, &k.1, v.as_deref()) {return fail("write fails", format!("{e:?}"));}
                used.push(k.clone()); model.insert(k, v);
            },
            1 => {
                let k = if !used.is_empty() && g.chance(3, 4) {let k = used[g.usize(used.len())].clone(); if g.chance(1, 3) {near(g, &k)} else {k}} else {key(g)};
                g.input(format!("read {h} {k:?}"));
                match handles[h].read(&k.0, &k.1) {Err(e) => return fail("read fails", format!("{e:?}")), Ok(got) => ensure_eq!(got, model.get(&k).cloned(), "read", "{k:?}")}
            },
            2 => if !memory {g.input(format!("disconnect {h}")); reopened += 1; handles[h].0.lock().expect("harness/src: lock").disconnect();},
            _ => if handles.len() < 4 {
                if memory || g.flip() {g.input(format!("clone {h}")); handles.push(handles[h].clone());}
                else {g.input("open".to_string()); reopened += 1; let p = spelled(g, &path); handles.push(Cache::from(CachePath::from(p)));}
            }
        }
    }
    // Everything is as written, seen from each handle and a new one.
    if !memory {handles.push(Cache::from(CachePath::from(&*path)));}
    for (i, h) in handles.iter().enumerate() {for (k, v) in &model {match h.read(&k.0, &k.1) {Err(e) => return fail("read fails", format!("{e:?}")), Ok(got) => ensure_eq!(got, Some(v.clone()), "read at the end", "handle {i} {k:?}")}}}
    if overwrites > 0 && (memory || reopened > 0 || handles.len() > 2) {g.nontrivial();}
    Ok(())
}

/// Two memory caches have nothing to do with each other; nor do two files.
fn p15_apart(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let n = 2 + g.usize(2);
    let mut all: Vec<(Cache, HashMap<(String, String), Option<String>>)> = (0..n).map(|i| (Cache::from(if g.flip() {CachePath::Memory} else {CachePath::from(dir.path(&format!("c{i}.sqlite")))}), HashMap::new())).collect();
    for i in 0..4 + g.usize(10) {
        let h = g.usize(n);
        let k = (g.of(&CATS[..3]).to_string(), g.of(&KEYS[..4]).to_string());
        let (c, m) = &mut all[h];
        if g.flip() {
            let v = value(g, i);
            g.input(format!("write {h} {k:?}"));
            if let Err(e) = c.write(&k.0, &k.1, v.as_deref()) {return fail("write fails", format!("{e:?}"));}
            m.insert(k, v); g.nontrivial();
        } else {
            g.input(format!("read {h} {k:?}"));
            match c.read(&k.0, &k.1) {Err(e) => return fail("read fails", format!("{e:?}")), Ok(got) => ensure_eq!(got, m.get(&k).cloned(), "read", "cache {h} {k:?}")}
        }
    }
    Ok(())
}

// ---- Several at once ----
#[derive(Clone, Debug)]
struct Op {key: usize, start: u64, end: u64, write: Option<u64>, read: Option<Option<u64>>}
/// Whether each read could have seen what it saw: some write (or the beginning) that was not over and replaced before the read began.
fn consistent(ops: &[Op], first: Option<u64>) -> Res {
    for r in ops.iter().filter(|o| o.read.is_some()) {
        let seen = r.read.expect("harness/src: a read");
        let replaced_after = |end: u64| ops.iter().find(|w| w.write.is_some() && w.key == r.key && w.start > end && w.end < r.start);
        match seen {
            None => {ensure!(first.is_none(), "entry lost", "{r:?} saw nothing"); if let Some(w) = replaced_after(0) {return fail("write lost", format!("{r:?} saw no entry, but {w:?} was done before"));}},
            Some(v) => {
                match ops.iter().find(|w| w.key == r.key && w.write == Some(v)) {
                    Some(w) => {
                        ensure!(w.start < r.end, "read of the future", "{r:?} saw {w:?}");
                        if let Some(x) = replaced_after(w.end) {return fail("write lost", format!("{r:?} saw {w:?}, but {x:?} was done in between"));}
                    },
                    None => {ensure!(first == Some(v), "value from nowhere", "{r:?}"); if let Some(x) = replaced_after(0) {return fail("write lost", format!("{r:?} saw the first value, but {x:?} was done before"));}}
                }
            }
        }
    }
    Ok(())
}
fn p15_threads(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let mode = g.usize(3);
    let (n, m, keys) = (2 + g.usize(3), 2 + g.usize(8), 1 + g.usize(2));
    let first = if mode > 0 && g.flip() {Some(7u64)} else {None};
    if let Some(v) = first {let c = Cache::from(CachePath::from(&*path)); for k in 0..keys {c.write("c", &format!("k{k}"), Some(&v.to_string())).expect("harness/src: first write");}}
    g.input(format!("{n} threads, {m} operations each, {keys} keys, {}, first {first:?}", ["one memory cache", "one file handle", "a handle each"][mode]));
    let shared = Cache::from(if mode == 0 {CachePath::Memory} else {CachePath::from(&*path)});
    let plans: Vec<Vec<(usize, bool)>> = (0..n).map(|_| (0..m).map(|_| (g.usize(keys), g.flip())).collect()).collect();
    g.input(format!("{plans:?}"));
    let clock = AtomicU64::new(1);
    let barrier = Barrier::new(n);
    let ops: Mutex<Vec<Op>> = Mutex::new(Vec::new());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| for (t, plan) in plans.iter().enumerate() {
        let (c, clock, barrier, ops, bad) = (if mode == 2 {Cache::from(CachePath::from(&*path))} else {shared.clone()}, &clock, &barrier, &ops, &bad);
        s.spawn(move || {
            barrier.wait();
            for (i, (k, w)) in plan.iter().enumerate() {
                let v = 1000 * (t as u64 + 1) + i as u64;
                let start = clock.fetch_add(1, Ordering::SeqCst);
                let key = format!("k{k}");
                let mut op = Op {key: *k, start, end: 0, write: None, read: None};
                let r = if *w {c.write("c", &key, Some(&v.to_string())).map_err(|e| format!("write: {e:?}")).map(|_| op.write = Some(v))}
                    else {c.read("c", &key).map_err(|e| format!("read: {e:?}")).map(|x| op.read = Some(x.map(|x| x.and_then(|x| x.parse().ok()).unwrap_or(0))))};
                op.end = clock.fetch_add(1, Ordering::SeqCst);
                if let Err(e) = r {*bad.lock().expect("harness/src: lock") = Some(e); return;}
                ops.lock().expect("harness/src: lock").push(op);
            }
        });
    });
    if let Some(e) = bad.into_inner().expect("harness/src: lock") {return fail("fails when shared", e);}
    let mut ops = ops.into_inner().expect("harness/src: lock");
    // A last read from outside.
    let last = if mode == 0 {shared.clone()} else {Cache::from(CachePath::from(&*path))};
    for k in 0..keys {
        let t = clock.fetch_add(2, Ordering::SeqCst);
        match last.read("c", &format!("k{k}")) {Err(e) => return fail("read fails", format!("{e:?}")), Ok(x) => ops.push(Op {key: k, start: t, end: t + 1, write: None, read: Some(x.map(|x| x.and_then(|x| x.parse().ok()).unwrap_or(0)))})}
    }
    if ops.iter().filter(|o| o.write.is_some()).count() > 1 {g.nontrivial();}
    consistent(&ops, first)
}

// ---- Other processes ----
/// `uch cache-child PATH`: does the operations given as lines of JSON, and answers each.
pub fn child(path: &str, survive: bool) {
    // Writing beyond the file size limit ends this process, or is an error like a full disk's.
    unsafe extern "C" {fn signal(n: i32, what: usize) -> usize;}
    unsafe {signal(25, survive as usize);}
    let c = Cache::from(CachePath::from(path));
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else {return};
        let v: serde_json::Value = serde_json::from_str(&l).expect("harness/src: child input");
        let (cat, k) = (v[1].as_str().unwrap_or(""), v[2].as_str().unwrap_or(""));
        let out = match v[0].as_str() {
            Some("r") => match c.read(cat, k) {Ok(x) => serde_json::json!({"ok": x.map(|x| serde_json::json!([x]))}), Err(e) => serde_json::json!({"err": format!("{e:?}")})},
            Some("w") => match c.write(cat, k, v[3].as_str()) {Ok(()) => serde_json::json!({"ok": true}), Err(e) => serde_json::json!({"err": format!("{e:?}")})},
            _ => {c.0.lock().expect("harness/src: lock").disconnect(); serde_json::json!({"ok": true})}
        };
        println!("{out}");
    }
}
struct Proc {p: Child, o: BufReader<std::process::ChildStdout>}
impl Proc {
    fn new(path: &str, limit: Option<u64>, survive: bool) -> Self {
        let me = std::env::current_exe().expect("harness/src: exe");
        let mut c = match limit {
            None => {let mut c = Command::new(me); c.args(["cache-child", path]); c},
            // Writing beyond this many bytes of any file ends the process on the spot.
            Some(n) => {let mut c = Command::new("prlimit"); c.arg(format!("--fsize={n}")).arg(me).args(["cache-child", path]); if survive {c.arg("survive");} c}
        };
        let mut p = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness/src: child process");
        let o = BufReader::new(p.stdout.take().expect("harness/src: stdout"));
        Self {p, o}
    }
    /// `None` if the process is gone.
    fn say(&mut self, v: serde_json::Value) -> Option<serde_json::Value> {
        let i = self.p.stdin.as_mut().expect("harness/src: stdin");
        i.write_all(format!("{v}\n").as_bytes()).ok()?; i.flush().ok()?;
        let mut l = String::new();
        if self.o.read_line(&mut l).ok()? == 0 {return None;}
        serde_json::from_str(&l).ok()
    }
}
impl Drop for Proc {fn drop(&mut self) {let _ = self.p.kill(); let _ = self.p.wait();}}
fn entry(v: &serde_json::Value) -> Entry {v["ok"].as_array().map(|a| a[0].as_str().map(|x| x.to_string()))}

/// A sequence of operations spread over processes, some of which end without notice between operations.
fn p15_processes(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let mut model = HashMap::new();
    prepare(g, &path, &mut model);
    let n = 2 + g.usize(2);
    let mut ps: Vec<Proc> = (0..n).map(|_| Proc::new(&path, None, false)).collect();
    g.nontrivial();
    let mut used: Vec<(String, String)> = model.keys().cloned().collect(); used.sort();
    for i in 0..4 + g.usize(12) {
        let h = g.usize(n);
        let k = if !used.is_empty() && g.chance(2, 3) {used[g.usize(used.len())].clone()} else {key(g)};
        match g.weighted(&[5, 5, 1, 1]) {
            0 => {
                let v = value(g, i);
                g.input(format!("write {h} {k:?}"));
                let r = ps[h].say(serde_json::json!(["w", k.0, k.1, v])).expect("harness/src: child gone");
                ensure_eq!(r, serde_json::json!({"ok": true}), "write fails", "process {h} {k:?}");
                used.push(k.clone()); model.insert(k, v);
            },
            1 => {
                g.input(format!("read {h} {k:?}"));
                let r = ps[h].say(serde_json::json!(["r", k.0, k.1])).expect("harness/src: child gone");
                ensure!(r.get("err").is_none(), "read fails", "process {h} {k:?}: {r}");
                ensure_eq!(entry(&r), model.get(&k).cloned(), "read", "process {h} {k:?}");
            },
            2 => {g.input(format!("disconnect {h}")); ps[h].say(serde_json::json!(["d"])).expect("harness/src: child gone");},
            _ => {g.input(format!("kill {h}")); ps[h] = Proc::new(&path, None, false);}
        }
    }
    Ok(())
}
/// A process dies while it creates or changes the file; the file is then used by others.
fn p15_crash(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let mut model: HashMap<(String, String), Option<String>> = HashMap::new();
    if g.flip() {prepare(g, &path, &mut model);}
    let rounds = 1 + g.usize(3);
    for round in 0..rounds {
        let how = g.usize(3);
        let limit = if how < 2 {Some(match g.usize(3) {0 => g.below(9) * 1024, 1 => g.below(30) * 512, _ => g.below(40_000)})} else {None};
        let survive = g.chance(1, 3);
        g.input(format!("round {round}: file size limit {limit:?}, survives it {survive}"));
        let mut p = Proc::new(&path, limit, survive);
        let mut doubt: Option<((String, String), Option<String>)> = None;
        let mut died = false;
        for i in 0..1 + g.usize(6) {
            let k = key(g); let v = value(g, 100 * round + i);
            g.input(format!("write {k:?}"));
            if limit.is_none() && g.chance(1, 3) {
                // Killed at some moment of the write.
                let us = g.below(400);
                let _ = p.p.stdin.as_mut().expect("harness/src: stdin").write_all(format!("{}\n", serde_json::json!(["w", k.0, k.1, v])).as_bytes());
                let t = Instant::now(); while t.elapsed() < Duration::from_micros(us) {std::hint::spin_loop();}
                doubt = Some((k, v)); died = true; break;
            }
            match p.say(serde_json::json!(["w", k.0, k.1, v])) {
                None => {doubt = Some((k, v)); died = true; break;},
                Some(r) if limit.is_some() && survive && r.get("err").is_some() => {g.label("write refused"); doubt = Some((k, v)); died = true; break;},
                Some(r) => {ensure!(r.get("err").is_none(), "write fails", "{r}"); model.insert(k, v);}
            }
        }
        drop(p);
        if died {g.label("died in a write"); g.nontrivial();}
        let c = Cache::from(CachePath::from(&*path));
        if let Some((k, v)) = doubt {
            match c.read(&k.0, &k.1) {
                Err(e) => return fail("unusable after a crash", format!("{e:?}")),
                Ok(got) => {
                    ensure!(got == model.get(&k).cloned() || got == Some(v.clone()), "half a write", "{k:?}: {got:?} is neither the old nor the new value");
                    if got == Some(v.clone()) {model.insert(k, v);}
                }
            }
        }
        for (k, v) in &model {match c.read(&k.0, &k.1) {Err(e) => return fail("unusable after a crash", format!("{e:?}")), Ok(got) => ensure_eq!(got, Some(v.clone()), "lost in a crash", "{k:?}")}}
        let k = key(g);
        if let Err(e) = c.write(&k.0, &k.1, Some("after")) {return fail("unusable after a crash", format!("{e:?}"));}
        model.insert(k, Some("after".into()));
    }
    Ok(())
}
/// Processes that all start with a file that is not there (or is), at once.
fn p15_race(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    if g.chance(1, 3) {prepare(g, &path, &mut HashMap::new());}
    let n = 2 + g.usize(4);
    let m = 1 + g.usize(4);
    g.input(format!("{n} processes, {m} writes each")); g.nontrivial();
    let mut ps: Vec<Proc> = (0..n).map(|_| Proc::new(&path, None, false)).collect();
    let all = Arc::new(Barrier::new(n));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| for (i, p) in ps.iter_mut().enumerate() {
        let (all, bad) = (all.clone(), &bad);
        s.spawn(move || {
            // The process is up once it answers.
            let r = p.say(serde_json::json!(["d"]));
            if r.is_none() {panic!("harness/src: child gone");}
            all.wait();
            for j in 0..m {
                for (k, v) in [(format!("own {i}"), format!("{j}")), ("shared".to_string(), format!("{i} {j}"))] {
                    let r = p.say(serde_json::json!(["w", "race", k, v])).expect("harness/src: child gone");
                    if r.get("err").is_some() {*bad.lock().expect("harness/src: lock") = Some(format!("process {i}, write {k}: {r}"));}
                }
                let r = p.say(serde_json::json!(["r", "race", format!("own {i}")])).expect("harness/src: child gone");
                if entry(&r) != Some(Some(j.to_string())) {*bad.lock().expect("harness/src: lock") = Some(format!("process {i} wrote {j} and read {r}"));}
            }
        });
    });
    if let Some(e) = bad.into_inner().expect("harness/src: lock") {return fail("fails when shared by processes", e);}
    let c = Cache::from(CachePath::from(&*path));
    for i in 0..n {match c.read("race", &format!("own {i}")) {Err(e) => return fail("read fails", format!("{e:?}")), Ok(got) => ensure_eq!(got, Some(Some((m - 1).to_string())), "write lost", "own {i}")}}
    match c.read("race", "shared") {Err(e) => return fail("read fails", format!("{e:?}")), Ok(got) => ensure!((0..n).any(|i| got == Some(Some(format!("{i} {}", m - 1)))), "write lost", "shared: {got:?}")}
    Ok(())
}

pub fn prop() -> Prop {Prop {id: "P15", rule: "history: a key is overwritten and there is more than one handle or a reopening; apart: something is written; threads: two writes; crash: a process died within a write; processes and race: every case",
    assumptions: &["SQLite's locking and rollback journal work on the scratch directory's file system", "crashes are those of the process, not of the machine"],
    subs: vec![Sub {name: "history", quick: 12_000, thorough: 300_000, threads: 8, f: p15_history}, Sub {name: "apart", quick: 4_000, thorough: 60_000, threads: 8, f: p15_apart}, Sub {name: "threads", quick: 2_500, thorough: 60_000, threads: 4, f: p15_threads},
        Sub {name: "processes", quick: 800, thorough: 20_000, threads: 8, f: p15_processes}, Sub {name: "crash", quick: 1_200, thorough: 30_000, threads: 8, f: p15_crash}, Sub {name: "race", quick: 500, thorough: 10_000, threads: 3, f: p15_race}], repro: vec![]}}
