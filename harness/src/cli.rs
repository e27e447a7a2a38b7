//! Runs the real url-cleaner program inside a scratch directory.
use crate::core::*;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static N: AtomicU64 = AtomicU64::new(0);
/// A directory that is removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(_: &G) -> Result<Self, Fail> {
        let p = std::env::temp_dir().join(format!("uch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("harness/src: scratch directory");
        Ok(Self(p))
    }
    /// One in memory where the system has such a place.
    pub fn fast(g: &G) -> Result<Self, Fail> {
        let p = std::path::Path::new("/dev/shm").join(format!("uch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        if std::fs::create_dir_all(&p).is_ok() {Ok(Self(p))} else {Self::new(g)}
    }
    pub fn path(&self, n: &str) -> String {self.0.join(n).to_str().unwrap().to_string()}
    pub fn write(&self, n: &str, s: &str) -> Result<String, Fail> {std::fs::write(self.0.join(n), s).expect("harness/src: scratch file"); Ok(self.path(n))}
}
impl Drop for Scratch {fn drop(&mut self) {let _ = std::fs::remove_dir_all(&self.0);}}

pub struct Out {pub code: Option<i32>, pub stdout: Vec<u8>, pub stderr: Vec<u8>}
impl Out {
    pub fn text(&self) -> String {String::from_utf8_lossy(&self.stdout).into_owned()}
    pub fn err(&self) -> String {String::from_utf8_lossy(&self.stderr).into_owned()}
}
pub fn program() -> String {std::env::var("UCH_CLI").unwrap_or_else(|_| "/verif/target/cli/debug/url-cleaner".into())}
/// Runs the program with `stdin`; not ending within `secs` is a failure.
pub fn run(argv: &[String], stdin: &[u8], secs: u64) -> Result<Out, Fail> {run_in(argv, stdin, secs, None, &[])}
pub fn run_in(argv: &[String], stdin: &[u8], secs: u64, cwd: Option<&str>, env: &[(&str, &str)]) -> Result<Out, Fail> {run_slowly(argv, &[stdin.to_vec()], secs, cwd, env)}
/// `stdin` comes in pieces with a pause between them.
pub fn run_slowly(argv: &[String], stdin: &[Vec<u8>], secs: u64, cwd: Option<&str>, env: &[(&str, &str)]) -> Result<Out, Fail> {
    let mut c = Command::new(program());
    c.args(argv).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(d) = cwd {c.current_dir(d);}
    for (k, v) in env {c.env(k, v);}
    let mut p = c.spawn().expect("harness/src: the program does not start");
    let (mut i, mut o, mut e) = (p.stdin.take().unwrap(), p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let data = stdin.to_vec();
    let ti = std::thread::spawn(move || {
        for (n, x) in data.iter().enumerate() {if n > 0 {std::thread::sleep(Duration::from_millis(25));} if i.write_all(x).is_err() {break;}}
        drop(i);
    });
    let to = std::thread::spawn(move || {let mut b = Vec::new(); let _ = o.read_to_end(&mut b); b});
    let te = std::thread::spawn(move || {let mut b = Vec::new(); let _ = e.read_to_end(&mut b); b});
    let start = Instant::now();
    let mut nap = 200;
    let code = loop {
        match p.try_wait() {
            Ok(Some(s)) => break s.code(),
            Ok(None) => {
                if start.elapsed() > Duration::from_secs(secs) {let _ = p.kill(); let _ = p.wait(); return fail("program hangs", format!("{argv:?} did not end within {secs} s"));}
                std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 2).min(5000);
            },
            Err(e) => panic!("harness/src: {e}")
        }
    };
    let _ = ti.join();
    Ok(Out {code, stdout: to.join().unwrap(), stderr: te.join().unwrap()})
}
