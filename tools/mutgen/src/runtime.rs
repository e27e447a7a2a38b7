//! Chooses the active mutant.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;
static MUT: OnceLock<(u32, Option<String>)> = OnceLock::new();
static SEEN: [AtomicBool; 20000] = [const {AtomicBool::new(false)}; 20000];
/// Whether mutant `n` is active; the ones reached are listed in the file UC_COV.
pub fn m(n: u32) -> bool {
    let (k, cov) = MUT.get_or_init(|| (std::env::var("UC_MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0), std::env::var("UC_COV").ok()));
    if let Some(f) = cov && !SEEN[n as usize].swap(true, Ordering::Relaxed) {
        use std::io::Write;
        let _ = std::fs::OpenOptions::new().create(true).append(true).open(f).and_then(|mut f| f.write_all(format!("{n}\n").as_bytes()));
    }
    *k == n
}
