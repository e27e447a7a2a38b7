//! P19: batches against each task alone.
use crate::cfg::Cx;
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::defcfg;
use crate::gn;
use crate::refcfg::{self, St};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::sync::Mutex;
use url_cleaner::glue::*;
use url_cleaner::types::*;

type R = Result<String, String>;
#[derive(Clone, Debug)]
struct T {url: String, vars: std::collections::BTreeMap<String, String>}
impl T {
    fn json(&self) -> Value {json!({"url": self.url, "context": {"vars": self.vars}})}
    fn config(&self) -> Result<TaskConfig, MakeTaskConfigError> {Ok(TaskConfig {url: BetterUrl::parse(&self.url)?, context: TaskContext {vars: self.vars.clone().into_iter().collect()}})}
}
fn done(t: Task) -> R {t.r#do().map(|u| format!("{}\0{:?}", u.as_str(), u.host_details())).map_err(|e| format!("{e:?}"))}
/// In a config, a job and a cache of its own.
fn alone(c: &Config, j: &JobContext, t: &T) -> R {
    let jc = JobConfig {config: Cow::Borrowed(c), cache: Cache::default()};
    match t.config() {Ok(t) => done(jc.new_task(t, j)), Err(e) => Err(format!("{e:?}"))}
}
/// Runs the batch in one of several ways; results in the order of `order`.
fn batch(g: &mut G, c: &Config, j: &JobContext, ts: &[T]) -> Result<(String, Vec<R>), Fail> {
    let jc = JobConfig {config: Cow::Borrowed(c), cache: Cache::default()};
    let n = ts.len();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {if g.flip() {order.swap(i, g.usize(i + 1));}}
    let mut out: Vec<Option<R>> = vec![None; n];
    let how = match g.usize(5) {
        0 => {
            // As a job, each task done before the next is made.
            let ts2: Vec<T> = ts.to_vec();
            let mut job = Job {config: jc, context: Cow::Borrowed(j), task_configs_source: Box::new(ts2.into_iter().map(|t| t.config()))};
            let rs: Vec<R> = job.iter().map(|t| match t {Ok(t) => done(t), Err(MakeTaskError::MakeTaskConfigError(e)) => Err(format!("{e:?}"))}).collect();
            ensure_eq!(rs.len(), n, "number of results", "");
            for (i, r) in rs.into_iter().enumerate() {out[i] = Some(r);}
            "job".to_string()
        },
        1 => {
            // All made first, done in any order.
            let ts2: Vec<T> = ts.to_vec();
            let mut job = Job {config: jc, context: Cow::Borrowed(j), task_configs_source: Box::new(ts2.into_iter().map(|t| t.config()))};
            let mut made: Vec<Option<Result<Task, MakeTaskError>>> = job.iter().map(Some).collect();
            ensure_eq!(made.len(), n, "number of tasks", "");
            for &i in &order {out[i] = Some(match made[i].take() {Some(Ok(t)) => done(t), Some(Err(MakeTaskError::MakeTaskConfigError(e))) => Err(format!("{e:?}")), None => unreachable!()});}
            format!("all made, done in order {order:?}")
        },
        2 => {
            // Two jobs of the same config one after the other.
            for &i in &order {out[i] = Some(alone(c, j, &ts[i]));}
            for &i in &order {let again = match ts[i].config() {Ok(t) => done(jc.new_task(t, j)), Err(e) => Err(format!("{e:?}"))}; ensure_eq!(Some(&again), out[i].as_ref(), "second job", "task {i} {:?}", ts[i]);}
            format!("twice in order {order:?}")
        },
        _ => {
            let threads = 2 + g.usize(3);
            let next = Mutex::new(order.iter());
            let results = Mutex::new(&mut out);
            std::thread::scope(|s| for _ in 0..threads {s.spawn(|| while let Some(&i) = {let x = next.lock().expect("harness/src").next(); x} {
                let r = match ts[i].config() {Ok(t) => guard(std::panic::AssertUnwindSafe(|| done(jc.new_task(t, j)))).unwrap_or_else(|e| Err(format!("panic {e}"))), Err(e) => Err(format!("{e:?}"))};
                results.lock().expect("harness/src")[i] = Some(r);
            });});
            format!("{threads} threads in order {order:?}")
        }
    };
    Ok((how, out.into_iter().map(|x| x.expect("harness/src: a task was left out")).collect()))
}
fn tasks(g: &mut G, mut one: impl FnMut(&mut G) -> T) -> Vec<T> {
    let mut ts: Vec<T> = Vec::new();
    for _ in 0..2 + g.usize(6) {
        let t = if !ts.is_empty() && g.chance(1, 4) {ts[g.usize(ts.len())].clone()} else {one(g)};
        ts.push(t);
    }
    ts
}
fn generated(g: &mut G) -> Option<(Value, Value, Value, Vec<T>)> {
    let d = g.usize(3) as u32;
    let mut cx = Cx::new(g);
    let mut st = cx.state(1);
    let rules = cx.rules(d);
    let urls: Vec<String> = (0..4).map(|_| cx.url()).collect();
    // Things that must not carry over are made likely to be set, and to be seen.
    let extra: Vec<Value> = (0..g.usize(3)).map(|_| match g.usize(5) {
        0 => json!({"Mapper": {"SetScratchpadFlag": {"name": g.of(crate::cfg::FLAGS), "value": g.flip()}}}),
        1 => json!({"Mapper": {"SetScratchpadVar": {"name": g.of(crate::cfg::VARS), "value": {"Part": g.of(&["Host", "Path", "Query"])}}}}),
        2 => json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": g.of(crate::cfg::FLAGS)}}, "mapper": {"SetPart": {"part": "Fragment", "value": "flag"}}}),
        3 => json!({"Mapper": {"SetPart": {"part": {"QueryParam": "seen"}, "value": {"Var": {"type": "Scratchpad", "name": g.of(crate::cfg::VARS)}}}}}),
        _ => json!({"condition": {"PathIs": "/"}, "mapper": {"Error": "told"}})
    }).collect();
    let mut all = rules.as_array().cloned().unwrap_or_default();
    for x in extra {let at = g.usize(all.len() + 1); all.insert(at, x);}
    let c = json!({"params": st["params"], "commons": st["commons"], "rules": all});
    let ts = tasks(g, |g| T {url: match g.usize(8) {0 => gn::url_text(g), 1 => g.of(&["x", "", "https://"]).into(), _ => urls[g.usize(urls.len())].clone()}, vars: (0..g.usize(3)).map(|_| (g.of(crate::cfg::VARS).to_string(), g.of(crate::cfg::STRS).to_string())).collect()});
    let job: Value = json!((0..g.usize(3)).map(|_| (g.of(crate::cfg::VARS).to_string(), g.of(crate::cfg::STRS).to_string())).collect::<std::collections::BTreeMap<_, _>>());
    for t in &ts {
        let mut m = st.clone();
        let Ok(u) = url::Url::parse(&t.url) else {continue};
        m["rules"] = Value::Null; m["url"] = json!(u.as_str()); m["pad"] = json!({}); m["common"] = Value::Null; m["context"] = json!(t.vars); m["job_context"] = job.clone();
        if !matches!(guard(|| refcfg::bounded(|| {let _ = refcfg::rules(&c["rules"], &mut St::new(&m));})), Ok(Some(_))) {g.label("too much work"); return None;}
    }
    st["rules"] = Value::Null;
    Some((c, job, st, ts))
}
fn p19_config(g: &mut G) -> Res {
    let Some((c, job, _, ts)) = generated(g) else {return Ok(())};
    g.input(c.to_string()); g.input(format!("{job} {}", ts.iter().map(|t| t.json().to_string()).collect::<Vec<_>>().join(" ")));
    let read = || serde_json::from_str::<Config>(&c.to_string()).expect("harness/src: config");
    let j = JobContext {vars: serde_json::from_value(job).expect("harness/src: job context")};
    let want: Vec<R> = ts.iter().map(|t| alone(&read(), &j, t)).collect();
    if want.iter().any(|r| r.is_ok()) && want.iter().collect::<std::collections::BTreeSet<_>>().len() > 1 {g.nontrivial();}
    let shared = read();
    for _ in 0..2 {
        let (how, got) = batch(g, &shared, &j, &ts)?;
        for (i, (a, b)) in got.iter().zip(&want).enumerate() {ensure_eq!(a, b, "differs from the task alone", "{how}: task {i} {:?}", ts[i]);}
    }
    ensure!(shared == read(), "the config changed", "");
    Ok(())
}
fn p19_default(g: &mut G) -> Res {
    let (flags, c) = defcfg::variant(g.usize(defcfg::POOL));
    let ts = tasks(g, |g| T {url: defcfg::known_url(g), vars: defcfg::context(g).vars.into_iter().collect()});
    let j = defcfg::job_context(g);
    g.input(format!("{flags:?} {:?} {}", j.vars, ts.iter().map(|t| t.json().to_string()).collect::<Vec<_>>().join(" ")));
    let want: Vec<R> = ts.iter().map(|t| alone(c, &j, t)).collect();
    if want.iter().zip(&ts).any(|(r, t)| r.as_ref().is_ok_and(|r| !r.starts_with(&format!("{}\0", t.url)))) {g.nontrivial();}
    let (how, got) = batch(g, c, &j, &ts)?;
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {ensure_eq!(a, b, "differs from the task alone", "{how}: task {i} {:?}", ts[i]);}
    Ok(())
}
/// The program with the batch, against the library with each task alone.
fn p19_program(g: &mut G) -> Res {
    let Some((c, job, _, ts)) = generated(g) else {return Ok(())};
    let dir = Scratch::fast(g)?;
    let conf = dir.write("config.json", &c.to_string())?;
    let read = || serde_json::from_str::<Config>(&c.to_string()).expect("harness/src: config");
    let j = JobContext {vars: serde_json::from_value(job.clone()).expect("harness/src: job context")};
    let threads = g.of(&[1usize, 2, 3, 8]);
    let mut order: Vec<usize> = (0..ts.len()).collect();
    for i in (1..ts.len()).rev() {order.swap(i, g.usize(i + 1));}
    let at = g.usize(ts.len() + 1);
    g.input(c.to_string()); g.input(format!("{job} {threads} threads, {at} as arguments: {}", order.iter().map(|&i| ts[i].json().to_string()).collect::<Vec<_>>().join(" ")));
    let mut argv = vec!["-c".to_string(), conf, "--threads".into(), threads.to_string(), "--job-context".into(), json!({"vars": job}).to_string(), "--".into()];
    argv.extend(order[..at].iter().map(|&i| ts[i].json().to_string()));
    let stdin: String = order[at..].iter().map(|&i| format!("{}\n", ts[i].json())).collect();
    let want: Vec<String> = order.iter().map(|&i| alone(&read(), &j, &ts[i]).map(|u| u.split('\0').next().unwrap_or("").to_string()).unwrap_or_default()).collect();
    if want.iter().collect::<std::collections::BTreeSet<_>>().len() > 1 {g.nontrivial();}
    let out = cli::run(&argv, stdin.as_bytes(), 100)?;
    ensure_eq!(out.text(), want.iter().map(|l| format!("{l}\n")).collect::<String>(), "differs from the task alone", "{}", out.err());
    Ok(())
}
pub fn prop() -> Prop {Prop {id: "P19", rule: "config and program: outcomes differ within the batch; default: a URL of the batch changes",
    assumptions: &["network and commands are not used, the cache is not shared", "schedules are the operating system's"],
    subs: vec![Sub {name: "config", quick: 25_000, thorough: 800_000, threads: 8, f: p19_config}, Sub {name: "default", quick: 12_000, thorough: 300_000, threads: 6, f: p19_default}, Sub {name: "program", quick: 1_200, thorough: 30_000, threads: 6, f: p19_program}], repro: vec![]}}
