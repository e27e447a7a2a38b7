//! P16: cached sources, mappings and redirects against a model of the cache and a count of the work done.
use crate::cli::Scratch;
use crate::core::*;
use crate::http::*;
use crate::real::Env;
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use url_cleaner::glue::*;
use url_cleaner::types::*;

#[derive(Default, Debug)]
struct Work {done: u32, source: Option<Result<Option<String>, ()>>, url: Option<Result<String, ()>>}
thread_local! {static WORK: RefCell<Work> = RefCell::new(Work::default());}
#[derive(Debug)] struct Failed;
impl std::fmt::Display for Failed {fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {f.write_str("failed as told")}}
impl std::error::Error for Failed {}
fn source_work<'a>(_: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> {
    WORK.with(|w| {let mut w = w.borrow_mut(); w.done += 1; match w.source.clone().expect("harness/src: no work planned") {Ok(x) => Ok(x.map(Cow::Owned)), Err(()) => Err(StringSourceError::Custom(Box::new(Failed)))}})
}
fn url_work(s: &mut TaskState) -> Result<(), MapperError> {
    WORK.with(|w| {let mut w = w.borrow_mut(); w.done += 1; match w.url.clone().expect("harness/src: no work planned") {Ok(x) => {*s.url = BetterUrl::parse(&x).expect("harness/src: planned URL"); Ok(())}, Err(()) => Err(MapperError::Custom(Box::new(Failed)))}})
}
const CATS: &[&str] = &["c", "c", "d", "redirect", ""];
const LONG: &str = match std::str::from_utf8(&[b'x'; 300]) {Ok(x) => x, Err(_) => ""};
const KEYS: &[&str] = &["k", "k", "k", "l", "https://h/1", "https://h/2", "", LONG];
const VALUES: &[Option<&str>] = &[Some("x"), Some("y"), None, Some("https://new/"), Some(""), Some("not a url")];

fn p16_history(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let open = |g: &mut G, old: &Cache, memory: bool| if memory || g.flip() {old.clone()} else {Cache::from(CachePath::from(&*path))};
    let memory = g.flip();
    let mut cache = Cache::from(if memory {CachePath::Memory} else {CachePath::from(&*path)});
    let mut model: HashMap<(String, String), Option<String>> = HashMap::new();
    // The server of the redirects: what it answers is set before each step.
    let plan: Arc<Mutex<(u16, Option<String>, bool)>> = Arc::new(Mutex::new((302, None, false)));
    let pl = plan.clone();
    // What the end of a chain answers, if the redirects are followed.
    let end: Arc<Mutex<u16>> = Arc::new(Mutex::new(200));
    let en = end.clone();
    let mut server: Option<Server> = None;
    let n = 2 + g.usize(8);
    let (mut hits, mut fails) = (0, 0);
    for step in 0..n {
        cache = open(g, &cache, memory);
        let (read, write) = (!g.chance(1, 5), !g.chance(1, 5));
        let start = g.of(&["https://h/1", "https://h/2", "https://h/1?q#f"]).to_string();
        let mut env = Env::new(&json!({"url": start, "params": {"read_cache": read, "write_cache": write}})).expect("harness/src: env");
        env.cache = cache.clone();
        let before = env.snapshot();
        let cat = g.of(CATS).to_string();
        WORK.with(|w| *w.borrow_mut() = Work::default());
        match g.weighted(&[4, 4, 1, 1]) {
            0 => {
                let key = g.of(KEYS).to_string();
                let plan = if g.chance(1, 4) {Err(())} else {Ok(g.of(VALUES).map(|x| x.to_string()))};
                WORK.with(|w| w.borrow_mut().source = Some(plan.clone()));
                let (no_cat, no_key) = (g.chance(1, 20), g.chance(1, 20));
                g.input(format!("{step}: source {cat}/{key}, work gives {plan:?}, read {read}, write {write}, missing {no_cat} {no_key}"));
                let s = |x: &str, none: bool| Box::new(if none {StringSource::None} else {StringSource::String(x.to_string())});
                let src = StringSource::Cache {category: s(&cat, no_cat), key: s(&key, no_key), value: Box::new(StringSource::Custom(source_work))};
                let got = src.get(&env.view()).map(|x| x.map(|x| x.into_owned())).map_err(|e| format!("{e:?}"));
                let done = WORK.with(|w| w.borrow().done);
                if no_cat || no_key {ensure!(got.is_err(), "no category or key", "{got:?}"); ensure_eq!(done, 0, "work without a key", "");}
                else if let Some(v) = model.get(&(cat.clone(), key.clone())).filter(|_| read) {
                    hits += 1;
                    ensure_eq!(got, Ok(v.clone()), "cached value", "");
                    ensure_eq!(done, 0, "work done again", "{cat}/{key} is stored");
                } else {
                    ensure_eq!(done, 1, "work done once", "");
                    match plan {
                        Err(()) => {fails += 1; ensure!(got.is_err(), "failed work", "{got:?}");},
                        Ok(v) => {ensure_eq!(got, Ok(v.clone()), "value of the work", ""); if write {model.insert((cat, key), v);}}
                    }
                }
                ensure_eq!(env.snapshot(), before, "source changes the task", "");
            },
            kind @ 1..=2 => {
                let plan = if g.chance(1, 4) {Err(())} else {Ok(g.of(&["https://new/", "https://h/2", "https://h/1", "mailto:x"]).to_string())};
                WORK.with(|w| w.borrow_mut().url = Some(plan.clone()));
                let no_cat = g.chance(1, 20);
                g.input(format!("{step}: URL {start} in {cat}, work gives {plan:?}, read {read}, write {write}, missing {no_cat}, nested {}", kind == 2));
                let c = |x: &str| if no_cat {StringSource::None} else {StringSource::String(x.to_string())};
                let inner = Mapper::CacheUrl {category: c(&cat), mapper: Box::new(Mapper::Custom(url_work))};
                // Nested: something else changes the URL first; the key is the URL it gives.
                let m = if kind == 2 {Mapper::All(vec![Mapper::SetPart {part: UrlPart::Fragment, value: StringSource::String("n".into())}, inner])} else {inner};
                let got = m.apply(&mut env.state()).map_err(|e| format!("{e:?}"));
                let done = WORK.with(|w| w.borrow().done);
                let mut from = url::Url::parse(&start).expect("harness/src: url");
                if kind == 2 {from.set_fragment(Some("n"));}
                let key = from.to_string();
                if no_cat {ensure!(got.is_err(), "no category", "{got:?}"); ensure_eq!(done, 0, "work without a key", "");}
                else if let Some(v) = model.get(&(cat.clone(), key.clone())).filter(|_| read) {
                    hits += 1;
                    ensure_eq!(done, 0, "work done again", "{cat}/{key} is stored");
                    match v.as_ref().and_then(|v| url::Url::parse(v).ok()) {
                        Some(u) => {ensure!(got.is_ok(), "cached URL", "{got:?}"); ensure_eq!(env.url.as_str(), u.as_str(), "cached URL", "");},
                        None => {ensure!(got.is_err(), "cached value that is no URL", "{v:?}"); ensure_eq!(env.url.as_str(), key, "URL changed by an error", "");}
                    }
                } else {
                    ensure_eq!(done, 1, "work done once", "");
                    match plan {
                        Err(()) => {fails += 1; ensure!(got.is_err(), "failed work", "{got:?}");},
                        Ok(v) => {
                            let v = url::Url::parse(&v).expect("harness/src: url").to_string();
                            ensure!(got.is_ok(), "work", "{got:?}"); ensure_eq!(env.url.as_str(), v, "URL of the work", "");
                            if write {model.insert((cat, key), Some(v));}
                        }
                    }
                }
            },
            _ => {
                let (pl, en) = (pl.clone(), en.clone());
                let sv = server.get_or_insert_with(|| Server::new(Box::new(move |r| {
                    if let Some(n) = r.target.strip_prefix("/hop") {
                        if n == "2" {return answer(301, &[("location".into(), b"hop".to_vec())], b"");}
                        return answer(*en.lock().expect("harness/src: end"), &[], b"x");
                    }
                    let p = pl.lock().expect("harness/src: plan").clone();
                    if p.2 {return Vec::new();}
                    let h: Vec<(String, Vec<u8>)> = p.1.iter().map(|l| ("location".to_string(), l.clone().into_bytes())).collect();
                    answer(p.0, &h, b"")
                })));
                let from = sv.url(g.of(&["/1", "/2"]));
                let (status, location, broken) = match g.usize(6) {0 => (302, None, false), 1 => (302, Some("not a:// url\u{7f}".replace('\u{7f}', "")), true), 2 | 3 => (g.of(&[200, 201, 204, 404, 410, 500, 503]), None, false), _ => (g.of(&[301, 302, 303, 307, 308]), Some(g.of(&["https://new/", "https://h/1", "https://h/2?x#y"]).to_string()), false)};
                // Followed by the client itself: what counts is where it ends up, and what was asked for is the key.
                let follow = if !broken && location.is_some() && g.flip() {1 + g.usize(2)} else {0};
                let location = match follow {0 => location, 1 => Some("/hop".into()), _ => Some("/hop2".into())};
                *end.lock().expect("harness/src: end") = g.of(&[200, 404, 500]);
                *plan.lock().expect("harness/src: plan") = (status, location.clone(), broken);
                env.url = BetterUrl::parse(&from).expect("harness/src: url");
                g.input(format!("{step}: redirect {}, server: {status} {location:?} broken {broken}, read {read}, write {write}, follow {follow}", &from[from.len() - 2..]));
                let m = Mapper::ExpandRedirect {headers: Default::default(), http_client_config_diff: (follow == 0).then(|| Box::new(HttpClientConfigDiff {redirect_policy: Some(RedirectPolicy::None), ..Default::default()}))};
                let got = m.apply(&mut env.state()).map_err(|e| format!("{e:?}"));
                let done = sv.taken().len();
                let k = ("redirect".to_string(), from.clone());
                if let Some(v) = model.get(&k).filter(|_| read) {
                    hits += 1;
                    ensure_eq!(done, 0, "request sent again", "{from} is stored");
                    ensure!(got.is_ok(), "cached redirect", "{got:?}"); ensure_eq!(Some(env.url.to_string()), v.clone(), "cached redirect", "");
                } else {
                    if !broken {ensure_eq!(done, 1 + follow, "one request", "");} else {ensure!(done >= 1, "one request", "none");}
                    let want = if broken {None} else if follow > 0 {Some(sv.url("/hop"))} else if (300..400).contains(&status) {location} else {Some(from.clone())};
                    match want {
                        None => {fails += 1; ensure!(got.is_err(), "failed redirect", "{got:?}"); ensure_eq!(env.url.as_str(), from, "URL changed by an error", "");},
                        Some(u) => {ensure!(got.is_ok(), "redirect", "{got:?}"); ensure_eq!(env.url.as_str(), u, "redirect", ""); if write {model.insert(k, Some(u));}}
                    }
                }
            }
        }
        // Nothing else is in the cache.
        let extra = if memory {cache.clone()} else {Cache::from(CachePath::from(&*path))};
        for c in CATS {for k in KEYS.iter().map(|x| x.to_string()).chain(["https://h/1?q#f", "https://h/1?q#n", "https://h/1#n", "https://h/2#n", "https://new/"].map(String::from)) {
            match extra.read(c, &k) {Err(e) => return fail("cache unusable", format!("{e:?}")), Ok(got) => ensure_eq!(got, model.get(&(c.to_string(), k.clone())).cloned(), "what is stored", "after step {step}: {c}/{k}")}
        }}
    }
    if hits > 0 {g.nontrivial(); g.label("hit");}
    if fails > 0 {g.label("failed work");}
    Ok(())
}

/// Whole tasks of one job share the cache: a mapping is computed once per URL however many tasks and threads there are in sequence.
fn p16_jobs(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let path = dir.path("cache.sqlite");
    let (read, write) = (!g.chance(1, 4), !g.chance(1, 4));
    let served: Arc<Mutex<u32>> = Arc::new(Mutex::new(0));
    let sv = served.clone();
    let fail_first = if g.flip() {g.below(3) as u32} else {0};
    let server = Server::new(Box::new(move |r| {
        let mut n = sv.lock().expect("harness/src: count"); *n += 1;
        if *n <= fail_first {return answer(302, &[], b"");}
        answer(302, &[("location".into(), format!("https://target{}#{}", r.target, *n).into_bytes())], b"")
    }));
    let config: Config = serde_json::from_value(json!({"params": {"read_cache": read, "write_cache": write, "http_client_config": {"redirect_policy": "None"}}, "rules": [{"Mapper": {"ExpandRedirect": {}}}], "cache_path": path})).expect("harness/src: config");
    let urls: Vec<String> = g.vec(2, 6, |g| g.of(&["/a", "/b"]).to_string());
    g.input(format!("{urls:?} read {read} write {write} failing first {fail_first}"));
    let mut count = 0u32;
    let mut stored: HashMap<String, String> = HashMap::new();
    let mut i = 0;
    while i < urls.len() {
        // A job of a few tasks; the next job is another one with the same config.
        let m = (1 + g.usize(3)).min(urls.len() - i);
        let jc = JobConfig {cache: config.cache_path.clone().into(), config: Cow::Borrowed(&config)};
        let ctx = JobContext::default();
        for u in &urls[i..i + m] {
            let got = jc.new_task(server.url(u).parse::<TaskConfig>().expect("harness/src: task"), &ctx).r#do().map(|x| x.to_string()).map_err(|e| format!("{e:?}"));
            let want = if let Some(x) = stored.get(u).filter(|_| read) {Some(x.clone())} else {
                count += 1;
                if count <= fail_first {None} else {let x = format!("https://target{u}#{count}"); if write {stored.insert(u.clone(), x.clone());} Some(x)}
            };
            ensure_eq!(*served.lock().expect("harness/src: count"), count, "requests", "{u}");
            match want {None => ensure!(got.is_err(), "failed redirect", "{got:?}"), Some(x) => ensure_eq!(got, Ok(x), "result", "{u}")}
        }
        i += m;
    }
    if urls.iter().any(|u| urls.iter().filter(|x| *x == u).count() > 1) {g.nontrivial();}
    Ok(())
}

/// A cache that cannot be used fails the step that needs it, and only that; switched off, it is not touched.
fn p16_faults(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let kind = g.usize(4);
    let path = match kind {
        0 => dir.path("no/such/directory/cache.sqlite"),
        1 => dir.path(""),
        2 => {std::fs::write(dir.path("x"), "this is not a database, and longer than the header of one is. ".repeat(40)).expect("harness/src: file"); dir.path("x")},
        _ => {std::fs::write(dir.path("f"), "").expect("harness/src: file"); dir.path("f/cache.sqlite")}
    };
    let (read, write) = (g.flip(), g.flip());
    let which = g.usize(3);
    let works = g.chance(3, 4);
    let caught = g.flip();
    let mut env = Env::new(&json!({"url": "https://h/1", "params": {"read_cache": read, "write_cache": write}})).expect("harness/src: env");
    env.cache = Cache::from(CachePath::from(&*path));
    WORK.with(|w| *w.borrow_mut() = Work {done: 0, source: Some(if works {Ok(Some("v".into()))} else {Err(())}), url: Some(if works {Ok("https://new/".into())} else {Err(())})});
    g.input(format!("cache of kind {kind}, read {read}, write {write}, element {which}, work succeeds {works}, caught {caught}"));
    let mut server = None;
    let s = |x: &str| Box::new(StringSource::String(x.to_string()));
    let mut value = None;
    let (start, m) = match which {
        0 => ("https://h/1".to_string(), Mapper::CacheUrl {category: StringSource::String("c".into()), mapper: Box::new(Mapper::Custom(url_work))}),
        1 => ("https://h/1".to_string(), Mapper::SetScratchpadVar {name: StringSource::String("got".into()), value: StringSource::Cache {category: s("c"), key: s("k"), value: Box::new(StringSource::Custom(source_work))}}),
        _ => {
            let sv = server.insert(Server::new(Box::new(move |_| if works {answer(302, &[("location".into(), b"https://new/".to_vec())], b"")} else {answer(302, &[], b"")})));
            let u = sv.url("/1");
            (u, Mapper::ExpandRedirect {headers: Default::default(), http_client_config_diff: Some(Box::new(HttpClientConfigDiff {redirect_policy: Some(RedirectPolicy::None), ..Default::default()}))})
        }
    };
    env.url = BetterUrl::parse(&start).expect("harness/src: url");
    let fails = read || write || !works;
    let m = if caught {Mapper::TryElse {r#try: Box::new(Mapper::RevertOnError(Box::new(m))), r#else: Box::new(Mapper::SetScratchpadFlag {name: StringSource::String("failed".into()), value: true})}} else {m};
    let got = m.apply(&mut env.state()).map_err(|e| format!("{e:?}"));
    if let Some(v) = env.pad.vars.get("got") {value = Some(v.clone());}
    let failed = if caught {ensure!(got.is_ok(), "fallback", "{got:?}"); env.pad.flags.contains("failed")} else {got.is_err()};
    ensure_eq!(failed, fails, "whether the step fails", "{got:?}");
    if fails {ensure!(value.is_none(), "value of a failed step", "{value:?}");}
    if fails && (caught || which != 0) {ensure_eq!(env.url.as_str(), start, "URL of a failed step", "");}
    if !fails {if which == 1 {ensure_eq!(value.as_deref(), Some("v"), "value", "");} else {ensure_eq!(env.url.as_str(), "https://new/", "URL", "");}}
    let done = server.as_ref().map(|s| s.taken().len() as u32).unwrap_or_else(|| WORK.with(|w| w.borrow().done));
    if !read {ensure_eq!(done, 1, "work done once", "");}
    match kind {
        0 => ensure!(!std::path::Path::new(&dir.path("no")).exists(), "files made", "{path}"),
        2 => ensure!(std::fs::read_to_string(&path).is_ok_and(|s| s.starts_with("this is not")), "file changed", "{path}"),
        _ => {}
    }
    if read != write {g.nontrivial();}
    Ok(())
}

pub fn prop() -> Prop {Prop {id: "P16", rule: "history: a stored result is used at least once; jobs: a URL comes twice; faults: one of the two switches is on",
    assumptions: &["the loopback interface works", "work is counted by functions built in with the `custom` feature and by a loopback server"],
    subs: vec![Sub {name: "history", quick: 10_000, thorough: 200_000, threads: 8, f: p16_history}, Sub {name: "jobs", quick: 500, thorough: 10_000, threads: 8, f: p16_jobs},
        Sub {name: "faults", quick: 4_000, thorough: 40_000, threads: 8, f: p16_faults}], repro: vec![]}}
