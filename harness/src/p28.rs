//! P28: commands, run with a tool (this program under another name) that reports what it was given and answers as told.
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::real::{parse, Env};
use crate::{ensure, ensure_eq};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::time::Duration;
use url_cleaner::glue::*;
use url_cleaner::types::*;

fn hex(b: &[u8]) -> String {b.iter().map(|x| format!("{x:02x}")).collect()}
fn unhex(s: &str) -> Vec<u8> {(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()}
/// What the tool does is in the file `plan` beside it: read none, some or all of its input before, while or after answering.
pub fn tool() {
    std::thread::spawn(|| {std::thread::sleep(Duration::from_secs(60)); std::process::abort();});
    let mut args = std::env::args_os();
    let me = args.next().map(|x| x.into_string().unwrap_or_default()).unwrap_or_default();
    let dir = std::path::Path::new(&me).parent().expect("harness/src: tool directory").to_path_buf();
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("plan")).unwrap_or_default()).expect("harness/src: tool plan");
    let args: Vec<String> = args.map(|x| hex(&x.into_vec())).collect();
    let env: BTreeMap<String, String> = std::env::vars_os().map(|(k, v)| (hex(&k.into_vec()), hex(&v.into_vec()))).collect();
    let mut out = std::io::stdout().lock();
    let mut input = Vec::new();
    let n = plan["size"].as_u64().unwrap_or(0) as usize;
    let chunk = plan["text"].as_str().unwrap_or("").as_bytes().to_vec();
    let emit = |out: &mut std::io::StdoutLock| {for _ in 0..n {if out.write_all(&chunk).is_err() {return;}} let _ = out.write_all(&unhex(plan["tail"].as_str().unwrap_or(""))); let _ = out.flush();};
    if let Some(k) = plan["noise"].as_u64() {let _ = std::io::stderr().write_all(&vec![b'e'; k as usize]);}
    match plan["read"].as_str() {
        Some("all") => {let _ = std::io::stdin().read_to_end(&mut input); emit(&mut out);},
        Some("after") => {emit(&mut out); let _ = std::io::stdin().read_to_end(&mut input);},
        Some("echo") => {let mut b = [0u8; 1000]; while let Ok(k) = std::io::stdin().read(&mut b) {if k == 0 {break;} if out.write_all(&b[..k]).is_err() {break;}}},
        Some("some") => {let mut b = [0u8; 10]; let _ = std::io::stdin().read(&mut b); emit(&mut out);},
        Some("hash") => {let _ = std::io::stdin().read_to_end(&mut input); let _ = write!(out, "{} {}", input.len(), hash_of(&input));},
        _ => emit(&mut out)
    }
    if plan["report"] == true {let _ = std::fs::write(dir.join("report"), json!({"args": args, "env": env, "cwd": std::env::current_dir().ok(), "stdin": hex(&input)}).to_string());}
    let _ = out.flush();
    match plan["end"].as_i64() {
        Some(c) if c >= 0 => std::process::exit(c as i32),
        Some(_) => {let _ = std::process::Command::new("kill").args(["-9", &std::process::id().to_string()]).status(); std::process::abort();},
        None => {}
    }
}
fn place(dir: &Scratch) -> String {
    let p = dir.path("p28 tool");
    std::os::unix::fs::symlink(std::env::current_exe().expect("harness/src: exe"), &p).expect("harness/src: link");
    p
}
/// Runs `f` in another thread; not ending in time is a failure.
fn timed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {let _ = s.send(guard(std::panic::AssertUnwindSafe(f)));});
    match r.recv_timeout(Duration::from_secs(30)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => fail("panic", e),
        Err(_) => fail("hangs", "the command did not end within 30 s")
    }
}
const WORDS: &[&str] = &["", "a", "a b", "é", "-x", "--", "$HOME", "`id`", "a;b", "\"q\"", "\\", "'", "*", "\n", "a=b", "%s"];
#[derive(Clone, Debug)]
enum Val {Some(String), None, Err}
fn val(g: &mut G, params: &mut Map<String, Value>, v: &Val) -> Value {
    match v {
        Val::Some(s) => if g.flip() {json!(s)} else {let n = format!("v{}", params.len()); params.insert(n.clone(), json!(s)); json!({"Var": n})},
        Val::None => json!({"Var": "missing"}),
        Val::Err => json!({"Error": "told to fail"})
    }
}
fn word(g: &mut G) -> Val {match g.weighted(&[20, 1, 1]) {0 => Val::Some(if g.chance(1, 8) {crate::gn::string(g, 8).replace('\0', "")} else {g.of(WORDS).to_string()}), 1 => Val::None, _ => Val::Err}}

/// What the program is given.
fn p28_given(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let prog = place(&dir);
    let mut params = Map::new();
    let mut bad = false;
    let n = g.usize(5);
    let mut args: Vec<(Val, Value)> = (0..n).map(|_| {let v = word(g); let j = val(g, &mut params, &v); (v, j)}).collect();
    if g.chance(1, 30) {args.push((Val::Err, json!("a\0b")));}
    bad |= args.iter().any(|(v, _)| !matches!(v, Val::Some(_)));
    let mut env: BTreeMap<String, String> = std::env::vars().collect();
    let mut envs = Map::new();
    for _ in 0..g.usize(4) {
        let k = g.of(&["UCH_A", "UCH_B", "uch_a", "UCH_ENV_SET", "HOME", "é", " UCH_A", "UCH A ", "1"]).to_string();
        if envs.contains_key(&k) {continue;}
        let v = word(g);
        match &v {Val::Some(s) => {env.insert(k.clone(), s.clone());}, Val::None => {}, Val::Err => bad = true}
        let j = val(g, &mut params, &v); envs.insert(k, j);
    }
    let size = match g.usize(4) {0 => 0, 1 => 1 + g.usize(20), 2 => g.usize(5000), _ => g.usize(400_000)};
    let stdin: Option<Val> = if g.chance(1, 4) {None} else {Some(match g.weighted(&[12, 1, 1]) {0 => Val::Some(g.of(&["x", "é\n", "line\r\n", "\0"]).repeat(size)), 1 => Val::None, _ => Val::Err})};
    bad |= matches!(stdin, Some(Val::None | Val::Err));
    let cwd = match g.usize(4) {0 => {std::fs::create_dir(dir.path("sub dir")).expect("harness/src: dir"); Some(dir.path("sub dir"))}, 1 if g.chance(1, 4) => {bad = true; Some(dir.path("no such dir"))}, _ => None};
    let missing = g.chance(1, 20);
    bad |= missing;
    dir.write("plan", &json!({"read": "all", "report": true, "text": "done", "size": 1, "end": g.of(&[0, 0, 3])}).to_string())?;
    let mut c = json!({"program": if missing {dir.path("no such tool")} else {prog.clone()}});
    if !args.is_empty() || g.flip() {c["args"] = json!(args.iter().map(|x| x.1.clone()).collect::<Vec<_>>());}
    if !envs.is_empty() {c["envs"] = json!(envs);}
    if let Some(v) = &stdin {c["stdin"] = val(g, &mut params, v);}
    if let Some(d) = &cwd {c["current_dir"] = json!(d);}
    let mut shown = c.clone(); if let Some(Val::Some(s)) = &stdin {shown["stdin"] = json!(format!("{} bytes", s.len()));}
    g.input(shown.to_string().replace(&*dir.0.to_string_lossy(), "DIR"));
    if !bad && (!args.is_empty() || !envs.is_empty() || size > 0) {g.nontrivial();}
    let (p2, c2, code) = (params.clone(), c.clone(), stdin.is_none() && g.chance(1, 4));
    let got = timed(move || {
        let e = Env::new(&json!({"url": "https://h/", "params": {"vars": p2}})).expect("harness/src: env");
        if code {parse::<CommandConfig>(&c2).output(&e.view()).map_err(|e| format!("{e:?}"))}
        else {parse::<StringSource>(&json!({"CommandOutput": c2})).get(&e.view()).map(|x| x.map(|x| x.into_owned()).unwrap_or_else(|| "none".into())).map_err(|e| format!("{e:?}"))}
    })?;
    let report = std::fs::read_to_string(dir.path("report")).ok();
    if bad {
        ensure!(got.is_err(), "command that cannot run", "{got:?}");
        // Its input is evaluated after its start in the original, but it cannot have been told anything.
        if let Some(r) = &report {ensure!(matches!(stdin, Some(Val::None | Val::Err)), "ran although it cannot be built", "{r}");}
        return Ok(());
    }
    ensure_eq!(got, Ok("done".to_string()), "output", "");
    let Some(r) = report else {return fail("did not run", "no report")};
    let r: Value = serde_json::from_str(&r).expect("harness/src: report");
    let text = |v: &Value| String::from_utf8_lossy(&unhex(v.as_str().unwrap_or(""))).into_owned();
    let got: Vec<String> = r["args"].as_array().expect("harness/src: report").iter().map(text).collect();
    let want: Vec<String> = args.iter().map(|(v, _)| match v {Val::Some(s) => s.clone(), _ => String::new()}).collect();
    ensure_eq!(got, want, "arguments", "");
    let got: BTreeMap<String, String> = r["env"].as_object().expect("harness/src: report").iter().map(|(k, v)| (String::from_utf8_lossy(&unhex(k)).into_owned(), text(v))).collect();
    ensure_eq!(got, env, "environment", "");
    let here = cwd.map(|d| std::fs::canonicalize(d).expect("harness/src: cwd")).unwrap_or_else(|| std::env::current_dir().expect("harness/src: cwd"));
    ensure_eq!(r["cwd"].as_str(), here.to_str(), "working directory", "");
    let got = unhex(r["stdin"].as_str().unwrap_or(""));
    match &stdin {Some(Val::Some(s)) => ensure!(got == s.as_bytes(), "standard input", "{} bytes instead of {}", got.len(), s.len()), _ => ensure!(got.is_empty(), "standard input", "{} bytes instead of none", got.len())}
    Ok(())
}
/// What comes back.
fn p28_answer(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let prog = place(&dir);
    let read = g.of(&["all", "after", "echo", "some", "none", "hash"]);
    let text = g.of(&["x", "é", "line\n", "\r\n", "\0", "0123456789abcdef"]);
    let size = match g.usize(4) {0 => 0, 1 => 1 + g.usize(20), 2 => g.usize(10_000), _ => g.usize(300_000)};
    let tail = g.of(&["", "", "", "ff", "c3", "0a", "0d0a", "20"]);
    let end = g.of(&[0i64, 0, 0, 1, 2, 77, 255, -1]);
    let noise = g.of(&[0u64, 0, 10, 200_000]);
    let stdin = if g.chance(1, 5) {None} else {Some(g.of(&["i", "é", "\u{1F600}\n"]).repeat(match g.usize(4) {0 => 0, 1 => g.usize(100), 2 => g.usize(20_000), _ => g.usize(200_000)}))};
    dir.write("plan", &json!({"read": read, "text": text, "size": size, "tail": tail, "end": end, "noise": noise}).to_string())?;
    g.input(format!("read {read}, answer {size} * {text:?} + {tail:?}, end {end}, noise {noise}, input {:?} bytes", stdin.as_ref().map(|s| s.len())));
    if size > 0 || stdin.as_ref().is_some_and(|s| !s.is_empty()) {g.nontrivial();}
    let mut c = json!({"program": prog});
    if let Some(s) = &stdin {c["stdin"] = json!(s);}
    let mut want: Vec<u8> = match read {
        "echo" => stdin.clone().unwrap_or_default().into_bytes(),
        "hash" => {let i = stdin.clone().unwrap_or_default().into_bytes(); format!("{} {}", i.len(), hash_of(&i)).into_bytes()},
        _ => {let mut w = text.repeat(size).into_bytes(); w.extend(unhex(tail)); w}
    };
    let what = if stdin.is_none() && g.chance(1, 5) {g.usize(2)} else {0};
    let kind = g.usize(3);
    let url_mode = what == 1;
    let r = timed(move || {
        let e = Env::new(&json!({"url": "https://h/"})).expect("harness/src: env");
        if url_mode {return parse::<CommandConfig>(&c).get_url(&e.view()).map(|u| u.to_string()).map_err(|e| format!("{e:?}"));}
        if kind == 0 {parse::<CommandConfig>(&c).output(&e.view()).map_err(|e| format!("{e:?}"))}
        else {parse::<StringSource>(&json!({"CommandOutput": c})).get(&e.view()).map(|x| x.map(|x| x.into_owned()).unwrap_or_else(|| "none".into())).map_err(|e| format!("{e:?}"))}
    })?;
    if url_mode {
        while want.last().is_some_and(|b| *b == b'\r' || *b == b'\n') {want.pop();}
        let w = String::from_utf8(want).ok().and_then(|s| url::Url::parse(&s).ok()).map(|u| u.to_string());
        match w {Some(u) => ensure_eq!(r, Ok(u), "URL", ""), None => ensure!(r.is_err(), "URL", "{r:?}")}
        return Ok(());
    }
    match (String::from_utf8(want), r) {
        (Ok(w), Ok(r)) => ensure!(r == w, "output", "{} bytes instead of {}: {:?}...", r.len(), w.len(), r.chars().take(60).collect::<String>()),
        (Ok(w), Err(e)) => return fail("output", format!("{e} instead of {} bytes", w.len())),
        (Err(_), r) => ensure!(r.is_err(), "output that is not text", "{:?}", r.map(|x| x.len()))
    }
    Ok(())
}
/// Programs found by name, and the URL form of the output.
fn p28_names(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let cwd = dir.path("here");
    std::fs::create_dir(&cwd).expect("harness/src: dir");
    let url = format!("{}{}", g.of(&["https://h/p", "https://h/?q=a b", "x:y", "no url", "HTTPS://H", ""]), g.of(&["", "\n", "\r\n", "\n\n", "\r", "x"]));
    // (program, whether it is there, whether it runs and prints its arguments)
    let (program, there, runs) = match g.usize(7) {
        0 => ("uch-no-such-program".to_string(), false, false),
        1 => (cwd.clone(), true, false),
        2 => {let p = dir.write("plain file", "#!/bin/sh\n")?; (p, true, false)},
        3 => ("/bin/printf".to_string(), true, true),
        4 => (format!("{cwd}/printf"), false, false),
        _ => ("printf".to_string(), true, true)
    };
    let c = json!({"program": program, "args": ["%s", url], "current_dir": cwd});
    g.input(c.to_string().replace(&*dir.0.to_string_lossy(), "DIR"));
    g.nontrivial();
    let (e, out, u) = timed(move || {
        let e = Env::new(&json!({"url": "https://h/"})).expect("harness/src: env");
        let c: CommandConfig = parse(&c);
        (c.exists(), c.output(&e.view()).map_err(|e| format!("{e:?}")), c.get_url(&e.view()).map(|u| u.to_string()).map_err(|e| format!("{e:?}")))
    })?;
    ensure_eq!(e, there, "exists", "{program}");
    if runs {ensure_eq!(out, Ok(url.clone()), "output", "");} else {ensure!(out.is_err(), "command that cannot run", "{out:?}");}
    match url::Url::parse(url.trim_end_matches(['\r', '\n'])) {Ok(w) if runs => ensure_eq!(u, Ok(w.to_string()), "URL", ""), _ => ensure!(u.is_err(), "URL", "{u:?}")}
    Ok(())
}
fn p28_code(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let prog = place(&dir);
    let end = match g.usize(4) {0 => -1, _ => g.below(256) as i64};
    let input = if g.flip() {Some(g.of(&["a", "é\n"]).repeat(g.usize(100)))} else {None};
    dir.write("plan", &json!({"read": "all", "end": end, "report": true}).to_string())?;
    let mut c = if input.is_none() && g.flip() {json!(prog)} else {json!({"program": prog, "args": ["x"]})};
    let missing = g.chance(1, 15);
    if missing {c = json!(dir.path("nothing"));} else if let Some(s) = &input {c["stdin"] = json!(s);}
    g.input(format!("ends with {end}, missing {missing}, input {input:?}"));
    g.nontrivial();
    let c2 = c.clone();
    let (r, exists) = timed(move || {
        let e = Env::new(&json!({"url": "https://h/"})).expect("harness/src: env");
        let c: CommandConfig = parse(&c2);
        (c.exit_code(&e.view()).map_err(|e| format!("{e:?}")), c.exists())
    })?;
    ensure_eq!(exists, !missing, "exists", "");
    if missing || end < 0 {ensure!(r.is_err(), "exit code of what did not end by itself", "{r:?}");} else {ensure_eq!(r, Ok(end as i32), "exit code", "");}
    if !missing && end >= 0 && let Some(s) = &input {
        let rep: Value = serde_json::from_str(&std::fs::read_to_string(dir.path("report")).unwrap_or_default()).unwrap_or_default();
        ensure!(unhex(rep["stdin"].as_str().unwrap_or("")) == s.as_bytes(), "standard input", "{} instead of {} bytes", rep["stdin"].as_str().unwrap_or("").len() / 2, s.len());
    }
    Ok(())
}
/// In the program: a command does not get at the tasks on standard input, and big outputs survive.
fn p28_program(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let prog = place(&dir);
    let given = if g.flip() {Some("i".repeat(g.usize(200)))} else {None};
    dir.write("plan", &json!({"read": "hash"}).to_string())?;
    let mut c = json!({"program": prog});
    if let Some(s) = &given {c["stdin"] = json!(s);}
    let conf = dir.write("config.json", &json!({"rules": [{"Mapper": {"SetPart": {"part": {"QueryParam": "r"}, "value": {"CommandOutput": c}}}}]}).to_string())?;
    let n = 1 + g.usize(6);
    // Sometimes long enough to not be read at once.
    let pad = "p".repeat(if g.flip() {12_000} else {0});
    let tasks: Vec<String> = (0..n).map(|i| format!("https://h/{i}{pad}")).collect();
    let threads = 1 + g.usize(3);
    g.input(format!("{n} tasks, {threads} threads, input {given:?}")); g.nontrivial();
    let out = cli::run_slowly(&["-c".into(), conf, "--threads".into(), threads.to_string()], &tasks.iter().map(|t| format!("{t}\n").into_bytes()).collect::<Vec<_>>(), 60, None, &[])?;
    let i = given.unwrap_or_default().into_bytes();
    let want: String = tasks.iter().map(|t| {let mut u = url::Url::parse(t).expect("harness/src: url"); u.query_pairs_mut().append_pair("r", &format!("{} {}", i.len(), hash_of(&i))); format!("{u}\n")}).collect();
    ensure_eq!(out.text(), want, "program", "{}", out.err());
    Ok(())
}

pub fn prop() -> Prop {Prop {id: "P28", rule: "given: it runs, with arguments, additions to the environment or input; answer: there is input or output; code, names and program: every case",
    assumptions: &["the tool is this check's own program, which ends by itself after 60 s", "a command without configured input gets none", "printf is found in PATH"],
    subs: vec![Sub {name: "given", quick: 3_000, thorough: 80_000, threads: 8, f: p28_given}, Sub {name: "answer", quick: 3_000, thorough: 80_000, threads: 8, f: p28_answer}, Sub {name: "code", quick: 800, thorough: 10_000, threads: 8, f: p28_code}, Sub {name: "names", quick: 600, thorough: 6_000, threads: 8, f: p28_names}, Sub {name: "program", quick: 150, thorough: 3_000, threads: 8, f: p28_program}], repro: vec![]}}
