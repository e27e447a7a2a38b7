//! P18: the program's output lines, error lines and exit code against the list of tasks it was given.
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};

/// What a task should come to: a URL, or a failure whose message has this in it.
#[derive(Clone, Debug, PartialEq)]
enum Want {Url(String), Fails(Option<String>)}
const IDS: usize = 8;
fn config() -> Value {
    let mut rules: Vec<Value> = Vec::new();
    for k in 0..IDS {
        let host = |h: String| json!({"PartIs": {"part": "Host", "value": h}});
        rules.push(json!({"condition": host(format!("told{k}")), "mapper": {"Error": format!("id-told{k}!{}", ["", " \n \n", "\t\"'\\", "\r\n", "é\u{2028}", "\0\u{7f}", "{}", "MakeTaskError"][k])}}));
        // Compiled when first used: the error shows the pattern on several lines.
        rules.push(json!({"condition": {"All": [host(format!("regex{k}")), {"PartMatches": {"part": "Path", "matcher": {"Regex": format!("(id-regex{k}!{}", ["", "\n", "[", "(?x)\n a # b\n"][k % 4])}}}]}, "mapper": "None"}));
        rules.push(json!({"condition": host(format!("late{k}")), "mapper": {"All": [{"SetPart": {"part": "Path", "value": "/changed"}}, {"SetPart": {"part": "Query", "value": {"Error": format!("id-late{k}!")}}}]}}));
    }
    rules.push(json!({"condition": {"PartIs": {"part": "Host", "value": "slow"}}, "mapper": {"SetPart": {"part": "Query", "value": {"CommandOutput": {"program": "sleep", "args": ["0.02"]}}}}}));
    rules.push(json!({"condition": {"PartIs": {"part": "Host", "value": "caught"}}, "mapper": {"TryElse": {"try": {"Error": "id-caught"}, "else": "None"}}}));
    rules.push(json!({"Mapper": {"SetPart": {"part": "Fragment", "value": "done"}}}));
    json!({"rules": rules})
}
fn task(g: &mut G, i: usize, arg: bool, slow: &mut u32) -> (Vec<u8>, Want) {
    let ok = |t: String| {
        let text: &str = &t;
        let u = match serde_json::from_str::<Value>(text) {Ok(Value::String(s)) => s, Ok(Value::Object(o)) => o["url"].as_str().unwrap_or("").to_string(), _ => text.to_string()};
        let mut u = url::Url::parse(&u).expect("harness/src: task URL");
        u.set_fragment(Some("done"));
        (t.into_bytes(), Want::Url(u.to_string()))
    };
    match g.weighted(&[10, 4, 4, 6, 2, 1]) {
        0 => ok(format!("https://h/{i}")),
        1 => {let t = match g.usize(9) {0 => format!("  HTTPS://H:443/a/../{i} \t"), 1 => format!("mailto:{i}@x"), 2 => format!("https://h/{i}?{}", "long".repeat(g.usize(4000))), 3 => json!(format!("https://h/{i}")).to_string(), 4 => json!({"url": format!("https://h/{i}")}).to_string(), 5 => json!({"url": format!("https://h/{i}"), "context": {"vars": {"a": "\n"}}}).to_string(), 6 => format!("https://é.com/{i}#日本\u{2028}"), 7 => format!("https://caught/{i}"), _ => if arg {format!("https://h/\n{i}\r\n")} else {format!("https://h/\r{i}\u{85}")}}; ok(t)},
        2 => {
            let k = g.usize(IDS);
            let h = g.of(&["told", "regex", "late"]);
            let u = format!("https://{h}{k}/{i}");
            (if g.chance(1, 6) {json!(u).to_string()} else {u}.into_bytes(), Want::Fails(Some(format!("id-{h}{k}!"))))
        },
        3 => (g.of(&["", "", " ", "#", "# https://h/", "//h/", ";", "'https://h/'", "h.com", "x", "/relative", "https://", "https://a b/", "https://[::", "{", "{}", "\"", "\"\"", "{\"url\": 1}", "{\"url\": \"x\"}", "{\"url\": \"https://h/\", \"context\": 1}", "{\"url\": \"https://h/\"} x", "[\"https://h/\"]", "null", "\u{feff}https://h/", "https://h:99999/"]).as_bytes().to_vec(), Want::Fails(None)),
        4 => if arg {(b"h".to_vec(), Want::Fails(None))} else {let mut b = format!("https://h/{i}").into_bytes(); let at = g.usize(b.len() + 1); let bad: &[u8] = g.of(&[b"\xff".as_slice(), b"\xc3", b"\xed\xa0\x80", b"\x80"]); b.splice(at..at, bad.iter().copied()); (b, Want::Fails(None))},
        _ => if *slow > 0 {*slow -= 1; let (t, _) = ok(format!("https://slow/{i}")); (t, Want::Url(format!("https://slow/{i}?#done")))} else {ok(format!("https://h/{i}/"))}
    }
}
fn p18_lines(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let conf = dir.write("config.json", &config().to_string())?;
    let mut slow = if g.chance(1, 4) {4} else {0};
    let (na, ns) = match g.weighted(&[10, 6, 1]) {0 => (g.usize(4), g.usize(6)), 1 => (g.usize(12), g.usize(40)), _ => (g.usize(100), g.usize(5000))};
    // Runs of one sort of task happen too: everything fails, nothing fails.
    let only = g.weighted(&[6, 1, 1]);
    let mut one = |g: &mut G, i: usize, arg: bool| {for _ in 0..40 {let t = task(g, i, arg, &mut slow); match (only, &t.1) {(1, Want::Fails(_)) | (2, Want::Url(_)) => {}, _ => return t}} task(g, i, arg, &mut slow)};
    let args: Vec<(Vec<u8>, Want)> = (0..na).map(|i| one(g, i, true)).collect();
    let lines: Vec<(Vec<u8>, Want)> = (na..na + ns).map(|i| one(g, i, false)).collect();
    let end = g.of(&["\n", "\n", "\r\n"]).as_bytes();
    let mut stdin: Vec<u8> = Vec::new();
    for (t, _) in &lines {stdin.extend_from_slice(t); stdin.extend_from_slice(end);}
    if lines.last().is_some_and(|l| !l.0.is_empty()) && g.flip() {stdin.truncate(stdin.len() - end.len());}
    let threads = g.of(&[0usize, 1, 2, 3, 4, 7, 33]);
    let jsn = g.chance(1, 3);
    let mut argv = vec!["-c".to_string(), conf, "--threads".into(), threads.to_string()];
    if jsn {argv.push(g.of(&["-j", "--json"]).into());}
    argv.push("--".into());
    argv.extend(args.iter().map(|a| String::from_utf8(a.0.clone()).expect("harness/src: argument")));
    let tasks: Vec<&(Vec<u8>, Want)> = args.iter().chain(&lines).collect();
    g.input(format!("{threads} threads, json {jsn}, end {:?}, arguments {na}: {}", String::from_utf8_lossy(end), tasks.iter().take(60).map(|t| String::from_utf8_lossy(&t.0[..t.0.len().min(60)]).into_owned()).collect::<Vec<_>>().join(" | ")));
    let fails: Vec<&Option<String>> = tasks.iter().filter_map(|t| match &t.1 {Want::Fails(x) => Some(x), _ => None}).collect();
    if !fails.is_empty() && fails.len() < tasks.len() {g.nontrivial();}
    let pieces: Vec<Vec<u8>> = if g.chance(1, 8) && stdin.len() > 1 {let at = 1 + g.usize(stdin.len() - 1); vec![stdin[..at].to_vec(), stdin[at..].to_vec()]} else {vec![stdin]};
    let out = cli::run_slowly(&argv, &pieces, 100, None, &[])?;
    let code = match (fails.len(), tasks.len() - fails.len()) {(0, _) => 0, (_, 0) => 1, _ => 2};
    ensure_eq!(out.code, Some(code), "exit code", "{} of {} tasks fail; {}", fails.len(), tasks.len(), out.err().chars().take(300).collect::<String>());
    let err = out.err();
    let errs: Vec<&str> = err.split('\n').filter(|l| !l.is_empty()).collect();
    if jsn {
        let v: Value = match serde_json::from_slice(&out.stdout) {Ok(v) => v, Err(e) => return fail("not JSON", format!("{e}: {}", out.text().chars().take(300).collect::<String>()))};
        let Some(urls) = v["Ok"]["urls"].as_array() else {return fail("JSON form", v.to_string())};
        ensure_eq!(urls.len(), tasks.len(), "number of results", "");
        for (i, (t, r)) in tasks.iter().zip(urls).enumerate() {
            match &t.1 {
                Want::Url(u) => ensure_eq!(r["Ok"]["Ok"].as_str(), Some(&**u), "result", "task {i} {:?}: {r}", String::from_utf8_lossy(&t.0)),
                Want::Fails(id) => {
                    ensure!(r["Ok"]["Ok"].is_null() && (r["Err"].is_object() || r["Ok"]["Err"].is_object()), "result of a failing task", "task {i} {:?}: {r}", String::from_utf8_lossy(&t.0));
                    let s = format!("{}{}", r["Err"], r["Ok"]["Err"]);
                    match id {Some(id) => ensure!(s.contains(id), "error of another task", "task {i} should say {id}: {r}"), None => ensure!(!s.contains("id-"), "error of another task", "task {i}: {r}")}
                }
            }
        }
        return Ok(());
    }
    let text = out.text();
    ensure!(tasks.is_empty() == text.is_empty() && (text.is_empty() || text.ends_with('\n')), "end of output", "{:?}", text.chars().rev().take(80).collect::<String>());
    let got: Vec<&str> = text.split_terminator('\n').collect();
    for (i, (t, l)) in tasks.iter().zip(&got).enumerate() {
        let want = match &t.1 {Want::Url(u) => u.as_str(), Want::Fails(_) => ""};
        ensure_eq!(*l, want, "line", "line {i} of task {:?}", String::from_utf8_lossy(&t.0[..t.0.len().min(200)]));
    }
    ensure_eq!(got.len(), tasks.len(), "number of lines", "");
    for (i, (id, l)) in fails.iter().zip(&errs).enumerate() {
        match id {Some(id) => ensure!(l.contains(id), "error line", "non-empty error line {i} should say {id}: {l:?}"), None => ensure!(!l.contains("id-"), "error line", "non-empty error line {i} is of another task: {l:?}")}
    }
    ensure_eq!(errs.len(), fails.len(), "number of error lines", "{}", err.chars().take(600).collect::<String>());
    Ok(())
}
/// Settings that cannot be read stop the program before any task: nothing is printed for a task, and the exit says so.
fn p18_settings(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let mut broken: Vec<&str> = Vec::new();
    let junk = |g: &mut G, n: &str| g.of(&["", "{", "1", "null x", "\"x\"", "true", "{} {}", if n.starts_with('c') {"{\"rules\": 5}"} else {"{\"flags\": {}}"}, if n.starts_with('c') {"{\"params\": 1}"} else {"{\"vars\": \"x\"}"}, if n.starts_with('c') {"{\"rules\": [{\"Nope\": 1}]}"} else {"{\"flags\": [\"a\"]"}]).to_string();
    let bad_file = |g: &mut G, n: &str| -> Result<String, Fail> {match g.usize(4) {0 => Ok(dir.path(&format!("missing-{n}"))), 1 => Ok(dir.path("")), 2 => {let p = dir.path(&format!("bytes-{n}")); std::fs::write(&p, b"{\"x\": \"\xff\"}").expect("harness/src: file"); Ok(p)}, _ => {let j = junk(g, n); dir.write(&format!("bad-{n}"), &j)}}};
    let mut argv: Vec<String> = Vec::new();
    let good = json!({"rules": [{"condition": {"FlagIsSet": {"type": "Params", "name": "f"}}, "mapper": {"SetPart": {"part": "Fragment", "value": "f"}}}, {"condition": {"VarIs": {"type": "JobContext", "name": "v", "value": "1"}}, "mapper": {"SetPart": {"part": "Query", "value": "v"}}}]});
    argv.push(g.of(&["-c", "--config"]).into());
    argv.push(if g.chance(1, 5) {broken.push("config"); bad_file(g, "c.json")?} else {dir.write("c.json", &good.to_string())?});
    let mut want = "https://h/".to_string();
    let (mut flag, mut var) = (false, false);
    for i in 0..g.usize(3) {
        argv.push("--params-diff".into());
        argv.push(if g.chance(1, 4) {broken.push("params diff"); bad_file(g, &format!("d{i}.json"))?} else {flag = true; dir.write(&format!("d{i}.json"), "{\"flags\": [\"f\"]}")?});
    }
    if g.flip() {
        argv.push("--job-context".into());
        argv.push(if g.chance(1, 3) {broken.push("job context"); g.of(&["", "{", "1", "\"x\"", "{\"vars\": 1}", "{\"vars\": {\"a\": 1}}", "https://h/", "{\"vars\": {}} x"]).into()} else {var = true; "{\"vars\": {\"v\": \"1\"}}".into()});
    }
    if var {want.push_str("?v");}
    if flag {want.push_str("#f");}
    let jsn = g.chance(1, 3);
    if jsn {argv.push("-j".into());}
    let stdin = g.flip();
    if !stdin {argv.push("https://h/".into());}
    g.input(format!("{:?} {argv:?}", broken));
    if !broken.is_empty() {g.nontrivial();}
    let out = cli::run(&argv, if stdin {b"https://h/\n"} else {b""}, 100)?;
    if broken.is_empty() {
        ensure_eq!(out.code, Some(0), "exit code", "{}", out.err());
        let text = out.text();
        let got = if jsn {serde_json::from_str::<Value>(&text).ok().and_then(|v| v["Ok"]["urls"][0]["Ok"]["Ok"].as_str().map(String::from)).unwrap_or(text)} else {text.trim_end_matches('\n').to_string()};
        ensure_eq!(got, want, "result", "");
    } else {
        ensure!(out.code.is_some_and(|c| c != 0), "exit code of refused settings", "{broken:?}: {:?}, {}", out.code, out.text());
        ensure!(out.stdout.is_empty(), "output of refused settings", "{broken:?}: {}", out.text());
        ensure!(!out.err().trim().is_empty(), "message of refused settings", "{broken:?}");
        ensure!(!out.err().contains("panicked"), "refused settings panic", "{broken:?}: {}", out.err());
    }
    Ok(())
}
pub fn prop() -> Prop {Prop {id: "P18", rule: "lines: some tasks fail and some do not; settings: some setting is refused",
    assumptions: &["the tasks' outcomes are fixed by the config given to the program, which names each failure"],
    subs: vec![Sub {name: "lines", quick: 3_000, thorough: 60_000, threads: 8, f: p18_lines}, Sub {name: "settings", quick: 800, thorough: 10_000, threads: 8, f: p18_settings}], repro: vec![]}}
