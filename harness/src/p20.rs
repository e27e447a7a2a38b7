//! P20: spellings of tasks. A config that writes everything it sees into the fragment shows what a task meant.
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::gn;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::str::FromStr;
use url_cleaner::glue::*;
use url_cleaner::testing::Tests;
use url_cleaner::types::*;

const NAMES: &[&str] = &["a", "b", "", "é", "A", "a b", "url", "context", "x\"y\\"];
const NONE: &str = "\u{1}none";
type Vars = BTreeMap<String, String>;
fn vars(g: &mut G) -> Vars {
    let n = g.weighted(&[3, 3, 2, 1]);
    (0..n).map(|_| {let k = g.of(NAMES).to_string(); let v = match g.usize(4) {0 => g.of(&["", "1", "https://x/?a#b", "{\"a\":1}", "\"", "\\", "null", "\u{2028}"]).to_string(), _ => gn::string(g, 5)}; (k, v)}).collect()
}
fn config() -> Value {
    let mut all = vec![json!({"Part": "Whole"})];
    for t in ["TaskContext", "JobContext"] {for n in NAMES {all.push(json!({"NoneTo": {"value": {"Var": {"type": t, "name": n}}, "if_none": NONE}}));}}
    // Nothing else has these names.
    for t in ["Params", "Scratchpad"] {all.push(json!({"NoneTo": {"value": {"Var": {"type": t, "name": "a"}}, "if_none": NONE}}));}
    let mut m = json!({"SetPart": {"part": "Fragment", "value": {"Join": {"sources": all, "join": "|"}}}});
    for t in ["Params", "Scratchpad"] {m = json!({"If": {"condition": {"FlagIsSet": {"type": t, "name": "a"}}, "mapper": {"Error": "flag"}, "else_mapper": m}});}
    json!({"rules": [{"Mapper": m}]})
}
fn shown(url: &str, task: &Vars, job: &Vars) -> Option<String> {
    let mut u = url::Url::parse(url).ok()?;
    let mut all = vec![u.as_str().to_string()];
    for v in [task, job] {for n in NAMES {all.push(v.get(*n).cloned().unwrap_or_else(|| NONE.into()));}}
    all.extend([NONE.into(), NONE.into()]);
    u.set_fragment(Some(&all.join("|")));
    Some(u.to_string())
}
/// A JSON string with freely chosen escapes.
fn quoted(g: &mut G, s: &str) -> String {
    let mut o = String::from("\"");
    let wild = g.flip();
    for c in s.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if must && !g.flip() || wild && g.chance(1, 4) {let mut b = [0u16; 2]; for x in c.encode_utf16(&mut b) {if g.flip() {o.push_str(&format!("\\u{x:04x}"));} else {o.push_str(&format!("\\u{x:04X}"));}}}
        else {match c {'"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if c < ' ' => o.push_str(&format!("\\u{:04x}", c as u32)), '/' if g.chance(1, 4) => o.push_str("\\/"), c => o.push(c)}}
    }
    o.push('"'); o
}
fn space(g: &mut G, lines: bool) -> &'static str {if g.chance(1, 6) {if lines {g.of(&[" ", "\t", "\n", "\r\n "])} else {g.of(&[" ", "\t", "  "])}} else {""}}
fn object(g: &mut G, url: &str, v: &Vars, lines: bool) -> String {
    let mut sp = |g: &mut G| space(g, lines);
    let u = format!("{}:{}{}", quoted(g, "url"), sp(g), quoted(g, url));
    let inner = {
        let mut ps: Vec<String> = v.iter().map(|(k, x)| format!("{}{}:{}{}", quoted(g, k), sp(g), sp(g), quoted(g, x))).collect();
        if g.flip() {ps.reverse();}
        if ps.is_empty() && g.flip() {format!("{{{}}}", sp(g))} else {format!("{{{}\"vars\"{}:{{{}}}{}}}", sp(g), sp(g), ps.join(","), sp(g))}
    };
    let mut fs = vec![u];
    if !v.is_empty() || g.flip() {fs.push(format!("\"context\"{}:{inner}", sp(g)));}
    if g.flip() {fs.reverse();}
    format!("{{{}{}{}}}{}", sp(g), fs.join(&format!("{},", sp(g))), sp(g), sp(g))
}
/// Text that is no task.
fn bad(g: &mut G) -> String {
    let u = "\"https://h/\"";
    match g.usize(12) {
        0 => g.of(&["", " ", "h", "/a", "//h/", "?", "1", "null", "[]", "https://", "http:///", "https://a b/", "https://[::1/", "https://h:99999/", "https://%/", "\u{feff}https://h/", "é", "#", "# https://h/", "//", ";https://h/", "-", "--", "'https://h/'", "<https://h/>", "h.com", "www.h.com/", "[\"https://h/\"]", "{", "\"", "true"]).into(),
        1 => "{}".into(), 2 => format!("{{\"url\":{}}}", g.of(&["1", "null", "[]", "{}", "\"\"", "\"x\"", "\"/a\"", "true"])),
        3 => format!("{{\"url\":{u}"), 4 => format!("{{\"url\":{u}}}}}"), 5 => format!("{{\"url\":{u},\"context\":{}}}", g.of(&["1", "\"a\"", "{\"vars\":1}", "{\"vars\":{\"a\":1}}", "{\"vars\":{\"a\":null}}", "{\"vars\":{\"a\":\"1\",\"a\":\"2\"}}", "{\"vars\":{\"a\":\"1\",\"a\":\"1\"}}", "{\"vars\":[\"a\"]}"])),
        6 => format!("{{\"url\":{u},\"url\":{u}}}"), 7 => u[..u.len() - 1].into(), 8 => format!("{u}{u}"), 9 => g.of(&["\"x\"", "\"\"", "\"https://\"", "\"\\x\"", "\"https://h/\n\""]).into(),
        10 => format!("{{\"context\":{{}}}}{}", ""), _ => format!("{{url:{u}}}")
    }
}
fn sees(config: &Config, t: TaskConfig, job: &JobContext) -> Result<String, String> {
    let jc = JobConfig {config: Cow::Borrowed(config), cache: Cache::default()};
    jc.new_task(t, job).r#do().map(|u| u.as_str().to_string()).map_err(|e| format!("{e:?}"))
}
thread_local! {static CONFIG: Config = serde_json::from_value(config()).expect("harness/src: config");}

fn p20_library(g: &mut G) -> Res {
    let u = gn::url_text(g);
    let (v, j) = (vars(g), vars(g));
    let job = JobContext {vars: j.clone().into_iter().collect()};
    g.input(format!("{u:?} {v:?} {j:?}"));
    let Some(want) = shown(&u, &v, &j) else {
        // Not a URL: refused however it is written.
        let (o, q) = (object(g, &u, &v, true), quoted(g, &u));
        if !u.starts_with(['{', '"']) {ensure!(TaskConfig::from_str(&u).is_err(), "accepts what is no URL", "bare");}
        ensure!(TaskConfig::from_str(&o).is_err() && serde_json::from_str::<TaskConfig>(&o).is_err(), "accepts what is no URL", "{o}");
        ensure!(TaskConfig::from_str(&q).is_err() && serde_json::from_str::<TaskConfig>(&q).is_err(), "accepts what is no URL", "{q}");
        g.label("not a URL"); return Ok(());
    };
    if !v.is_empty() {g.nontrivial();}
    let bare = v.is_empty();
    let parsed = BetterUrl::parse(&u).expect("harness/src: url");
    // The url crate's own reading of drive letters ("file://a/b:80").
    if url::Url::parse(parsed.as_str()).ok().as_ref() != Some(&url::Url::parse(&u).expect("harness/src: url")) {g.label("URL that does not survive rereading"); return Ok(());}
    let built = TaskConfig {url: parsed.clone(), context: TaskContext {vars: v.clone().into_iter().collect()}};
    let mut all: Vec<(String, Result<TaskConfig, String>)> = vec![("built".into(), Ok(built.clone()))];
    let s = |e: MakeTaskConfigError| format!("{e:?}");
    let js = |e: serde_json::Error| e.to_string();
    for _ in 0..2 {
        let o = object(g, &u, &v, true);
        all.push((format!("text {o}"), TaskConfig::from_str(&o).map_err(s)));
        all.push((format!("try_from {o}"), TaskConfig::try_from(&*o).map_err(s)));
        all.push((format!("serde {o}"), serde_json::from_str(&o).map_err(js)));
        all.push((format!("serde reader {o}"), serde_json::from_reader(o.as_bytes()).map_err(js)));
        all.push((format!("serde value {o}"), serde_json::from_str::<Value>(&o).and_then(serde_json::from_value).map_err(js)));
    }
    if bare {
        all.push(("bare".into(), TaskConfig::from_str(&u).map_err(s)));
        all.push(("From<Url>".into(), Ok(url::Url::parse(&u).expect("harness/src: url").into())));
        all.push(("From<BetterUrl>".into(), Ok(parsed.clone().into())));
        let q = quoted(g, &u);
        all.push((format!("text {q}"), TaskConfig::from_str(&q).map_err(s)));
        all.push((format!("serde {q}"), serde_json::from_str(&q).map_err(js)));
        all.push((format!("serde reader {q}"), serde_json::from_reader(q.as_bytes()).map_err(js)));
        all.push(("serde value".into(), serde_json::from_value(json!(u)).map_err(js)));
    }
    all.push(("written and read".into(), serde_json::to_string(&built).and_then(|t| serde_json::from_str(&t)).map_err(js)));
    let t = serde_json::to_string(&built).map_err(js).unwrap_or_default();
    all.push(("written and read as text".into(), TaskConfig::from_str(&t).map_err(s)));
    CONFIG.with(|c| {
        for (how, t) in &all {
            let t = match t {Ok(t) => t.clone(), Err(e) => return fail("refused", format!("{how}: {e}"))};
            ensure_eq!(t, built, "spelling", "{how}");
            ensure!(t.url.host_details() == parsed.host_details(), "host details", "{how}");
            let got = sees(c, t, &job);
            ensure_eq!(got, Ok(want.clone()), "what the rules see", "{how}");
        }
        // The same through a job, with texts that are no tasks between.
        let texts: Vec<String> = (0..1 + g.usize(4)).flat_map(|_| {let o = object(g, &u, &v, true); if g.flip() {vec![o, bad(g)]} else {vec![o]}}).collect();
        let given = texts.clone();
        let mut j2 = Job {config: JobConfig {config: Cow::Borrowed(c), cache: Cache::default()}, context: Cow::Borrowed(&job), task_configs_source: Box::new(given.into_iter().map(|t| TaskConfig::from_str(&t)))};
        let got: Vec<Result<String, ()>> = j2.iter().map(|t| t.map_err(|_| ()).map(|t| t.r#do().map(|u| u.as_str().to_string()).unwrap_or_else(|e| format!("{e:?}")))).collect();
        ensure_eq!(got.len(), texts.len(), "tasks of a job", "");
        for (t, r) in texts.iter().zip(&got) {
            let good = serde_json::from_str::<Value>(t).is_ok_and(|x| x["url"] == json!(u)) && (bare || t.contains("vars"));
            if good {ensure_eq!(r, &Ok(want.clone()), "task of a job", "{t}");} else {ensure!(r.is_err(), "accepts what is no task", "{t}: {r:?}");}
        }
        Ok(())
    })
}
fn p20_bad(g: &mut G) -> Res {
    let t = bad(g);
    g.input(t.clone()); g.nontrivial();
    ensure!(TaskConfig::from_str(&t).is_err(), "accepts what is no task", "{t:?}");
    ensure!(TaskConfig::try_from(&*t).is_err(), "accepts what is no task", "{t:?}");
    if t.starts_with(['{', '"']) {ensure!(serde_json::from_str::<TaskConfig>(&t).is_err(), "accepts what is no task", "{t:?}");}
    ensure!(serde_json::from_value::<TaskConfig>(json!(t)).is_err(), "accepts what is no task", "{t:?}");
    for v in [json!(1), json!(null), json!([]), json!(["https://h/"]), json!(true)] {ensure!(serde_json::from_value::<TaskConfig>(v.clone()).is_err(), "accepts what is no task", "{v}");}
    Ok(())
}
/// Through the program, as arguments and lines, with a job context; and through its test files.
fn p20_program(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let conf = dir.write("config.json", &config().to_string())?;
    let j = vars(g);
    let (na, ns) = (g.usize(4), g.usize(6));
    let mut tests = Vec::new();
    let (mut texts, mut want) = (Vec::new(), Vec::new());
    for i in 0..na + ns {
        if g.chance(1, 5) {let mut t = bad(g); if t.contains('\n') && i >= na {t = "{".into();} texts.push(t); want.push(None); continue;}
        let u = gn::url_text(g).replace(['\n', '\r'], "x");
        let v = if g.flip() {vars(g)} else {Vars::new()};
        let Some(w) = shown(&u, &v, &j) else {continue};
        if url::Url::parse(&u).is_ok_and(|x| url::Url::parse(x.as_str()).as_ref() != Ok(&x)) {continue;}
        let lines = i < na;
        let t = match if v.is_empty() {g.usize(3)} else {2} {0 if !u.starts_with(['{', '"', '\0']) && !u.contains('\0') => u.clone(), 1 => quoted(g, &u), _ => object(g, &u, &v, lines)};
        if serde_json::from_str::<Value>(&t).is_err() || g.flip() {tests.push(format!("{{\"task_config\":{},\"result\":{}}}", if t.starts_with(['{', '"']) {t.clone()} else {quoted(g, &t)}, quoted(g, &w)));}
        texts.push(t); want.push(Some(w));
    }
    let na = na.min(texts.len());
    let mut argv = vec!["-c".to_string(), conf.clone()];
    let jc = if j.is_empty() && g.flip() {None} else {Some(format!("{{\"vars\":{{{}}}}}", j.iter().map(|(k, x)| format!("{}:{}", quoted(g, k), quoted(g, x))).collect::<Vec<_>>().join(",")))};
    if let Some(x) = &jc {argv.push(format!("--job-context={x}"));}
    let mut args = argv.clone();
    args.push("--".into());
    // Lines cannot be in an argument's place when they hold a line break, and the reverse: those with one are arguments.
    let (mut a, mut l) = (Vec::new(), Vec::new());
    for (i, (t, w)) in texts.iter().zip(&want).enumerate() {if (i < na || t.contains('\n')) && !t.contains('\0') {a.push((t, w));} else if !t.contains('\n') {l.push((t, w));}}
    args.extend(a.iter().map(|x| x.0.clone()));
    let stdin: String = l.iter().map(|x| format!("{}\n", x.0)).collect();
    g.input(format!("{:?} {:?} context {jc:?}", &args[3..], stdin));
    g.nontrivial();
    let out = cli::run(&args, stdin.as_bytes(), 60)?;
    let wanted: String = a.iter().chain(&l).map(|x| format!("{}\n", x.1.clone().unwrap_or_default())).collect();
    ensure_eq!(out.text(), wanted, "program", "{}", out.err());
    if !tests.is_empty() {
        let text = format!("{{\"sets\":[{{{}\"tests\":[{}]}}]}}", jc.as_ref().map(|x| format!("\"job_context\":{x},")).unwrap_or_default(), tests.join(","));
        let Ok(_) = serde_json::from_str::<Tests>(&text) else {return fail("test file", text)};
        let f = dir.write("tests.json", &text)?;
        let out = cli::run(&["-c".into(), conf, "--tests".into(), f], b"", 60)?;
        ensure!(out.code == Some(0), "test file", "{} {}", text, out.err());
    }
    Ok(())
}
pub fn prop() -> Prop {Prop {id: "P20", rule: "library: the task has context variables; bad and program: every case",
    assumptions: &["bare text is read by the URL standard's parser (url crate)"],
    subs: vec![Sub {name: "library", quick: 40_000, thorough: 1_000_000, threads: 8, f: p20_library}, Sub {name: "bad", quick: 20_000, thorough: 200_000, threads: 8, f: p20_bad}, Sub {name: "program", quick: 2_000, thorough: 40_000, threads: 8, f: p20_program}], repro: vec![]}}
