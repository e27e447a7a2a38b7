//! P30: the debugging variants report on what they wrap and change nothing.
use crate::cfg::{self, Cx};
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::real::{parse, Env};
use crate::refcfg::{self, St};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::sync::OnceLock;
use url_cleaner::types::*;

/// The reports of the library go to standard error; nobody reads them here.
fn quiet() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        if std::env::var_os("UCH_LOUD").is_some() {return;}
        use std::os::fd::AsRawFd;
        unsafe extern "C" {fn dup2(a: i32, b: i32) -> i32;}
        let f = std::fs::File::create("/dev/null").expect("harness/src: /dev/null");
        unsafe {dup2(f.as_raw_fd(), 2);}
    });
}
fn show<T: Debug, E: Debug + std::fmt::Display>(r: Result<T, E>) -> Result<String, String> {r.map(|x| format!("{x:?}")).map_err(|e| format!("{e} {e:?}"))}
fn hay(g: &mut G) -> String {
    match g.usize(4) {0 => crate::gn::string(g, 5), 1 => crate::gn::query(g), _ => g.of(cfg::STRS).into()}
}

fn elements(g: &mut G) -> Res {
    quiet();
    let d = 1 + g.usize(3) as u32;
    let kind = g.of(&["condition", "matcher", "modification", "source", "mapper", "rules", "part", "location", "char"]);
    let commons = g.usize(3) as u32 / 2;
    let (h, n) = (hay(g), hay(g));
    let c = crate::gn::any_char(g);
    let mut cx = Cx::new(g);
    if commons == 0 {cx.commons = 0;}
    cx.debug = Some(2 + cx.g.below(4));
    let st = cx.state(commons);
    let v = match kind {
        "condition" => cx.condition(d), "matcher" => cx.matcher(d), "modification" => cx.modification(d), "source" => cx.source(d), "mapper" => cx.mapper(d), "rules" => cx.rules(d),
        "part" => cx.part(), "location" => cx.location(d), _ => cx.chr(d)
    };
    let plain = cfg::undebug(&v);
    let mut st0 = st.clone();
    st0["commons"] = cfg::undebug(&st["commons"]);
    g.input(v.to_string());
    g.input(json!({"url": st["url"], "pad": st["pad"], "common": st["common"], "context": st["context"]}).to_string());
    if commons > 0 {g.input(st["commons"].to_string());}
    g.input(format!("{h:?} {n:?} {c:?}"));
    g.label(kind);
    // Only trees whose evaluation stays small.
    if kind == "mapper" || kind == "rules" {
        let mut s = St::new(&st0);
        if refcfg::bounded(|| if kind == "mapper" {refcfg::mapper(&plain, &mut s)} else {refcfg::rules(&plain, &mut s)}).is_none() {g.label("discarded: too much work"); return Ok(());}
    }
    let run = |v: &Value, st: &Value| -> (Result<String, String>, String) {
        let mut e = Env::new(st).expect("harness/src");
        let mut text = h.clone();
        let r = match kind {
            "condition" => show(parse::<Condition>(v).satisfied_by(&e.view())),
            "matcher" => show(parse::<StringMatcher>(v).satisfied_by(&h, &e.view())),
            "modification" => show(parse::<StringModification>(v).apply(&mut text, &e.view())),
            "source" => show(parse::<StringSource>(v).get(&e.view())),
            "mapper" => show(parse::<Mapper>(v).apply(&mut e.state())),
            "rules" => show(parse::<Rules>(v).apply(&mut e.state())),
            "location" => show(parse::<StringLocation>(v).satisfied_by(&h, &n)),
            "char" => show(parse::<CharMatcher>(v).satisfied_by(c)),
            _ => {let p = parse::<UrlPart>(v); let old = format!("{:?}", p.get(&e.url)); show(p.set(&mut e.url, Some(&n))).map(|x| x + &old).map_err(|x| x + &old)}
        };
        let s = e.snapshot();
        let mut flags: Vec<_> = s.2.flags.iter().collect(); flags.sort();
        let mut vars: Vec<_> = s.2.vars.iter().collect(); vars.sort();
        let after = format!("{} {:?} {flags:?} {vars:?} {text:?}", s.0, s.1);
        (r, after)
    };
    let (r, after) = run(&v, &st);
    let (r0, after0) = run(&plain, &st0);
    if v != plain {g.nontrivial();}
    g.label(match &r0 {Ok(x) if x == "true" => "true", Ok(x) if x == "false" => "false", Ok(_) => "ok", Err(_) => "error"});
    ensure_eq!(r, r0, "result", "{v}");
    ensure_eq!(after, after0, "state", "{v}");
    Ok(())
}
/// The program's results with and without the wrappers; the reports don't get between them.
fn program(g: &mut G) -> Res {
    let d = 1 + g.usize(2) as u32;
    let mut cx = Cx::new(g);
    cx.debug = Some(2 + cx.g.below(3));
    let commons = cx.commons_def(1);
    let rules = cx.rules(d);
    let (params, state) = (cx.params(), json!({}));
    let urls: Vec<String> = (0..1 + cx.g.usize(3)).map(|_| cx.url()).collect();
    let conf = json!({"params": params, "commons": commons, "rules": rules});
    let plain = cfg::undebug(&conf);
    g.input(conf.to_string());
    g.input(format!("{urls:?}"));
    for u in &urls {
        let mut st = state.clone();
        st["url"] = json!(u); st["params"] = params.clone(); st["commons"] = plain["commons"].clone();
        let mut s = St::new(&st);
        if refcfg::bounded(|| refcfg::rules(&plain["rules"], &mut s)).is_none() {g.label("discarded: too much work"); return Ok(());}
    }
    let dir = Scratch::fast(g)?;
    let mut outs = Vec::new();
    let json = g.flip();
    for c in [&conf, &plain] {
        let f = dir.write("c.json", &c.to_string())?;
        let mut argv = vec!["--config".to_string(), f];
        if json {argv.push("--json".into());}
        argv.push("--".into());
        argv.extend(urls.iter().cloned());
        outs.push(cli::run(&argv, b"", 60)?);
    }
    if conf != plain {g.nontrivial();}
    g.label(if outs[1].code == Some(0) {"ok"} else {"error"});
    ensure_eq!(outs[0].code, outs[1].code, "exit code", "{} / {}", outs[0].err(), outs[1].err());
    ensure_eq!(outs[0].text(), outs[1].text(), "output", "");
    ensure!(!outs[1].err().contains("::Debug ==="), "report without a wrapper", "{}", outs[1].err());
    Ok(())
}
pub fn prop() -> Prop {Prop {id: "P30", rule: "at least one element is wrapped",
    assumptions: &["the text of the reports is not checked"],
    subs: vec![Sub {name: "elements", quick: 30_000, thorough: 2_000_000, threads: 8, f: elements}, Sub {name: "program", quick: 600, thorough: 20_000, threads: 8, f: program}], repro: vec![]}}
