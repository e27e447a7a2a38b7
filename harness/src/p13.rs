//! P13: nothing panics.
use crate::core::*;
use crate::cfg::Cx;
use crate::defcfg;
use crate::gn;
use crate::http::{answer, Server};
use crate::real::Env;
use crate::refcfg::{self, St};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
use url_cleaner::glue::*;
use url_cleaner::types::*;

const NASTY: &[&str] = &["", "\0", "\u{feff}", "é", "a\u{301}", "🦀", "İ", "ß", "﷽", "\u{10ffff}", "%", "%f", "%ff%fe", "%C3", "&", "&#", "&#x110000;", "&#99999999999999999999;", "\\", "\\u", "\\u{", "\\u{110000}", "\\xé", "\"\\", "<a", "<a href", "<é b=\"c", "<a é=é é", "(", "[", "(?", "a{999999999}", "(a*)*b", "**", "[!", "***", "..", ".", "://", "http://", "https://é", "a:b", "[::", "256.256.256.256", "-1", "9999999999999999999999", "NaN", "{", "{\"a\":", "[[[[", "/a/~2", "/-", "//", "?#", "#", "=&=&==", "xn--", "xn--a", "xn--ls8h", "co.uk", "www.", "www", "www.com", "a.", ".a", "user:pw@", ":0", ":65536", "AA==", "A", "====", "-_+/"];
/// Text meant to hurt.
pub fn nasty(g: &mut G) -> String {
    let n = g.weighted(&[1, 6, 4, 2, 1]);
    let mut s: String = (0..n).map(|_| match g.weighted(&[6, 2, 1]) {0 => g.of(NASTY).to_string(), 1 => gn::string(g, 3), _ => gn::any_char(g).to_string()}).collect();
    if g.chance(1, 30) {s = s.repeat(1 + g.usize(60));}
    s
}
fn is_tag(s: &str) -> bool {s.starts_with(|c: char| c.is_ascii_uppercase())}
/// Makes leaves hostile, keeping the structure.
fn hurt(g: &mut G, v: &mut Value, key: &str) {
    match v {
        Value::String(s) => if !is_tag(s) && key != "name" && key != "type" && g.chance(1, 5) {*s = nasty(g);},
        Value::Number(n) => if key != "limit" && key != "delay" && g.chance(1, 3) {
            let was = n.as_i64().unwrap_or(0);
            *v = json!(g.of(&[0, 1, -1, 2, -2, was.saturating_add(1), was.saturating_sub(1), i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, u32::MAX as i64, i32::MIN as i64, 36, 37, 255, 256]));
        },
        Value::Array(a) => a.iter_mut().for_each(|x| hurt(g, x, key)),
        Value::Object(o) => o.iter_mut().for_each(|(k, x)| hurt(g, x, k)),
        _ => {}
    }
}
fn de<T: DeserializeOwned>(v: &Value) -> Option<T> {serde_json::from_str(&v.to_string()).ok()}

fn p13_elements(g: &mut G) -> Res {
    let kind = g.usize(6);
    let d = g.usize(4) as u32;
    let mut cx = Cx::new(g);
    let mut st = cx.state(1);
    let mut v = match kind {0 => cx.condition(d), 1 => cx.mapper(d), 2 => cx.source(d), 3 => cx.modification(d), 4 => cx.matcher(d), _ => cx.rules(d)};
    let mut hay = gn::string(g, 4);
    hurt(g, &mut v, "");
    for k in ["pad", "context", "job_context", "params", "commons", "common"] {if let Some(x) = st.get_mut(k) {hurt(g, x, k);}}
    if g.chance(1, 3) {hay = nasty(g);}
    g.input(v.to_string()); g.input(st.to_string()); g.input(hay.clone());
    let Ok(mut e) = Env::new(&st) else {g.label("state refused"); return Ok(())};
    // The model only bounds the work: repeats that double a string are left out.
    let ok = guard(|| refcfg::bounded(|| {let mut m = St::new(&st); let mut h = hay.clone(); match kind {1 => {let _ = refcfg::mapper(&v, &mut m);}, 5 => {let _ = refcfg::rules(&v, &mut m);}, 3 => {let _ = refcfg::modify(&v, &mut h, &m);}, _ => {}}}));
    if matches!(ok, Ok(None)) || (ok.is_err() && (kind == 1 || kind == 5)) {g.label("too much work"); return Ok(());}
    macro_rules! with {($t:ty, $f:expr) => {match de::<$t>(&v) {Some(x) => {g.nontrivial(); let f: &dyn Fn(&$t, &mut Env) = &$f; f(&x, &mut e);}, None => g.label("element refused")}}}
    match kind {
        0 => with!(Condition, |x: &Condition, e: &mut Env| {let _ = x.satisfied_by(&e.view()).map_err(|e| format!("{e}{e:?}"));}),
        1 => with!(Mapper, |x: &Mapper, e: &mut Env| {let _ = x.apply(&mut e.state()).map_err(|e| format!("{e}{e:?}"));}),
        2 => with!(StringSource, |x: &StringSource, e: &mut Env| {let _ = x.get(&e.view()).map_err(|e| format!("{e}{e:?}"));}),
        3 => with!(StringModification, |x: &StringModification, e: &mut Env| {let mut h = hay.clone(); let _ = x.apply(&mut h, &e.view()).map_err(|e| format!("{e}{e:?}"));}),
        4 => with!(StringMatcher, |x: &StringMatcher, e: &mut Env| {let _ = x.satisfied_by(&hay, &e.view()).map_err(|e| format!("{e}{e:?}"));}),
        _ => with!(Rules, |x: &Rules, e: &mut Env| {let _ = x.apply(&mut e.state()).map_err(|e| format!("{e}{e:?}"));})
    }
    Ok(())
}

/// A whole config and job: tasks as text, hostile contexts, an optional params diff.
fn p13_jobs(g: &mut G) -> Res {
    let d = g.usize(3) as u32;
    let mut cx = Cx::new(g);
    let st = cx.state(1);
    let rules = cx.rules(d);
    let mut c = json!({"params": st["params"], "commons": st["commons"], "rules": rules});
    hurt(g, &mut c, "");
    let urls = g.vec(1, 3, |g| match g.usize(5) {0 => nasty(g), 1 => format!("https://{}", nasty(g)), 2 => json!({"url": gn::url_text(g), "context": {"vars": {"v1": nasty(g)}}}).to_string(), _ => gn::url_text(g)});
    g.input(c.to_string()); g.input(format!("{urls:?}"));
    let Ok(config) = serde_json::from_str::<Config>(&c.to_string()) else {g.label("config refused"); return Ok(())};
    for u in &urls {
        let Ok(t) = TaskConfig::try_from(&**u) else {g.label("task refused"); continue};
        let mut m = st.clone();
        m["params"] = c["params"].clone(); m["commons"] = c["commons"].clone(); m["url"] = json!(t.url.as_str()); m["pad"] = json!({}); m["common"] = Value::Null;
        m["context"] = json!(t.context.vars); m["job_context"] = json!({});
        if !matches!(guard(|| refcfg::bounded(|| {let _ = refcfg::rules(&c["rules"], &mut St::new(&m));})), Ok(Some(_))) {g.label("too much work"); continue;}
        g.nontrivial();
        let job = JobContext::default();
        let jc = JobConfig {config: std::borrow::Cow::Borrowed(&config), cache: Default::default()};
        match jc.new_task(t, &job).r#do() {Ok(u) => {let _ = (u.to_string(), u.host_details());}, Err(e) => {let _ = format!("{e} {e:?}");}}
    }
    Ok(())
}

fn p13_default(g: &mut G) -> Res {
    let (flags, c) = defcfg::variant(g.usize(defcfg::POOL));
    let u = match g.weighted(&[6, 2, 1, 1]) {
        0 => defcfg::known_url(g),
        1 => {let mut u = defcfg::known_url(g); let n = nasty(g); let i = u.char_indices().map(|x| x.0).nth(8 + g.usize(u.chars().count().max(9) - 8)).unwrap_or(u.len()); u.insert_str(i, &n); u},
        2 => gn::url_text(g),
        _ => format!("https://{}/{}", defcfg::known_host(g), nasty(g))
    };
    let (mut x, j) = (defcfg::context(g), defcfg::job_context(g));
    for v in x.vars.values_mut() {if g.chance(1, 4) {*v = nasty(g);}}
    g.input(u.clone()); g.input(format!("{flags:?}"));
    if !x.vars.is_empty() {g.input(format!("{:?}", x.vars));}
    match defcfg::clean(c, &u, &x, &j) {Ok(r) => if r != u {g.nontrivial();}, Err(e) => {g.label(if e.starts_with("parse") {"not a URL"} else {"error"});}}
    Ok(())
}

/// Helper parsers and deserializers on arbitrary text.
fn p13_parsers(g: &mut G) -> Res {
    let (a, b) = (nasty(g), nasty(g));
    let k = g.usize(14);
    g.input(format!("{k} {a:?} {b:?}"));
    g.nontrivial();
    match k {
        0 => {let _ = parse::html::unescape_text(&a).map_err(|e| format!("{e}{e:?}"));},
        1 => {let _ = parse::html::parse_char_ref(&a).map_err(|e| format!("{e}{e:?}"));},
        2 => {let _ = parse::html::get_attribute_value(&format!("<{a}"), &b).map_err(|e| format!("{e}{e:?}"));},
        3 => {let _ = parse::html::get_attribute_value(&a, &b).map_err(|e| format!("{e}{e:?}"));},
        4 => {let q = g.of(&["\"", "'"]); let _ = parse::js::string_literal_prefix(&format!("{q}{a}{q}{b}")).map_err(|e| format!("{e}{e:?}"));},
        5 => {let _ = parse::js::string_literal_prefix(&a).map_err(|e| format!("{e}{e:?}"));},
        6 => {let _ = a.parse::<TaskConfig>().map_err(|e| format!("{e}{e:?}"));},
        7 => {let _ = serde_json::from_str::<TaskConfig>(&json!({"url": a, "context": {"vars": {"a": b}}}).to_string());},
        8 => {let c = CachePath::from(&*a); let _ = (c.as_path().map(|x| x.to_path_buf()), c.as_str().len());},
        9 => {if let Ok(p) = a.parse::<ProxyConfig>() {let _ = p.make();} if let Ok(p) = serde_json::from_value::<ProxyConfig>(json!(format!("http://{a}"))) {let _ = p.make();}},
        10 => {if let Ok(r) = serde_json::from_value::<RegexWrapper>(json!(a)) {let _ = r.get().map(|r| r.is_match(&b));}},
        11 => {if let Ok(x) = serde_json::from_value::<GlobWrapper>(json!(a)) {let _ = x.matches(&b);}},
        12 => {let _ = serde_json::from_str::<Config>(&a).is_ok(); let _ = serde_json::from_str::<ParamsDiff>(&a).is_ok(); let _ = serde_json::from_str::<UrlPart>(&json!(a).to_string()).is_ok();},
        _ => {
            let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
            for m in [json!("GetJsStringLiteralPrefix"), json!("UnescapeHtmlText"), json!({"GetHtmlAttribute": b}), json!({"JsonPointer": b}), json!("UrlDecode"), json!("Base64Decode"), json!({"ExtractBetween": {"start": b, "end": b}}), json!({"RegexFind": b})] {
                if let Some(m) = de::<StringModification>(&m) {let mut s = a.clone(); let _ = m.apply(&mut s, &e.view()).map_err(|e| format!("{e}{e:?}"));}
            }
        }
    }
    Ok(())
}

/// Every way to write a part, on hostile values, and reading every part after it.
fn p13_parts(g: &mut G) -> Res {
    let t = if g.chance(1, 4) {format!("{}{}", g.of(&["https://", "foo:", "file:", "foo://", "a:/"]), nasty(g))} else {gn::url_text(g)};
    let Ok(mut u) = BetterUrl::parse(&t) else {g.label("not a URL"); return Ok(())};
    for _ in 0..1 + g.usize(4) {
        let p = gn::part(g);
        let v = if g.flip() {Some(nasty(g))} else {gn::part_value(g, &p)};
        g.input(format!("{t} {p} {v:?}"));
        let Some(p) = de::<UrlPart>(&p) else {continue};
        if p.set(&mut u, v.as_deref()).is_ok() {g.nontrivial();}
        for q in gn::PLAIN_PARTS {let _ = de::<UrlPart>(&json!(q)).map(|q| q.get(&u).map(|x| x.len()));}
        for q in gn::SEG_PARTS {for i in [0i64, 1, -1, i64::MAX, i64::MIN] {let _ = de::<UrlPart>(&json!({*q: i})).map(|q| q.get(&u).map(|x| x.len()));}}
    }
    Ok(())
}

/// Requests, redirects and commands made of hostile text, and hostile answers. Only this process' own loopback server is ever reached, and only harmless programs are named.
fn p13_outside(g: &mut G) -> Res {
    let src = |g: &mut G| match g.usize(8) {0 => Value::Null, 1 => json!({"Error": "x"}), 2 => json!("a"), _ => json!(nasty(g))};
    let srcs = |g: &mut G| -> Map<String, Value> {let n = g.usize(3); (0..n).map(|_| {let k = g.of(&["x-a", "accept", "cookie", "content-length", ""]); (if g.flip() {k.to_string()} else {nasty(g)}, match g.usize(6) {0 => Value::Null, 1 => json!("a"), _ => json!(nasty(g))})}).collect()};
    if g.chance(1, 4) {
        let program = match g.usize(5) {0 => format!("/nonexistent/{}", nasty(g)), 1 => g.of(&["", "\0", "/", ".", "no such program", "a\0b"]).to_string(), n => ["/bin/true", "/bin/echo", "/bin/cat"][n - 2].to_string()};
        let n = g.usize(3);
        let mut c = json!({"program": program, "args": (0..n).map(|_| src(g)).filter(|x| program != "/bin/cat" || x.as_str().is_some_and(|x| x.is_empty())).collect::<Vec<_>>(), "envs": srcs(g)});
        if g.flip() {c["stdin"] = src(g);}
        if g.chance(1, 3) {c["current_dir"] = json!(if g.flip() {"/".to_string()} else {nasty(g)});}
        g.input(c.to_string());
        let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
        let Some(c) = de::<CommandConfig>(&c) else {g.label("refused"); return Ok(())};
        g.nontrivial();
        let v = e.view();
        let _ = c.exists();
        let _ = c.output(&v).map_err(|e| format!("{e}{e:?}"));
        if !matches!(&*program, "/bin/echo" | "/bin/cat") {let _ = c.exit_code(&v).map_err(|e| format!("{e}{e:?}"));}
        if let Some(s) = de::<StringSource>(&json!({"CommandOutput": c})) {let _ = s.get(&v).map_err(|e| format!("{e}{e:?}"));}
        return Ok(());
    }
    // The answer: any status, headers and body that the server can send in one go.
    let mut head: Vec<(String, Vec<u8>)> = Vec::new();
    for _ in 0..g.usize(4) {
        let k = g.of(&["location", "refresh", "set-cookie", "content-type", "content-encoding", "transfer-encoding", "x-a", "link"]);
        let v = match (k, g.usize(3)) {(_, 0) => nasty(g), ("location", _) => {let n = nasty(g); g.of(&["/", "?", "#", "ftp://x/", "mailto:", "//127.0.0.1:1/"]).to_string() + &n}, ("content-type", 1) => format!("text/html; charset={}", nasty(g)), ("content-type", _) => g.of(&["text/html; charset=utf-16", "text/html; charset=utf-7", "text/html;charset", ";", "text/html; charset=\""]).to_string(), ("set-cookie", _) => {let n = nasty(g); g.of(&["a=", "=", "a=1; expires=", ";", "a=1; max-age="]).to_string() + &n}, ("content-encoding", _) => g.of(&["gzip", "br", "identity", "deflate"]).to_string(), ("transfer-encoding", _) => g.of(&["chunked", "gzip"]).to_string(), _ => "x".into()};
        head.push((k.to_string(), v.bytes().filter(|b| *b != b'\n' && *b != b'\r').collect()));
    }
    let mut body = nasty(g).into_bytes();
    match g.usize(6) {0 => body = g.vec(0, 40, |g| g.below(256) as u8), 1 => body = body.iter().flat_map(|b| [*b, 0]).collect(), _ => {}}
    let status = g.of(&[200u16, 200, 301, 302, 303, 307, 308, 300, 304, 204, 404, 500, 101, 199, 599, 999, 0]);
    let out = match g.usize(12) {0 => body.clone(), 1 => Vec::new(), _ => answer(status, &head, &body)};
    let server = Server::new(Box::new(move |_| out.clone()));
    let n = nasty(g);
    let url = server.url(&format!("{}{n}", g.of(&["/", "/a/", "/?a=", "/#"])));
    let headers = srcs(g);
    let mut client = json!({"default_headers": headers.iter().filter_map(|(k, v)| Some((k.clone(), json!(v.as_str()?)))).filter(|_| g.chance(1, 4)).collect::<Map<_, _>>()});
    if g.chance(1, 6) {client["redirect_policy"] = json!({"Limited": g.of(&[0u64, 1, 2, 30])});}
    if g.chance(1, 10) {client["extra_certificates"] = json!([match g.usize(3) {0 => nasty(g), 1 => format!("-----BEGIN CERTIFICATE-----\n{}\n-----END CERTIFICATE-----\n", nasty(g)), _ => "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n".into()}]);}
    if g.chance(1, 10) {let u = server.url("/"); let n = nasty(g); client["proxies"] = json!([{"url": u, "mode": g.of(&["All", "Http", "Https"]), "auth": {"Basic": {"username": n, "password": n}}}]);}
    let mut req = json!({"url": match g.usize(8) {0 => json!(nasty(g)), 1 => src(g), _ => json!(url)}, "headers": headers, "method": g.of(&["GET", "HEAD", "POST", "CONNECT", "OPTIONS", "X", "TRACE"])});
    match g.usize(5) {0 => req["body"] = json!({"Text": src(g)}), 1 => req["body"] = json!({"Form": srcs(g)}), 2 => req["body"] = json!({"Json": {"Object": srcs(g)}}), _ => {}}
    if let Some(h) = g.of(&[None, Some("Header"), Some("Cookie")]) {let s = if g.flip() {json!(g.of(&["x-a", "a", ""]))} else {src(g)}; req["response_handler"] = json!({h: s});} else if g.flip() {req["response_handler"] = json!("Url");}
    // Nothing but the server may be asked: names are not looked up.
    let stays = |u: &str| url::Url::parse(u).is_ok_and(|u| !matches!(u.scheme(), "http" | "https") || u.host_str() == Some("127.0.0.1"));
    if req["url"].as_str().is_some_and(|u| url::Url::parse(u).is_ok() && !stays(u)) {req["url"] = json!(url);}
    let base = url::Url::parse(&url).expect("harness/src: url");
    if head.iter().any(|(k, v)| k == "location" && base.join(&String::from_utf8_lossy(v)).is_ok_and(|u| !stays(u.as_str()))) {g.label("leads elsewhere"); return Ok(());}
    g.input(format!("{req}; client {client}; answer {status} {head:?} {:?}", String::from_utf8_lossy(&body)));
    let Ok(mut e) = Env::new(&json!({"url": url, "params": {"http_client_config": client}})) else {g.label("client refused"); return Ok(())};
    g.nontrivial();
    if g.flip() {if let Some(s) = de::<StringSource>(&json!({"HttpRequest": req})) {let _ = s.get(&e.view()).map_err(|e| format!("{e}{e:?}"));} else {g.label("request refused");}}
    else if let Some(m) = de::<Mapper>(&json!({"ExpandRedirect": {"headers": req["headers"]}})) {let _ = m.apply(&mut e.state()).map_err(|e| format!("{e}{e:?}"));}
    else {g.label("mapper refused");}
    Ok(())
}

fn sub(name: &'static str, quick: u64, f: fn(&mut G) -> Res) -> Sub {Sub {name, quick, thorough: quick * 20, threads: 8, f}}
pub fn p13() -> Prop {Prop {id: "P13", rule: "elements, jobs: it deserialized and ran; default: the URL changed; parsers: every case; parts: a write succeeded; outside: the configuration was accepted",
    assumptions: &["debug assertions and overflow checks are on", "elements whose common calls never end, and repeats that grow a string without bound, are left out (they exhaust the stack or memory, which the panic policy excepts)", "nothing outside this machine is asked; programs are harmless ones or missing"],
    subs: vec![sub("elements", 250_000, p13_elements), sub("jobs", 60_000, p13_jobs), sub("default", 60_000, p13_default), sub("parsers", 400_000, p13_parsers), sub("parts", 60_000, p13_parts), sub("outside", 12_000, p13_outside)], repro: vec![]}}
