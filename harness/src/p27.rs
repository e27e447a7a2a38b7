//! P27: HTTP requests as configured, against a recording server on the loopback interface.
use crate::core::*;
use crate::http::*;
use crate::real::{parse, Env};
use crate::{ensure, ensure_eq};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use url_cleaner::types::*;

/// What a string source gives, and how it is written.
#[derive(Clone, Debug, PartialEq)]
enum Val {Some(String), None, Err}
fn val(g: &mut G, params: &mut Map<String, Value>, v: Val) -> Value {
    match v {
        Val::Some(s) => match g.usize(3) {
            0 => json!(s),
            1 => {let n = format!("v{}", params.len()); params.insert(n.clone(), json!(s)); json!({"Var": n})},
            _ => json!({"Join": {"sources": [s, ""]}})
        },
        Val::None => if g.flip() {Value::Null} else {json!({"Var": "missing"})},
        Val::Err => json!({"Error": "told to fail"})
    }
}
fn opt(g: &mut G, s: String) -> Val {match g.weighted(&[14, 2, 1]) {0 => Val::Some(s), 1 => Val::None, _ => Val::Err}}
const NAMES: &[&str] = &["x-a", "x-b", "accept", "content-type", "user-agent", "authorization", "X-Upper"];
const TEXTS: &[&str] = &["", "a", "a b", "a&b=c", "é", "\"q\"", "a+b%20c", "x\r\ny", "{}", "\u{1F600}"];
fn header_value(g: &mut G) -> String {g.of(&["1", "a b", "text/plain", "application/x", "k=v; l=w", "é", "Bearer t", "", "a,b"]).to_string()}
fn client(g: &mut G) -> (BTreeMap<String, String>, Map<String, Value>, Map<String, Value>) {
    let (mut want, mut cfg, mut diff) = (BTreeMap::new(), Map::new(), Map::new());
    let mut some = |g: &mut G| -> Map<String, Value> {let n = g.usize(3); let mut o = Map::new(); for _ in 0..n {let k = g.of(NAMES).to_lowercase(); let v = header_value(g); want.insert(k.clone(), v.clone()); o.insert(k, json!(v));} o};
    if g.flip() {let h = some(g); cfg.insert("default_headers".into(), json!(h));}
    if g.flip() {let h = some(g); diff.insert("add_default_headers".into(), json!(h));}
    (want, cfg, diff)
}
fn json_body(g: &mut G, params: &mut Map<String, Value>, d: u32) -> (Value, Result<Value, ()>) {
    match g.weighted(&[1, 1, 2, 5, if d > 0 {2} else {0}, if d > 0 {2} else {0}]) {
        0 => (Value::Null, Ok(Value::Null)),
        1 => {let b = g.flip(); (json!(b), Ok(json!(b)))},
        2 => {let n = g.of(&[json!(0), json!(-7), json!(1.5), json!(u64::MAX)]); (n.clone(), Ok(n))},
        3 => {
            let t = g.of(TEXTS).to_string();
            let v = opt(g, t);
            let w = match &v {Val::Some(s) => Ok(json!(s)), _ => Err(())};
            let plain = matches!(v, Val::Some(_)) && g.flip();
            match (&v, plain) {(Val::Some(s), true) => (json!(s), w), _ => {let x = val(g, params, v); (json!({"String": x}), w)}}
        },
        4 => {let n = g.usize(3); let xs: Vec<_> = (0..n).map(|_| json_body(g, params, d - 1)).collect(); (Value::Array(xs.iter().map(|x| x.0.clone()).collect()), xs.into_iter().map(|x| x.1).collect::<Result<Vec<_>, _>>().map(Value::Array))},
        _ => {let n = g.usize(3); let xs: BTreeMap<String, _> = (0..n).map(|_| (g.of(&["a", "b", "é", ""]).to_string(), json_body(g, params, d - 1))).collect(); let o: Map<_, _> = xs.iter().map(|(k, x)| (k.clone(), x.0.clone())).collect(); (json!({"Object": o}), xs.into_iter().map(|(k, x)| x.1.map(|v| (k, v))).collect::<Result<Map<_, _>, _>>().map(Value::Object))}
    }
}
#[derive(Clone, Debug)]
enum Body {Nothing, Text(String), Form(Vec<(String, String)>), Json(Value)}

fn p27_request(g: &mut G) -> Res {
    let mut params = Map::new();
    // The answer.
    let fault = g.weighted(&[10, 1, 1, 1]);
    let status = g.of(&[200u16, 404, 500, 204, 300]);
    let (text, charset) = match g.usize(5) {0 => (vec![], ""), 1 => ("é\u{1F600}\n".as_bytes().to_vec(), "text/plain; charset=utf-8"), 2 => (b"a\xe9\xff".to_vec(), "text/html; charset=iso-8859-1"), 3 => (b"a\xff\xc3b".to_vec(), "text/plain"), _ => ("plain é".repeat(1 + g.usize(3000)).into_bytes(), "")};
    let text = if status == 204 {vec![]} else {text};
    let decoded: String = if charset.contains("8859") {text.iter().map(|b| *b as char).collect()} else {String::from_utf8_lossy(&text).into_owned()};
    let mut headers: Vec<(String, Vec<u8>)> = Vec::new();
    if !charset.is_empty() {headers.push(("content-type".into(), charset.into()));}
    for _ in 0..g.usize(4) {let k = g.of(&["x-r", "x-s", "Set-Cookie"]).to_string(); let v: Vec<u8> = if k == "Set-Cookie" {g.of(&["a=1", "a=2; Path=/", "b=x y; HttpOnly", "b=", "A=3"]).into()} else {g.of(&[&b"one"[..], b"two three", b"", b"\xc3\xa9"]).to_vec()}; headers.push((k, v));}
    let out = match fault {0 => answer(status, &headers, &text), 1 => Vec::new(), 2 => {let mut h = headers.clone(); h.push(("content-length".into(), (text.len() + 5).to_string().into_bytes())); answer(200, &h, &text)}, _ => b"nonsense\r\n\r\n".to_vec()};
    let server = Server::new(Box::new(move |_| out.clone()));
    // The request.
    let target = format!("{}{}", g.of(&["/", "/a/b", "/%20x"]), g.of(&["", "?", "?a=1&b=%26"]));
    let task_url = format!("{}{}", server.url(&target), g.of(&["", "#frag"]));
    let mut req = Map::new();
    let mut bad = false;
    let mut want_target = target.clone();
    let mut final_url = task_url.clone();
    match g.weighted(&[4, 4, 1]) {
        0 => {},
        1 => {let t = g.of(&["/other", "/other?q"]).to_string(); want_target = t.clone(); final_url = server.url(&t); let u = server.url(&t); let v = val(g, &mut params, Val::Some(u)); req.insert("url".into(), v);},
        _ => {bad = true; let w = g.of(&[Val::None, Val::Err, Val::Some("no url".into())]); let v = val(g, &mut params, w); req.insert("url".into(), v);}
    }
    let method = g.of(&["GET", "GET", "POST", "PUT", "PATCH", "DELETE", "PURGE", "OPTIONS"]);
    if method != "GET" || g.flip() {req.insert("method".into(), json!(method));}
    let (mut want, mut cfg, mut diff) = client(g);
    let mut typed = false;
    let mut hs = Map::new();
    for _ in 0..g.usize(4) {
        let k = g.of(NAMES).to_string();
        if hs.contains_key(&k) {continue;}
        let s = header_value(g);
        let v = opt(g, s);
        match &v {Val::Some(s) => {typed |= k == "content-type"; want.insert(k.to_lowercase(), s.clone());}, Val::None => {}, Val::Err => bad = true}
        let j = val(g, &mut params, v); hs.insert(k, j);
    }
    if g.chance(1, 15) {bad = true; let (k, v) = g.of(&[("bad name", "x"), ("", "x"), ("x-c", "a\nb"), ("x-c", "a\u{0}")]); hs.insert(k.into(), json!(v));}
    if !hs.is_empty() {req.insert("headers".into(), json!(hs));}
    let mut body = Body::Nothing;
    match g.usize(4) {
        0 => {let t = g.of(TEXTS).to_string(); let t = if g.chance(1, 10) {t.repeat(5000)} else {t}; let v = opt(g, t); match &v {Val::Some(s) => body = Body::Text(s.clone()), _ => bad = true} let j = val(g, &mut params, v); req.insert("body".into(), json!({"Text": j}));},
        1 => {
            let mut o = Map::new(); let mut f = Vec::new();
            for _ in 0..g.usize(4) {let k = g.of(&["a", "b", "k é", "a&b", ""]).to_string(); if o.contains_key(&k) {continue;} let t = g.of(TEXTS).to_string(); let v = opt(g, t); match &v {Val::Some(s) => f.push((k.clone(), s.clone())), Val::None => {}, Val::Err => bad = true} let j = val(g, &mut params, v); o.insert(k, j);}
            f.sort(); body = Body::Form(f); req.insert("body".into(), json!({"Form": o}));
        },
        2 => {let (j, w) = json_body(g, &mut params, 2); match w {Ok(v) => body = Body::Json(v), Err(()) => bad = true} req.insert("body".into(), json!({"Json": j}));},
        _ => {}
    }
    // What is wanted of the answer.
    let first = |n: &str| headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone());
    let result: Result<String, ()> = match g.usize(4) {
        0 => {if g.flip() {req.insert("response_handler".into(), json!("Body"));} if fault == 2 {Err(())} else {Ok(decoded)}},
        1 => {req.insert("response_handler".into(), json!("Url")); Ok(final_url.clone())},
        2 => {
            let n = g.of(&["x-r", "X-S", "missing", "not a name"]).to_string();
            let v = opt(g, n.clone());
            let r = match &v {Val::Some(n) => first(n).filter(|v| v.iter().all(|b| (32..127).contains(b) || *b == 9)).map(|v| String::from_utf8(v).expect("harness/src: ascii")).ok_or(()), _ => Err(())};
            let j = val(g, &mut params, v); req.insert("response_handler".into(), json!({"Header": j})); r
        },
        _ => {
            let n = g.of(&["a", "b", "A", "c"]).to_string();
            let v = opt(g, n);
            let r = match &v {Val::Some(n) => headers.iter().filter(|(k, _)| k == "Set-Cookie").filter_map(|(_, v)| {let s = String::from_utf8(v.clone()).ok()?; let (k, v) = s.split(';').next()?.split_once('=')?; (k == n).then(|| v.to_string())}).next().ok_or(()), _ => Err(())};
            let j = val(g, &mut params, v); req.insert("response_handler".into(), json!({"Cookie": j})); r
        }
    };
    // Settings that have to be overridden.
    let only = g.weighted(&[6, 1, 1, 1]);
    match only {0 => {}, 1 => {cfg.insert("https_only".into(), json!(true)); bad = true;}, 2 => {diff.insert("https_only".into(), json!(true)); bad = true;}, _ => {cfg.insert("https_only".into(), json!(true)); diff.insert("https_only".into(), json!(false));}}
    if !diff.is_empty() {req.insert("client_config_diff".into(), json!(diff));}
    let config: Value = json!({"vars": params, "http_client_config": cfg});
    g.input(format!("{}; params {}; server: status {status}, fault {fault}, {headers:?}", json!(req), json!(cfg)));
    if !bad && (!want.is_empty() || !matches!(body, Body::Nothing)) {g.nontrivial();}
    let env = Env::new(&json!({"url": task_url, "params": config})).expect("harness/src: env");
    let src: StringSource = parse(&json!({"HttpRequest": req}));
    let got = src.get(&env.view()).map(|x| x.map(|x| x.into_owned())).map_err(|e| format!("{e:?}"));
    let log = server.taken();
    if bad {ensure!(got.is_err(), "request that cannot be made", "{got:?}"); ensure!(log.is_empty(), "request sent although it cannot be made", "{log:?}"); return Ok(());}
    ensure!(!log.is_empty(), "no request", "{got:?}");
    ensure!(log.len() == 1 || fault == 1, "more than one request", "{log:?}");
    for r in &log {
        ensure_eq!(r.method, method, "method", "");
        ensure_eq!(r.target, want_target, "target", "");
        ensure_eq!(r.all("host"), vec![server.addr.to_string()], "host header", "");
        let mut want = want.clone();
        // The type of a form or JSON is only left alone if the request itself gives one.
        if !typed && matches!(body, Body::Form(_) | Body::Json(_)) {want.remove("content-type");}
        match &body {Body::Form(_) => {want.entry("content-type".into()).or_insert("application/x-www-form-urlencoded".into());}, Body::Json(_) => {want.entry("content-type".into()).or_insert("application/json".into());}, _ => {}}
        want.entry("accept".into()).or_insert("*/*".into());
        let mut have: Vec<(String, String)> = r.headers.iter().filter(|(k, _)| !["host", "content-length"].contains(&&**k)).map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect();
        have.sort();
        ensure_eq!(have, want.into_iter().collect::<Vec<_>>(), "headers", "");
        match &body {
            Body::Nothing => ensure!(r.body.is_empty(), "body", "{:?}", r.body),
            Body::Text(t) => ensure_eq!(String::from_utf8_lossy(&r.body), t.as_str(), "text body", ""),
            Body::Form(f) => {let mut x: Vec<(String, String)> = form_urlencoded::parse(&r.body).into_owned().collect(); x.sort(); ensure_eq!(&x, f, "form body", "{:?}", String::from_utf8_lossy(&r.body));},
            Body::Json(v) => ensure_eq!(serde_json::from_slice::<Value>(&r.body).ok(), Some(v.clone()), "JSON body", "{:?}", String::from_utf8_lossy(&r.body))
        }
    }
    match (fault, result) {
        (1, _) | (3, _) | (_, Err(())) => ensure!(got.is_err(), "result", "no error but {got:?}"),
        (_, Ok(r)) => ensure_eq!(got, Ok(Some(r)), "result", "")
    }
    ensure_eq!(env.snapshot(), Env::new(&json!({"url": task_url})).expect("harness/src: env").snapshot(), "the task changes", "");
    Ok(())
}

/// How a redirect names its target.
fn location(g: &mut G, base: &str, n: usize) -> String {
    let host = base.split("//").nth(1).unwrap_or("").split('/').next().unwrap_or("").to_string();
    match g.usize(4) {0 => format!("http://{host}/r{n}"), 1 => format!("/r{n}"), 2 => format!("r{n}"), _ => format!("//{host}/r{n}")}
}
fn p27_redirects(g: &mut G) -> Res {
    let k = g.usize(5);
    let expand = g.flip();
    let statuses: Vec<u16> = (0..k).map(|_| g.of(&[301u16, 302, 303, 307, 308])).collect();
    let locs: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let (l, st) = (locs.clone(), statuses.clone());
    let server = Server::new(Box::new(move |r| {
        let i: usize = r.target.trim_start_matches("/r").parse().unwrap_or(99);
        match st.get(i) {Some(s) => answer(*s, &[("location".into(), l.lock().expect("harness/src: plan")[i].clone().into_bytes())], format!("page {i}").as_bytes()), None => answer(200, &[], format!("page {i}").as_bytes())}
    }));
    for i in 0..k {let x = location(g, &server.url("/"), i + 1); locs.lock().expect("harness/src: plan").push(x);}
    // The policy may come from the params or from the request's own overrides.
    let pol = |g: &mut G| match g.usize(3) {0 => None, 1 => Some(Ok(g.usize(5))), _ => Some(Err(()))};
    let (a, b) = (pol(g), pol(g));
    let js = |p: &Option<Result<usize, ()>>| match p {None => Value::Null, Some(Ok(n)) => json!({"Limited": n}), Some(Err(())) => json!("None")};
    let (mut cfg, mut diff) = (Map::new(), Map::new());
    if a.is_some() {cfg.insert("redirect_policy".into(), js(&a));}
    if b.is_some() {diff.insert("redirect_policy".into(), js(&b));}
    let policy = b.or(a).unwrap_or(Ok(10));
    let rf = |g: &mut G| match g.usize(3) {0 => None, 1 => Some(true), _ => Some(false)};
    let (ra, rb) = (rf(g), rf(g));
    if let Some(x) = ra {cfg.insert("referer".into(), json!(x));}
    if let Some(x) = rb {diff.insert("referer".into(), json!(x));}
    let referer = rb.or(ra).unwrap_or(false);
    let (want_headers, c2, d2) = client(g);
    cfg.extend(c2); diff.extend(d2);
    let url = server.url("/r0");
    let mut env = Env::new(&json!({"url": url, "params": {"http_client_config": cfg, "read_cache": false, "write_cache": false}})).expect("harness/src: env");
    g.input(format!("expand {expand}, statuses {statuses:?}, {:?}, params {}, overrides {}", locs.lock().expect("harness/src: plan").iter().map(|l| l.replace(&server.addr.to_string(), "SERVER")).collect::<Vec<_>>(), json!(cfg), json!(diff)));
    if k > 0 {g.nontrivial();}
    let (hops, ok) = match policy {Err(()) => (0, true), Ok(n) => (k.min(n.max(1) - 1), k < n.max(1))};
    let at = |i: usize| server.url(&format!("/r{i}"));
    let got = if expand {
        let mut o = Map::new();
        if !diff.is_empty() || g.flip() {o.insert("http_client_config_diff".into(), json!(diff));}
        if g.flip() {o.insert("headers".into(), json!({"x-own": "1"}));}
        let own = o.contains_key("headers");
        let m: Mapper = parse(&json!({"ExpandRedirect": o}));
        let r = m.apply(&mut env.state()).map_err(|e| format!("{e:?}"));
        let log = server.log.lock().expect("harness/src: log").clone();
        for q in &log {ensure_eq!(q.all("x-own"), if own {vec!["1".to_string()]} else {vec![]}, "own headers", "");}
        // The target the server named, or where following led.
        let want = if ok {Some(if hops < k {at(hops + 1)} else {at(k)})} else {None};
        match want {
            Some(u) => {ensure!(r.is_ok(), "redirect not expanded", "{r:?}"); ensure_eq!(env.url.as_str(), u, "expanded redirect", "");},
            None => {ensure!(r.is_err(), "too many redirects", "{}", env.url.as_str()); ensure_eq!(env.url.as_str(), url, "URL changed by an error", "");}
        }
        log
    } else {
        let (h, want) = match g.usize(2) {0 => ("Body", format!("page {hops}")), _ => ("Url", at(hops))};
        let mut o = json!({"response_handler": h});
        if !diff.is_empty() {o["client_config_diff"] = json!(diff);}
        let src: StringSource = parse(&json!({"HttpRequest": o}));
        let r = src.get(&env.view()).map(|x| x.map(|x| x.into_owned())).map_err(|e| format!("{e:?}"));
        if ok {ensure_eq!(r, Ok(Some(want)), "result", "");} else {ensure!(r.is_err(), "too many redirects", "{r:?}");}
        server.log.lock().expect("harness/src: log").clone()
    };
    ensure_eq!(got.iter().map(|r| r.target.clone()).collect::<Vec<_>>(), (0..=hops).map(|i| format!("/r{i}")).collect::<Vec<_>>(), "requests", "");
    for (i, r) in got.iter().enumerate() {
        ensure_eq!(r.method, "GET", "method", "");
        let want = if referer && i > 0 {vec![at(i - 1)]} else {vec![]};
        ensure_eq!(r.all("referer"), want, "referer", "request {i}");
        for (k, v) in want_headers.iter().filter(|(k, _)| i == 0 || *k != "content-type") {ensure_eq!(r.all(k), vec![v.clone()], "default headers", "request {i}, {k}");}
    }
    Ok(())
}
/// One step with a strange answer.
fn p27_expand(g: &mut G) -> Res {
    let status = g.of(&[200u16, 201, 300, 301, 302, 303, 304, 307, 308, 404, 500]);
    let loc: Option<Vec<u8>> = match g.usize(12) {0 => None, 1 => Some(b"https://x.example/\xff".to_vec()), 2 => Some(b"http://[bad".to_vec()), _ => Some(g.of(&["https://x.example/a?b#c", "HTTPS://X.example", "/p", "p?q", "?q=2", "#f", "", "../up", "//y.example", "mailto:a@b", "https://\u{e9}.example/\u{e9}", "/a b"]).as_bytes().to_vec())};
    let dead = g.chance(1, 20);
    let h: Vec<(String, Vec<u8>)> = loc.iter().map(|l| ("location".to_string(), l.clone())).collect();
    let out = if dead {vec![]} else {answer(status, &h, b"x")};
    let server = Server::new(Box::new(move |_| out.clone()));
    let target = g.of(&["/a/b/c", "/", "/a?q=1"]);
    let frag = g.of(&["", "#frag"]);
    let url = format!("{}{frag}", server.url(target));
    g.input(format!("{target}{frag}, status {status}, location {:?}, dead {dead}", loc.as_ref().map(|l| String::from_utf8_lossy(l).into_owned())));
    let mut env = Env::new(&json!({"url": url, "params": {"read_cache": false, "write_cache": false, "http_client_config": {"redirect_policy": "None"}}})).expect("harness/src: env");
    let m: Mapper = parse(&json!({"ExpandRedirect": {}}));
    let r = m.apply(&mut env.state()).map_err(|e| format!("{e:?}"));
    let log = server.taken();
    ensure!(log.len() == 1 || dead, "requests", "{log:?}");
    for q in &log {ensure_eq!((&*q.method, &*q.target, q.body.len()), ("GET", target, 0), "request", "");}
    let base = url::Url::parse(&server.url(target)).expect("harness/src: url");
    let want: Option<String> = if dead {None} else if (300..400).contains(&status) {loc.as_ref().and_then(|l| String::from_utf8(l.clone()).ok()).and_then(|l| base.join(&l).ok()).map(|u| u.to_string())} else {Some(url.clone())};
    if (300..400).contains(&status) {g.nontrivial();}
    match want {
        None => {ensure!(r.is_err(), "expanded without a target", "{}", env.url.as_str()); ensure_eq!(env.url.as_str(), url, "URL changed by an error", "");},
        Some(u) => {ensure!(r.is_ok(), "redirect not expanded", "{r:?}"); ensure_eq!(env.url.as_str(), u, "expanded redirect", "");}
    }
    Ok(())
}
const PEMS: [&str; 2] = [include_str!("../tls/cert.pem"), include_str!("../tls/other.pem")];
/// Proxies and certificates: which server is talked to, and whether it is trusted.
fn p27_client(g: &mut G) -> Res {
    let tls = g.flip();
    let mk = |n: &'static str| -> Handler {Box::new(move |_| answer(200, &[], n.as_bytes()))};
    let target = if tls {Server::tls(mk("target"))} else {Server::new(mk("target"))};
    let proxies = [Server::new(mk("proxy 0")), Server::new(mk("proxy 1"))];
    // (which proxy, mode, auth)
    type P = (usize, &'static str, usize);
    let proxy = |g: &mut G| -> P {(g.usize(2), g.of(&["Http", "Https", "All", ""]), g.usize(3))};
    let js = |p: &P| -> Value {
        let mut o = json!({"url": proxies[p.0].url("/")});
        if !p.1.is_empty() {o["mode"] = json!(p.1);}
        match p.2 {1 => o["auth"] = json!({"Basic": {"username": "us", "password": "pa:ss"}}), 2 => o["auth"] = json!({"Custom": "Token x"}), _ => {}}
        if p.1.is_empty() && p.2 == 0 {json!(proxies[p.0].url("/"))} else {o}
    };
    let (mut cfg, mut diff) = (Map::new(), Map::new());
    let mut list: Vec<P> = Vec::new();
    if g.flip() {list = g.vec(0, 2, proxy); cfg.insert("proxies".into(), json!(list.iter().map(js).collect::<Vec<_>>()));}
    if g.chance(1, 4) {list = g.vec(0, 2, proxy); diff.insert("set_proxies".into(), json!(list.iter().map(js).collect::<Vec<_>>()));}
    if g.chance(1, 4) {let more = g.vec(0, 2, proxy); diff.insert("add_proxies".into(), json!(more.iter().map(js).collect::<Vec<_>>())); list.extend(more);}
    let ob = |g: &mut G| match g.usize(4) {0 => Some(true), 1 => Some(false), _ => None};
    let (na, nb) = (ob(g), ob(g));
    if let Some(x) = na {cfg.insert("no_proxy".into(), json!(x));}
    if let Some(x) = nb {diff.insert("no_proxy".into(), json!(x));}
    let (ha, hb) = if tls {(ob(g), ob(g))} else {(None, None)};
    if let Some(x) = ha {cfg.insert("https_only".into(), json!(x));}
    if let Some(x) = hb {diff.insert("https_only".into(), json!(x));}
    if nb.or(na).unwrap_or(false) {list.clear();}
    let used = list.iter().find(|p| match p.1 {"Http" => !tls, "Https" => tls, _ => true}).copied();
    // Certificates.
    let mut trusted: Vec<usize> = Vec::new();
    if tls {
        let some = |g: &mut G| -> Vec<usize> {(0..2).filter(|_| g.flip()).collect()};
        let j = |v: &[usize]| json!(v.iter().map(|i| PEMS[*i]).collect::<Vec<_>>());
        if g.flip() {let v = some(g); cfg.insert("extra_certificates".into(), j(&v)); trusted = v;}
        if g.flip() {let v = some(g); diff.insert("add_extra_certificates".into(), j(&v)); trusted.extend(v);}
        if g.chance(1, 3) {let v = some(g); diff.insert("remove_extra_certificates".into(), j(&v)); trusted.retain(|x| !v.contains(x));}
    }
    let broken = g.chance(1, 15);
    if broken {cfg.insert("extra_certificates".into(), json!([g.of(&["-----BEGIN CERTIFICATE-----\nAA==\n-----END CERTIFICATE-----\n"])])); }
    let fixed = broken && g.flip() && !diff.contains_key("remove_extra_certificates");
    if fixed {diff.insert("remove_extra_certificates".into(), cfg["extra_certificates"].clone());}
    if broken && diff.contains_key("remove_extra_certificates") && !fixed {return Ok(());}
    if broken {trusted.clear(); if let Some(v) = diff.get("add_extra_certificates").and_then(|v| v.as_array()) {trusted = v.iter().map(|x| if x == PEMS[0] {0} else {1}).collect();}}
    let target_url = target.url("/t");
    let target_url = if tls {target_url.replacen("http:", "https:", 1)} else {target_url};
    let hide = |v: &Value| {let mut s = v.to_string(); for (i, p) in PEMS.iter().enumerate() {s = s.replace(&json!(p).to_string(), &format!("PEM{i}"));} for (i, p) in proxies.iter().enumerate() {s = s.replace(&p.addr.to_string(), &format!("PROXY{i}"));} s};
    g.input(format!("tls {tls}, params {}, overrides {}", hide(&json!(cfg)), hide(&json!(diff))));
    if used.is_some() || !trusted.is_empty() {g.nontrivial();}
    let env = Env::new(&json!({"url": target_url, "params": {"http_client_config": cfg}})).expect("harness/src: env");
    let mut o = json!({});
    if !diff.is_empty() {o["client_config_diff"] = json!(diff);}
    let src: StringSource = parse(&json!({"HttpRequest": o}));
    let r = src.get(&env.view()).map(|x| x.map(|x| x.into_owned())).map_err(|e| format!("{e:?}"));
    let logs: Vec<Vec<Req>> = proxies.iter().map(|p| p.taken()).collect();
    let direct = target.taken();
    if broken && !fixed {ensure!(r.is_err(), "broken certificate", "{r:?}"); ensure!(direct.is_empty() && logs.iter().all(|l| l.is_empty()), "request sent although the client cannot be made", ""); return Ok(());}
    match used {
        None => {
            ensure!(logs.iter().all(|l| l.is_empty()), "proxy used", "{logs:?}");
            if tls && !trusted.contains(&0) {ensure!(r.is_err(), "untrusted server", "{r:?}"); ensure!(direct.is_empty(), "request to an untrusted server", "{direct:?}");}
            else {ensure_eq!(r, Ok(Some("target".into())), "result", ""); ensure_eq!(direct.len(), 1, "requests", "");}
        },
        Some((i, _, auth)) => {
            ensure!(direct.is_empty(), "proxy not used", "{direct:?}");
            ensure!(logs[1 - i].is_empty(), "wrong proxy", "{:?}", logs[1 - i]);
            ensure_eq!(logs[i].len(), 1, "proxy not used", "{r:?}");
            let q = &logs[i][0];
            ensure_eq!(q.all("proxy-authorization"), match auth {1 => vec!["Basic dXM6cGE6c3M=".to_string()], 2 => vec!["Token x".to_string()], _ => vec![]}, "proxy authentication", "");
            // A tunnel for TLS (which this proxy does not keep up), the whole URL otherwise.
            if tls {ensure_eq!((&*q.method, q.target.clone()), ("CONNECT", target.addr.to_string()), "tunnel", ""); ensure!(r.is_err(), "result through a broken tunnel", "{r:?}");}
            else {ensure_eq!((&*q.method, q.target.clone()), ("GET", target_url), "proxied request", ""); ensure_eq!(r, Ok(Some(format!("proxy {i}"))), "result", "");}
        }
    }
    Ok(())
}

pub fn prop() -> Prop {Prop {id: "P27", rule: "request: a request that can be made, with headers or a body; redirects and expand: a redirect is answered; client: a proxy or an extra certificate is in use",
    assumptions: &["the loopback interface works", "reqwest adds accept, host, content-length and, for forms and JSON, content-type", "a redirect policy of n fails at the n-th redirect (and one of 0 at the first), as documented"],
    subs: vec![Sub {name: "request", quick: 30_000, thorough: 600_000, threads: 8, f: p27_request}, Sub {name: "redirects", quick: 15_000, thorough: 300_000, threads: 8, f: p27_redirects}, Sub {name: "expand", quick: 4_000, thorough: 60_000, threads: 8, f: p27_expand}, Sub {name: "client", quick: 10_000, thorough: 200_000, threads: 8, f: p27_client}], repro: vec![]}}
