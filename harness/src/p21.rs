//! P21: the default config on sites it has no rules for, against a model of its universal cleaning.
use crate::core::*;
use crate::defcfg;
use crate::gn;
use crate::http::{self, Server};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::{Mutex, OnceLock};
use url_cleaner::types::*;

/// Suffixes that are rules of the public suffix list themselves.
const SUFFIXES: &[&str] = &["com", "net", "org", "co.uk", "de", "jp", "io", "github.io", "ab.kawasaki.jp", "xn--p1ai", "xn--fiqs8s", "com.au", "tokyo.jp", "dev", "blogspot.com", "onion", "example", "localhost"];
const SUBS: &[&str] = &["", "www", "www", "www", "m", "mobile", "a", "a.m", "a.mobile", "www.m", "www.www", "a.www", "www.a", "m.www", "m.a", "a.b.m", "wwww", "ww", "www2", "-www", "mm", "amazon", "google", "www.google.com", "youtube.com", "t.co", "www.bit.ly", "carrd.co", "a.m.b", "a.b.c", "old", "1", "xn--fiqs8s"];
/// Parameter names nobody may take away from a site that isn't listed.
const ORDINARY: &[&str] = &["id", "q", "page", "p", "v", "t", "url", "search", "query", "hl", "a", "b", "UTM_SOURCE", "Utm_source", "xutm_source", "utm-source", "utmsource", "_s", "s", "FBCLID", "fbclid2", "xfbclid", "f", "Ref", "ref_", "refs", "Lang", "LANG", "language", "langs", "lan", "messages", "clicks", "k", "tag", "sort", "si", "feature", "spm", "source", "campaign", "at_custo", "cm_mm", "__", "gclid ", " utm_x", "é", "", "list", "time_continue", "s_ci", "redirect", "token", "fb", "mc", "www", "utm_source[", "lang[]"];
#[derive(Debug)]
struct Lists {remove: BTreeSet<String>, prefixes: BTreeSet<String>, frozen: Vec<String>}
fn lists() -> &'static Lists {
    static L: OnceLock<Lists> = OnceLock::new();
    L.get_or_init(|| {
        let f: Value = serde_json::from_str(include_str!("../data/utps.json")).expect("harness/src data");
        let strs = |v: &Value| v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect::<Vec<_>>()).unwrap_or_default();
        let c = defcfg::default_json();
        let frozen = strs(&f["utps"]);
        let mut remove: BTreeSet<String> = strs(&c["params"]["sets"]["utps"]).into_iter().filter(|x| !ORDINARY.contains(&x.as_str())).collect();
        remove.extend(frozen.iter().cloned());
        let mut prefixes: BTreeSet<String> = strs(&c["params"]["lists"]["utp-prefixes"]).into_iter().filter(|x| !ORDINARY.iter().any(|o| o.starts_with(x.as_str()))).collect();
        prefixes.extend(strs(&f["prefixes"]));
        Lists {remove, prefixes, frozen}
    })
}
pub fn tracked(n: &str) -> bool {tracking(n, &[])}
fn tracking(n: &str, own: &[String]) -> bool {let l = lists(); l.remove.contains(n) || own.iter().any(|o| o == n) || l.prefixes.iter().any(|p| n.starts_with(p.as_str()))}
fn decode(raw: &str) -> String {form_urlencoded::parse(raw.as_bytes()).next().map(|x| x.0.into_owned()).unwrap_or_default()}

/// What a user may have set.
#[derive(Clone, Debug, Default)]
struct Setup {flags: BTreeSet<String>, keep_utps: Vec<String>, keep_www: Vec<String>, keep_query: Vec<String>, keep_fragment: Vec<String>, keep_m: Vec<String>, keep_http: Vec<String>, utps: Vec<String>, lang: Vec<(String, String)>}
const REGS: &[&str] = &["zqe0.com", "zqe1.co.uk", "zqe2.github.io", "zqe3.net"];
const UNIVERSAL: &[&str] = &["no-https-upgrade", "keep-lang", "unmobile", "no-network"];
const SETUPS: usize = 128;
fn setup(i: usize) -> &'static (Setup, Config) {
    static P: OnceLock<Vec<OnceLock<(Setup, Config)>>> = OnceLock::new();
    P.get_or_init(|| (0..SETUPS).map(|_| OnceLock::new()).collect())[i % SETUPS].get_or_init(|| {
        let mut g = G::random(hash_of(&("p21 setup", i)));
        let mut s = Setup::default();
        // The first sixteen are the combinations of the universal flags alone.
        if i < 16 {for (n, f) in UNIVERSAL.iter().enumerate() {if i >> n & 1 == 1 {s.flags.insert(f.to_string());}}}
        else {
            for f in UNIVERSAL {if g.flip() {s.flags.insert(f.to_string());}}
            for f in &defcfg::vocab().flags {if !UNIVERSAL.contains(&f.as_str()) && g.chance(1, if i % 2 == 0 {2} else {6}) {s.flags.insert(f.clone());}}
            for l in [&mut s.keep_utps, &mut s.keep_www, &mut s.keep_query, &mut s.keep_fragment, &mut s.keep_m, &mut s.keep_http] {for r in REGS {if g.chance(1, 3) {l.push(r.to_string());}}}
            if g.flip() {s.utps.push("b".into()); s.utps.push("é".into());}
            if g.flip() {s.lang.push(("zqe0.com".into(), "hl".into())); s.lang.push(("a.zqe1.co.uk".into(), "é".into()));}
        }
        let mut c = Config::get_default_no_cache().expect("harness/src: the default config loads");
        let p = &mut c.params;
        p.flags.extend(s.flags.iter().cloned());
        for (set, l) in [("utps-reg-domain-whitelist", &s.keep_utps), ("remove-www-subdomain-reg-domain-blacklist", &s.keep_www), ("remove-empty-query-reg-domain-blacklist", &s.keep_query), ("remove-empty-fragment-reg-domain-blacklist", &s.keep_fragment), ("unmobile-reg-domain-blacklist", &s.keep_m), ("https-upgrade-host-blacklist", &s.keep_http), ("utps", &s.utps)] {
            if !l.is_empty() {p.sets.entry(set.into()).or_default().extend(l.iter().cloned());}
        }
        if let Some(m) = p.maps.get_mut("hwwwwdpafqdnp_lang_query_params") {m.map.extend(s.lang.iter().cloned());}
        // The exemptions shipped with the config.
        s.keep_utps.push("bambulab.com".into());
        s.keep_www.push("proozy.com".into());
        s.keep_http.push("orteil.dashnet.org".into());
        s.keep_http.push("localhost".into());
        // Any request would be seen and answered.
        c.params.http_client_config = serde_json::from_value(json!({"proxies": [{"url": format!("http://{}", trap().0)}]})).expect("harness/src: client config");
        (s, c)
    })
}
type Trap = (std::net::SocketAddr, std::sync::Arc<Mutex<Vec<http::Req>>>);
fn trap() -> &'static Trap {
    static S: OnceLock<Trap> = OnceLock::new();
    S.get_or_init(|| {
        let s = Server::new(Box::new(|_| http::answer(200, &[], b"<a id=\"download\" href=\"https://example.com/\">")));
        let t = (s.addr, s.log.clone());
        std::mem::forget(s);
        t
    })
}

#[derive(Clone, Debug)]
struct Site {host: String, sub: String, reg: Option<String>, dot: bool, ip: bool}
fn site(g: &mut G) -> Site {
    let plain = |h: &str, ip: bool| Site {host: h.into(), sub: String::new(), reg: None, dot: false, ip};
    match g.weighted(&[20, 5, 2, 2, 2, 1]) {
        k @ (0 | 1 | 5) => {
            let reg = match k {
                0 => format!("zq{}.{}", g.of(&["", "a", "xample", "-b1", "google", "0"]), g.of(SUFFIXES)),
                1 => g.of(REGS).into(),
                _ => g.of(&["bambulab.com", "proozy.com", "dashnet.org", "zqbambulab.com", "bambulab.net", "proozy.net", "zqproozy.com", "teepublic.com"]).to_string()
            };
            let sub = if reg == "dashnet.org" {g.of(&["", "orteil", "www"]).to_string()} else {g.of(SUBS).to_string()};
            let dot = g.chance(1, 5) && reg != "dashnet.org";
            Site {host: format!("{sub}{}{reg}{}", if sub.is_empty() {""} else {"."}, if dot {"."} else {""}), sub, reg: Some(reg), dot, ip: false}
        },
        2 => plain(g.of(&["127.0.0.1", "1.2.3.4", "255.255.255.255"]), true),
        3 => plain(g.of(&["[::1]", "[2001:db8::1]"]), true),
        _ => {let h = g.of(&["localhost", "intranet", "zq", "www", "m", "com", "co.uk", "github.io", "xn--p1ai", "zq.", "www.", "com.", "youtube"]); plain(h, false)}
    }
}
fn spell(g: &mut G, n: &str) -> String {
    // Any way of writing the name in a query.
    let mut o = String::new();
    for b in n.bytes() {
        if b == b' ' {o.push_str(g.of(&["+", "%20"]));} else if b > 127 || b"&=#+%".contains(&b) || g.chance(1, 30) {if g.flip() {o.push_str(&format!("%{b:02X}"));} else {o.push_str(&format!("%{b:02x}"));}} else {o.push(b as char);}
    }
    o
}
fn name(g: &mut G) -> String {
    let l = lists();
    match g.weighted(&[5, 3, 2, 2]) {0 => g.of(ORDINARY).to_string(), 1 => l.frozen[g.usize(l.frozen.len())].clone(), 2 => format!("{}{}", g.of(&["__s", "at_custom", "cm_mmc", "utm_"]), g.of(&["", "source", "x", " ", "é", "utm_"])), _ => g.of(&["lang", "lang", "hl", "é", "b"]).into()}
}
fn pieces(g: &mut G, hash: bool) -> String {
    let n = g.weighted(&[1, 3, 4, 4, 2, 1]);
    (0..n).map(|_| {
        if g.chance(1, 14) {return String::new();}
        let n = name(g);
        let n = if hash {n.replace(['&', '=', ' '], "")} else {spell(g, &n)};
        let v = match g.weighted(&[4, 2, 2, 1, 1]) {0 => g.of(&["1", "2", "x"]).to_string(), 1 => String::new(), 2 => gn::qvalue(g).replace(['&', '#'], ""), 3 => g.of(&["https%3A%2F%2Fexample.com%2F%3Futm_source%3Dx%26b%3D1", "http://www.example.com/?utm_x=1", "%ff%fe", "a=b=c", "a;utm_source=1", "+", "%2B", "%26", "\u{e9}"]).into(), _ => return n};
        format!("{n}={v}")
    }).collect::<Vec<_>>().join("&")
}
fn kept<'a>(q: &'a str, keep: impl Fn(&str) -> bool) -> Vec<&'a str> {q.split('&').filter(|p| keep(p)).collect()}

fn case(g: &mut G) -> Res {
    let (s, config) = setup(match g.weighted(&[3, 5, 4]) {0 => 0, 1 => g.usize(16), _ => g.usize(SETUPS)});
    let site = site(g);
    let scheme = g.of(&["https", "http"]);
    let user = if g.chance(1, 14) {g.of(&["u@", "u:p@", ":p@", "www.a:b@"])} else {""};
    let port = if g.chance(1, 6) {g.of(&[":80", ":443", ":8080", ":"])} else {""};
    let path = if g.chance(1, 3) {defcfg::path(g)} else {gn::path(g)};
    let teepublic = site.reg.as_deref() == Some("teepublic.com");
    // That site has more rules unless the network is off.
    if teepublic && !s.flags.contains("no-network") {return Ok(());}
    let path = if teepublic {g.of(&["/lic/a", "/lic", "/", "/licx", "/a/lic"]).to_string()} else {path};
    let path = if path.is_empty() || path.starts_with('/') {path} else {format!("/{path}")};
    let query = if g.chance(3, 4) {format!("?{}", pieces(g, false))} else {String::new()};
    let fragment = match g.weighted(&[3, 3, 1, 1]) {0 => String::new(), 1 => format!("#{}", pieces(g, true)), 2 => "#".into(), _ => format!("#{}", gn::string(g, 3))};
    let text = format!("{scheme}://{user}{}{port}{path}{query}{fragment}", site.host);
    let Ok(url) = url::Url::parse(&text) else {return Ok(())};
    // The host was meant as it was written.
    ensure!(url.host_str() == Some(&site.host), "harness", "harness/src: {text} has the host {:?}", url.host_str());
    // The model.
    let flag = |f: &str| s.flags.contains(f);
    let has = |l: &[String], x: &str| l.iter().any(|y| y == x);
    let mut scheme = url.scheme().to_string();
    let (mut sub, mut dot) = (site.sub.clone(), site.dot);
    let mut query = url.query().map(String::from);
    let mut fragment = url.fragment().map(String::from);
    if let Some(reg) = &site.reg {
        if flag("unmobile") && !has(&s.keep_m, reg) && !matches!(reg.as_str(), "tumblr.com" | "deviantart.com") {
            let mut ls: Vec<&str> = sub.split('.').collect();
            for i in 0..2 {if ls.get(i).is_some_and(|l| *l == "m" || *l == "mobile") {ls.remove(i);}}
            sub = ls.join(".");
        }
    }
    let host_now = |sub: &str, dot: bool| match &site.reg {Some(r) => format!("{sub}{}{r}{}", if sub.is_empty() {""} else {"."}, if dot {"."} else {""}), None => site.host.clone()};
    if scheme == "http" && !flag("no-https-upgrade") && !site.ip && !has(&s.keep_http, &host_now(&sub, dot)) {scheme = "https".into();}
    if let Some(reg) = &site.reg {
        if !has(&s.keep_utps, reg) {
            if let Some(q) = &query {let k = kept(q, |p| !p.is_empty() && !tracking(&decode(p), &s.utps)); query = if k.is_empty() {None} else {Some(k.join("&"))};}
            if let Some(f) = &fragment {let k = kept(f, |p| !tracking(p.split('=').next().unwrap_or(""), &s.utps)); fragment = Some(k.join("&"));}
        }
        let kept_www = has(&s.keep_www, reg) || teepublic && url.path().split('/').nth(1) == Some("lic");
        if sub == "www" && !kept_www {sub.clear();}
        dot = false;
        if query.as_deref() == Some("") && !has(&s.keep_query, reg) {query = None;}
        if fragment.as_deref() == Some("") && !has(&s.keep_fragment, reg) {fragment = None;}
    }
    if !flag("keep-lang") {
        let host = host_now(&sub, dot);
        let bare = host.strip_suffix('.').unwrap_or(&host);
        let bare = bare.strip_prefix("www.").unwrap_or(bare);
        let param = s.lang.iter().find(|(h, _)| h == bare).map_or("lang", |x| &x.1);
        if let Some(q) = &query {let k = kept(q, |p| !p.is_empty() && decode(p) != param); query = if k.is_empty() {None} else {Some(k.join("&"))};}
    }
    let mut want = url.clone();
    let host = host_now(&sub, dot);
    if host != site.host {want.set_host(Some(&host)).expect("harness/src: host");}
    want.set_query(query.as_deref());
    want.set_fragment(fragment.as_deref());
    let want = if scheme != url.scheme() {url::Url::parse(&want.as_str().replacen("http", "https", 1)).expect("harness/src: scheme").to_string()} else {want.to_string()};
    g.input(format!("{:?} {text}", s.flags));
    if want != url.as_str() && !want.ends_with("/") {g.nontrivial();}
    // The real thing.
    let mut ctx = TaskContext::default();
    if g.chance(1, 8) {ctx.vars.insert(g.of(&["link_text", "redirect_shortcut", "zq"]).into(), g.of(&["https://example.com/x", "", "zq"]).into());}
    let mut job = JobContext::default();
    if g.chance(1, 8) {job.vars.insert("SOURCE_HOST".into(), g.of(&["zq.com", "www.example.com", ""]).into());}
    let cache = Default::default();
    let task = Task {url: BetterUrl::parse(&text).map_err(|e| Fail {sig: "parse".into(), msg: format!("{text} {e}")})?, config, context: ctx, job_context: &job, cache: &cache};
    let got = task.r#do();
    ensure!(got.is_ok(), "error", "{text} with {s:?} fails: {:?}", got.err());
    let got = got.expect("harness/src checked");
    ensure_eq!(want, got.to_string(), "universal cleaning", "cleaning {text} with {s:?}");
    Ok(())
}
fn network(g: &mut G) -> Res {
    // Every case of this process has gone past the same trap.
    let before = trap().1.lock().expect("harness/src: log").len();
    ensure_eq!(0usize, before, "network", "requests were made: {:?}", trap().1.lock().expect("harness/src: log"));
    for _ in 0..40 {let r = case(g); r?;}
    let after = trap().1.lock().expect("harness/src: log").len();
    ensure_eq!(0usize, after, "network", "requests were made: {:?}", trap().1.lock().expect("harness/src: log"));
    Ok(())
}
/// Every parameter that is listed today goes, whatever stands around it.
fn each(g: &mut G) -> Res {
    let l = lists();
    let n = l.frozen[g.usize(l.frozen.len())].clone();
    let (_, config) = setup(0);
    let (a, b) = (g.of(&["id=1&", "", "q=a+b&"]), g.of(&["", "&page=2"]));
    let n = spell(g, &n);
    let v = g.of(&["=1", "", "=", "=a%26b", "=%ff"]);
    let text = format!("https://zq.com/?{a}{n}{v}{b}");
    let want = {let q = format!("{a}{b}"); let q = q.trim_matches('&').replace("&&", "&"); if q.is_empty() {"https://zq.com/".to_string()} else {format!("https://zq.com/?{q}")}};
    g.input(text.clone()); g.nontrivial();
    let got = defcfg::clean(config, &text, &TaskContext::default(), &JobContext::default()).map_err(|e| Fail {sig: "error".into(), msg: format!("{text}: {e}")})?;
    ensure_eq!(want, got, "listed parameter", "cleaning {text}");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "P21",
        rule: "a case is non-trivial when universal cleaning has something to remove or upgrade and something else to keep",
        assumptions: &["sites are made-up registrable domains (zq...) under real suffixes, IPs, single-label hosts and suffixes, plus the exempted sites without other rules", "the parameters listed at the pinned commit are kept in harness/data/utps.json; parameters listed since are taken from the config"],
        subs: vec![
            Sub {name: "sites", quick: 250_000, thorough: 6_000_000, threads: 8, f: case},
            Sub {name: "each", quick: 20_000, thorough: 200_000, threads: 8, f: each},
            Sub {name: "network", quick: 500, thorough: 5_000, threads: 8, f: network}
        ],
        repro: vec![]
    }
}
