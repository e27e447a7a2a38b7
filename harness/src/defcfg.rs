//! The default config: its vocabulary, hostile and ordinary URLs for it, and ready-made variants with flags set.
use crate::core::*;
use crate::gn;
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::OnceLock;
use url_cleaner::types::*;

/// Words of the default config and its self-tests, as shipped in the repository.
pub struct Vocab {
    pub hosts: Vec<String>, pub regs: Vec<String>, pub paths: Vec<String>, pub words: Vec<String>, pub urls: Vec<String>, pub flags: Vec<String>, pub vars: Vec<String>,
    /// (flags, vars, context, url) of the shipped tests.
    pub json: Value
}
pub fn default_json() -> &'static Value {
    static J: OnceLock<Value> = OnceLock::new();
    J.get_or_init(|| serde_json::from_str(include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/default-config.json"))).expect("harness/src default config"))
}
fn walk(v: &Value, f: &mut dyn FnMut(&str)) {
    match v {Value::String(s) => f(s), Value::Array(a) => a.iter().for_each(|x| walk(x, f)), Value::Object(o) => o.iter().for_each(|(k, x)| {f(k); walk(x, f)}), _ => {}}
}
pub fn vocab() -> &'static Vocab {
    static V: OnceLock<Vocab> = OnceLock::new();
    V.get_or_init(|| {
        let c = default_json();
        let mut without_docs = c.clone();
        without_docs.as_object_mut().expect("harness/src").remove("docs");
        let (mut hosts, mut regs, mut paths, mut words, mut urls) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        walk(&without_docs, &mut |s| {
            let hosty = s.len() < 80 && s.contains('.') && !s.ends_with('.') && !s.starts_with('.') && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-') && url::Host::parse(s).is_ok();
            if hosty {hosts.insert(s.to_string());}
            if s.starts_with('/') && s.len() < 60 {paths.insert(s.to_string());}
            if !s.is_empty() && s.len() < 40 && !hosty && s.bytes().all(|b| b.is_ascii_graphic() && b != b'/') {words.insert(s.to_string());}
            if !s.contains('.') && !s.is_empty() && s.len() < 20 && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit()) {regs.insert(s.to_string());}
        });
        for t in [include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/tests.json")), include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/network-tests.json"))] {
            let t: Value = serde_json::from_str(t).expect("harness/src tests");
            walk(&t, &mut |s| {if let Ok(u) = url::Url::parse(s) {
                urls.insert(s.to_string());
                if let Some(h) = u.host_str() {hosts.insert(h.trim_start_matches("www.").to_string());}
                if u.path().len() > 1 && u.path().len() < 80 {paths.insert(u.path().to_string());}
                for (k, v) in u.query_pairs() {words.insert(k.into_owned()); if v.len() < 40 {words.insert(v.into_owned());}}
            }});
        }
        let names = |k: &str| c["docs"][k].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
        Vocab {hosts: hosts.into_iter().collect(), regs: regs.into_iter().collect(), paths: paths.into_iter().collect(), words: words.into_iter().collect(), urls: urls.into_iter().collect(), flags: names("flags"), vars: names("vars"), json: c.clone()}
    })
}
fn pick(g: &mut G, v: &[String]) -> String {if v.is_empty() {"a".into()} else {v[g.usize(v.len())].clone()}}

/// A host the default config knows, or one near it.
pub fn known_host(g: &mut G) -> String {
    let v = vocab();
    let mut h = match g.weighted(&[12, 1, 2, 1]) {0 => pick(g, &v.hosts), 1 => format!("{}.com", pick(g, &v.regs)), 2 => {let h = pick(g, &v.hosts); match h.split_once('.') {Some((_, r)) if r.contains('.') => r.to_string(), _ => h}}, _ => gn::domain(g)};
    match g.weighted(&[10, 4, 2, 3, 1, 1]) {1 => h.insert_str(0, "www."), 2 => h.insert_str(0, "m."), 3 => {let w = gn::word(g); h = format!("{w}.{h}");}, 4 => h.insert_str(0, "www.www."), 5 => {let w = pick(g, &v.words); if w.bytes().all(|b| b.is_ascii_alphanumeric()) {h = format!("{w}.{h}");}}, _ => {}}
    if g.chance(1, 12) {h.push('.');}
    h
}
fn value(g: &mut G) -> String {
    match g.weighted(&[4, 3, 2, 2]) {0 => g.of(&["1", "abc", "", "x"]).into(), 1 => {let u = g.of(&["https://example.com/a?utm_source=x&b=1", "http://www.example.org/", "https%3A%2F%2Fexample.com%2F%3Fa%3D1", "https://www.example.co.uk./x", "//example.com/", "example.com", "javascript:void(0)", "/relative"]).to_string(); if g.flip() {form_urlencoded::byte_serialize(u.as_bytes()).collect()} else {u}}, 2 => gn::qvalue(g), _ => {let w = pick(g, &vocab().words); form_urlencoded::byte_serialize(w.as_bytes()).collect()}}
}
fn name(g: &mut G) -> String {if g.chance(3, 4) {let w = pick(g, &vocab().words); form_urlencoded::byte_serialize(w.as_bytes()).collect()} else {g.of(gn::QNAMES).to_string()}}
pub fn path(g: &mut G) -> String {
    let v = vocab();
    match g.weighted(&[5, 3, 3, 1]) {
        0 => {let mut p = pick(g, &v.paths); match g.usize(4) {0 => p.push('/'), 1 => p.push_str(&gn::path(g)), 2 => {p.push('/'); let w = pick(g, &v.words); p.push_str(&w.replace(['?', '#'], ""));}, _ => {}} p},
        1 => {let n = 1 + g.usize(4); (0..n).map(|_| format!("/{}", pick(g, &v.words).replace(['?', '#'], ""))).collect()},
        2 => gn::path(g),
        _ => {let u = g.of(&["https://example.com/a", "https:/example.com", "http%3A%2F%2Fexample.com", "aHR0cHM6Ly9leGFtcGxlLmNvbS8", "CL0/x/https:%2F%2Fexample.com%2F/1/2"]); format!("/{u}")}
    }
}
/// A URL the default config may have rules for.
pub fn known_url(g: &mut G) -> String {
    let v = vocab();
    if g.chance(1, 8) {
        // A shipped example, changed a little.
        let mut u = pick(g, &v.urls);
        match g.usize(5) {0 => {let n = name(g); let x = value(g); u.push(if u.contains('?') {'&'} else {'?'}); u.push_str(&format!("{n}={x}"));}, 1 => u = u.replacen("https://", "http://www.", 1), 2 => {if let Some(i) = u.find('?') {u.truncate(i);}}, 3 => {u.push('/');}, _ => {}}
        return u;
    }
    let mut s = format!("{}://{}", if g.chance(1, 4) {"http"} else {"https"}, known_host(g));
    if g.chance(1, 25) {s.push_str(g.of(&[":80", ":443", ":8080"]));}
    s.push_str(&path(g));
    if g.chance(3, 5) {
        s.push('?');
        let n = g.usize(4);
        for i in 0..n {if i > 0 {s.push('&');} let k = name(g); let x = value(g); if g.chance(1, 10) {s.push_str(&k)} else {s.push_str(&format!("{k}={x}"))}}
    }
    if g.chance(1, 4) {s.push('#'); if g.flip() {let k = name(g); let x = value(g); s.push_str(&format!("{k}={x}"));} else {s.push_str(&gn::string(g, 3));}}
    s
}
/// Flags that ask for opposite rewrites.
pub const OPPOSITES: &[(&str, &str)] = &[("breezewiki", "unbreezewiki"), ("nitter", "unnitter"), ("invidious", "uninvidious"), ("embed-compatibility", "nitter"), ("embed-compatibility", "unnitter"), ("furaffinity-sfw", "furaffinity-unsfw"), ("youtube-unlive", "")];
pub const POOL: usize = 96;
/// The default config with `flags` set, from a fixed pool; index 0 has only `no-network`.
pub fn variant(i: usize) -> &'static (Vec<String>, Config) {
    static P: OnceLock<Vec<OnceLock<(Vec<String>, Config)>>> = OnceLock::new();
    P.get_or_init(|| (0..POOL).map(|_| OnceLock::new()).collect())[i % POOL].get_or_init(|| {
        let mut g = G::random(hash_of(&("default config flags", i)));
        let mut flags = vec!["no-network".to_string()];
        if i > 0 {
            let fs = &vocab().flags;
            if i <= fs.len() {flags.push(fs[i - 1].clone());} else {for f in fs {if g.chance(1, 4) {flags.push(f.clone());}}}
        }
        flags.retain(|f| f != "bypass.vip");
        flags.sort(); flags.dedup();
        for (a, b) in OPPOSITES {if flags.iter().any(|f| f == a) && flags.iter().any(|f| f == b) {flags.retain(|f| f != b);}}
        let mut c = Config::get_default_no_cache().expect("harness/src: the default config loads");
        c.params.flags.extend(flags.iter().cloned());
        (flags, c)
    })
}
/// A task context the default config looks at.
pub fn context(g: &mut G) -> TaskContext {
    let mut c = TaskContext::default();
    if g.chance(1, 6) {c.vars.insert("redirect_shortcut".into(), value(g));}
    if g.chance(1, 6) {c.vars.insert("link_text".into(), g.of(&["example.com", "https://example.com/a", "a b", ""]).into());}
    if g.chance(1, 8) {c.vars.insert("faci_site_name".into(), g.of(&["Website", "website", "twitter"]).into());}
    c
}
pub fn job_context(g: &mut G) -> JobContext {
    let mut c = JobContext::default();
    if g.chance(1, 6) {let h = known_host(g); c.vars.insert("SOURCE_HOST".into(), h);}
    if g.chance(1, 6) {c.vars.insert("SOURCE_REG_DOMAIN".into(), g.of(&["furaffinity.net", "example.com"]).into());}
    c
}
/// Cleans one task; the error as text.
pub fn clean(config: &Config, url: &str, ctx: &TaskContext, job: &JobContext) -> Result<String, String> {
    let cache = Default::default();
    let task = Task {url: BetterUrl::parse(url).map_err(|e| format!("parse: {e}"))?, config, context: ctx.clone(), job_context: job, cache: &cache};
    task.r#do().map(|u| u.to_string()).map_err(|e| format!("{e}: {e:?}"))
}

/// A site the config has rules for, with the words of those rules.
pub struct Site {pub host: String, pub segs: Vec<String>, pub paths: Vec<String>, pub names: Vec<String>}
fn collect(v: &Value, s: &mut Site) {
    walk(v, &mut |w| {
        if w.is_empty() || w.len() > 40 {return;}
        if w.starts_with('/') && !w.contains(['?', '#', '(']) {s.paths.push(w.into()); s.segs.extend(w.split('/').filter(|x| !x.is_empty()).map(String::from));}
        else if !w.contains(['/', '?', '#', ' ', '\\', '"', '<']) && !w.starts_with(|c: char| c.is_ascii_uppercase()) {s.segs.push(w.into()); s.names.push(w.into());}
    });
}
fn find_sites(v: &Value, out: &mut Vec<Site>) {
    match v {
        Value::Object(o) => {
            for k in ["PartMap", "PartRuleMap", "StringMap"] {if let Some(m) = o.get(k).and_then(|m| m.get("map")).and_then(Value::as_object) {
                for (h, r) in m {
                    let mut hosts = vec![];
                    if h.contains('.') && !h.starts_with('/') && url::Host::parse(h).is_ok() {hosts.push(h.clone());}
                    else if ["amazon", "bestbuy", "ebay", "google", "onion", "pinterest", "walmart"].contains(&h.as_str()) {hosts.extend([format!("{h}.com"), format!("{h}.co.uk")]);}
                    else if let Some(c) = default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"].get(h).and_then(Value::as_array) {hosts.extend(c.iter().filter_map(Value::as_str).map(String::from));}
                    for host in hosts {let mut s = Site {host, segs: vec![], paths: vec![], names: vec![]}; collect(r, &mut s); out.push(s);}
                }
            }}
            o.values().for_each(|x| find_sites(x, out));
        },
        Value::Array(a) => a.iter().for_each(|x| find_sites(x, out)),
        _ => {}
    }
}
pub fn sites() -> &'static Vec<Site> {
    static S: OnceLock<Vec<Site>> = OnceLock::new();
    S.get_or_init(|| {let mut o = vec![]; find_sites(&default_json()["rules"], &mut o); o.sort_by(|a, b| a.host.cmp(&b.host)); o})
}
/// A URL of a listed site made of the words of its rules.
pub fn site_url(g: &mut G) -> String {
    let all = sites();
    let s = &all[g.usize(all.len())];
    let mut host = s.host.clone();
    match g.weighted(&[10, 4, 2, 2, 1, 1]) {1 => host.insert_str(0, "www."), 2 => {let m = g.of(&["m.", "mobile.", "a.m.", "m.m.", "www.m."]); host.insert_str(0, m);}, 3 => host.insert_str(0, g.of(&["blog.", "a.b.", "sfw.", "old."])), 4 => host.push('.'), 5 => host.insert_str(0, "www.www."), _ => {}}
    let mut u = format!("{}://{host}", if g.chance(1, 4) {"http"} else {"https"});
    let id = |g: &mut G| g.of(&["1", "abc", "a-b", "12-34", "B0C6DX66TN", "0312843275", "", "user.bsky", "user.com", "did:plc:1", "@user", "ref=x", "dp", "post", "status", "wiki", "a%20b", "search", "preview", "x.y", "p", "é"]).to_string();
    if !s.paths.is_empty() && g.chance(1, 3) {u.push_str(s.paths[g.usize(s.paths.len())].trim_end_matches('/')); let n = g.usize(4); for _ in 0..n {u.push('/'); u.push_str(&id(g));}}
    else {let n = g.usize(6); for _ in 0..n {u.push('/'); if !s.segs.is_empty() && g.flip() {u.push_str(&s.segs[g.usize(s.segs.len())])} else {u.push_str(&id(g))}}}
    if g.chance(1, 6) {u.push('/');}
    if g.chance(3, 5) {
        u.push('?');
        let n = 1 + g.usize(4);
        for i in 0..n {
            if i > 0 {u.push('&');}
            let k = if !s.names.is_empty() && g.chance(2, 3) {s.names[g.usize(s.names.len())].clone()} else {name(g)};
            let v = match g.usize(4) {0 => value(g), 1 => form_urlencoded::byte_serialize(format!("https://{}/a?b=1&{k}=2&utm_source=x", all[g.usize(all.len())].host).as_bytes()).collect(), _ => id(g)};
            let k: String = form_urlencoded::byte_serialize(k.as_bytes()).collect();
            u.push_str(&k); if g.chance(9, 10) {u.push('='); u.push_str(&v);}
        }
    }
    if g.chance(1, 6) {u.push('#'); let k = name(g); u.push_str(&format!("{k}={}", value(g)));}
    u
}
