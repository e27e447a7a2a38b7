//! P17: params diffs and the command-line options standing for them, against a model on plain JSON.
use crate::core::*;
use crate::cli;
use crate::{ensure, ensure_eq};
use clap::Parser;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use url_cleaner::types::*;

type V = Value;
const N: &[&str] = &["a", "b", "c", "d"];
const K: &[&str] = &["k", "l", "m", "", "é"];
const CERTS: &[&str] = &["x", "y", "z"];
const PROXIES: &[&str] = &["http://a/", "http://b:1/", "https://c/"];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Client {pub headers: BTreeMap<String, String>, pub policy: V, pub https_only: bool, pub proxies: Vec<V>, pub no_proxy: bool, pub referer: bool, pub certs: BTreeSet<String>}
/// What a config's params are, as plain data.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct M {
    pub flags: BTreeSet<String>, pub vars: BTreeMap<String, String>, pub sets: BTreeMap<String, BTreeSet<String>>, pub lists: BTreeMap<String, Vec<String>>,
    pub maps: BTreeMap<String, (BTreeMap<String, String>, Option<String>, Option<String>)>, pub parts: V, pub read: bool, pub write: bool, pub client: Client
}
impl M {
    fn json(&self) -> V {
        let maps: Map<String, V> = self.maps.iter().map(|(k, (m, n, e))| (k.clone(), json!({"map": m, "if_null": n, "else": e}))).collect();
        let c = &self.client;
        json!({"flags": self.flags, "vars": self.vars, "sets": self.sets, "lists": self.lists, "maps": maps, "named_partitionings": self.parts, "read_cache": self.read, "write_cache": self.write,
            "http_client_config": {"default_headers": c.headers, "redirect_policy": if c.policy.is_null() {json!({"Limited": 10})} else {c.policy.clone()}, "https_only": c.https_only, "proxies": c.proxies, "no_proxy": c.no_proxy, "referer": c.referer, "extra_certificates": c.certs}})
    }
    fn real(&self) -> Params {serde_json::from_value(self.json()).expect("harness/src: params")}
}
fn set(g: &mut G, xs: &[&str], max: usize) -> BTreeSet<String> {let n = g.usize(max + 1); (0..n).map(|_| g.of(xs).to_string()).collect()}
fn smap(g: &mut G, max: usize) -> BTreeMap<String, String> {let n = g.usize(max + 1); (0..n).map(|_| (g.of(K).to_string(), g.of(&["", "1", "2", "x y"]).to_string())).collect()}
fn proxy(g: &mut G) -> V {if g.flip() {json!({"url": g.of(PROXIES)})} else {json!({"url": g.of(PROXIES), "mode": "Http", "auth": {"Basic": {"username": "u", "password": "p"}}})}}
fn policy(g: &mut G) -> V {g.of(&[json!("None"), json!({"Limited": 3}), json!({"Limited": 10})])}
pub fn params(g: &mut G) -> M {
    let mut m = M {flags: set(g, N, 3), read: g.flip(), write: g.flip(), parts: json!({}), ..M::default()};
    for k in N {
        if g.chance(1, 3) {m.vars.insert(k.to_string(), g.of(K).to_string());}
        if g.flip() {let s = set(g, K, 3); m.sets.insert(k.to_string(), s);}
        if g.chance(1, 4) {let l = g.vec(0, 3, |g| g.of(K).to_string()); m.lists.insert(k.to_string(), l);}
        if g.flip() {let e = (smap(g, 3), g.opt(|_| "null".to_string()), g.opt(|_| "else".to_string())); m.maps.insert(k.to_string(), e);}
    }
    if g.flip() {m.parts = json!({"a": {"k": ["k"], "l": []}});}
    let c = &mut m.client;
    for h in ["x-a", "x-b"] {if g.flip() {c.headers.insert(h.into(), "old".into());}}
    if g.flip() {c.policy = policy(g);}
    c.https_only = g.flip(); c.no_proxy = g.flip(); c.referer = g.flip();
    c.proxies = g.vec(0, 2, proxy);
    c.certs = set(g, CERTS, 2);
    m
}
/// A diff and its meaning.
fn diff(g: &mut G, m: &mut M) -> V {
    let mut o = Map::new();
    let names = |g: &mut G| {let mut v = g.vec(0, 3, |g| g.of(N).to_string()); if g.flip() {v.sort(); v.dedup();} v};
    let (f, u) = (set(g, N, 3), set(g, N, 2));
    m.flags.extend(f.iter().cloned()); for x in &u {m.flags.remove(x);}
    if !f.is_empty() {o.insert("flags".into(), json!(f));} if !u.is_empty() {o.insert("unflags".into(), json!(u));}
    let n = g.usize(4); let vs: BTreeMap<String, String> = (0..n).map(|_| (g.of(N).to_string(), g.of(K).to_string())).collect();
    let uv = set(g, N, 2);
    m.vars.extend(vs.clone()); for x in &uv {m.vars.remove(x);}
    if !vs.is_empty() {o.insert("vars".into(), json!(vs));} if !uv.is_empty() {o.insert("unvars".into(), json!(uv));}
    // Sets.
    let init = if g.flip() {names(g)} else {vec![]};
    for x in &init {m.sets.entry(x.clone()).or_default();}
    let mk = |g: &mut G| -> BTreeMap<String, Vec<String>> {let n = g.usize(3); (0..n).map(|_| (g.of(N).to_string(), g.vec(0, 3, |g| g.of(K).to_string()))).collect()};
    let (ins, rem) = (mk(g), mk(g));
    for (k, v) in &ins {m.sets.entry(k.clone()).or_default().extend(v.iter().cloned());}
    for (k, v) in &rem {if let Some(s) = m.sets.get_mut(k) {for x in v {s.remove(x);}}}
    let del = if g.chance(1, 3) {names(g)} else {vec![]};
    for x in &del {m.sets.remove(x);}
    for (k, v) in [("init_sets", json!(init)), ("insert_into_sets", json!(ins)), ("remove_from_sets", json!(rem)), ("delete_sets", json!(del))] {o.insert(k.into(), v);}
    // Maps.
    let init = if g.flip() {names(g)} else {vec![]};
    for x in &init {m.maps.entry(x.clone()).or_default();}
    let mut md = Map::new();
    for k in N {if g.chance(1, 3) {
        let (i, r) = (smap(g, 3), set(g, K, 2));
        let e = m.maps.entry(k.to_string()).or_default();
        e.0.extend(i.clone()); for x in &r {e.0.remove(x);}
        md.insert(k.to_string(), json!({"insert_into_map": i, "remove_from_map": r}));
    }}
    let del = if g.chance(1, 3) {names(g)} else {vec![]};
    for x in &del {m.maps.remove(x);}
    for (k, v) in [("init_maps", json!(init)), ("map_diffs", json!(md)), ("delete_maps", json!(del))] {o.insert(k.into(), v);}
    if g.chance(1, 3) {let b = g.flip(); m.read = b; o.insert("read_cache".into(), json!(b));}
    if g.chance(1, 3) {let b = g.flip(); m.write = b; o.insert("write_cache".into(), json!(b));}
    if g.flip() {
        let d = client_diff(g, &mut m.client);
        o.insert("http_client_config_diff".into(), d);
    }
    V::Object(o)
}
pub fn client_diff(g: &mut G, c: &mut Client) -> V {
    let mut o = Map::new();
    if g.chance(1, 3) {let p = policy(g); c.policy = p.clone(); o.insert("redirect_policy".into(), p);}
    if g.chance(1, 3) {let mut h = BTreeMap::new(); for k in ["x-a", "x-c"] {if g.flip() {h.insert(k.to_string(), g.of(&["new", "newer"]).to_string());}} c.headers.extend(h.clone()); o.insert("add_default_headers".into(), json!(h));}
    if g.chance(1, 3) {let b = g.flip(); c.https_only = b; o.insert("https_only".into(), json!(b));}
    if g.chance(1, 3) {let b = g.flip(); c.no_proxy = b; o.insert("no_proxy".into(), json!(b));}
    if g.chance(1, 3) {let b = g.flip(); c.referer = b; o.insert("referer".into(), json!(b));}
    if g.chance(1, 3) {let p = g.vec(0, 2, proxy); c.proxies = p.clone(); o.insert("set_proxies".into(), json!(p));}
    if g.chance(1, 3) {let p = g.vec(0, 2, proxy); c.proxies.extend(p.clone()); o.insert("add_proxies".into(), json!(p));}
    if g.chance(1, 3) {let s = set(g, CERTS, 2); c.certs.extend(s.clone()); o.insert("add_extra_certificates".into(), json!(s));}
    if g.chance(1, 3) {let s = set(g, CERTS, 2); for x in &s {c.certs.remove(x);} o.insert("remove_extra_certificates".into(), json!(s));}
    V::Object(o)
}
fn differ(got: &Params, want: &M) -> Option<String> {
    let w = want.real();
    if *got == w {return None;}
    let (a, b) = (serde_json::to_value(got).unwrap_or_default(), serde_json::to_value(&w).unwrap_or_default());
    let mut out = Vec::new();
    for k in ["flags", "vars", "sets", "lists", "maps", "named_partitionings", "read_cache", "write_cache", "http_client_config"] {if a[k] != b[k] {out.push(format!("{k}: got {}, expected {}", a[k], b[k]));}}
    Some(out.join("; "))
}

/// A history of diffs.
fn p17_apply(g: &mut G) -> Res {
    let mut m = params(g);
    let mut real = m.real();
    g.input(m.json().to_string());
    for _ in 0..1 + g.usize(3) {
        let before = m.clone();
        let d = diff(g, &mut m);
        g.input(d.to_string());
        if m != before {g.nontrivial();}
        let x: ParamsDiff = serde_json::from_value(d).expect("harness/src: diff");
        x.apply(&mut real);
        if let Some(w) = differ(&real, &m) {return fail("params diff", w);}
    }
    Ok(())
}

#[derive(Debug, Parser)]
#[command(no_binary_name = true)]
struct Args {#[command(flatten)] p: ParamsDiffArgParser}

/// Command-line options and their meaning; `None` if they have to be refused.
fn options(g: &mut G, m: &mut M) -> (Vec<String>, bool) {
    let mut argv: Vec<String> = Vec::new();
    let mut bad = false;
    let (mut uf, mut uv, mut rs, mut rm): (Vec<String>, Vec<String>, Vec<(String, Vec<String>)>, Vec<(String, Vec<String>)>) = Default::default();
    let mut once = BTreeSet::new();
    const W: &[&str] = &["k", "l", "é", "x y", "1"];
    for _ in 0..g.usize(6) {
        let n = g.of(N).to_string();
        let pair = |g: &mut G, long: &str, short: &str, v: &str| -> Vec<String> {match g.usize(3) {0 => vec![format!("--{long}"), v.into()], 1 => vec![format!("--{long}={v}")], _ => vec![format!("-{short}"), v.into()]}};
        match g.usize(12) {
            0 => {argv.extend(pair(g, "flag", "f", &n)); m.flags.insert(n);},
            1 => {argv.extend(pair(g, "unflag", "F", &n)); uf.push(n);},
            2 => {
                let v = g.of(W).to_string();
                argv.push(if g.flip() {"--var"} else {"-v"}.into()); argv.push(n.clone());
                if g.chance(1, 20) {bad = true;} else {argv.push(v.clone()); m.vars.insert(n, v);}
            },
            3 => {argv.extend(pair(g, "unvar", "V", &n)); uv.push(n);},
            4 => {let vs = g.vec(0, 3, |g| g.of(W).to_string()); argv.push("--insert-into-set".into()); argv.push(n.clone()); argv.extend(vs.clone()); m.sets.entry(n).or_default().extend(vs);},
            5 => {let vs = g.vec(0, 3, |g| g.of(W).to_string()); argv.push("--remove-from-set".into()); argv.push(n.clone()); argv.extend(vs.clone()); rs.push((n, vs));},
            6 => {
                let kv = g.vec(1, 3, |g| (g.of(W).to_string(), g.of(W).to_string()));
                argv.push("--insert-into-map".into()); argv.push(n.clone());
                for (k, v) in &kv {argv.push(k.clone()); argv.push(v.clone());}
                if g.chance(1, 15) {argv.push(g.of(W).into()); bad = true;}
                else if g.chance(1, 20) {argv.truncate(argv.len() - 2 * kv.len()); bad = true;}
                m.maps.entry(n).or_default().0.extend(kv);
            },
            7 => {let vs = g.vec(0, 3, |g| g.of(W).to_string()); argv.push("--remove-from-map".into()); argv.push(n.clone()); argv.extend(vs.clone()); rm.push((n, vs));},
            8 | 9 => {
                let k = g.of(&["read-cache", "write-cache", "no-proxy"]);
                if !once.insert(k) {continue;}
                let b = match g.usize(3) {0 => {argv.push(format!("--{k}")); true}, 1 => {let b = g.flip(); argv.push(format!("--{k}={b}")); b}, _ => {let b = g.flip(); argv.push(format!("--{k}")); argv.push(b.to_string()); b}};
                match k {"read-cache" => m.read = b, "write-cache" => m.write = b, _ => m.client.no_proxy = b}
            },
            10 => {
                if !once.insert("proxy") {continue;}
                argv.push("--proxy".into());
                if g.chance(1, 15) {argv.push("not a url".into()); bad = true;} else {let p = g.of(PROXIES); argv.push(p.into()); m.client.proxies = vec![json!({"url": p})];}
            },
            _ => if g.chance(1, 10) {argv.push("--insert-into-set".into()); argv.push("--flag".into()); argv.push(n); bad = true;}
        }
    }
    for x in uf {m.flags.remove(&x);}
    for x in uv {m.vars.remove(&x);}
    for (k, v) in rs {if let Some(s) = m.sets.get_mut(&k) {for x in v {s.remove(&x);}}}
    for (k, v) in rm {let e = m.maps.entry(k).or_default(); for x in v {e.0.remove(&x);}}
    (argv, bad)
}

fn p17_args(g: &mut G) -> Res {
    let mut m = params(g);
    let mut real = m.real();
    g.input(m.json().to_string());
    let (argv, bad) = options(g, &mut m);
    g.input(format!("{argv:?}"));
    if argv.len() > 2 {g.nontrivial();}
    if bad {g.label("malformed");}
    let p = match Args::try_parse_from(&argv) {Ok(a) => a.p, Err(e) => {ensure!(bad, "options refused", "{argv:?} is refused: {e}"); return Ok(());}};
    let any = p.does_anything();
    match p.build() {
        Err(e) => {ensure!(bad, "options refused", "{argv:?} is refused: {e}"); ensure!(any, "does_anything", "{argv:?}: does_anything is false, so the mistake goes unnoticed");},
        Ok(d) => {
            ensure!(!bad, "malformed options accepted", "{argv:?} is accepted as {d:?}");
            ensure_eq!(any, !argv.is_empty(), "does_anything", "{argv:?}: does_anything");
            d.apply(&mut real);
            if let Some(w) = differ(&real, &m) {return fail("options", format!("{argv:?}: {w}"));}
        }
    }
    Ok(())
}

/// The real program: diff files in the order given, then the options, seen through a config that writes what it sees into the URL.
fn p17_cli(g: &mut G) -> Res {
    let mut m = params(g);
    let dir = cli::Scratch::new(g)?;
    let probe = |c: V, name: String| json!({"condition": c, "mapper": {"SetPart": {"part": {"QueryParam": name}, "value": "1"}}});
    let mut rules = Vec::new();
    for n in N {
        rules.push(probe(json!({"FlagIsSet": n}), format!("flag {n}")));
        rules.push(json!({"Mapper": {"SetPart": {"part": {"QueryParam": format!("var {n}")}, "value": {"Var": n}}}}));
        for k in ["k", "l", "m", "", "é", "x y", "1"] {
            rules.push(probe(json!({"TreatErrorAsFail": {"StringMatches": {"value": k, "matcher": {"InSet": n}}}}), format!("set {n} {k}")));
            rules.push(json!({"Mapper": {"IgnoreError": {"SetPart": {"part": {"QueryParam": format!("map {n} {k}")}, "value": {"ParamsMap": {"name": n, "key": k}}}}}}));
        }
    }
    let base = m.json();
    let c = dir.write("config.json", &json!({"params": base, "rules": rules}).to_string())?;
    let mut argv = vec!["-c".to_string(), c];
    let n = g.usize(3);
    for i in 0..n {
        let d = diff(g, &mut m);
        g.input(d.to_string());
        let p = dir.write(&format!("diff{i}.json"), &d.to_string())?;
        argv.push("--params-diff".into()); argv.push(p);
    }
    let (opts, bad) = options(g, &mut m);
    argv.extend(opts.clone());
    argv.extend(["--threads".into(), "1".into(), "--".into(), "https://h/".into()]);
    g.input(base.to_string()); g.input(format!("{opts:?}"));
    g.nontrivial();
    let out = cli::run(&argv, b"", 60)?;
    if bad {ensure!(out.code == Some(2) && out.stdout.is_empty(), "malformed options accepted", "{opts:?}: exit {:?}, {:?}", out.code, out.text()); return Ok(());}
    let mut want = url::Url::parse("https://h/").unwrap();
    let mut q: Vec<(String, String)> = Vec::new();
    for n in N {
        if m.flags.contains(*n) {q.push((format!("flag {n}"), "1".into()));}
        if let Some(v) = m.vars.get(*n) {q.push((format!("var {n}"), v.clone()));}
        for k in ["k", "l", "m", "", "é", "x y", "1"] {
            if m.sets.get(*n).is_some_and(|s| s.contains(k)) {q.push((format!("set {n} {k}"), "1".into()));}
            if let Some((mm, _, e)) = m.maps.get(*n) && let Some(v) = mm.get(k).or(e.as_ref()) {q.push((format!("map {n} {k}"), v.clone()));}
        }
    }
    if !q.is_empty() {want.query_pairs_mut().extend_pairs(&q);}
    let got = out.text();
    let pairs = |u: &str| url::Url::parse(u.trim_end()).map(|u| u.query_pairs().into_owned().collect::<BTreeSet<_>>()).ok();
    ensure_eq!(pairs(&got), Some(q.iter().cloned().collect()), "program", "{opts:?} {got:?} {}", out.err());
    Ok(())
}

pub fn p17() -> Prop {Prop {id: "P17", rule: "apply: a diff changes the params; options: at least three words; program: every case",
    assumptions: &["a default header of the same name is replaced by the diff's", "with --remove-from-map, a map that did not exist comes into being (empty)"],
    subs: vec![Sub {name: "apply", quick: 150_000, thorough: 4_000_000, threads: 8, f: p17_apply}, Sub {name: "options", quick: 60_000, thorough: 2_000_000, threads: 8, f: p17_args}, Sub {name: "program", quick: 300, thorough: 6_000, threads: 8, f: p17_cli}], repro: vec![]}}
