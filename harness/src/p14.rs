//! P14: serialization round trips, shorthands, defaults that may be left out, refused duplicates.
use crate::core::*;
use crate::cfg::Cx;
use crate::gn;
use crate::{ensure, ensure_eq};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fmt::Debug;
use url_cleaner::glue::*;
use url_cleaner::testing::*;
use url_cleaner::types::*;

type V = Value;
fn obj(v: V) -> Map<String, V> {match v {V::Object(o) => o, _ => panic!("harness/src: not an object")}}
const PEM: &[&str] = &["-----BEGIN CERTIFICATE-----\nAA==\n-----END CERTIFICATE-----\n", "cert", ""];

/// The settings and contexts beside the rule language.
fn headers(g: &mut G) -> V {let n = g.usize(3); V::Object((0..n).map(|_| (g.of(&["accept", "X-A", "x-b", "cookie", "authorization"]).to_string(), json!(g.of(&["", "a", "text/html", "a b", "a=1; b=2", "é", "\u{80}x"])))).collect())}
fn proxy(g: &mut G) -> V {
    let u = g.of(&["http://127.0.0.1:8080/", "https://proxy.example/", "socks5://h:1"]);
    if g.chance(1, 3) {return json!(u);}
    let mut o = obj(json!({"url": u}));
    if g.flip() {o.insert("mode".into(), json!(g.of(&["All", "Http", "Https"])));}
    if g.flip() {o.insert("auth".into(), if g.chance(1, 4) {V::Null} else if g.flip() {json!({"Basic": {"username": gn::word(g), "password": gn::string(g, 2)}})} else {json!({"Custom": g.of(&["x", "Bearer y", "é"])})});}
    V::Object(o)
}
fn policy(g: &mut G) -> V {if g.flip() {json!("None")} else {json!({"Limited": g.of(&[0u64, 1, 5, 10, 11, 1 << 40])})}}
fn put(g: &mut G, o: &mut Map<String, V>, k: &str, f: impl FnOnce(&mut G) -> V) {if g.flip() {let v = f(g); o.insert(k.into(), v);}}
fn client(g: &mut G) -> V {
    let mut o = Map::new();
    put(g, &mut o, "default_headers", headers); put(g, &mut o, "redirect_policy", policy); put(g, &mut o, "https_only", |g| json!(g.flip()));
    put(g, &mut o, "proxies", |g| json!(g.vec(0, 2, proxy))); put(g, &mut o, "no_proxy", |g| json!(g.flip())); put(g, &mut o, "referer", |g| json!(g.flip()));
    put(g, &mut o, "extra_certificates", |g| {let mut v = g.vec(0, 2, |g| g.of(PEM)); v.sort(); v.dedup(); json!(v)});
    V::Object(o)
}
fn client_diff(g: &mut G) -> V {
    let mut o = Map::new();
    let ob = |g: &mut G| if g.chance(1, 4) {V::Null} else {json!(g.flip())};
    put(g, &mut o, "add_default_headers", headers); put(g, &mut o, "redirect_policy", |g| if g.chance(1, 4) {V::Null} else {policy(g)}); put(g, &mut o, "https_only", ob);
    put(g, &mut o, "set_proxies", |g| if g.chance(1, 4) {V::Null} else {json!(g.vec(0, 2, proxy))}); put(g, &mut o, "add_proxies", |g| json!(g.vec(0, 2, proxy)));
    put(g, &mut o, "no_proxy", ob); put(g, &mut o, "referer", ob);
    for k in ["add_extra_certificates", "remove_extra_certificates"] {put(g, &mut o, k, |g| {let mut v = g.vec(0, 2, |g| g.of(PEM)); v.sort(); v.dedup(); json!(v)});}
    V::Object(o)
}
fn jsonv(g: &mut G, d: u32) -> V {
    match g.weighted(&[2, 2, 3, 3, 1, 1, 1, if d > 0 {2} else {0}, if d > 0 {2} else {0}, if d > 0 {1} else {0}]) {
        0 => if g.flip() {V::Null} else {json!({"Null": null})},
        1 => json!(g.flip()),
        2 => json!(gn::string(g, 3)),
        3 => g.of(&[json!(0), json!(-1), json!(i64::MIN), json!(u64::MAX), json!(1.5), json!(-0.25), json!(1e300)]),
        4 => json!({"Bool": g.flip()}),
        5 => json!({"Number": g.of(&[json!(0), json!(-1), json!(u64::MAX), json!(1.5)])}),
        6 => {let mut cx = Cx::new(g); json!({"String": cx.source(1)})},
        7 => json!(g.vec(0, 3, |g| jsonv(g, d - 1))),
        8 => {let n = g.usize(3); json!({"Object": (0..n).map(|_| (gn::word(g), jsonv(g, d - 1))).collect::<Map<_, _>>()})},
        _ => json!({"Array": g.vec(0, 3, |g| jsonv(g, d - 1))})
    }
}
fn src(g: &mut G) -> V {let d = g.usize(2) as u32; Cx::new(g).source(d)}
fn some_src(g: &mut G) -> V {let v = src(g); if v.is_null() {json!("x")} else {v}}
fn srcs(g: &mut G) -> V {let n = g.usize(3); V::Object((0..n).map(|_| (gn::word(g), src(g))).collect())}
fn request(g: &mut G) -> V {
    let mut o = Map::new();
    put(g, &mut o, "url", src); put(g, &mut o, "method", |g| json!(g.of(&["GET", "POST", "PUT", "HEAD", "DELETE", "X-CUSTOM"]))); put(g, &mut o, "headers", srcs);
    put(g, &mut o, "body", |g| match g.usize(4) {0 => V::Null, 1 => json!({"Text": src(g)}), 2 => json!({"Form": srcs(g)}), _ => json!({"Json": jsonv(g, 2)})});
    put(g, &mut o, "response_handler", |g| match g.usize(4) {0 => json!("Body"), 1 => json!("Url"), 2 => json!({"Header": src(g)}), _ => json!({"Cookie": src(g)})});
    put(g, &mut o, "client_config_diff", |g| if g.chance(1, 4) {V::Null} else {client_diff(g)});
    V::Object(o)
}
fn command(g: &mut G) -> V {
    let p = gn::word(g);
    if g.chance(1, 4) {return json!(p);}
    let mut o = obj(json!({"program": p}));
    put(g, &mut o, "args", |g| json!(g.vec(0, 3, src))); put(g, &mut o, "current_dir", |g| if g.chance(1, 4) {V::Null} else {json!(gn::word(g))});
    put(g, &mut o, "envs", srcs); put(g, &mut o, "stdin", some_src);
    V::Object(o)
}
fn words(g: &mut G, max: usize) -> V {let mut v = g.vec(0, max, gn::word); v.sort(); v.dedup(); json!(v)}
fn wmap(g: &mut G, f: fn(&mut G) -> V) -> V {let n = g.usize(3); V::Object((0..n).map(|_| (gn::word(g), f(g))).collect())}
fn text(g: &mut G) -> V {json!(gn::string(g, 3))}
fn docs(g: &mut G) -> V {
    let mut o = Map::new();
    put(g, &mut o, "title", |g| if g.flip() {V::Null} else {text(g)}); put(g, &mut o, "description", |g| if g.chance(1, 3) {V::Null} else {json!(g.vec(0, 2, text))});
    for k in ["flags", "vars", "environment_vars", "sets", "lists", "maps", "named_partitionings"] {put(g, &mut o, k, |g| wmap(g, text));}
    for k in ["job_context", "task_context"] {put(g, &mut o, k, |g| if g.flip() {json!({})} else {json!({"vars": wmap(g, text)})});}
    V::Object(o)
}
fn mapdiff(g: &mut G) -> V {let mut o = Map::new(); put(g, &mut o, "insert_into_map", |g| wmap(g, text)); put(g, &mut o, "remove_from_map", |g| words(g, 3)); V::Object(o)}
fn diff(g: &mut G) -> V {
    let mut o = Map::new();
    for k in ["flags", "unflags", "unvars", "init_sets", "delete_sets", "init_maps", "delete_maps"] {put(g, &mut o, k, |g| words(g, 3));}
    put(g, &mut o, "vars", |g| wmap(g, text));
    for k in ["insert_into_sets", "remove_from_sets"] {put(g, &mut o, k, |g| wmap(g, |g| json!(g.vec(0, 3, gn::word))));}
    put(g, &mut o, "map_diffs", |g| wmap(g, mapdiff));
    for k in ["read_cache", "write_cache"] {put(g, &mut o, k, |g| if g.chance(1, 4) {V::Null} else {json!(g.flip())});}
    put(g, &mut o, "http_client_config_diff", |g| if g.chance(1, 4) {V::Null} else {client_diff(g)});
    V::Object(o)
}
fn params(g: &mut G) -> V {
    let mut v = Cx::new(g).params();
    let o = v.as_object_mut().unwrap();
    for k in ["flags", "vars", "sets", "lists", "maps", "named_partitionings"] {if g.chance(1, 4) {o.remove(k);}}
    for k in ["read_cache", "write_cache"] {put(g, o, k, |g| json!(g.flip()));}
    put(g, o, "http_client_config", client);
    v
}
fn cachep(g: &mut G) -> V {match g.usize(4) {0 => json!(":memory:"), 1 => json!(g.of(&["a.sqlite", "file://x", "", "Memory"])), 2 => json!({"Path": g.of(&["a", ":memory:x"])}), _ => json!({"Memory": null})}}
fn config(g: &mut G) -> V {
    let d = g.usize(3) as u32;
    let mut o = Map::new();
    put(g, &mut o, "docs", docs); put(g, &mut o, "cache_path", cachep); put(g, &mut o, "params", params); put(g, &mut o, "commons", |g| Cx::new(g).commons_def(1));
    let r = Cx::new(g).rules(d); o.insert("rules".into(), r);
    V::Object(o)
}
fn ctx(g: &mut G) -> V {if g.chance(1, 4) {json!({})} else {json!({"vars": wmap(g, text)})}}
/// A URL in the form it keeps when read again.
fn url(g: &mut G) -> V {json!(Cx::new(g).url())}
fn task(g: &mut G) -> V {let u = url(g); match g.usize(3) {0 => u, 1 => json!({"url": u}), _ => json!({"url": u, "context": ctx(g)})}}
fn tests(g: &mut G) -> V {
    json!({"sets": g.vec(0, 2, |g| {
        let mut o = obj(json!({"tests": g.vec(0, 2, |g| json!({"task_config": task(g), "result": url(g)}))}));
        put(g, &mut o, "params_diff", |g| if g.chance(1, 4) {V::Null} else {diff(g)}); put(g, &mut o, "job_context", ctx);
        V::Object(o)
    })})
}
/// Elements with effects, which the evaluation checks leave out.
fn effect_source(g: &mut G) -> V {
    match g.usize(4) {
        0 => json!({"HttpRequest": request(g)}),
        1 => json!({"CommandOutput": command(g)}),
        2 => json!({"Cache": {"category": src(g), "key": src(g), "value": src(g)}}),
        _ => json!({"Modified": {"value": src(g), "modification": g.of(&[json!("GetJsStringLiteralPrefix"), json!("UnescapeHtmlText"), json!({"GetHtmlAttribute": "a"}), json!("None"), json!("UrlEncode"), json!("Base64Decode"), json!({"Debug": "None"})])}})
    }
}
fn effect_mapper(g: &mut G) -> V {
    match g.usize(4) {
        0 => {let mut o = Map::new(); put(g, &mut o, "headers", headers); put(g, &mut o, "http_client_config_diff", |g| if g.chance(1, 4) {V::Null} else {client_diff(g)}); json!({"ExpandRedirect": o})},
        1 => {let c = src(g); let m = Cx::new(g).mapper(1); json!({"CacheUrl": {"category": c, "mapper": m}})},
        2 => {let mut o = obj(json!({"mapper": Cx::new(g).mapper(0), "delay": g.of(&[0.0, 0.5, 1.0, 12.25, 0.1, 3600.000000001])})); put(g, &mut o, "limit", |g| json!(g.of(&[0u8, 1, 10, 255]))); json!({"Retry": o})},
        _ => json!({"SetPart": {"part": "Query", "value": effect_source(g)}})
    }
}

fn same<T: DeserializeOwned + Serialize + PartialEq + Debug>(v: &V, name: &str) -> Res {
    let s = v.to_string();
    let a: T = match serde_json::from_str(&s) {Ok(a) => a, Err(e) => return fail(format!("{name} unreadable"), format!("{name} does not read: {e}: {s}"))};
    let b: T = match serde_json::from_value(v.clone()) {Ok(a) => a, Err(e) => return fail(format!("{name} unreadable"), format!("{name} does not read from a value: {e}: {s}"))};
    ensure!(a == b, format!("{name} text and value"), "{name}: text and value read differently: {s}");
    let w = match serde_json::to_string(&a) {Ok(w) => w, Err(e) => return fail(format!("{name} unwritable"), format!("{name} does not serialize: {e}: {s}"))};
    let c: T = match serde_json::from_str(&w) {Ok(a) => a, Err(e) => return fail(format!("{name} does not read back"), format!("{name}: what was written does not read back: {e}: {w}"))};
    ensure!(a == c, format!("{name} round trip"), "{name}: {s} was written as {w}, which reads as something else");
    let p = serde_json::to_string_pretty(&a).map_err(|e| Fail {sig: "pretty".into(), msg: e.to_string()})?;
    ensure!(serde_json::from_str::<T>(&p).is_ok_and(|d| d == a), format!("{name} pretty"), "{name}: {p} reads as something else than {s}");
    let x = serde_json::to_value(&a).map_err(|e| Fail {sig: "value".into(), msg: e.to_string()})?;
    ensure!(serde_json::from_value::<T>(x.clone()).is_ok_and(|d| d == a), format!("{name} value"), "{name}: {x} reads as something else than {s}");
    Ok(())
}
/// Whether both read as the same thing.
fn eq<T: DeserializeOwned + PartialEq>(a: &V, b: &V) -> Option<bool> {Some(serde_json::from_str::<T>(&a.to_string()).ok()? == serde_json::from_str::<T>(&b.to_string()).ok()?)}

macro_rules! kinds {($g:expr, $k:expr, $v:ident, $($n:expr => $t:ty, $e:expr;)*) => {{
    let mut names = Vec::new(); $(names.push($n);)*
    let k = $k(names.len()); let mut i = 0usize; let mut out: Res = Ok(());
    $(if i == k {let $v: V = $e; $g.input($n); $g.input($v.to_string()); $g.label($n); if $v.to_string().len() > 30 {$g.nontrivial();} out = same::<$t>(&$v, $n);} i += 1;)*
    let _ = i; out
}}}
fn p14_round(g: &mut G) -> Res {
    let d = g.usize(4) as u32;
    let k = g.usize(34);
    kinds!(g, |n: usize| k % n, v,
        "Config" => Config, config(g); "Rules" => Rules, Cx::new(g).rules(d); "Rule" => Rule, Cx::new(g).rule(d); "Mapper" => Mapper, Cx::new(g).mapper(d);
        "Condition" => Condition, Cx::new(g).condition(d); "StringSource" => StringSource, Cx::new(g).source(d); "StringModification" => StringModification, Cx::new(g).modification(d);
        "StringMatcher" => StringMatcher, Cx::new(g).matcher(d); "StringLocation" => StringLocation, Cx::new(g).location(d); "CharMatcher" => CharMatcher, Cx::new(g).chr(d);
        "UrlPart" => UrlPart, gn::part(g); "FlagRef" => FlagRef, Cx::new(g).flag(1); "VarRef" => VarRef, Cx::new(g).var(1); "CommonCall" => CommonCall, Cx::new(g).call(1);
        "Commons" => Commons, Cx::new(g).commons_def(1); "Params" => Params, params(g); "ParamsDiff" => ParamsDiff, diff(g); "ConfigDocs" => ConfigDocs, docs(g);
        "RegexWrapper" => RegexWrapper, {let mut v = Cx::new(g).regex(); if let Some(o) = v.as_object_mut() {put(g, o, "line_terminator", |g| json!(g.of(&[10u8, 0, 13, 255]))); put(g, o, "unicode", |g| json!(g.flip()));} v};
        "GlobWrapper" => GlobWrapper, Cx::new(g).glob();
        "HttpClientConfig" => HttpClientConfig, client(g); "HttpClientConfigDiff" => HttpClientConfigDiff, client_diff(g); "ProxyConfig" => ProxyConfig, proxy(g);
        "RequestConfig" => RequestConfig, request(g); "StringSourceJsonValue" => StringSourceJsonValue, jsonv(g, 3); "CommandConfig" => CommandConfig, command(g);
        "CachePath" => CachePath, cachep(g); "TaskConfig" => TaskConfig, task(g); "TaskContext" => TaskContext, ctx(g); "JobContext" => JobContext, ctx(g);
        "Tests" => Tests, tests(g); "effect source" => StringSource, effect_source(g); "effect mapper" => Mapper, effect_mapper(g); "effect rule" => Rules, {let m = effect_mapper(g); let c = Cx::new(g).condition(1); json!([{"condition": c, "mapper": m}])};
    )
}

/// `(context, short, long)`: each short form reads as its long form, alone and nested in a rule.
fn p14_short(g: &mut G) -> Res {
    let (s, w) = (gn::string(g, 3), gn::word(g));
    let k = g.usize(26);
    // (kind, short, long)
    fn alone<T: DeserializeOwned + PartialEq + Debug>(a: &V, b: &V, n: &str) -> Res {
        match eq::<T>(a, b) {Some(true) => Ok(()), Some(false) => fail(format!("{n} shorthand"), format!("{n}: {a} and {b} read differently")), None => fail(format!("{n} unreadable"), format!("{n}: {a} or {b} does not read"))}
    }
    let (short, long, n): (V, V, &str) = match k {
        0 => (json!(s), json!({"String": s}), "StringSource"),
        1 => (V::Null, json!({"None": null}), "StringSource"),
        2 => (json!(s), json!({"name": s}), "FlagRef"),
        3 => (json!(s), json!({"type": "Params", "name": {"String": s}}), "FlagRef"),
        4 => (json!(s), json!({"name": {"String": s}}), "VarRef"),
        5 => (json!(s), json!({"type": "Params", "name": s}), "VarRef"),
        6 => (json!(s), json!({"name": s}), "CommonCall"),
        7 => (json!(s), json!({"name": {"String": s}, "args": {"flags": [], "vars": {}}}), "CommonCall"),
        8 => (json!(s), json!({"name": s, "index": 0}), "QueryParamSelector"),
        9 => (json!({"QueryParam": s}), json!({"QueryParam": {"name": s, "index": 0}}), "UrlPart"),
        10 => (json!(w), json!({"program": w, "args": [], "current_dir": null, "envs": {}, "stdin": null}), "CommandConfig"),
        11 => (json!(":memory:"), json!({"Memory": null}), "CachePath"),
        12 => {let p = g.of(&["a.sqlite", "", "/x y", "Memory", "file:///a"]); (json!(p), json!({"Path": p}), "CachePath")},
        13 => (json!(w), json!({"pattern": w, "case_sensitive": true, "require_literal_separator": false, "require_literal_leading_dot": true}), "GlobWrapper"),
        14 => (json!(s), json!({"pattern": s, "case_insensitive": false, "crlf": false, "dot_matches_new_line": false, "ignore_whitespace": false, "line_terminator": 10, "multi_line": false, "octal": false, "swap_greed": false, "unicode": true}), "RegexWrapper"),
        15 => {let u = g.of(&["http://127.0.0.1:8080/", "https://proxy.example/"]); (json!(u), json!({"url": u, "mode": "All", "auth": null}), "ProxyConfig")},
        16 => {let u = url(g); (u.clone(), json!({"url": u, "context": {"vars": {}}}), "TaskConfig")},
        17 => (json!(s), json!({"String": {"String": s}}), "StringSourceJsonValue"),
        18 => (V::Null, json!({"Null": null}), "StringSourceJsonValue"),
        19 => {let b = g.flip(); (json!(b), json!({"Bool": b}), "StringSourceJsonValue")},
        20 => {let x = g.of(&[json!(0), json!(-5), json!(u64::MAX), json!(2.5)]); (x.clone(), json!({"Number": x}), "StringSourceJsonValue")},
        21 => {let x = g.vec(0, 3, |g| jsonv(g, 1)); (json!(x), json!({"Array": x}), "StringSourceJsonValue")},
        22 => {let x = g.of(&["UrlDecode", "None", "Lowercase", "Uppercase", "GetJsStringLiteralPrefix", "UnescapeHtmlText"]); (json!(x), json!({x: null}), "StringModification")},
        23 => (json!("UrlEncode"), json!({"UrlEncode": "JsEncodeUriComponent"}), "StringModification"),
        24 => {let x = g.of(&["Base64Decode", "Base64Encode"]); (json!(x), json!({x: {"alphabet": "UrlSafe", "encode_padding": true, "decode_padding": "Indifferent"}}), "StringModification")},
        _ => {let c = Cx::new(g).condition(0); let c = match c {V::String(s) => json!({s: null}), x => x}; let mut o = obj(json!({"condition": c, "mapper": "None"})); let a = V::Object(o.clone()); o.insert("else_mapper".into(), V::Null); (a, V::Object(o), "Rule")}
    };
    g.input(n); g.input(short.to_string()); g.input(long.to_string()); g.nontrivial(); g.label(n);
    match n {
        "StringSource" => alone::<StringSource>(&short, &long, n)?, "FlagRef" => alone::<FlagRef>(&short, &long, n)?, "VarRef" => alone::<VarRef>(&short, &long, n)?, "CommonCall" => alone::<CommonCall>(&short, &long, n)?,
        "QueryParamSelector" => alone::<QueryParamSelector>(&short, &long, n)?, "UrlPart" => alone::<UrlPart>(&short, &long, n)?, "CommandConfig" => alone::<CommandConfig>(&short, &long, n)?, "CachePath" => alone::<CachePath>(&short, &long, n)?,
        "GlobWrapper" => alone::<GlobWrapper>(&short, &long, n)?, "RegexWrapper" => {alone::<RegexWrapper>(&short, &long, n)?; alone::<RegexParts>(&short, &long, n)?}, "ProxyConfig" => alone::<ProxyConfig>(&short, &long, n)?, "TaskConfig" => alone::<TaskConfig>(&short, &long, n)?,
        "StringSourceJsonValue" => alone::<StringSourceJsonValue>(&short, &long, n)?, "StringModification" => alone::<StringModification>(&short, &long, n)?, _ => alone::<Rule>(&short, &long, n)?
    }
    // The same inside rules, which are read in another way (untagged).
    let wrap = |x: &V| -> Option<V> {Some(match n {
        "StringSource" => json!({"SetPart": {"part": "Query", "value": x}}), "FlagRef" => json!({"If": {"condition": {"FlagIsSet": x}, "mapper": "None"}}), "VarRef" => json!({"SetPart": {"part": "Query", "value": {"Var": x}}}), "CommonCall" => json!({"Common": x}),
        "UrlPart" => json!({"CopyPart": {"from": x, "to": x}}), "CommandConfig" => json!({"SetPart": {"part": "Query", "value": {"CommandOutput": x}}}),
        "GlobWrapper" => json!({"RemoveQueryParamsMatching": {"Glob": x}}), "RegexWrapper" => json!({"RemoveQueryParamsMatching": {"Regex": x}}),
        "ProxyConfig" => json!({"ExpandRedirect": {"http_client_config_diff": {"add_proxies": [x]}}}), "StringSourceJsonValue" => json!({"SetPart": {"part": "Query", "value": {"HttpRequest": {"body": {"Json": x}}}}}),
        "StringModification" => json!({"ModifyPart": {"part": "Query", "modification": x}}), _ => return None
    })};
    if let (Some(a), Some(b)) = (wrap(&short), wrap(&long)) {
        let (a, b) = if g.flip() {(json!([{"condition": {"UrlHasHost": null}, "mapper": a}]), json!([{"condition": {"UrlHasHost": null}, "mapper": b}]))} else {(json!([{"Mapper": a}]), json!([{"Mapper": b}]))};
        alone::<Rules>(&a, &b, &format!("{n} in rules"))?;
    }
    Ok(())
}

/// Every field with a default: leaving it out is writing the default, and writing something else is kept.
/// (type, required fields, [(field, default, other)])
fn table() -> Vec<(&'static str, V, Vec<(&'static str, V, V)>)> {
    let e = || json!({});
    let l = || json!([]);
    vec![
        ("Config", json!({"rules": []}), vec![("docs", e(), json!({"title": "x"})), ("cache_path", json!(":memory:"), json!("x")), ("params", e(), json!({"flags": ["a"]})), ("commons", e(), json!({"mappers": {"a": "None"}}))]),
        ("ConfigDocs", e(), vec![("title", V::Null, json!("")), ("description", V::Null, json!([])), ("flags", e(), json!({"a": ""})), ("vars", e(), json!({"a": "b"})), ("environment_vars", e(), json!({"a": "b"})), ("sets", e(), json!({"a": "b"})), ("lists", e(), json!({"a": "b"})), ("maps", e(), json!({"a": "b"})), ("named_partitionings", e(), json!({"a": "b"})), ("job_context", e(), json!({"vars": {"a": "b"}})), ("task_context", e(), json!({"vars": {"a": "b"}}))]),
        ("Params", e(), vec![("flags", l(), json!(["a"])), ("vars", e(), json!({"a": ""})), ("sets", e(), json!({"a": []})), ("lists", e(), json!({"a": []})), ("maps", e(), json!({"a": {"map": {}}})), ("named_partitionings", e(), json!({"a": {}})), ("read_cache", json!(true), json!(false)), ("write_cache", json!(true), json!(false)), ("http_client_config", e(), json!({"referer": true}))]),
        ("ParamsDiff", e(), vec![("flags", l(), json!(["a"])), ("unflags", l(), json!(["a"])), ("vars", e(), json!({"a": ""})), ("unvars", l(), json!(["a"])), ("init_sets", l(), json!(["a"])), ("insert_into_sets", e(), json!({"a": []})), ("remove_from_sets", e(), json!({"a": []})), ("delete_sets", l(), json!(["a"])), ("init_maps", l(), json!(["a"])), ("map_diffs", e(), json!({"a": {}})), ("delete_maps", l(), json!(["a"])), ("read_cache", V::Null, json!(false)), ("write_cache", V::Null, json!(true)), ("http_client_config_diff", V::Null, e())]),
        ("Commons", e(), vec![("rules", e(), json!({"a": {"Rules": []}})), ("conditions", e(), json!({"a": "Always"})), ("mappers", e(), json!({"a": "None"})), ("string_sources", e(), json!({"a": null})), ("string_modifications", e(), json!({"a": "None"})), ("string_matchers", e(), json!({"a": "Always"}))]),
        ("HttpClientConfig", e(), vec![("default_headers", e(), json!({"a": "b"})), ("redirect_policy", json!({"Limited": 10}), json!("None")), ("https_only", json!(false), json!(true)), ("proxies", l(), json!(["http://a/"])), ("no_proxy", json!(false), json!(true)), ("referer", json!(false), json!(true)), ("extra_certificates", l(), json!(["x"]))]),
        ("HttpClientConfigDiff", e(), vec![("redirect_policy", V::Null, json!({"Limited": 10})), ("add_default_headers", e(), json!({"a": "b"})), ("https_only", V::Null, json!(false)), ("set_proxies", V::Null, json!([])), ("add_proxies", l(), json!(["http://a/"])), ("no_proxy", V::Null, json!(false)), ("referer", V::Null, json!(false)), ("add_extra_certificates", l(), json!(["x"])), ("remove_extra_certificates", l(), json!(["x"]))]),
        ("ProxyConfig", json!({"url": "http://a/"}), vec![("mode", json!("All"), json!("Http")), ("auth", V::Null, json!({"Custom": "a"}))]),
        ("RequestConfig", e(), vec![("url", json!({"Part": "Whole"}), json!("https://x/")), ("method", json!("GET"), json!("POST")), ("headers", e(), json!({"a": "b"})), ("body", V::Null, json!({"Text": ""})), ("response_handler", json!("Body"), json!("Url")), ("client_config_diff", V::Null, e())]),
        ("CommandConfig", json!({"program": "a"}), vec![("args", l(), json!([null])), ("current_dir", V::Null, json!("")), ("envs", e(), json!({"a": null})), ("stdin", V::Null, json!(""))]),
        ("RegexParts", json!({"pattern": "a"}), vec![("case_insensitive", json!(false), json!(true)), ("crlf", json!(false), json!(true)), ("dot_matches_new_line", json!(false), json!(true)), ("ignore_whitespace", json!(false), json!(true)), ("line_terminator", json!(10), json!(0)), ("multi_line", json!(false), json!(true)), ("octal", json!(false), json!(true)), ("swap_greed", json!(false), json!(true)), ("unicode", json!(true), json!(false))]),
        ("GlobWrapper", json!({"pattern": "a"}), vec![("case_sensitive", json!(true), json!(false)), ("require_literal_separator", json!(false), json!(true)), ("require_literal_leading_dot", json!(true), json!(false))]),
        ("Base64Config", e(), vec![("alphabet", json!("UrlSafe"), json!("Standard")), ("encode_padding", json!(true), json!(false)), ("decode_padding", json!("Indifferent"), json!("RequireNone"))]),
        ("CommonCall", json!({"name": "a"}), vec![("args", e(), json!({"flags": ["a"]}))]),
        ("CommonCallArgsSource", e(), vec![("flags", l(), json!(["a"])), ("vars", e(), json!({"a": null}))]),
        ("QueryParamSelector", json!({"name": "a"}), vec![("index", json!(0), json!(1))]),
        ("FlagRef", json!({"name": "a"}), vec![("type", json!("Params"), json!("Scratchpad"))]),
        ("VarRef", json!({"name": "a"}), vec![("type", json!("Params"), json!("Env"))]),
        ("TaskConfig", json!({"url": "https://a/"}), vec![("context", e(), json!({"vars": {"a": ""}}))]),
        ("TaskContext", e(), vec![("vars", e(), json!({"a": ""}))]),
        ("JobContext", e(), vec![("vars", e(), json!({"a": ""}))]),
        ("JobScratchpad", e(), vec![("flags", l(), json!(["a"])), ("vars", e(), json!({"a": ""}))]),
        ("TestSet", json!({"tests": []}), vec![("params_diff", V::Null, e()), ("job_context", e(), json!({"vars": {"a": ""}}))]),
        ("Map", json!({"map": {}}), vec![("if_null", V::Null, json!("")), ("else", V::Null, json!("a"))]),
        ("MapDiff", e(), vec![("insert_into_map", e(), json!({"a": ""})), ("remove_from_map", l(), json!(["a"]))]),
        ("Rule.Repeat", json!({"rules": []}), vec![("limit", json!(10), json!(11))]),
        ("Rule.", json!({"condition": "Always", "mapper": "None"}), vec![("else_mapper", V::Null, json!("None"))]),
        ("Mapper.If", json!({"condition": "Always", "mapper": "None"}), vec![("else_mapper", V::Null, json!("None"))]),
        ("Mapper.Retry", json!({"mapper": "None", "delay": 0.0}), vec![("limit", json!(10), json!(9))]),
        ("Mapper.ExpandRedirect", e(), vec![("headers", e(), json!({"a": ""})), ("http_client_config_diff", V::Null, e())]),
        ("Condition.PartContains", json!({"part": "Query", "value": "a"}), vec![("where", json!("Anywhere"), json!("Start"))]),
        ("Condition.StringContains", json!({"value": "b", "substring": "a"}), vec![("where", json!("Anywhere"), json!("Start"))]),
        ("Condition.TreatErrorAsPass", json!({"PathIs": "a"}), vec![]),
        ("StringMatcher.Contains", json!({"value": "a"}), vec![("where", json!("Anywhere"), json!("End"))]),
        ("StringSource.Join", json!({"sources": ["a"]}), vec![("join", json!(""), json!("-"))]),
        ("StringModification.If", json!({"condition": "Always", "then": "None"}), vec![("else", V::Null, json!("None"))]),
        ("StringModification.IfMatches", json!({"matcher": "Always", "then": "None"}), vec![("else", V::Null, json!("None"))]),
        ("StringModification.KeepSegmentRange", json!({"split": "a"}), vec![("start", json!(0), json!(1)), ("end", V::Null, json!(0))]),
    ]
}
fn p14_defaults(g: &mut G) -> Res {
    let t = table();
    let (name, base, fields) = &t[g.usize(t.len())];
    // 0: left out, 1: the default, 2: something else.
    let pick: Vec<usize> = fields.iter().map(|_| g.usize(3)).collect();
    let (mut short, mut long) = (obj(base.clone()), obj(base.clone()));
    let mut ord: Vec<usize> = (0..fields.len()).collect();
    if g.flip() {ord.reverse();}
    let mut changed = None;
    for i in ord {
        let (f, d, o) = &fields[i];
        match pick[i] {
            0 => {long.insert(f.to_string(), d.clone());},
            1 => {short.insert(f.to_string(), d.clone());},
            _ => {short.insert(f.to_string(), o.clone()); long.insert(f.to_string(), o.clone()); changed = Some(*f);}
        }
    }
    let (ty, variant) = name.split_once('.').map_or((*name, ""), |(a, b)| (a, b));
    let wrap = |o: &Map<String, V>| if variant.is_empty() {V::Object(o.clone())} else {json!({variant: o})};
    let (a, b) = (wrap(&short), wrap(&long));
    g.input(*name); g.input(a.to_string()); g.input(b.to_string()); g.label(*name);
    if pick.contains(&0) {g.nontrivial();}
    let plain = changed.map(|f| {let mut o = short.clone(); o.remove(f); (f, wrap(&o))});
    fn go<T: DeserializeOwned + Serialize + PartialEq + Debug>(name: &str, a: &V, b: &V, plain: &Option<(&str, V)>) -> Res {
        same::<T>(a, name)?; same::<T>(b, name)?;
        ensure_eq!(eq::<T>(a, b), Some(true), format!("{name} default"), "{name}: {a} and {b} read the same");
        if let Some((f, p)) = plain {ensure_eq!(eq::<T>(a, p), Some(false), format!("{name} {f} lost"), "{name}: {a} and {p} (without {f}) read the same");}
        Ok(())
    }
    macro_rules! by {($($t:ident),*) => {match ty {$(stringify!($t) => go::<$t>(name, &a, &b, &plain),)* "Map" => go::<url_cleaner::types::Map<String>>(name, &a, &b, &plain), "MapDiff" => go::<MapDiff<String>>(name, &a, &b, &plain), x => panic!("harness/src: {x}")}}}
    by!(Config, ConfigDocs, Params, ParamsDiff, Commons, HttpClientConfig, HttpClientConfigDiff, ProxyConfig, RequestConfig, CommandConfig, RegexParts, GlobWrapper, Base64Config, CommonCall, CommonCallArgsSource, QueryParamSelector, FlagRef, VarRef, TaskConfig, TaskContext, JobContext, JobScratchpad, TestSet, Rule, Mapper, Condition, StringMatcher, StringSource, StringModification)
}

/// Text with or without a repeated entry, where repeats are refused.
fn p14_dups(g: &mut G) -> Res {
    const SETS: &[(&str, &str)] = &[("Params", "flags"), ("ParamsDiff", "flags"), ("ParamsDiff", "unflags"), ("ParamsDiff", "unvars"), ("MapDiff", "remove_from_map"), ("JobScratchpad", "flags"), ("Mapper", "RemoveQueryParams"), ("Mapper", "AllowQueryParams")];
    const MAPS: &[(&str, &str, &str)] = &[("Params", "vars", "\"x\""), ("Params", "sets", "[]"), ("Params", "lists", "[]"), ("Params", "maps", "{\"map\":{}}"), ("Params", "named_partitionings", "{}"), ("ParamsDiff", "vars", "\"x\""), ("ParamsDiff", "insert_into_sets", "[]"), ("ParamsDiff", "remove_from_sets", "[]"), ("ParamsDiff", "map_diffs", "{}"), ("Map", "map", "\"x\""), ("MapDiff", "insert_into_map", "\"x\""), ("TaskContext", "vars", "\"x\""), ("JobContext", "vars", "\"x\""), ("JobScratchpad", "vars", "\"x\""),
        ("ConfigDocs", "flags", "\"x\""), ("ConfigDocs", "vars", "\"x\""), ("ConfigDocs", "environment_vars", "\"x\""), ("ConfigDocs", "sets", "\"x\""), ("ConfigDocs", "lists", "\"x\""), ("ConfigDocs", "maps", "\"x\""), ("ConfigDocs", "named_partitionings", "\"x\""), ("JobContextDocs", "vars", "\"x\""), ("TaskContextDocs", "vars", "\"x\""), ("NamedPartitioning", "", "[]")];
    let n = 1 + g.usize(4);
    let mut names: Vec<String> = Vec::new();
    for i in 0..n {let w = gn::string(g, 2); names.push(if names.contains(&w) {format!("{w}{i}!")} else {w});}
    let dup = g.flip();
    if dup {let x = g.of(&names); let at = g.usize(names.len() + 1); names.insert(at, x);}
    let q = |s: &str| V::from(s).to_string();
    let (ty, text, what) = match g.weighted(&[2, 5, 2]) {
        0 => {
            let (t, f) = g.of(SETS);
            let l = format!("[{}]", names.iter().map(|x| q(x)).collect::<Vec<_>>().join(","));
            (t, format!("{{{}:{l}}}", q(f)), format!("{t}.{f}"))
        },
        1 => {
            let (t, f, x) = g.of(MAPS);
            let l = format!("{{{}}}", names.iter().map(|n| format!("{}:{x}", q(n))).collect::<Vec<_>>().join(","));
            (t, if f.is_empty() {l} else {format!("{{{}:{l}}}", q(f))}, format!("{t}.{f}"))
        },
        _ => {
            // The same value in one or two partitions.
            let k = 1 + g.usize(3);
            let mut parts: Vec<Vec<String>> = vec![Vec::new(); k];
            for x in &names {let i = g.usize(k); parts[i].push(q(x));}
            ("NamedPartitioning", format!("{{{}}}", parts.iter().enumerate().map(|(i, p)| format!("\"p{i}\":[{}]", p.join(","))).collect::<Vec<_>>().join(",")), "NamedPartitioning value".into())
        }
    };
    g.input(text.clone()); g.input(what.clone()); g.label(what.clone());
    if n > 1 {g.nontrivial();}
    fn ok<T: DeserializeOwned>(s: &str) -> bool {serde_json::from_str::<T>(s).is_ok()}
    let read = match ty {
        "Params" => {
            if g.flip() {let c = format!("{{\"params\":{text},\"rules\":[]}}"); ok::<Config>(&c)} else {ok::<Params>(&text)}
        },
        "ParamsDiff" => ok::<ParamsDiff>(&text), "MapDiff" => ok::<MapDiff<String>>(&text), "JobScratchpad" => ok::<JobScratchpad>(&text),
        "Map" => {
            // Also where maps are flattened into elements, and inside untagged rules.
            let t = text.replace(":\"x\"", ":\"None\"");
            let m = format!("{{\"PartMap\":{{\"part\":\"Query\",{}}}", &t[1..]);
            match g.usize(3) {0 => ok::<url_cleaner::types::Map<String>>(&text), 1 => ok::<Mapper>(&m), _ => ok::<Rules>(&format!("[{{\"condition\":\"Always\",\"mapper\":{m}}}]"))}
        },
        "TaskContext" => if g.flip() {ok::<TaskContext>(&text)} else {ok::<TaskConfig>(&format!("{{\"url\":\"https://a/\",\"context\":{text}}}"))},
        "JobContext" => ok::<JobContext>(&text), "ConfigDocs" => ok::<ConfigDocs>(&text), "JobContextDocs" => ok::<JobContextDocs>(&text), "TaskContextDocs" => ok::<TaskContextDocs>(&text),
        "NamedPartitioning" => ok::<NamedPartitioning>(&text),
        _ => if g.flip() {ok::<Mapper>(&text)} else {ok::<Rules>(&format!("[{{\"condition\":\"Always\",\"mapper\":{text}}}]"))}
    };
    ensure_eq!(read, !dup, format!("duplicates in {what}"), "{what}: {text} is read");
    Ok(())
}

/// What is read is what was written: lookups in parsed params agree with the text.
fn p14_contents(g: &mut G) -> Res {
    let p = params(g);
    g.input(p.to_string()); g.nontrivial();
    let x: Params = serde_json::from_str(&p.to_string()).map_err(|e| Fail {sig: "params unreadable".into(), msg: e.to_string()})?;
    let strs = |v: &V| -> Vec<String> {v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()};
    let empty = Map::new();
    let o = |k: &str| p[k].as_object().unwrap_or(&empty);
    let mut f = strs(&p["flags"]); f.sort(); let mut h: Vec<_> = x.flags.iter().cloned().collect(); h.sort();
    ensure_eq!(h, f, "flags", "flags");
    ensure_eq!(x.vars, o("vars").iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect::<HashMap<_, _>>(), "vars", "vars");
    ensure_eq!(x.lists, o("lists").iter().map(|(k, v)| (k.clone(), strs(v))).collect::<HashMap<_, _>>(), "lists", "lists");
    ensure_eq!(x.sets, o("sets").iter().map(|(k, v)| (k.clone(), strs(v).into_iter().collect())).collect::<HashMap<_, _>>(), "sets", "sets");
    for (k, v) in o("maps") {
        let m = &x.maps[k];
        for (a, b) in v["map"].as_object().unwrap() {ensure_eq!(m.get(Some(a.as_str())).map(|x| x.as_str()), b.as_str(), "maps", "map {k} at {a:?}");}
        ensure_eq!(m.get(Some("\u{1}not there")).map(|x| x.as_str()), v["else"].as_str(), "maps else", "map {k} at a key it does not have");
        ensure_eq!(m.get(None::<&str>).map(|x| x.as_str()), v["if_null"].as_str().or(v["else"].as_str()), "maps null", "map {k} at none");
        ensure_eq!(m.map.len(), v["map"].as_object().unwrap().len(), "maps len", "entries of map {k}");
    }
    for (k, v) in o("named_partitionings") {
        let n = &x.named_partitionings[k];
        let mut names: Vec<String> = n.partition_names().iter().map(|x| x.to_string()).collect(); names.sort();
        let mut want: Vec<String> = v.as_object().unwrap().keys().cloned().collect(); want.sort();
        ensure_eq!(names, want, "partition names", "partition names of {k}");
        for (part, vs) in v.as_object().unwrap() {for s in strs(vs) {ensure_eq!(n.get_partition(&s), Some(&**part), "partitions", "partition of {s:?} in {k}");}}
        ensure_eq!(n.get_partition("\u{1}not there"), None, "partitions", "partition of a value in none");
    }
    ensure_eq!((x.read_cache, x.write_cache), (p["read_cache"].as_bool().unwrap_or(true), p["write_cache"].as_bool().unwrap_or(true)), "cache switches", "read_cache and write_cache");
    Ok(())
}

fn p14_default(_: &mut G) -> Res {
    let c = Config::get_default_no_cache().map_err(|e| Fail {sig: "default config".into(), msg: e.to_string()})?;
    let s = serde_json::to_string(&c).map_err(|e| Fail {sig: "default config".into(), msg: e.to_string()})?;
    ensure!(serde_json::from_str::<Config>(&s).is_ok_and(|x| x == c), "default config", "the default config does not survive serialization");
    Ok(())
}

fn sub(name: &'static str, quick: u64, f: fn(&mut G) -> Res) -> Sub {Sub {name, quick, thorough: quick * 20, threads: 8, f}}
pub fn p14() -> Prop {Prop {id: "P14", rule: "round: the text has over 30 bytes; shorthands, contents: every case; defaults: a field is left out; duplicates: at least two distinct entries",
    assumptions: &["values are built by reading generated text, so only values that text can express are covered", "equality is the derived PartialEq of the types"],
    subs: vec![sub("round", 1_000_000, p14_round), sub("shorthands", 60_000, p14_short), sub("defaults", 150_000, p14_defaults), sub("duplicates", 100_000, p14_dups), sub("contents", 40_000, p14_contents), Sub {name: "default config", quick: 1, thorough: 1, threads: 1, f: p14_default}], repro: vec![]}}
