//! Reference interpreter of the config language over the JSON a config file holds. Written from the
//! documentation of each element; it shares no code with the crate under test.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use serde_json::Value;
use url::Url;
use crate::codec;
use crate::refurl::{self, bound, idx, neg_range};

/// An error: the name it has at the level it was raised or passed through (used by error filters), and the
/// message when its origin is an explicit error.
#[derive(Debug, Clone)]
pub struct Er {pub name: &'static str, pub explicit: Option<String>}
pub type R<T> = Result<T, Er>;
pub fn er(name: &'static str) -> Er {Er {name, explicit: None}}
fn explicit(v: &Value) -> Er {Er {name: "ExplicitError", explicit: Some(v.as_str().unwrap().into())}}
fn at<T>(name: &'static str, r: R<T>) -> R<T> {r.map_err(|e| Er {name, explicit: e.explicit})}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Scope {pub flags: BTreeSet<String>, pub vars: BTreeMap<String, String>}
impl Scope {
    pub fn new(v: &Value) -> Self {
        Scope {flags: v["flags"].as_array().map(|a| a.iter().map(|x| s(x).into()).collect()).unwrap_or_default(), vars: vars(&v["vars"])}
    }
}
fn vars(v: &Value) -> BTreeMap<String, String> {v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), s(v).into())).collect()).unwrap_or_default()}
fn s(v: &Value) -> &str {v.as_str().expect("harness/src string")}

/// The task state. `calls` counts evaluations of `{"Error": "count:..."}`-style probes, by message.
#[derive(Clone)]
pub struct St {
    pub url: Url, pub pad: Scope, pub common: Option<Scope>,
    pub context: BTreeMap<String, String>, pub job: BTreeMap<String, String>,
    pub params: std::rc::Rc<Value>, pub commons: std::rc::Rc<Value>,
    pub cache: std::rc::Rc<RefCell<HashMap<(String, String), Option<String>>>>
}
impl St {
    pub fn new(v: &Value) -> Self {
        St {
            url: Url::parse(s(&v["url"])).unwrap(), pad: Scope::new(&v["pad"]), common: v.get("common").filter(|x| !x.is_null()).map(Scope::new),
            context: vars(&v["context"]), job: vars(&v["job_context"]),
            params: v.get("params").cloned().unwrap_or(Value::Null).into(), commons: v.get("commons").cloned().unwrap_or(Value::Null).into(), cache: Default::default()
        }
    }
    fn with_args(&self, args: Scope) -> St {let mut n = self.clone(); n.common = Some(args); n}
    fn host_is_domain(&self) -> bool {matches!(self.url.host(), Some(url::Host::Domain(_)))}
}

/// Name and content of an externally tagged variant.
pub fn tag(v: &Value) -> (&str, &Value) {
    match v {
        Value::String(x) => (x, &Value::Null),
        Value::Object(o) if o.len() == 1 => {let (k, x) = o.iter().next().unwrap(); (k, x)},
        _ => panic!("harness/src variant {v}")
    }
}
/// A variant flattened among the fields named in `others`.
fn flat(v: &Value, others: &[&str]) -> Value {
    let mut o = v.as_object().unwrap().clone();
    for x in others {o.remove(*x);}
    Value::Object(o)
}
fn arr(v: &Value) -> &[Value] {v.as_array().expect("harness/src array")}
fn int(v: &Value) -> i64 {v.as_i64().expect("harness/src int")}
fn oint(v: &Value) -> Option<i64> {if v.is_null() {None} else {Some(int(v))}}
fn contains(list: &Value, x: &str) -> bool {arr(list).iter().any(|y| y == x)}

/// Lookup in a map with fallbacks.
fn map_get<'a>(m: &'a Value, key: Option<&str>) -> Option<&'a Value> {
    let some = |x: &'a Value| if x.is_null() {None} else {Some(x)};
    match key {Some(k) => m["map"].get(k), None => m.get("if_null").and_then(some)}.or_else(|| m.get("else").and_then(some))
}

fn call<'a>(st: &'a St, kind: &str, c: &Value, none: Er, missing: Er) -> R<(&'a Value, Scope)> {
    let (name, args) = match c {Value::String(x) => (Some(x.clone()), &Value::Null), c => (at("StringSourceError", source(&c["name"], st))?, &c["args"])};
    let name = name.ok_or(none)?;
    let x = st.commons.get(kind).and_then(|k| k.get(&name)).ok_or(missing)?;
    let mut sc = Scope::default();
    if let Some(f) = args.get("flags") {sc.flags = arr(f).iter().map(|x| s(x).into()).collect();}
    if let Some(v) = args.get("vars") {for (k, v) in v.as_object().unwrap() {
        sc.vars.insert(k.clone(), at("CommonCallArgsError", source(v, st))?.ok_or(er("CommonCallArgsError"))?);
    }}
    Ok((x, sc))
}

pub fn flag(v: &Value, st: &St) -> R<bool> {
    let (ty, name) = match v {Value::String(x) => ("Params", Some(x.clone())), v => (v.get("type").map_or("Params", |x| s(x)), at("GetFlagError", source(&v["name"], st))?)};
    let name = name.ok_or(er("GetFlagError"))?;
    Ok(match ty {
        "Params" => st.params.get("flags").is_some_and(|f| contains(f, &name)),
        "Common" => st.common.as_ref().ok_or(er("GetFlagError"))?.flags.contains(&name),
        "Scratchpad" => st.pad.flags.contains(&name),
        x => panic!("harness/src flag type {x}")
    })
}
pub fn var(v: &Value, st: &St) -> R<Option<String>> {
    let (ty, name) = match v {Value::String(x) => ("Params", Some(x.clone())), v => (v.get("type").map_or("Params", |x| s(x)), at("GetVarError", source(&v["name"], st))?)};
    let name = name.ok_or(er("GetVarError"))?;
    Ok(match ty {
        "Params" => st.params.get("vars").and_then(|f| f.get(&name)).map(|x| s(x).to_string()),
        "Common" => st.common.as_ref().ok_or(er("GetVarError"))?.vars.get(&name).cloned(),
        "Scratchpad" => st.pad.vars.get(&name).cloned(),
        "TaskContext" => st.context.get(&name).cloned(),
        "JobContext" => st.job.get(&name).cloned(),
        "Env" => std::env::var(&name).ok(),
        x => panic!("harness/src var type {x}")
    })
}

pub fn source(v: &Value, st: &St) -> R<Option<String>> {
    match v {Value::Null => return Ok(None), Value::String(x) => return Ok(Some(x.clone())), _ => {}}
    let (t, x) = tag(v);
    let none = || er("StringSourceIsNone");
    let need = |v: &Value| source(v, st)?.ok_or(none());
    Ok(match t {
        "String" => Some(s(x).into()),
        "None" => None,
        "Error" => return Err(explicit(x)),
        "ErrorToNone" => source(x, st).unwrap_or(None),
        "ErrorToEmptyString" => source(x, st).unwrap_or(Some(String::new())),
        "TryElse" => match source(&x["try"], st) {Ok(y) => y, Err(_) => source(&x["else"], st)?},
        "NoneToEmptyString" => Some(source(x, st)?.unwrap_or_default()),
        "NoneTo" => match source(&x["value"], st)? {Some(y) => Some(y), None => source(&x["if_none"], st)?},
        "Join" => {
            // Documented as an error; see the finding listed for P09.
            let mut ys = Vec::new();
            for y in arr(&x["sources"]) {match source(y, st)? {Some(y) => ys.push(y), None => return Ok(None)}}
            Some(ys.join(x.get("join").map_or("", s)))
        },
        "IfFlag" => {let f = if x.get("type").is_some() {serde_json::json!({"type": x["type"], "name": x["name"]})} else {serde_json::json!({"name": x["name"]})}; if flag(&f, st)? {source(&x["then"], st)?} else {source(&x["else"], st)?}},
        "IfStringMatches" => if matcher(&x["matcher"], &need(&x["value"])?, st)? {source(&x["then"], st)?} else {source(&x["else"], st)?},
        "IfStringIsNone" => if source(&x["value"], st)?.is_none() {source(&x["then"], st)?} else {source(&x["else"], st)?},
        "Map" => {let k = source(&x["value"], st)?; source(map_get(x, k.as_deref()).ok_or(er("StringNotInMap"))?, st)?},
        "Part" => refurl::get(x, &st.url),
        "ExtractPart" => match source(&x["value"], st)? {Some(y) => refurl::get(&x["part"], &Url::parse(&y).map_err(|_| er("UrlParseError"))?), None => None},
        "Var" => var(x, st)?,
        "ParamsMap" => {
            let m = st.params["maps"].get(need(&x["name"])?).ok_or(er("MapNotFound"))?;
            let k = source(&x["key"], st)?;
            map_get(m, k.as_deref()).map(|y| s(y).into())
        },
        "ParamsNamedPartitioning" => {
            let m = st.params["named_partitionings"].get(need(&x["name"])?).ok_or(er("NamedPartitioningNotFound"))?;
            let e = need(&x["element"])?;
            m.as_object().unwrap().iter().find(|(_, vs)| contains(vs, &e)).map(|(k, _)| k.clone())
        },
        "Modified" => match source(&x["value"], st)? {Some(mut y) => {modify(&x["modification"], &mut y, st)?; Some(y)}, None => None},
        "ExtractBetween" => {
            let y = need(&x["value"])?;
            let (_, y) = y.split_once(&need(&x["start"])?).ok_or(er("ExtractBetweenStartNotFound"))?;
            let (y, _) = y.split_once(&need(&x["end"])?).ok_or(er("ExtractBetweenEndNotFound"))?;
            Some(y.into())
        },
        "RegexFind" => match source(&x["value"], st)? {Some(y) => regex(&x["regex"])?.find(&y).map(|m| m.as_str().to_string()), None => None},
        "Cache" => {
            let k = (need(&x["category"])?, need(&x["key"])?);
            if st.params.get("read_cache") != Some(&Value::Bool(false)) && let Some(y) = st.cache.borrow().get(&k) {return Ok(y.clone());}
            let y = source(&x["value"], st)?;
            if st.params.get("write_cache") != Some(&Value::Bool(false)) {st.cache.borrow_mut().insert(k, y.clone());}
            y
        },
        "Common" => {let (y, a) = call(st, "string_sources", x, none(), er("CommonStringSourceNotFound"))?; source(y, &st.with_args(a))?},
        x => panic!("harness/src source {x}")
    })
}

pub fn regex(v: &Value) -> R<regex::Regex> {
    let (p, o) = match v {Value::String(p) => (p.as_str(), Value::Null), v => (s(&v["pattern"]), v.clone())};
    let b = |n: &str| o.get(n).and_then(|x| x.as_bool()).unwrap_or(false);
    regex::RegexBuilder::new(p).case_insensitive(b("case_insensitive")).crlf(b("crlf")).dot_matches_new_line(b("dot_matches_new_line")).ignore_whitespace(b("ignore_whitespace"))
        .line_terminator(o.get("line_terminator").and_then(|x| x.as_u64()).unwrap_or(10) as u8).multi_line(b("multi_line")).octal(b("octal")).swap_greed(b("swap_greed"))
        .unicode(o.get("unicode").and_then(|x| x.as_bool()).unwrap_or(true)).build().map_err(|_| er("RegexError"))
}
pub fn glob(v: &Value, h: &str) -> bool {
    let (p, o) = match v {Value::String(p) => (p.as_str(), Value::Null), v => (s(&v["pattern"]), v.clone())};
    let b = |n: &str, d: bool| o.get(n).and_then(|x| x.as_bool()).unwrap_or(d);
    // The documented defaults, in either form.
    let opts = glob::MatchOptions {case_sensitive: b("case_sensitive", true), require_literal_separator: b("require_literal_separator", false), require_literal_leading_dot: b("require_literal_leading_dot", true)};
    glob::Pattern::new(p).expect("harness/src glob").matches_with(h, opts)
}

/// The logical and error-handling forms shared by locations, matchers and character matchers.
fn logic(t: &str, x: &Value, f: &dyn Fn(&Value) -> R<bool>) -> Option<R<bool>> {
    let run = || -> R<bool> {
        match t {
            "If" => if f(&x["if"])? {f(&x["then"])} else {f(&x["else"])},
            "All" => {for y in arr(x) {if !f(y)? {return Ok(false);}} Ok(true)},
            "Any" => {for y in arr(x) {if f(y)? {return Ok(true);}} Ok(false)},
            "Not" => Ok(!f(x)?),
            "TreatErrorAsPass" => Ok(f(x).unwrap_or(true)),
            "TreatErrorAsFail" => Ok(f(x).unwrap_or(false)),
            "TryElse" => f(&x["try"]).or_else(|_| f(&x["else"]).map_err(|_| er("TryElseError"))),
            "FirstNotError" => {let mut r = Ok(false); for y in arr(x) {r = f(y); if r.is_ok() {break;}} r},
            "Always" => Ok(true),
            "Never" => Ok(false),
            _ => unreachable!()
        }
    };
    matches!(t, "If" | "All" | "Any" | "Not" | "TreatErrorAsPass" | "TreatErrorAsFail" | "TryElse" | "FirstNotError" | "Always" | "Never").then(run)
}

pub fn chr(v: &Value, c: char) -> R<bool> {
    let (t, x) = tag(v);
    if let Some(r) = logic(t, x, &|y| chr(y, c)) {return r;}
    let ch = |v: &Value| s(v).chars().next().unwrap();
    Ok(match t {
        "Error" => return Err(er("ExplicitError")),
        "Equals" => c == ch(x),
        "Between" => ch(&x["min"]) <= c && c <= ch(&x["max"]),
        "IsOneOf" => arr(x).iter().any(|y| ch(y) == c),
        "IsAlphabetic" => c.is_alphabetic(),
        "IsAlphanumeric" => c.is_alphanumeric(),
        "IsAscii" => (c as u32) < 128,
        "IsAsciiAlphabetic" => matches!(c, 'a'..='z' | 'A'..='Z'),
        "IsAsciiAlphanumeric" => matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9'),
        "IsAsciiControl" => (c as u32) < 32 || c as u32 == 127,
        "IsAsciiDigit" | "IsDigit" => matches!(c, '0'..='9'),
        "IsAsciiGraphic" => matches!(c, '!'..='~'),
        "IsAsciiHexdigit" => matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F'),
        "IsAsciiLowercase" => matches!(c, 'a'..='z'),
        "IsAsciiPunctuation" => matches!(c, '!'..='/' | ':'..='@' | '['..='`' | '{'..='~'),
        "IsAsciiUppercase" => matches!(c, 'A'..='Z'),
        "IsAsciiWhitespace" => matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}'),
        "IsControl" => c.is_control(),
        "IsDigitRadix" => {
            let r = x.as_u64().unwrap();
            if !(2..=36).contains(&r) {return Err(er("InvalidRadix"));}
            let d = match c {'0'..='9' => c as u64 - 48, 'a'..='z' => c as u64 - 87, 'A'..='Z' => c as u64 - 55, _ => 99};
            d < r
        },
        "IsLowercase" => c.is_lowercase(),
        "IsNumeric" => c.is_numeric(),
        "IsUppercase" => c.is_uppercase(),
        "IsWhitespace" => c.is_whitespace(),
        x => panic!("harness/src char matcher {x}")
    })
}

pub fn location(v: &Value, h: &str, n: &str) -> R<bool> {
    let (t, x) = tag(v);
    if let Some(r) = logic(t, x, &|y| location(y, h, n)) {return r;}
    let from = |i: &Value| -> R<&str> {h.get(bound(int(i), h.len()).ok_or(er("InvalidIndex"))?..).ok_or(er("InvalidSlice"))};
    let upto = |i: &Value| -> R<&str> {h.get(..bound(int(i), h.len()).ok_or(er("InvalidIndex"))?).ok_or(er("InvalidSlice"))};
    Ok(match t {
        "Error" => return Err(explicit(x)),
        "Anywhere" => h.contains(n),
        "Start" => h.starts_with(n),
        "End" => h.ends_with(n),
        "Equals" => h == n,
        "StartsAt" => from(x)?.starts_with(n),
        "EndsAt" => upto(x)?.ends_with(n),
        "After" => from(x)?.contains(n),
        "Before" => upto(x)?.contains(n),
        "Range" => location(&x["location"], h.get(neg_range(int(&x["start"]), oint(&x["end"]), h.len()).ok_or(er("InvalidSlice"))?).ok_or(er("InvalidSlice"))?, n)?,
        "AnySegment" => {for seg in h.split(s(&x["split"])) {if location(&x["location"], seg, n)? {return Ok(true);}} false},
        "NthSegment" => {let segs: Vec<&str> = h.split(s(&x["split"])).collect(); location(&x["location"], segs[idx(int(&x["n"]), segs.len()).ok_or(er("SegmentNotFound"))?], n)?},
        x => panic!("harness/src location {x}")
    })
}
fn loc_or_default(v: Option<&Value>, h: &str, n: &str) -> R<bool> {match v {Some(v) => location(v, h, n), None => Ok(h.contains(n))}}

pub fn matcher(v: &Value, h: &str, st: &St) -> R<bool> {
    let (t, x) = tag(v);
    if let Some(r) = logic(t, x, &|y| matcher(y, h, st)) {return r;}
    let need = |v: &Value| source(v, st)?.ok_or(er("StringSourceIsNone"));
    Ok(match t {
        "Error" => return Err(explicit(x)),
        "Is" => h == need(x)?,
        "IsOneOf" => contains(x, h),
        "InSet" => {let n = need(x)?; st.params["sets"].get(n).is_some_and(|l| contains(l, h))},
        "Contains" => loc_or_default(x.get("where"), h, &need(&x["value"])?)?,
        "ContainsAny" => {for y in arr(&x["values"]) {if location(&x["where"], h, &need(y)?)? {return Ok(true);}} false},
        "ContainsAnyInList" => {for y in arr(st.params["lists"].get(need(&x["list"])?).ok_or(er("ListNotFound"))?) {if location(&x["where"], h, s(y))? {return Ok(true);}} false},
        "Regex" => regex(x)?.is_match(h),
        "Glob" => glob(x, h),
        "Modified" => {let mut c = h.to_string(); modify(&x["modification"], &mut c, st)?; matcher(&x["matcher"], &c, st)?},
        "OnlyTheseChars" => h.chars().all(|c| arr(x).iter().any(|y| s(y).starts_with(c))),
        "AllCharsMatch" => {for c in h.chars() {if !chr(x, c)? {return Ok(false);}} true},
        "AnyCharMatches" => {for c in h.chars() {if chr(x, c)? {return Ok(true);}} false},
        "IsAscii" => h.is_ascii(),
        "NthSegmentMatches" => {let sp = need(&x["split"])?; let segs: Vec<&str> = h.split(&*sp).collect(); matcher(&x["matcher"], segs[idx(int(&x["n"]), segs.len()).ok_or(er("SegmentNotFound"))?], st)?},
        "AnySegmentMatches" => {for seg in h.split(&*need(&x["split"])?) {if matcher(&x["matcher"], seg, st)? {return Ok(true);}} false},
        "LengthIs" => h.len() as u64 == x.as_u64().unwrap(),
        "SegmentsStartWith" => {let sp = need(&x["split"])?; h.strip_prefix(&*need(&x["value"])?).is_some_and(|r| r.starts_with(&*sp))},
        "SegmentsEndWith" => {let sp = need(&x["split"])?; h.strip_suffix(&*need(&x["value"])?).is_some_and(|r| r.split(&*sp).last() == Some(""))},
        "Common" => {let (y, a) = call(st, "string_matchers", x, er("StringSourceIsNone"), er("CommonStringMatcherNotFound"))?; matcher(y, h, &st.with_args(a))?},
        x => panic!("harness/src matcher {x}")
    })
}

/// Applies a modification. Like the documented behaviour, a failing sequence keeps what was done before.
pub fn modify(v: &Value, to: &mut String, st: &St) -> R<()> {
    let (t, x) = tag(v);
    let need = |v: &Value| source(v, st)?.ok_or(er("StringSourceIsNone"));
    let segs = |to: &str, sp: &str| to.split(sp).map(String::from).collect::<Vec<_>>();
    let cond = |c: &Value| condition(c, st);
    match t {
        "None" => {},
        "Error" => return Err(explicit(x)),
        "IgnoreError" => {let _ = modify(x, to, st);},
        "RevertOnError" => {let old = to.clone(); if let Err(e) = modify(x, to, st) {*to = old; return Err(e);}},
        "TryElse" => if modify(&x["try"], to, st).is_err() {modify(&x["else"], to, st).map_err(|_| er("TryElseError"))?},
        "All" => for y in arr(x) {modify(y, to, st)?;},
        "FirstNotError" => {let mut r = Ok(()); for y in arr(x) {r = modify(y, to, st); if r.is_ok() {break;}} return r;},
        "If" => if cond(&x["condition"])? {modify(&x["then"], to, st)?} else if !x["else"].is_null() {modify(&x["else"], to, st)?},
        "IfMatches" => if matcher(&x["matcher"], to, st)? {modify(&x["then"], to, st)?} else if !x["else"].is_null() {modify(&x["else"], to, st)?},
        "Set" => *to = need(x)?,
        "Append" => to.push_str(&need(x)?),
        "Prepend" => *to = need(x)? + to,
        "Replace" => *to = need(&x["find"])?.pipe(|f| Ok::<_, Er>(to.replace(&f, &need(&x["replace"])?)))?,
        "Replacen" => *to = need(&x["find"])?.pipe(|f| Ok::<_, Er>(to.replacen(&f, &need(&x["replace"])?, x["count"].as_u64().unwrap() as usize)))?,
        "ReplaceRange" => {
            let r = neg_range(int(&x["start"]), oint(&x["end"]), to.len()).filter(|r| to.get(r.clone()).is_some()).ok_or(er("InvalidSlice"))?;
            let y = need(&x["replace"])?;
            *to = format!("{}{y}{}", &to[..r.start], &to[r.end..]);
        },
        "KeepRange" => {
            let r = neg_range(int(&x["start"]), oint(&x["end"]), to.len()).ok_or(er("InvalidSlice"))?;
            *to = to.get(r).ok_or(er("InvalidSlice"))?.to_string();
        },
        "Lowercase" => *to = to.to_lowercase(),
        "Uppercase" => *to = to.to_uppercase(),
        "StripPrefix" | "StripMaybePrefix" => match (to.strip_prefix(&*need(x)?), t) {(Some(y), _) => *to = y.into(), (None, "StripPrefix") => return Err(er("PrefixNotFound")), _ => {}},
        "StripSuffix" | "StripMaybeSuffix" => match (to.strip_suffix(&*need(x)?), t) {(Some(y), _) => *to = y.into(), (None, "StripSuffix") => return Err(er("SuffixNotFound")), _ => {}},
        "Insert" => {
            let i = bound(int(&x["index"]), to.len()).filter(|i| to.is_char_boundary(*i)).ok_or(er("InvalidIndex"))?;
            let y = need(&x["value"])?;
            *to = format!("{}{y}{}", &to[..i], &to[i..]);
        },
        "RemoveChar" => {let i = idx(int(x), to.len()).filter(|i| to.is_char_boundary(*i)).ok_or(er("InvalidIndex"))?; to.remove(i);},
        "RegexCaptures" => {let rep = need(&x["replace"])?; let mut o = String::new(); regex(&x["regex"])?.captures(to).ok_or(er("RegexMatchNotFound"))?.expand(&rep, &mut o); *to = o;},
        "JoinAllRegexCaptures" => {
            let (rep, join) = (need(&x["replace"])?, need(&x["join"])?);
            *to = regex(&x["regex"])?.captures_iter(to).map(|c| {let mut o = String::new(); c.expand(&rep, &mut o); o}).collect::<Vec<_>>().join(&join);
        },
        "RegexFind" => *to = regex(x)?.find(to).ok_or(er("RegexMatchNotFound"))?.as_str().to_string(),
        "RegexReplace" => {let y = need(&x["replace"])?; *to = regex(&x["regex"])?.replacen(to, 1, &*y).into_owned();},
        "RegexReplaceAll" => {let y = need(&x["replace"])?; *to = regex(&x["regex"])?.replace_all(to, &*y).into_owned();},
        "RegexReplacen" => {let y = need(&x["replace"])?; *to = regex(&x["regex"])?.replacen(to, x["n"].as_u64().unwrap() as usize, &*y).into_owned();},
        "UrlEncode" => *to = codec::pct_encode(to, codec::keep_of(x.as_str().unwrap_or("JsEncodeUriComponent"))),
        "UrlDecode" => *to = codec::pct_decode(to).ok_or(er("Utf8Error"))?,
        "Base64Encode" | "Base64Decode" => {
            let std = x.get("alphabet").is_some_and(|a| a == "Standard");
            let pad = x.get("encode_padding").and_then(|x| x.as_bool()).unwrap_or(true);
            if t == "Base64Encode" {*to = codec::b64_encode(to.as_bytes(), std, pad);}
            else {*to = String::from_utf8(codec::b64_decode(to, std, x.get("decode_padding").map_or("Indifferent", s)).ok_or(er("Base64DecodeError"))?).map_err(|_| er("FromUtf8Error"))?;}
        },
        "JsonPointer" => {
            let j: Value = serde_json::from_str(to).map_err(|_| er("SerdeJsonError"))?;
            *to = codec::json_pointer(&j, &need(x)?).ok_or(er("JsonValueNotFound"))?.as_str().ok_or(er("JsonValueIsNotAString"))?.to_string();
        },
        "RemoveQueryParamsMatching" | "AllowQueryParamsMatching" => {
            let mut keep = Vec::new();
            for kv in to.split('&') {if matcher(x, kv.split('=').next().unwrap(), st)? == (t == "AllowQueryParamsMatching") {keep.push(kv);}}
            *to = keep.join("&");
        },
        "ExtractBetween" => {
            let a = need(&x["start"])?;
            let (_, y) = to.split_once(&*a).ok_or(er("ExtractBetweenStartNotFound"))?;
            let b = need(&x["end"])?;
            *to = y.split_once(&*b).ok_or(er("ExtractBetweenEndNotFound"))?.0.to_string();
        },
        "KeepNthSegment" => {let sp = need(&x["split"])?; let l = segs(to, &sp); *to = l[idx(int(&x["index"]), l.len()).ok_or(er("SegmentNotFound"))?].clone();},
        "KeepSegmentRange" => {
            let sp = need(&x["split"])?;
            let l = segs(to, &sp);
            let r = neg_range(x.get("start").map_or(0, int), x.get("end").and_then(oint), l.len()).ok_or(er("SegmentRangeNotFound"))?;
            *to = l[r].join(&sp);
        },
        "SetSegment" => {
            let sp = need(&x["split"])?;
            let mut l = segs(to, &sp);
            let i = idx(int(&x["index"]), l.len()).ok_or(er("SegmentNotFound"))?;
            match source(&x["value"], st)? {Some(y) => l[i] = y, None => {l.remove(i);}}
            *to = l.join(&sp);
        },
        "InsertSegment" => {
            let sp = need(&x["split"])?;
            let mut l = segs(to, &sp);
            let i = bound(int(&x["index"]), l.len()).ok_or(er("SegmentNotFound"))?;
            if let Some(y) = source(&x["value"], st)? {l.insert(i, y);}
            *to = l.join(&sp);
        },
        "StringMap" => {let k = source(&x["value"], st)?; if let Some(y) = map_get(x, k.as_deref()) {modify(y, to, st)?;}},
        "Common" => {let (y, a) = call(st, "string_modifications", x, er("StringSourceIsNone"), er("CommonStringModificationNotFound"))?; modify(y, to, &st.with_args(a))?;},
        x => panic!("harness/src modification {x}")
    }
    Ok(())
}
trait Pipe: Sized {fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {f(self)}}
impl Pipe for String {}

pub fn condition(v: &Value, st: &St) -> R<bool> {
    let (t, x) = if let Value::Object(o) = v && o.len() == 1 {tag(v)} else {tag(v)};
    let f = |y: &Value| condition(y, st);
    let need = |v: &Value| at("StringSourceError", source(v, st))?.ok_or(er("StringSourceIsNone"));
    let part = |p: &Value| refurl::get(p, &st.url);
    let is = |p: &str| Ok(part(&Value::String(p.into())).as_deref() == x.as_str());
    // Which errors an error-handling form handles.
    let handles = |e: &Er| x.get("filter").is_none_or(|l| l.is_null() || contains(l, e.name));
    let q = || refurl::pairs(&st.url);
    match t {
        "If" | "All" | "Any" | "Not" | "Always" | "Never" => return logic(t, x, &f).unwrap(),
        "Error" => return Err(explicit(x)),
        "PartMap" => return match map_get(x, part(&x["part"]).as_deref()) {Some(y) => f(y), None => Ok(false)},
        "StringMap" => {let k = at("StringSourceError", source(&x["value"], st))?; return match map_get(x, k.as_deref()) {Some(y) => f(y), None => Ok(false)};},
        "TreatErrorAsPass" | "TreatErrorAsFail" => return match f(&flat(x, &["filter"])) {Err(e) if handles(&e) => Ok(t == "TreatErrorAsPass"), r => r},
        "TryElse" => return match f(&x["try"]) {Err(e) if handles(&e) => f(&x["else"]).map_err(|_| er("TryElseError")), r => r},
        _ => {}
    }
    Ok(match t {
        "HostIs" => is("Host")?, "SubdomainIs" => is("Subdomain")?, "RegDomainIs" => is("RegDomain")?, "DomainIs" => is("Domain")?,
        "DomainMiddleIs" => is("DomainMiddle")?, "NotDomainSuffixIs" => is("NotDomainSuffix")?, "DomainSuffixIs" => is("DomainSuffix")?,
        "HostIsOneOf" => st.url.host_str().is_some_and(|h| contains(x, h)),
        "UrlHasHost" => st.url.host().is_some(),
        "HostIsFqdn" => st.host_is_domain() && st.url.host_str().unwrap().ends_with('.'),
        "HostIsDomain" => st.host_is_domain(),
        "HostIsIp" => st.url.host().is_some() && !st.host_is_domain(),
        "HostIsIpv4" => matches!(st.url.host(), Some(url::Host::Ipv4(_))),
        "HostIsIpv6" => matches!(st.url.host(), Some(url::Host::Ipv6(_))),
        "QueryHasParam" => q().iter().any(|(k, _)| k == s(x)),
        "PathIs" => st.url.path() == s(x),
        "PartIs" => part(&x["part"]) == at("StringSourceError", source(&x["value"], st))?,
        "PartContains" => {let p = part(&x["part"]).ok_or(er("PartIsNone"))?; let n = need(&x["value"])?; at("StringLocationError", loc_or_default(x.get("where"), &p, &n))?},
        "PartMatches" => at("StringMatcherError", matcher(&x["matcher"], &part(&x["part"]).ok_or(er("PartIsNone"))?, st))?,
        "PartIsOneOf" => contains(&x["values"], &part(&x["part"]).ok_or(er("PartIsNone"))?),
        "FlagIsSet" => at("GetFlagError", flag(x, st))?,
        "VarIs" => {
            let mut r = x.as_object().unwrap().clone(); r.remove("value");
            let l = at("GetVarError", var(&Value::Object(r), st))?;
            l == at("StringSourceError", source(&x["value"], st))?
        },
        "StringIs" => {let l = at("StringSourceError", source(&x["left"], st))?; l == at("StringSourceError", source(&x["right"], st))?},
        "StringContains" => {let h = need(&x["value"])?; let n = need(&x["substring"])?; at("StringLocationError", loc_or_default(x.get("where"), &h, &n))?},
        "StringMatches" => {let h = need(&x["value"])?; at("StringMatcherError", matcher(&x["matcher"], &h, st))?},
        "Common" => {let (y, a) = call(st, "conditions", x, er("StringSourceIsNone"), er("CommonConditionNotFound"))?; condition(y, &st.with_args(a))?},
        x => panic!("harness/src condition {x}")
    })
}

fn set_query(st: &mut St, ps: &[(String, String)]) {refurl::set_pieces(&mut st.url, ps);}
fn parse_url(x: &str) -> R<Url> {Url::parse(x).map_err(|_| er("UrlParseError"))}

thread_local! {static WORK: std::cell::Cell<u32> = const {std::cell::Cell::new(0)};}
const WORK_LIMIT: u32 = 3000;
/// Runs the model on something that may not end soon (repeats that double the URL); None when it is too much work.
pub fn bounded<T>(f: impl FnOnce() -> T) -> Option<T> {
    WORK.with(|w| w.set(0));
    let r = f();
    (WORK.with(|w| w.get()) < WORK_LIMIT).then_some(r)
}
fn work(st: &St) -> R<()> {
    let n = WORK.with(|w| {w.set(w.get().saturating_add(1)); w.get()});
    if n >= WORK_LIMIT || st.url.as_str().len() + st.pad.vars.values().map(|x| x.len()).sum::<usize>() > 8000 {WORK.with(|w| w.set(WORK_LIMIT)); return Err(er("Work"));}
    Ok(())
}
pub fn mapper(v: &Value, st: &mut St) -> R<()> {
    work(st)?;
    let (t, x) = tag(v);
    let src = |v: &Value, st: &St| source(v, st);
    let need = |v: &Value, st: &St| source(v, st)?.ok_or(er("StringSourceIsNone"));
    match t {
        "None" => {},
        "Error" => return Err(explicit(x)),
        "If" => if condition(&x["condition"], st)? {mapper(&x["mapper"], st)?} else if !x["else_mapper"].is_null() {mapper(&x["else_mapper"], st)?},
        "ConditionChain" => for l in arr(x) {if condition(&l["condition"], st)? {mapper(&l["mapper"], st)?; break;}},
        "All" => for y in arr(x) {mapper(y, st)?;},
        "PartMap" => {let k = refurl::get(&x["part"], &st.url); if let Some(y) = map_get(x, k.as_deref()) {mapper(y, st)?;}},
        "StringMap" => {let k = src(&x["value"], st)?; if let Some(y) = map_get(x, k.as_deref()) {mapper(y, st)?;}},
        "IgnoreError" => {let _ = mapper(x, st);},
        "RevertOnError" => {let old = (st.url.clone(), st.pad.clone()); if let Err(e) = mapper(x, st) {(st.url, st.pad) = old; return Err(e);}},
        "TryElse" => if mapper(&x["try"], st).is_err() {mapper(&x["else"], st).map_err(|_| er("TryElseError"))?},
        "FirstNotError" => {let mut r = Ok(()); for y in arr(x) {r = mapper(y, st); if r.is_ok() {break;}} return r;},
        "RemoveQuery" => st.url.set_query(None),
        "RemoveQueryParam" => if st.url.query().is_some() {let n = need(x, st)?; let ps: Vec<_> = refurl::pieces(&st.url).into_iter().filter(|p| p.0 != n).collect(); set_query(st, &ps);},
        "RemoveQueryParams" => if st.url.query().is_some() {let ps: Vec<_> = refurl::pieces(&st.url).into_iter().filter(|p| !contains(x, &p.0)).collect(); set_query(st, &ps);},
        "AllowQueryParams" => if st.url.query().is_some() {let ps: Vec<_> = refurl::pieces(&st.url).into_iter().filter(|p| contains(x, &p.0)).collect(); set_query(st, &ps);},
        "RemoveQueryParamsMatching" | "AllowQueryParamsMatching" => if st.url.query().is_some() {
            let mut ps = Vec::new();
            for p in refurl::pieces(&st.url) {if matcher(x, &p.0, st)? == (t == "AllowQueryParamsMatching") {ps.push(p);}}
            set_query(st, &ps);
        },
        "GetUrlFromQueryParam" => {let n = need(x, st)?; st.url = parse_url(&refurl::pairs(&st.url).into_iter().find(|p| p.0 == n).ok_or(er("CannotFindQueryParam"))?.1)?;},
        "SetHost" => refurl::set(&"Host".into(), &mut st.url, x.as_str()).map_err(|_| er("SetHostError"))?,
        "Join" => st.url = st.url.join(&need(x, st)?).map_err(|_| er("UrlParseError"))?,
        "SetPart" => {let y = src(&x["value"], st)?; refurl::set(&x["part"], &mut st.url, y.as_deref()).map_err(|_| er("UrlPartSetError"))?;},
        "ModifyPart" => if let Some(mut y) = refurl::get(&x["part"], &st.url) {modify(&x["modification"], &mut y, st)?; refurl::set(&x["part"], &mut st.url, Some(&y)).map_err(|_| er("UrlPartSetError"))?;},
        "CopyPart" => {let y = refurl::get(&x["from"], &st.url); refurl::set(&x["to"], &mut st.url, y.as_deref()).map_err(|_| er("UrlPartSetError"))?;},
        "MovePart" => {
            let mut n = st.url.clone();
            let y = refurl::get(&x["from"], &n);
            refurl::set(&x["to"], &mut n, y.as_deref()).map_err(|_| er("UrlPartSetError"))?;
            refurl::set(&x["from"], &mut n, None).map_err(|_| er("UrlPartSetError"))?;
            st.url = n;
        },
        "SetScratchpadFlag" => {let n = need(&x["name"], st)?; if x["value"] == true {st.pad.flags.insert(n);} else {st.pad.flags.remove(&n);}},
        "SetScratchpadVar" => {let y = src(&x["value"], st)?; let n = need(&x["name"], st)?; match y {Some(y) => {st.pad.vars.insert(n, y);}, None => {st.pad.vars.remove(&n);}}},
        "ModifyScratchpadVar" => {let n = need(&x["name"], st)?; if let Some(mut y) = st.pad.vars.get(&n).cloned() {modify(&x["modification"], &mut y, st)?; st.pad.vars.insert(n, y);}},
        "Rule" => rule(x, st)?,
        "Rules" => rules(x, st)?,
        "CacheUrl" => {
            let c = need(&x["category"], st)?;
            let k = (c, st.url.to_string());
            if st.params.get("read_cache") != Some(&Value::Bool(false)) {
                let hit = st.cache.borrow().get(&k).cloned();
                if let Some(y) = hit {st.url = parse_url(&y.ok_or(er("CachedUrlIsNone"))?)?; return Ok(());}
            }
            mapper(&x["mapper"], st)?;
            if st.params.get("write_cache") != Some(&Value::Bool(false)) {st.cache.borrow_mut().insert(k, Some(st.url.to_string()));}
        },
        "Retry" => {let mut r = Ok(()); for _ in 0..x.get("limit").map_or(10, |l| l.as_u64().unwrap()) {r = mapper(&x["mapper"], st); if r.is_ok() {break;}} return r;},
        "Common" => {let (y, a) = {let (y, a) = call(st, "mappers", x, er("StringSourceIsNone"), er("CommonMapperNotFound"))?; (y.clone(), a)}; with_common(st, a, |st| mapper(&y, st))?},
        x => panic!("harness/src mapper {x}")
    }
    Ok(())
}
fn with_common(st: &mut St, a: Scope, f: impl FnOnce(&mut St) -> R<()>) -> R<()> {
    let old = st.common.replace(a);
    let r = f(st);
    st.common = old;
    r
}

pub fn rule(v: &Value, st: &mut St) -> R<()> {
    work(st)?;
    if let Value::Object(o) = v && o.contains_key("condition") && o.contains_key("mapper") {
        return if condition(&v["condition"], st)? {mapper(&v["mapper"], st)} else if v.get("else_mapper").is_some_and(|x| !x.is_null()) {mapper(&v["else_mapper"], st)} else {Ok(())};
    }
    let (t, x) = tag(v);
    match t {
        "PartMap" | "PartRuleMap" | "PartRulesMap" => {let k = refurl::get(&x["part"], &st.url); if let Some(y) = map_get(x, k.as_deref()) {entry(t, y, st)?;}},
        "StringMap" | "StringRuleMap" | "StringRulesMap" => {let k = source(&x["value"], st)?; if let Some(y) = map_get(x, k.as_deref()) {entry(t, y, st)?;}},
        "Repeat" => for _ in 0..x.get("limit").map_or(10, |l| l.as_u64().unwrap()) {
            let old = (st.url.clone(), st.pad.clone());
            rules(&x["rules"], st)?;
            if (&st.url, &st.pad) == (&old.0, &old.1) {break;}
        },
        "SharedCondition" => if condition(&x["condition"], st)? {rules(&x["rules"], st)?},
        "Rules" => rules(x, st)?,
        "Mapper" => mapper(x, st)?,
        "Common" => {let (y, a) = {let (y, a) = call(st, "rules", x, er("StringSourceIsNone"), er("CommonRuleNotFound"))?; (y.clone(), a)}; with_common(st, a, |st| rule(&y, st))?},
        x => panic!("harness/src rule {x}")
    }
    Ok(())
}
fn entry(t: &str, y: &Value, st: &mut St) -> R<()> {match t {"PartMap" | "StringMap" => mapper(y, st), "PartRuleMap" | "StringRuleMap" => rule(y, st), _ => rules(y, st)}}
pub fn rules(v: &Value, st: &mut St) -> R<()> {work(st)?; for r in arr(v) {rule(r, st)?;} Ok(())}
