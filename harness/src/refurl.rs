//! Reference model of URLs, domains and URL parts. Built on the `url` crate (the URL standard) and an
//! independent implementation of the public suffix algorithm over the list's rule file. Parts are named
//! by the JSON a config would use.

use std::collections::HashSet;
use std::sync::LazyLock;
use serde_json::Value;
use url::{Host, Url};

pub struct Rules {exact: HashSet<String>, wild: HashSet<String>, exc: HashSet<String>, inner: HashSet<String>}
pub static RULES: LazyLock<Rules> = LazyLock::new(|| {
    let mut r = Rules {exact: HashSet::new(), wild: HashSet::new(), exc: HashSet::new(), inner: HashSet::new()};
    for l in include_str!("../data/psl_rules.txt").lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") {continue;}
        let ascii = |x: &str| match Host::parse(x) {Ok(Host::Domain(d)) => d, _ => x.to_string()};
        if let Some(x) = l.strip_prefix('!') {r.exc.insert(ascii(x));}
        else if let Some(x) = l.strip_prefix("*.") {r.wild.insert(ascii(x));}
        else {r.exact.insert(ascii(l));}
        let mut x = ascii(l.trim_start_matches('!').trim_start_matches("*."));
        if l.starts_with("*.") {r.inner.insert(x.clone());}
        while let Some((_, y)) = x.split_once('.') {x = y.to_string(); r.inner.insert(x.clone());}
    }
    r
});
/// All rules as written, for generators.
pub static RULE_LINES: LazyLock<Vec<&'static str>> = LazyLock::new(|| include_str!("../data/psl_rules.txt").lines().filter(|l| !l.trim().is_empty()).collect());

/// Number of labels of the public suffix of `labels` (no empty labels).
pub fn suffix_labels(labels: &[&str]) -> usize {
    let n = labels.len();
    let mut best = 1;
    for k in 1..=n {
        let cand = labels[n - k..].join(".");
        if RULES.exc.contains(&cand) {return k - 1;}
        if RULES.exact.contains(&cand) {best = best.max(k);}
        if k < n && RULES.wild.contains(&cand) {
            // The psl crate forgets a wildcard for a label that has longer rules below it; see P02's finding.
            if !RULES.inner.contains(&format!("{}.{cand}", labels[n - k - 1])) {best = best.max(k + 1);}
        }
    }
    best
}

/// The parts of a domain host.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Dom {pub host: String, pub fqdn: bool, pub middle_start: Option<usize>, pub suffix_start: Option<usize>}
impl Dom {
    pub fn new(host: &str) -> Self {
        let fqdn = host.ends_with('.');
        let bare = if fqdn {&host[..host.len() - 1]} else {host};
        let labels: Vec<&str> = bare.split('.').collect();
        let (middle_start, suffix_start) = if labels.iter().any(|x| x.is_empty()) {
            // The list does not define anything for empty labels; the psl crate's answer is taken as is.
            let b = host.as_bytes();
            let su = psl::suffix(b).map(|s| host.len() - s.as_bytes().len());
            let md = psl::domain(b).map(|s| host.len() - s.as_bytes().len());
            (md, su)
        } else {
            let k = suffix_labels(&labels);
            let start = |k: usize| labels[..labels.len() - k].iter().map(|x| x.len() + 1).sum::<usize>();
            ((k < labels.len()).then(|| start(k + 1)), Some(start(k)))
        };
        Dom {host: host.into(), fqdn, middle_start, suffix_start}
    }
    pub fn has_empty_labels(&self) -> bool {self.bare().split('.').any(|x| x.is_empty())}
    pub fn bare(&self) -> &str {if self.fqdn {&self.host[..self.host.len() - 1]} else {&self.host}}
    pub fn domain(&self) -> &str {self.bare()}
    pub fn subdomain(&self) -> Option<&str> {self.middle_start.filter(|x| *x > 0).map(|x| &self.host[..x - 1])}
    pub fn reg_domain(&self) -> Option<&str> {self.bare().get(self.middle_start?..)}
    pub fn not_suffix(&self) -> Option<&str> {self.suffix_start.filter(|x| *x > 0).map(|x| &self.host[..x - 1])}
    pub fn middle(&self) -> Option<&str> {self.host.get(self.middle_start?..self.suffix_start?.checked_sub(1)?)}
    pub fn suffix(&self) -> Option<&str> {self.bare().get(self.suffix_start?..)}
}

pub fn dom(u: &Url) -> Option<Dom> {match u.host() {Some(Host::Domain(d)) => Some(Dom::new(d)), _ => None}}

pub type Set = Result<(), ()>;
fn e<T, E>(x: Result<T, E>) -> Result<T, ()> {x.map_err(|_| ())}

/// What the URL standard's serializer writes for a URL without an authority.
fn no_authority(scheme: &str, path: &str, query: Option<&str>, fragment: Option<&str>) -> Result<Url, ()> {
    let mut s = format!("{scheme}:");
    if path.starts_with("//") {s.push_str("/.");}
    s.push_str(if path.is_empty() {"/"} else {path});
    if let Some(q) = query {s.push('?'); s.push_str(q);}
    if let Some(f) = fragment {s.push('#'); s.push_str(f);}
    e(Url::parse(&s))
}
/// Sets the host. The result is what the URL standard's serialization denotes: the `url` crate's own setter
/// keeps the kind of a removed host and can leave a serialization that reads back as another URL.
pub fn set_host(u: &mut Url, h: Option<&str>) -> Set {
    let mut n = u.clone();
    match h {
        None if n.scheme() == "file" || !n.has_host() => {e(n.set_host(None))?; n = e(Url::parse(n.as_str()))?;},
        None => {
            if n.is_special() {return Err(());}
            n = no_authority(u.scheme(), u.path(), u.query(), u.fragment())?;
        },
        Some(_) => {e(n.set_host(h))?; n = e(Url::parse(n.as_str()))?;}
    }
    *u = n;
    Ok(())
}
pub fn set_path(u: &mut Url, to: &str) {
    let hostless = !u.as_str()[u.scheme().len()..].starts_with("://") && !u.cannot_be_a_base();
    u.set_path(to);
    if hostless && !u.cannot_be_a_base() && let Ok(n) = no_authority(u.scheme(), u.path(), u.query(), u.fragment()) {*u = n;}
}
/// Sets the host to a domain.
pub fn set_domain_host(u: &mut Url, h: &str) -> Set {
    if !matches!(Host::parse(h), Ok(Host::Domain(_))) {return Err(());}
    set_host(u, Some(h))
}
fn set_fqdn(u: &mut Url, to: bool) -> Set {
    let d = dom(u).ok_or(())?;
    match (d.fqdn, to) {
        (false, true) => set_host(u, Some(&format!("{}.", d.host))),
        (true, false) => set_host(u, Some(d.bare())),
        _ => Ok(())
    }
}

pub fn idx(i: i64, len: usize) -> Option<usize> {
    let j = if i < 0 {len as i128 + i as i128} else {i as i128};
    (0 <= j && j < len as i128).then_some(j as usize)
}
/// An index that may also be the length.
pub fn bound(i: i64, len: usize) -> Option<usize> {if i >= 0 && i as u64 == len as u64 {Some(len)} else {idx(i, len)}}
pub fn neg_range(start: i64, end: Option<i64>, len: usize) -> Option<std::ops::Range<usize>> {
    let s = bound(start, len)?;
    let e = match end {Some(x) => bound(x, len)?, None => len};
    (s <= e).then_some(s..e)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Rel {Before, At, After}
/// The documented list edit.
pub fn edit_list(list: &[String], n: i64, rel: Rel, to: Option<&str>) -> Result<Vec<String>, ()> {
    let mut v = list.to_vec();
    match (idx(n, v.len()), to) {
        (None, Some(_)) => return Err(()),
        (None, None) => {},
        (Some(i), None) => if rel == Rel::At {v.remove(i);},
        (Some(i), Some(x)) => match rel {Rel::Before => v.insert(i, x.into()), Rel::At => v[i] = x.into(), Rel::After => v.insert(i + 1, x.into())}
    }
    Ok(v)
}

pub fn path_segments(u: &Url) -> Option<Vec<String>> {Some(u.path().strip_prefix('/').filter(|_| !u.cannot_be_a_base())?.split('/').map(Into::into).collect())}

/// Splits a part's JSON into its name and argument.
pub fn split_part(p: &Value) -> (&str, Option<&Value>) {
    match p {Value::String(s) => (s, None), Value::Object(o) => {let (k, v) = o.iter().next().unwrap(); (k, Some(v))}, _ => unreachable!()}
}
pub fn selector(v: &Value) -> (String, usize) {
    match v {Value::String(s) => (s.clone(), 0), v => (v["name"].as_str().unwrap().into(), v.get("index").and_then(|x| x.as_u64()).unwrap_or(0) as usize)}
}
fn seg_kind(name: &str) -> Option<(Rel, bool, &'static str)> {
    Some(match name {
        "DomainSegment" => (Rel::At, false, "Domain"), "BeforeDomainSegment" => (Rel::Before, false, "Domain"), "AfterDomainSegment" => (Rel::After, false, "Domain"), "NextDomainSegment" => (Rel::After, true, "Domain"),
        "SubdomainSegment" => (Rel::At, false, "Subdomain"), "BeforeSubdomainSegment" => (Rel::Before, false, "Subdomain"), "AfterSubdomainSegment" => (Rel::After, false, "Subdomain"), "NextSubdomainSegment" => (Rel::After, true, "Subdomain"),
        "DomainSuffixSegment" => (Rel::At, false, "DomainSuffix"), "BeforeDomainSuffixSegment" => (Rel::Before, false, "DomainSuffix"), "AfterDomainSuffixSegment" => (Rel::After, false, "DomainSuffix"), "NextDomainSuffixSegment" => (Rel::After, true, "DomainSuffix"),
        "PathSegment" => (Rel::At, false, "Path"), "BeforePathSegment" => (Rel::Before, false, "Path"), "AfterPathSegment" => (Rel::After, false, "Path"),
        _ => return None
    })
}
/// The list of segments a segment part addresses.
pub fn seg_list(u: &Url, base: &str) -> Option<Vec<String>> {
    let sp = |x: &str| x.split('.').map(Into::into).collect::<Vec<String>>();
    match base {
        "Path" => path_segments(u),
        "Domain" => dom(u).map(|d| sp(d.domain())),
        "Subdomain" => dom(u).and_then(|d| d.subdomain().map(sp)),
        _ => dom(u).and_then(|d| d.suffix().map(sp))
    }
}

pub fn pairs(u: &Url) -> Vec<(String, String)> {u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect()}
/// Each parameter's decoded name and its text as written. Nothing between two '&' is no parameter.
pub fn pieces(u: &Url) -> Vec<(String, String)> {u.query().unwrap_or("").split('&').filter(|p| !p.is_empty()).map(|p| (decode_pairs(p).swap_remove(0).0, p.to_string())).collect()}
pub fn set_pieces(u: &mut Url, ps: &[(String, String)]) {u.set_query(if ps.is_empty() {None} else {Some(ps.iter().map(|p| &*p.1).collect::<Vec<_>>().join("&"))}.as_deref())}
pub fn decode_pairs(q: &str) -> Vec<(String, String)> {form_urlencoded::parse(q.as_bytes()).map(|(a, b)| (a.into_owned(), b.into_owned())).collect()}
pub fn encode_pairs(p: &[(String, String)]) -> String {form_urlencoded::Serializer::new(String::new()).extend_pairs(p).finish()}

pub fn get(p: &Value, u: &Url) -> Option<String> {
    let (name, arg) = split_part(p);
    let n = || arg.unwrap().as_i64().unwrap();
    if let Some((rel, next, base)) = seg_kind(name) {
        if rel != Rel::At || next {return None;}
        let l = seg_list(u, base)?;
        return idx(n(), l.len()).map(|i| l[i].clone());
    }
    let d = || dom(u);
    match name {
        "Whole" => Some(u.as_str().into()),
        "Scheme" => Some(u.scheme().into()),
        "Username" => Some(u.username().into()),
        "Password" => u.password().map(Into::into),
        "Host" => u.host_str().map(Into::into),
        "HostWithoutWWWDotPrefixAndFqdnPeriod" => u.host_str().map(|h| {let h = h.strip_prefix("www.").unwrap_or(h); h.strip_suffix('.').unwrap_or(h).into()}),
        "Domain" => d().map(|d| d.domain().into()),
        "Subdomain" => d()?.subdomain().map(Into::into),
        "RegDomain" => d()?.reg_domain().map(Into::into),
        "NotDomainSuffix" => d()?.not_suffix().map(Into::into),
        "DomainMiddle" => d()?.middle().map(Into::into),
        "DomainSuffix" => d()?.suffix().map(Into::into),
        "FqdnPeriod" => d()?.fqdn.then(|| ".".into()),
        "Port" => u.port().map(|p| p.to_string()),
        "Path" => Some(u.path().into()),
        "NextPathSegment" => None,
        "Query" => u.query().map(Into::into),
        "QueryParam" => {let (name, i) = selector(arg.unwrap()); pairs(u).into_iter().filter(|(k, _)| *k == name).nth(i).map(|x| x.1)},
        "Fragment" => u.fragment().map(Into::into),
        _ => panic!("part {name}")
    }
}

/// Sets a part; on an error the URL is unchanged.
pub fn set(p: &Value, u: &mut Url, to: Option<&str>) -> Set {
    let mut n = u.clone();
    set_inner(p, &mut n, to)?;
    *u = n;
    Ok(())
}

fn set_inner(p: &Value, u: &mut Url, to: Option<&str>) -> Set {
    let (name, arg) = split_part(p);
    if let Some((rel, next, base)) = seg_kind(name) {
        let i = if next {-1} else {arg.unwrap().as_i64().unwrap()};
        let l = edit_list(&seg_list(u, base).ok_or(())?, i, rel, to)?;
        if base == "Path" {set_path(u, &format!("/{}", l.join("/"))); return Ok(());}
        let j = l.join(".");
        return set_inner(&Value::String(base.into()), u, if j.is_empty() {None} else {Some(&j)});
    }
    let join = |xs: &[Option<&str>], fqdn: bool| {let mut s = xs.iter().flatten().copied().collect::<Vec<_>>().join("."); if fqdn {s.push('.');} s};
    match name {
        "Whole" => *u = e(Url::parse(to.ok_or(())?))?,
        "Scheme" => u.set_scheme(to.ok_or(())?)?,
        "Username" => u.set_username(to.ok_or(())?)?,
        "Password" => u.set_password(to)?,
        "Host" => set_host(u, to)?,
        "HostWithoutWWWDotPrefixAndFqdnPeriod" => set_host(u, to.map(|h| {let h = h.strip_prefix("www.").unwrap_or(h); h.strip_suffix('.').unwrap_or(h)}))?,
        "Domain" => match to {
            None => set_host(u, None)?,
            Some(t) => {let f = dom(u).is_some_and(|d| d.fqdn); set_domain_host(u, &join(&[Some(t)], f))?}
        },
        "Subdomain" => {let d = dom(u).ok_or(())?; if to.is_some() && d.reg_domain().is_none() {return Err(());} set_domain_host(u, &join(&[to, d.reg_domain()], d.fqdn))?},
        "NotDomainSuffix" => {let d = dom(u).ok_or(())?; if to.is_some() && d.suffix().is_none() {return Err(());} set_domain_host(u, &join(&[to, d.suffix()], d.fqdn))?},
        "DomainMiddle" => {let d = dom(u).ok_or(())?; if to.is_some() && d.suffix().is_none() {return Err(());} set_domain_host(u, &join(&[d.subdomain(), to, d.suffix()], d.fqdn))?},
        "RegDomain" => {let d = dom(u).ok_or(())?; set_domain_host(u, &join(&[d.subdomain(), to], d.fqdn))?},
        "DomainSuffix" => {let d = dom(u).ok_or(())?; set_domain_host(u, &join(&[d.not_suffix(), to], d.fqdn))?},
        "FqdnPeriod" => match to {None => set_fqdn(u, false)?, Some(".") => set_fqdn(u, true)?, _ => return Err(())},
        "Port" => {let p = match to {None => None, Some(x) => Some(e(x.parse::<u16>())?)}; u.set_port(p)?},
        "Path" => set_path(u, to.ok_or(())?),
        "NextPathSegment" => if let Some(t) = to {u.path_segments_mut()?.pop_if_empty().push(t);},
        "Query" => u.set_query(to),
        "QueryParam" => {
            let (name, i) = selector(arg.unwrap());
            let mut ps = pieces(u);
            let at: Vec<usize> = ps.iter().enumerate().filter(|(_, (k, _))| *k == name).map(|x| x.0).collect();
            match (at.get(i), to) {
                (Some(j), Some(t)) => ps[*j].1 = encode_pairs(&[(name, t.into())]),
                (Some(j), None) => {ps.remove(*j);},
                (None, Some(t)) => if at.len() == i {ps.push((name.clone(), encode_pairs(&[(name, t.into())])));} else {return Err(());},
                (None, None) => {}
            }
            set_pieces(u, &ps);
        },
        "Fragment" => u.set_fragment(to),
        _ => panic!("part {name}")
    }
    Ok(())
}
