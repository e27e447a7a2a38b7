//! P04: query parameter edits touch only the selected parameters.
use crate::core::*;
use crate::{gn, refurl};
use crate::{ensure, ensure_eq};
use crate::real::{parse, Env};
use serde_json::{json, Value};
use url_cleaner::types::*;

type Pred = Box<dyn Fn(&str) -> Option<bool>>;
/// A matcher and what it decides, `None` being an error.
fn pred(g: &mut G) -> (Value, Pred) {
    let n = g.of(gn::QNAMES).to_string();
    match g.weighted(&[4, 4, 3, 2, 1, 1, 1, 1]) {
        0 => (json!({"Is": n}), Box::new(move |x| Some(x == n))),
        1 => {let l = g.vec(0, 3, |g| g.of(gn::QNAMES).to_string()); (json!({"IsOneOf": l}), Box::new(move |x| Some(l.iter().any(|y| y == x))))},
        2 => (json!({"Contains": {"value": "utm_", "where": "Start"}}), Box::new(|x| Some(x.starts_with("utm_")))),
        3 => {let (j, p) = pred(g); (json!({"Not": j}), Box::new(move |x| p(x).map(|b| !b)))},
        4 => (json!("Always"), Box::new(|_| Some(true))),
        5 => (json!("Never"), Box::new(|_| Some(false))),
        6 => (json!({"If": {"if": {"Is": n}, "then": {"Error": "e"}, "else": "Always"}}), Box::new(move |x| if x == n {None} else {Some(true)})),
        _ => (json!({"AllCharsMatch": "IsAsciiLowercase"}), Box::new(|x| Some(x.chars().all(|c| c.is_ascii_lowercase()))))
    }
}

fn base(g: &mut G) -> url::Url {
    let t = if g.chance(1, 4) {gn::url_text(g)} else {format!("{}{}{}", g.of(&["https://www.example.com/a/b", "https://h/", "foo:/x", "mailto:x", "http://[::1]:8/"]), if g.chance(9, 10) {format!("?{}", gn::query(g))} else {String::new()}, g.of(&["", "#f", "#a=1&b=2"]))};
    // Read twice: some file URLs (drive letters) only then have the form they keep.
    url::Url::parse(&t).and_then(|u| url::Url::parse(u.as_str())).and_then(|u| url::Url::parse(u.as_str())).ok().filter(|u| url::Url::parse(u.as_str()).as_ref() == Ok(u)).unwrap_or_else(|| url::Url::parse("https://example.com/?a=1&b=2&a=3").unwrap())
}

fn mappers(g: &mut G) -> Res {
    let u = base(g);
    let old = refurl::pairs(&u);
    let raw = refurl::pieces(&u);
    let names = |g: &mut G| g.vec(0, 3, |g| if !old.is_empty() && g.flip() {old[g.usize(old.len())].0.clone()} else {g.of(gn::QNAMES).to_string()});
    // The mapper, and which pairs it keeps.
    let kind = g.weighted(&[1, 4, 4, 4, 3, 3]);
    let (m, keep): (Value, Pred) = match kind {
        0 => (json!("RemoveQuery"), Box::new(|_| Some(false))),
        1 => {let n = names(g).pop().unwrap_or("a".into()); (json!({"RemoveQueryParam": n}), Box::new(move |x| Some(x != n)))},
        2 => {let l = names(g); (json!({"RemoveQueryParams": l}), Box::new(move |x| Some(!l.iter().any(|y| y == x))))},
        3 => {let l = names(g); (json!({"AllowQueryParams": l}), Box::new(move |x| Some(l.iter().any(|y| y == x))))},
        4 => {let (j, p) = pred(g); (json!({"RemoveQueryParamsMatching": j}), Box::new(move |x| p(x).map(|b| !b)))},
        _ => {let (j, p) = pred(g); (json!({"AllowQueryParamsMatching": j}), p)}
    };
    // A set keeps one of each.
    let m = dedup(m);
    g.input(format!("{u} {m}"));
    let mut e = Env::new(&json!({"url": u.as_str()})).expect("harness/src");
    let r = parse::<Mapper>(&m).apply(&mut e.state());
    let (mut want, mut texts) = (Vec::new(), Vec::new());
    for (p, t) in old.iter().zip(&raw) {match keep(&p.0) {
        None => {ensure!(r.is_err(), "error-lost", "{m} on {u}"); ensure_eq!(e.url.as_str(), u.as_str(), "failed-changed", "{m}"); g.label("error"); return Ok(());},
        Some(true) => {want.push(p.clone()); texts.push(t.clone());}, _ => {}
    }}
    ensure!(r.is_ok(), "refused", "{m} on {u}: {r:?}");
    let what = format!("{m} on {u} gave {}", e.url.as_str());
    ensure_eq!(refurl::pairs(&e.url), want, "pairs", "{what}");
    ensure_eq!(refurl::pieces(&e.url), texts, "texts", "{what}");
    let expect_some = u.query().is_some() && !want.is_empty();
    ensure_eq!(e.url.query().is_some(), expect_some, "query-presence", "{what}");
    frame(&u, &e.url, &what)?;
    if want.len() < old.len() && !want.is_empty() {g.nontrivial();}
    if want.len() == old.len() && !old.is_empty() {g.label("nothing removed");}
    Ok(())
}
fn dedup(mut m: Value) -> Value {
    if let Some(o) = m.as_object_mut() {for (_, v) in o.iter_mut() {if let Some(a) = v.as_array_mut() {let mut s = std::collections::HashSet::new(); a.retain(|x| s.insert(x.to_string()));} else if v.is_object() {*v = dedup(v.clone());}}}
    m
}
/// The rest of the URL stays. (An opaque path loses trailing spaces with its query: the URL standard's doing.)
fn frame(u: &url::Url, n: &url::Url, what: &str) -> Res {
    let f = |x: &url::Url| (x[..url::Position::BeforePath].to_string(), x.path().trim_end_matches(' ').to_string(), x.fragment().map(String::from));
    ensure_eq!(f(n), f(u), "frame", "{what}");
    if !u.cannot_be_a_base() {ensure_eq!(n.path(), u.path(), "frame", "{what}");}
    Ok(())
}

/// Histories of reads and writes through selectors, against a list of pairs.
fn selectors(g: &mut G) -> Res {
    let u = base(g);
    let mut b = BetterUrl::from(u.clone());
    let mut ps = refurl::pairs(&u);
    let mut raw = refurl::pieces(&u);
    let mut had = u.query().is_some();
    g.input(u.as_str());
    for _ in 0..1 + g.usize(5) {
        let n = if !ps.is_empty() && g.flip() {ps[g.usize(ps.len())].0.clone()} else {g.of(gn::QNAMES).to_string()};
        let i = g.usize(4);
        let sel: QueryParamSelector = if i == 0 && g.flip() {parse(&json!(n))} else {parse(&json!({"name": n, "index": i}))};
        let part: UrlPart = parse(&json!({"QueryParam": {"name": n, "index": i}}));
        let at: Vec<usize> = ps.iter().enumerate().filter(|x| x.1.0 == n).map(|x| x.0).collect();
        let want = at.get(i).map(|j| ps[*j].1.clone());
        ensure_eq!(part.get(&b).map(|x| x.into_owned()), want, "get", "{n}[{i}] of {}", b.as_str());
        ensure_eq!(sel.get(&b).map(|x| x.into_owned()), want, "get", "selector {n}[{i}] of {}", b.as_str());
        ensure_eq!(sel.get_with_index(&b).map(|x| (x.0, x.1.into_owned())), at.get(i).map(|j| (*j, ps[*j].1.clone())), "get-with-index", "{n}[{i}] of {}", b.as_str());
        ensure_eq!(sel.get_from_iter(ps.iter().map(|(k, v)| (k, v))), want.as_ref(), "get-from-iter", "{n}[{i}]");
        ensure_eq!(sel.get_from_iter_with_index(ps.iter().map(|(k, v)| (k, v))).map(|x| x.0), at.get(i).copied(), "get-from-iter", "{n}[{i}]");
        let v = if g.chance(1, 3) {None} else {Some(if g.flip() {gn::qvalue(g)} else {gn::string(g, 4)})};
        g.input(format!("set {n}[{i}] = {v:?}"));
        let before = b.to_string();
        let r = if g.flip() {part.set(&mut b, v.as_deref()).is_ok()} else {sel.set(&mut b, v.as_deref()).is_ok()};
        let ok = match (&v, at.get(i)) {
            (Some(v), Some(j)) => {ps[*j].1 = v.clone(); raw[*j].1 = refurl::encode_pairs(&ps[*j..*j + 1]); true},
            (Some(v), None) if at.len() == i => {ps.push((n.clone(), v.clone())); raw.push((n.clone(), refurl::encode_pairs(&ps[ps.len() - 1..]))); true},
            (Some(_), None) => false,
            (None, Some(j)) => {ps.remove(*j); raw.remove(*j); true},
            (None, None) => true
        };
        ensure_eq!(r, ok, "verdict", "set {n}[{i}] = {v:?} on {before}");
        if !ok {g.label("refused"); ensure_eq!(b.as_str(), before.as_str(), "failed-changed", "set {n}[{i}]"); continue;}
        ensure_eq!(refurl::pairs(&b), ps, "pairs", "set {n}[{i}] = {v:?} on {before} gave {}", b.as_str());
        ensure_eq!(refurl::pieces(&b), raw, "texts", "set {n}[{i}] = {v:?} on {before} gave {}", b.as_str());
        if v.is_some() || at.get(i).is_some() {ensure_eq!(b.query().is_some(), !ps.is_empty(), "query-presence", "set {n}[{i}] = {v:?} on {before} gave {}", b.as_str());}
        else if !had {ensure!(b.query().is_none(), "query-presence", "set {n}[{i}] = {v:?} on {before} gave {}", b.as_str());}
        had = b.query().is_some();
        frame(&u, &b, "selector set")?;
        if b.as_str() != before && ps.len() > 1 {g.nontrivial();}
    }
    Ok(())
}

/// The filters on arbitrary query-shaped strings: raw pieces between '&', named by their text before '='.
fn strings(g: &mut G) -> Res {
    let s = if g.chance(1, 3) {gn::string(g, 6)} else {gn::query(g)};
    let (j, p) = pred(g);
    let allow = g.flip();
    let m = dedup(json!({(if allow {"AllowQueryParamsMatching"} else {"RemoveQueryParamsMatching"}): j}));
    let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    // On its own, or applied to the fragment.
    g.input(format!("{s:?} {m}"));
    let mut to = s.clone();
    let r = parse::<StringModification>(&m).apply(&mut to, &e.view());
    let mut want = Vec::new();
    for x in s.split('&') {match p(&x[..x.find('=').unwrap_or(x.len())]) {
        None => {ensure!(r.is_err() && to == s, "error-lost", "{m} on {s:?}: {r:?} {to:?}"); return Ok(());},
        Some(b) => if b == allow {want.push(x);}
    }}
    ensure!(r.is_ok(), "refused", "{m} on {s:?}: {r:?}");
    ensure_eq!(to, want.join("&"), "string-filter", "{m} on {s:?}");
    if !want.is_empty() && want.len() < s.split('&').count() {g.nontrivial();}
    Ok(())
}

/// Taking the URL out of a parameter.
fn get_url(g: &mut G) -> Res {
    let inner = gn::url_text(g);
    let n = g.of(gn::QNAMES);
    let enc = refurl::encode_pairs(&[(n.to_string(), inner.clone())]);
    let q = g.vec(0, 2, |g| format!("{}={}", g.of(gn::QNAMES), gn::qvalue(g))).into_iter().chain([enc]).chain(g.vec(0, 1, |g| format!("{}={}", g.of(gn::QNAMES), gn::qvalue(g)))).collect::<Vec<_>>().join("&");
    let u = url::Url::parse(&format!("https://example.com/?{q}")).expect("harness/src");
    let sel = if g.chance(1, 5) {g.of(gn::QNAMES)} else {n};
    g.input(format!("{u} {sel}"));
    let mut e = Env::new(&json!({"url": u.as_str()})).expect("harness/src");
    let r = parse::<Mapper>(&json!({"GetUrlFromQueryParam": sel})).apply(&mut e.state());
    let want = refurl::pairs(&u).into_iter().find(|p| p.0 == sel).and_then(|p| url::Url::parse(&p.1).ok());
    ensure_eq!(r.is_ok(), want.is_some(), "verdict", "GetUrlFromQueryParam {sel} on {u}: {r:?}");
    ensure_eq!(e.url.as_str(), want.as_ref().unwrap_or(&u).as_str(), "get-url", "GetUrlFromQueryParam {sel} on {u}");
    if want.is_some() {g.nontrivial();}
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P04",
        rule: "mappers and strings: some but not all pairs are removed; selectors: a write changed a query of two or more pairs; get-url: a URL was taken",
        assumptions: &["form_urlencoded decodes a query into pairs.", "The string-level filters name a piece by its raw text before the first '='."],
        subs: vec![
            Sub {name: "mappers", quick: 300_000, thorough: 6_000_000, threads: 8, f: mappers},
            Sub {name: "selectors", quick: 150_000, thorough: 4_000_000, threads: 8, f: selectors},
            Sub {name: "strings", quick: 150_000, thorough: 4_000_000, threads: 8, f: strings},
            Sub {name: "get-url", quick: 60_000, thorough: 1_500_000, threads: 8, f: get_url}
        ],
        repro: vec![]
    }
}
