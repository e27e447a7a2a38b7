//! P05: path and domain segment edits behave like edits of a list of segments.
use crate::core::*;
use crate::gn;
use crate::{ensure, ensure_eq};
use serde_json::json;
use url_cleaner::types::*;

fn real(p: &serde_json::Value) -> UrlPart {serde_json::from_str(&p.to_string()).unwrap_or_else(|e| panic!("harness/src {p}: {e}"))}

/// A write, on the list itself. `None`: the edit is refused.
fn edit(l: &[String], rel: i8, n: i64, to: Option<&str>) -> Option<Vec<String>> {
    let at = if n >= 0 {(n as usize) < l.len()} else {n.checked_neg().is_some_and(|m| m as u64 <= l.len() as u64)};
    let mut v = l.to_vec();
    if !at {return if to.is_some() {None} else {Some(v)};}
    let i = if n >= 0 {n as usize} else {(l.len() as i64 + n) as usize};
    match (rel, to) {
        (0, None) => {v.remove(i);},
        (0, Some(x)) => v[i] = x.into(),
        (-1, Some(x)) => v.insert(i, x.into()),
        (1, Some(x)) => v.insert(i + 1, x.into()),
        _ => {}
    }
    Some(v)
}

fn paths(g: &mut G) -> Res {
    const VALS: &[&str] = &["x", "y", "", "a=b", "%20", "c.html", "x-y"];
    let mut l: Vec<String> = g.vec(1, 6, |g| g.of(&["a", "b", "", "c", "%41", "d"]).into());
    let (pre, post) = (g.of(&["https://www.example.com", "https://127.0.0.1", "foo://h", "http://u:p@[::1]:81"]), g.of(&["", "?a=1&b", "#f", "?#"]));
    let url = |l: &[String]| format!("{pre}/{}{post}", l.join("/"));
    let mut u = BetterUrl::parse(&url(&l)).expect("harness/src");
    g.input(u.as_str());
    for _ in 0..1 + g.usize(6) {
        let n = gn::index(g);
        let v = if g.chance(1, 3) {None} else {Some(g.of(VALS))};
        let (name, rel) = g.of(&[("PathSegment", 0i8), ("BeforePathSegment", -1), ("AfterPathSegment", 1), ("NextPathSegment", 2)]);
        let before = u.to_string();
        if rel == 2 {
            // The next segment takes the place of a trailing empty one.
            // This one percent-encodes its value, '%' included.
            let v = v.map(|x| if x.contains('%') {"x"} else {x});
            g.input(format!("NextPathSegment {v:?}"));
            let dbl = l == ["", ""];
            let r = real(&json!(name)).set(&mut u, v);
            ensure!(r.is_ok(), "next-refused", "{before} set next {v:?}: {r:?}");
            if let Some(x) = v {if l.last().is_some_and(|x| x.is_empty()) {l.pop();} l.push(x.into());}
            ensure_eq!(u.as_str(), url(&l).as_str(), if dbl {"next-segment-after-double-slash"} else {"next"}, "{before} set next {v:?}");
        } else {
            let p = json!({name: n});
            g.input(format!("{p} {v:?}"));
            let want = edit(&l, rel, n, v);
            let r = real(&p).set(&mut u, v);
            match want {
                None => {ensure!(r.is_err(), "outside-accepted", "{before} set {p} {v:?} gave {}", u.as_str()); ensure_eq!(u.as_str(), before.as_str(), "failed-changed", "set {p} {v:?}"); g.label("refused");},
                Some(w) => {
                    ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}");
                    l = w;
                    // A path is never without a segment.
                    if l.is_empty() {l.push(String::new());}
                    if u.as_str() != before {g.nontrivial();}
                    ensure_eq!(u.as_str(), url(&l).as_str(), "list-edit", "{before} set {p} {v:?}");
                }
            }
        }
        read(&u, "PathSegment", &l)?;
    }
    if l.iter().any(|x| x.is_empty()) {g.label("empty segments");}
    Ok(())
}

fn read(u: &BetterUrl, name: &str, l: &[String]) -> Res {
    let n = l.len() as i64;
    for i in -n - 2..n + 2 {
        let want = if (-n..n).contains(&i) {Some(l[((i + n) % n) as usize].as_str())} else {None};
        ensure_eq!(real(&json!({name: i})).get(u).as_deref(), want, "read", "{name} {i} of {}", u.as_str());
    }
    for e in [i64::MIN, i64::MAX] {ensure!(real(&json!({name: e})).get(u).is_none(), "read-extreme", "{name} {e} of {}", u.as_str());}
    Ok(())
}

/// Plain labels below a plain suffix, so that the boundaries stay where they are.
fn domains(g: &mut G) -> Res {
    let (suf, reg) = (g.of(&["com", "co.uk", "org"]), "zz");
    let mut sub: Vec<String> = g.vec(1, 4, gn::word);
    let per = g.of(&["", "."]);
    let post = g.of(&["/a?b#c", "/", ":8080/"]);
    let dom = |sub: &[String]| {let mut v = sub.to_vec(); v.push(reg.into()); v.extend(suf.split('.').map(Into::into)); v};
    let url = |d: &[String]| format!("https://{}{per}{post}", d.join("."));
    let mut u = BetterUrl::parse(&url(&dom(&sub))).expect("harness/src");
    g.input(u.as_str());
    for _ in 0..1 + g.usize(5) {
        let n = gn::index(g);
        let v = if g.chance(1, 3) {None} else {Some(format!("q{}", gn::word(g)))};
        let (name, rel, next) = g.of(&[("SubdomainSegment", 0i8, false), ("BeforeSubdomainSegment", -1, false), ("AfterSubdomainSegment", 1, false), ("NextSubdomainSegment", 1, true),
            ("DomainSegment", 0, false), ("BeforeDomainSegment", -1, false), ("AfterDomainSegment", 1, false)]);
        let n = if next {-1} else {n};
        let p = if next {json!(name)} else {json!({name: n})};
        let before = u.to_string();
        g.input(format!("{p} {v:?}"));
        let r;
        if name.contains("Subdomain") {
            if sub.is_empty() {
                r = real(&p).set(&mut u, v.as_deref());
                ensure!(r.is_err() && u.as_str() == before, "no-subdomain", "{before} set {p} {v:?}: {r:?}");
                continue;
            }
            let want = edit(&sub, rel, n, v.as_deref());
            r = real(&p).set(&mut u, v.as_deref());
            match want {
                None => {ensure!(r.is_err() && u.as_str() == before, "outside-accepted", "{before} set {p} {v:?} gave {}", u.as_str()); g.label("refused"); continue;},
                Some(w) => {ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}"); sub = w;}
            }
            ensure_eq!(u.as_str(), url(&dom(&sub)).as_str(), "list-edit", "{before} set {p} {v:?}");
        } else {
            let full = dom(&sub);
            // Only edits left of the registrable domain keep the boundaries.
            let pos = if n >= 0 {n} else {n.saturating_add(full.len() as i64)};
            let safe = pos < sub.len() as i64 + (rel < 0) as i64;
            let want = edit(&full, rel, n, v.as_deref());
            if want.is_some() && !safe && (0..full.len() as i64).contains(&pos) {
                // The list law still holds for the text of the host.
                let mut c = BetterUrl::parse(&before).expect("harness/src");
                r = real(&p).set(&mut c, v.as_deref());
                let want = want.unwrap();
                ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}");
                ensure_eq!(c.as_str(), url(&want).as_str(), "list-edit", "{before} set {p} {v:?}");
                continue;
            }
            r = real(&p).set(&mut u, v.as_deref());
            match want {
                None => {ensure!(r.is_err() && u.as_str() == before, "outside-accepted", "{before} set {p} {v:?} gave {}", u.as_str()); g.label("refused"); continue;},
                Some(w) => {
                    ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}");
                    ensure_eq!(u.as_str(), url(&w).as_str(), "list-edit", "{before} set {p} {v:?}");
                    sub = w[..w.len() - 1 - suf.split('.').count()].to_vec();
                }
            }
        }
        if u.as_str() != before {g.nontrivial();}
        let full = dom(&sub);
        read(&u, "DomainSegment", &full)?;
        read(&u, "DomainSuffixSegment", &suf.split('.').map(String::from).collect::<Vec<_>>())?;
        if sub.is_empty() {ensure!(real(&json!({"SubdomainSegment": 0})).get(&u).is_none(), "read", "{}", u.as_str());} else {read(&u, "SubdomainSegment", &sub)?;}
    }
    Ok(())
}

/// Suffix edits, checked on the text of the host alone.
fn suffixes(g: &mut G) -> Res {
    let suf: Vec<String> = g.of(&["com", "co.uk", "city.kawasaki.jp", "github.io"]).split('.').map(Into::into).collect();
    let pre = g.of(&["zz", "www.zz"]);
    let per = g.of(&["", "."]);
    let url = |l: &[String]| format!("https://{pre}.{}{per}/p", l.join("."));
    let mut u = BetterUrl::parse(&url(&suf)).expect("harness/src");
    // An exception rule of the list makes the suffix shorter than written.
    let cur: Vec<String> = u.domain_suffix().unwrap_or("").split('.').map(Into::into).collect();
    if cur != suf {return Ok(());}
    let n = gn::index(g);
    let v = if g.chance(1, 3) {None} else {Some(format!("q{}", gn::word(g)))};
    let (name, rel, next) = g.of(&[("DomainSuffixSegment", 0i8, false), ("BeforeDomainSuffixSegment", -1, false), ("AfterDomainSuffixSegment", 1, false), ("NextDomainSuffixSegment", 1, true)]);
    let n = if next {-1} else {n};
    let p = if next {json!(name)} else {json!({name: n})};
    let before = u.to_string();
    g.input(format!("{before} {p} {v:?}"));
    let want = edit(&suf, rel, n, v.as_deref());
    let r = real(&p).set(&mut u, v.as_deref());
    match want {
        None => ensure!(r.is_err() && u.as_str() == before, "outside-accepted", "{before} set {p} {v:?} gave {}", u.as_str()),
        Some(w) if w.is_empty() => {ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}"); ensure_eq!(u.as_str(), format!("https://{pre}{per}/p").as_str(), "list-edit", "{before} set {p} {v:?}");},
        Some(w) => {ensure!(r.is_ok(), "inside-refused", "{before} set {p} {v:?}: {r:?}"); ensure_eq!(u.as_str(), url(&w).as_str(), "list-edit", "{before} set {p} {v:?}");}
    }
    if u.as_str() != before {g.nontrivial();}
    Ok(())
}

fn finding() -> Res {
    let mut u = BetterUrl::parse("https://example.com//").expect("harness/src");
    let _ = UrlPart::NextPathSegment.set(&mut u, Some("x"));
    ensure_eq!(u.as_str(), "https://example.com//x", "next-segment-after-double-slash", "set next x");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P05",
        rule: "at least one edit changed the URL",
        assumptions: &["Values are segments the URL standard keeps as written (no '/', '?', '#', dot segments), so the list of segments is the path's text split at '/'.", "Removing the last path segment of a URL that must have a path leaves one empty segment."],
        subs: vec![
            Sub {name: "paths", quick: 300_000, thorough: 6_000_000, threads: 8, f: paths},
            Sub {name: "domains", quick: 150_000, thorough: 3_000_000, threads: 8, f: domains},
            Sub {name: "suffixes", quick: 50_000, thorough: 1_000_000, threads: 8, f: suffixes}
        ],
        repro: vec![("next-segment-after-double-slash", finding)]
    }
}
