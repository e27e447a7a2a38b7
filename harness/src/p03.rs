//! P03: reading and writing URL parts obey get/set laws with a strict frame.
use crate::core::*;
use crate::{gn, refurl};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use url::Url;
use url_cleaner::types::*;

fn real(p: &Value) -> UrlPart {serde_json::from_str(&p.to_string()).unwrap_or_else(|e| panic!("harness/src {p}: {e}"))}
fn rget(p: &Value, u: &BetterUrl) -> Option<String> {real(p).get(u).map(|x| x.into_owned())}

fn get(g: &mut G) -> Res {
    let u = gn::url(g);
    g.input(u.as_str());
    let b = BetterUrl::from(u.clone());
    for p in gn::PLAIN_PARTS {
        ensure_eq!(rget(&json!(p), &b), refurl::get(&json!(p), &u), "get", "{p} of {u}");
    }
    for p in gn::SEG_PARTS {for i in [-9, -3, -2, -1, 0, 1, 2, 3, 8, gn::index(g)] {
        let p = json!({(*p): i});
        ensure_eq!(rget(&p, &b), refurl::get(&p, &u), "get", "{p} of {u}");
    }}
    // A negative index addresses the same element as its non-negative counterpart.
    for (p, base) in [("PathSegment", "Path"), ("DomainSegment", "Domain"), ("SubdomainSegment", "Subdomain"), ("DomainSuffixSegment", "DomainSuffix")] {
        if let Some(l) = refurl::seg_list(&u, base) {
            if l.len() > 1 {g.nontrivial();}
            for (i, x) in l.iter().enumerate() {
                let n = i as i64 - l.len() as i64;
                ensure_eq!(rget(&json!({p: i}), &b), Some(x.clone()), "get-list", "{p} {i} of {u}");
                ensure_eq!(rget(&json!({p: n}), &b), Some(x.clone()), "neg-index", "{p} {n} of {u}");
            }
            ensure!(rget(&json!({p: l.len()}), &b).is_none() && rget(&json!({p: -(l.len() as i64) - 1}), &b).is_none(), "get-outside", "{p} of {u}");
        }
    }
    let ps = refurl::pairs(&u);
    let mut seen: std::collections::HashMap<&str, usize> = Default::default();
    for (k, v) in &ps {
        let n = seen.entry(k).or_default();
        ensure_eq!(rget(&json!({"QueryParam": {"name": k, "index": *n}}), &b).as_ref(), Some(v), "get-query", "{k} {n} of {u}");
        *n += 1;
    }
    for _ in 0..3 {let p = gn::query_param(g); ensure_eq!(rget(&p, &b), refurl::get(&p, &u), "get", "{p} of {u}");}
    Ok(())
}

fn comps(u: &Url) -> [(&'static str, Option<String>); 8] {
    [("scheme", Some(u.scheme().into())), ("username", Some(u.username().into())), ("password", u.password().map(Into::into)), ("host", u.host_str().map(Into::into)), ("port", u.port().map(|x| x.to_string())), ("path", Some(u.path().into())), ("query", u.query().map(Into::into)), ("fragment", u.fragment().map(Into::into))]
}
/// The components a write to this part may change.
fn owned(name: &str, hostless: bool) -> &'static [&'static str] {
    match name {
        "Whole" => &["scheme", "username", "password", "host", "port", "path", "query", "fragment"],
        "Scheme" => &["scheme", "port"],
        "Username" => &["username"],
        "Password" => &["password"],
        "Port" => &["port"],
        "Query" | "QueryParam" => &["query"],
        "Fragment" => &["fragment"],
        n if n.contains("Path") => &["path"],
        // Without a host there is no authority left to hold the others.
        "Host" | "HostWithoutWWWDotPrefixAndFqdnPeriod" | "Domain" | "DomainSegment" | "BeforeDomainSegment" | "AfterDomainSegment" if hostless => &["host", "username", "password", "port"],
        _ => &["host"]
    }
}

fn set(g: &mut G) -> Res {
    let t = gn::url(g);
    let p = gn::part(g);
    let v = gn::part_value(g, &p);
    g.input(format!("{t} set {p} {v:?}"));
    let v = v.as_deref();
    let mut b = BetterUrl::from(t.clone());
    let r = real(&p).set(&mut b, v).map_err(|_| ());
    let mut m = t.clone();
    let mr = refurl::set(&p, &mut m, v);
    ensure_eq!(r, mr, "verdict", "{t} set {p} {v:?} (now {})", b.as_str());
    ensure_eq!(b.as_str(), m.as_str(), "result", "{t} set {p} {v:?}");
    let name = refurl::split_part(&p).0;
    if r.is_err() {
        g.label("error");
        ensure_eq!(b.as_str(), t.as_str(), "failed-set-changed", "{t} set {p} {v:?}");
        return Ok(());
    }
    if b.as_str() != t.as_str() {g.nontrivial(); g.label(format!("changed {name}"));}
    // The frame. An opaque path loses trailing spaces with the part that follows it, and the file
    // scheme rewrites drive letters and localhost: both are the URL standard's own normalisation.
    if t.cannot_be_a_base() || t.scheme() == "file" || b.scheme() == "file" {return Ok(());}
    for ((n, x), (_, y)) in comps(&t).into_iter().zip(comps(&b)) {
        if owned(name, b.host().is_none()).contains(&n) {
            if name == "Scheme" && n == "port" {ensure!(x == y || y.is_none(), "frame", "{t} set {p} {v:?}: {n} {x:?} -> {y:?}");}
            continue;
        }
        // Without an authority an empty path is written as "/".
        if n == "path" && v.is_none() && b.host().is_none() && x.as_deref() == Some("") && y.as_deref() == Some("/") {continue;}
        ensure_eq!(y, x, "frame", "{t} set {p} {v:?} gave {}: {n}", b.as_str());
    }
    // Removing a part and reading it back.
    if v.is_none() && matches!(name, "Password" | "Port" | "Query" | "Fragment" | "Subdomain" | "FqdnPeriod" | "Host") && name != "Host" {
        let d = refurl::dom(&t);
        if d.is_none_or(|d| !d.has_empty_labels() && (name != "Subdomain" || d.reg_domain().is_some())) {ensure!(rget(&p, &b).is_none(), "get-after-remove", "{t} remove {p} gave {}", b.as_str());}
    }
    Ok(())
}

/// Values that need no normalisation read back as written.
fn roundtrip(g: &mut G) -> Res {
    let d = format!("{}{}.{}", if g.flip() {g.vec(1, 2, gn::word).join(".") + "."} else {String::new()}, g.of(&["example", "zz"]), g.of(&["com", "co.uk"]));
    let path: String = g.vec(1, 4, |g| format!("/{}", g.of(&["a", "b", "c.html", "", "x-y"]))).concat();
    let t = format!("{}://{}{d}{}{path}{}{}", g.of(&["https", "http", "ftp"]), g.of(&["", "u:p@", "u@"]), g.of(&["", ":8080", "."]), g.of(&["", "?a=1&b=2&a=3", "?"]), g.of(&["", "#f", "#"]));
    let mut u = BetterUrl::parse(&t).expect("harness/src");
    let p = loop {let p = gn::part(g); let n = refurl::split_part(&p).0; if !n.starts_with("Before") && !n.starts_with("After") && !n.starts_with("Next") {break p;}};
    let name = refurl::split_part(&p).0;
    let w = |g: &mut G| format!("q{}", gn::word(g));
    let v: String = match name {
        "Whole" => format!("https://{}.org/{}", w(g), w(g)),
        "Scheme" => g.of(&["https", "http", "ftp", "wss"]).into(),
        "Username" | "Password" => w(g),
        "Host" => g.of(&["example.org", "www.a.b.co.uk.", "127.0.0.1", "[::1]", "localhost"]).into(),
        "HostWithoutWWWDotPrefixAndFqdnPeriod" => g.of(&["example.org", "a.b.co.uk", "127.0.0.1"]).into(),
        "Domain" => g.of(&["example.org", "www.a.b.co.uk", "localhost"]).into(),
        "Subdomain" => g.of(&["www", "a.b.c"]).into(),
        "RegDomain" => g.of(&["example.org", "qq.co.uk"]).into(),
        "NotDomainSuffix" => g.of(&["q.example", "qq"]).into(),
        "DomainMiddle" => w(g),
        "DomainSuffix" => g.of(&["org", "co.uk", "net"]).into(),
        "FqdnPeriod" => ".".into(),
        "Port" => g.of(&["1", "8081", "65535", "0"]).into(),
        "Path" => g.of(&["/", "/x/y", "//", "/a//b/", "/%20"]).into(),
        "Query" => g.of(&["x=1", "", "a&&b", "%20=+"]).into(),
        "Fragment" => g.of(&["x", "", "a=1&b=2", "%20"]).into(),
        "QueryParam" => gn::string(g, 3),
        "PathSegment" => g.of(&["x", "", "y.z", "%20", "a=b"]).into(),
        "DomainSegment" => w(g), "SubdomainSegment" => w(g),
        "DomainSuffixSegment" => {return Ok(());}, // Replacing a label of a suffix moves the boundary.
        x => panic!("harness/src {x}")
    };
    g.input(format!("{t} set {p} {v:?}"));
    let addressable = match name {
        "PathSegment" | "SubdomainSegment" | "DomainSegment" => {
            let n = refurl::split_part(&p).1.unwrap().as_i64().unwrap();
            let l = refurl::seg_list(&u, name.trim_end_matches("Segment"));
            l.is_some_and(|l| refurl::idx(n, l.len()).is_some())
        },
        "QueryParam" => {
            let (n, i) = refurl::selector(refurl::split_part(&p).1.unwrap());
            i <= refurl::pairs(&u).iter().filter(|x| x.0 == n).count()
        },
        _ => true
    };
    let r = real(&p).set(&mut u, Some(&v));
    if !addressable {ensure!(r.is_err() && u.as_str() == t, "write-outside", "{t} set {p} {v:?}: {r:?} {}", u.as_str()); return Ok(());}
    ensure!(r.is_ok(), "plain-set-refused", "{t} set {p} {v:?}: {r:?}");
    g.nontrivial();
    g.label(name);
    ensure_eq!(rget(&p, &u), Some(v.clone()), "get-after-set", "{t} set {p} {v:?} gave {}", u.as_str());
    Ok(())
}

/// Writing through a negative index equals writing through the non-negative one.
fn negative(g: &mut G) -> Res {
    let t = gn::url(g);
    let name = g.of(gn::SEG_PARTS);
    let base = if name.contains("Path") {"Path"} else if name.contains("Subdomain") {"Subdomain"} else if name.contains("Suffix") {"DomainSuffix"} else {"Domain"};
    let Some(l) = refurl::seg_list(&t, base) else {return Ok(());};
    let i = g.usize(l.len()) as i64;
    let (p, n) = (json!({name: i}), json!({name: i - l.len() as i64}));
    let v = gn::part_value(g, &p);
    g.input(format!("{t} set {p} or {n} {v:?}"));
    let (mut a, mut b) = (BetterUrl::from(t.clone()), BetterUrl::from(t.clone()));
    let ra = real(&p).set(&mut a, v.as_deref()).is_ok();
    let rb = real(&n).set(&mut b, v.as_deref()).is_ok();
    if l.len() > 1 && a.as_str() != t.as_str() {g.nontrivial();}
    ensure_eq!((ra, a.as_str()), (rb, b.as_str()), "neg-index", "{t} set {p} or {n} {v:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P03",
        rule: "get: some list of segments has two or more elements; set and negative: the URL changed; roundtrip: the part is addressable",
        assumptions: &["The url crate's parser and setters are the URL standard.", "Opaque paths and file URLs are excluded from the component frame (not from the model comparison), because the standard's own normalisation reaches across components there."],
        subs: vec![
            Sub {name: "get", quick: 60_000, thorough: 1_500_000, threads: 8, f: get},
            Sub {name: "set", quick: 400_000, thorough: 8_000_000, threads: 8, f: set},
            Sub {name: "roundtrip", quick: 150_000, thorough: 3_000_000, threads: 8, f: roundtrip},
            Sub {name: "negative", quick: 100_000, thorough: 2_000_000, threads: 8, f: negative}
        ],
        repro: vec![]
    }
}
