//! P02: domains decompose and recompose according to the public suffix list.
use crate::core::*;
use crate::{gn, refurl};
use crate::{ensure, ensure_eq};
use refurl::{Dom, RULE_LINES};
use serde_json::json;
use url::Host;
use url_cleaner::types::*;

const PARTS: &[&str] = &["Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod"];

fn check(u: &BetterUrl) -> Res {
    let s = u.as_str();
    let got = (u.domain(), u.subdomain(), u.reg_domain(), u.not_domain_suffix(), u.domain_middle(), u.domain_suffix(), u.fqdn_period());
    let Some(Host::Domain(h)) = u.host() else {
        ensure_eq!(got, (None, None, None, None, None, None, None), "parts-of-non-domain", "{s}");
        for p in PARTS {let part: UrlPart = serde_json::from_value(json!(p)).expect("harness/src"); ensure!(part.get(u).is_none(), "parts-of-non-domain", "{p} of {s}: {:?}", part.get(u));}
        return Ok(());
    };
    let d = Dom::new(h);
    ensure_eq!(got, (Some(d.domain()), d.subdomain(), d.reg_domain(), d.not_suffix(), d.middle(), d.suffix(), d.fqdn.then_some(".")), "parts", "{s}");
    for p in PARTS {
        let part: UrlPart = serde_json::from_value(json!(p)).expect("harness/src");
        ensure_eq!(part.get(u).map(|x| x.into_owned()), refurl::get(&json!(p), u), "url-part", "{p} of {s}");
    }
    // They concatenate back to the host (laws on the readers alone).
    let join = |x: Option<&str>, y: Option<&str>| match (x, y) {(Some(x), Some(y)) => Some(format!("{x}.{y}")), (x, y) => x.or(y).map(Into::into)};
    let per = u.fqdn_period().unwrap_or("");
    if !d.has_empty_labels() {
        ensure_eq!(format!("{}{per}", u.domain().unwrap()), h, "concat", "domain + period of {s}");
        ensure_eq!(join(u.not_domain_suffix(), u.domain_suffix()).as_deref(), u.domain(), "concat", "not suffix + suffix of {s}");
        if u.reg_domain().is_some() {
            ensure_eq!(join(u.domain_middle(), u.domain_suffix()).as_deref(), u.reg_domain(), "concat", "middle + suffix of {s}");
            ensure_eq!(join(u.subdomain(), u.reg_domain()).as_deref(), u.domain(), "concat", "subdomain + reg domain of {s}");
            ensure!(!u.domain_middle().unwrap_or("").contains('.'), "middle-one-label", "{s}: {:?}", u.domain_middle());
        } else {
            ensure_eq!(u.domain(), u.domain_suffix(), "bare-suffix", "{s}");
            ensure!(u.subdomain().is_none() && u.domain_middle().is_none() && u.not_domain_suffix().is_none(), "bare-suffix", "{s}");
        }
    }
    // The host of a scheme the URL standard does not know may read as another kind of host elsewhere.
    if !u.is_special() {return Ok(());}
    ensure_eq!(u.domain_details(), DomainDetails::from_domain_str(h).ok(), "from-domain-str", "{s}");
    ensure_eq!(u.host_details(), HostDetails::from_host_str(h).ok(), "from-host-str", "{s}");
    Ok(())
}

fn decompose(g: &mut G) -> Res {
    let h = gn::host(g);
    let t = format!("https://{h}{}", gn::path(g));
    g.input(&*t);
    let Ok(u) = BetterUrl::parse(&t) else {g.label("does not parse"); return Ok(());};
    if let Some(d) = refurl::dom(&u) {
        if d.suffix().is_some_and(|s| s.contains('.')) || d.fqdn || d.middle_start.is_none() {g.nontrivial();}
        if d.fqdn {g.label("fqdn");}
        if d.subdomain().is_some() {g.label("subdomain");}
    } else {g.label("not a domain");}
    check(&u)
}

/// Every rule of the public suffix list, alone and below one to three labels, with and without the period.
fn rules(g: &mut G) -> Res {
    let line = RULE_LINES[g.usize(RULE_LINES.len())];
    g.case_rule(line)
}
impl G {
    fn case_rule(&mut self, line: &str) -> Res {
        self.nontrivial();
        let base = line.trim_start_matches('!').replacen("*.", "wild.", 1);
        self.input(line);
        for pre in ["", "a.", "www.a.", "x.www.a."] {for post in ["", "."] {
            let t = format!("https://{pre}{base}{post}/");
            if let Ok(u) = BetterUrl::parse(&t) {check(&u)?;}
        }}
        Ok(())
    }
}

fn set(g: &mut G) -> Res {
    let mut t = url::Url::parse("https://user:pw@www.example.co.uk:8080/a//b?x=1&y=%20#f").unwrap();
    if g.chance(1, 5) {t = gn::url(g);}
    else {let h = gn::host(g); let _ = t.set_host(Some(&h)); if g.flip() {let _ = t.set_username(""); let _ = t.set_password(None); let _ = t.set_port(None);}}
    let p = g.of(PARTS);
    let v = gn::part_value(g, &json!(p));
    g.input(format!("{t} set {p} {v:?}"));
    let mut real = BetterUrl::from(t.clone());
    let mut model = t.clone();
    let v = v.as_deref();
    let rr = match (p, g.flip()) {
        ("Domain", true) => real.set_domain(v).map_err(|_| ()),
        ("Subdomain", true) => real.set_subdomain(v).map_err(|_| ()),
        ("RegDomain", true) => real.set_reg_domain(v).map_err(|_| ()),
        ("NotDomainSuffix", true) => real.set_not_domain_suffix(v).map_err(|_| ()),
        ("DomainMiddle", true) => real.set_domain_middle(v).map_err(|_| ()),
        ("DomainSuffix", true) => real.set_domain_suffix(v).map_err(|_| ()),
        ("FqdnPeriod", true) if v.is_none_or(|x| x == ".") => real.set_fqdn(v.is_some()).map_err(|_| ()),
        _ => {let part: UrlPart = serde_json::from_value(json!(p)).expect("harness/src"); part.set(&mut real, v).map_err(|_| ())}
    };
    let mr = refurl::set(&json!(p), &mut model, v);
    ensure_eq!(rr, mr, "verdict", "set {p} {v:?} on {t} (now {})", real.as_str());
    ensure_eq!(real.as_str(), model.as_str(), "result", "set {p} {v:?} on {t}");
    check(&real)?;
    // Frame and part laws on the observable values alone.
    let old = BetterUrl::from(t.clone());
    if rr.is_err() {g.label("error"); ensure_eq!(real.as_str(), t.as_str(), "failed-set-changed", "set {p}"); return Ok(());}
    if real.as_str() != t.as_str() {g.nontrivial();}
    if real.host_str().is_some() && old.host_str().is_some() && t.scheme() != "file" {
        let f = |u: &BetterUrl| (u.scheme().to_string(), u.username().to_string(), u.password().map(String::from), u.port(), u.path().to_string(), u.query().map(String::from), u.fragment().map(String::from));
        ensure_eq!(f(&real), f(&old), "frame", "set {p} {v:?} on {t} gave {}", real.as_str());
    }
    if let (Some(od), Some(nd)) = (refurl::dom(&t), refurl::dom(&real)) && p != "FqdnPeriod" && !od.has_empty_labels() && !nd.has_empty_labels() && v.is_none_or(|v| v.is_ascii() && v.split('.').all(|x| !x.is_empty())) {
        ensure_eq!(real.fqdn_period(), old.fqdn_period(), "period-kept", "set {p} {v:?} on {t} gave {}", real.as_str());
        // Text of the untouched sides of the host.
        let (ob, nb) = (od.bare().to_string(), nd.bare().to_string());
        let tail = |x: Option<&str>| x.map(|x| format!(".{x}")).unwrap_or_default();
        let head = |x: Option<&str>| x.map(|x| format!("{x}.")).unwrap_or_default();
        match p {
            "Subdomain" => ensure!(nb == od.reg_domain().unwrap_or("") || nb.ends_with(&tail(od.reg_domain())), "sides", "set {p} {v:?}: {ob} -> {nb}"),
            "NotDomainSuffix" => ensure!(nb == od.suffix().unwrap_or("") || nb.ends_with(&tail(od.suffix())), "sides", "set {p} {v:?}: {ob} -> {nb}"),
            "RegDomain" if v.is_some() => ensure!(nb.starts_with(&head(od.subdomain())), "sides", "set {p} {v:?}: {ob} -> {nb}"),
            "DomainSuffix" if v.is_some() => ensure!(nb.starts_with(&head(od.not_suffix())), "sides", "set {p} {v:?}: {ob} -> {nb}"),
            "DomainMiddle" => ensure!(nb.starts_with(&head(od.subdomain())) && (nb == od.suffix().unwrap_or("") || nb.ends_with(&tail(od.suffix()))), "sides", "set {p} {v:?}: {ob} -> {nb}"),
            _ => {}
        }
    }
    Ok(())
}

/// Plain values on plain domains: exactly the named part is replaced and the others keep their values.
fn exact(g: &mut G) -> Res {
    let suf = |g: &mut G| g.of(&["com", "co.uk", "org", "net", "github.io", "xn--p1ai", "com.au"]).to_string();
    let sub = |g: &mut G| g.vec(1, 3, gn::word).join(".");
    let (s, m, x) = (if g.chance(2, 3) {Some(sub(g))} else {None}, gn::word(g), suf(g));
    let per = if g.chance(1, 3) {"."} else {""};
    let build = |s: &Option<String>, m: &Option<String>, x: &str| {let mut v: Vec<&str> = Vec::new(); if let Some(s) = s {v.push(s)}; if let Some(m) = m {v.push(m)}; v.push(x); format!("https://{}{per}/p?q#f", v.join("."))};
    let m = Some(format!("zz9{m}"));
    let t = build(&s, &m, &x);
    let mut u = BetterUrl::parse(&t).expect("harness/src");
    let (p, v, want) = match g.usize(6) {
        0 => {let v = if g.chance(1, 4) {None} else {Some(sub(g))}; let w = build(&v, &m, &x); ("Subdomain", v, w)},
        1 => {let v = Some(format!("yy9{}", gn::word(g))); let w = build(&s, &v, &x); ("DomainMiddle", v, w)},
        2 => {let y = suf(g); let w = build(&s, &m, &y); ("DomainSuffix", Some(y), w)},
        3 => {let (n, y) = (Some(format!("yy9{}", gn::word(g))), suf(g)); let w = build(&s, &n, &y); ("RegDomain", Some(format!("{}.{y}", n.unwrap())), w)},
        4 => {let v = sub(g) + ".yy9"; let w = build(&None, &Some(v.clone()), &x); ("NotDomainSuffix", Some(v), w)},
        _ => {let v = g.flip(); let w = t.replace(&format!("{per}/p"), if v {"./p"} else {"/p"}); ("FqdnPeriod", v.then(|| ".".to_string()), w)}
    };
    g.input(format!("{t} set {p} {v:?}"));
    g.nontrivial();
    let part: UrlPart = serde_json::from_value(json!(p)).expect("harness/src");
    let r = part.set(&mut u, v.as_deref());
    ensure!(r.is_ok(), "plain-set-refused", "{t} set {p} {v:?}: {r:?}");
    ensure_eq!(u.as_str(), want.as_str(), "plain-set", "{t} set {p} {v:?}");
    ensure_eq!(part.get(&u).as_deref(), v.as_deref(), "plain-get-after-set", "{t} set {p} {v:?}");
    check(&u)
}

/// The list has `*.wc.psl.hrsn.dev` and `*.sub.wc.psl.hrsn.dev`.
fn finding() -> Res {
    let u = BetterUrl::parse("https://sub.wc.psl.hrsn.dev/").expect("harness/src");
    ensure_eq!(u.domain_suffix(), Some("sub.wc.psl.hrsn.dev"), "psl-wildcard-above-longer-rule", "suffix");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P02",
        rule: "decompose: the host has a multi-label suffix, a trailing period, or no registrable domain; rules: every rule counts; set: the URL changed; exact: every case",
        assumptions: &["The rule file of the psl crate's list version (harness/data/psl_rules.txt) is the public suffix list.", "For hosts with empty labels, which the list does not define, the psl crate's own answer is taken."],
        subs: vec![
            Sub {name: "decompose", quick: 200_000, thorough: 4_000_000, threads: 8, f: decompose},
            Sub {name: "rules", quick: 40_000, thorough: 400_000, threads: 8, f: rules},
            Sub {name: "set", quick: 200_000, thorough: 4_000_000, threads: 8, f: set},
            Sub {name: "exact", quick: 100_000, thorough: 2_000_000, threads: 8, f: exact}
        ],
        repro: vec![("psl-wildcard-above-longer-rule", finding)]
    }
}
