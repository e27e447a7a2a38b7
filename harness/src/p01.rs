//! P01: cached host details never go stale; failed edits change nothing.
use crate::core::*;
use crate::{gn, refurl};
use crate::{ensure, ensure_eq};
use url::{Host, Url};
use url_cleaner::types::*;

/// What the details must be for the host the serialization denotes.
fn check_details(u: &BetterUrl, what: &str) -> Res {
    // Reading a file URL again can drop its host (drive letters), so the url crate's own answer counts there.
    let re = match if u.scheme() == "file" {Ok((**u).clone())} else {Url::parse(u.as_str())} {Ok(x) => x, Err(e) => return fail("unparseable", format!("{what}: {} does not parse: {e}", u.as_str()))};
    ensure_eq!(u.host_str(), re.host_str(), "stale-host", "{what}: host of {}", u.as_str());
    let fresh = BetterUrl::from(re.clone());
    ensure_eq!(u.host_details(), fresh.host_details(), "stale-details", "{what}: details of {}", u.as_str());
    match re.host() {
        None => {
            ensure!(u.host_details().is_none(), "details-kind", "{what}: {} has no host but details {:?}", u.as_str(), u.host_details());
        },
        Some(Host::Ipv4(_)) => ensure!(u.ipv4_details().is_some() && u.domain_details().is_none() && u.ipv6_details().is_none(), "details-kind", "{what}: {} {:?}", u.as_str(), u.host_details()),
        Some(Host::Ipv6(_)) => ensure!(u.ipv6_details().is_some() && u.domain_details().is_none() && u.ipv4_details().is_none(), "details-kind", "{what}: {} {:?}", u.as_str(), u.host_details()),
        Some(Host::Domain(d)) => {
            let x = refurl::Dom::new(d);
            let Some(dd) = u.domain_details() else {return fail("details-kind", format!("{what}: {} {:?}", u.as_str(), u.host_details()))};
            ensure_eq!((dd.middle_start, dd.suffix_start), (x.middle_start, x.suffix_start), "details-bounds", "{what}: bounds of {}", u.as_str());
            ensure_eq!(dd.fqdn_period, x.fqdn.then(|| d.len() - 1), "details-fqdn", "{what}: period of {}", u.as_str());
            ensure_eq!(dd.is_fqdn(), x.fqdn, "details-fqdn", "{what}: is_fqdn of {}", u.as_str());
        }
    }
    // The derived readers.
    let d = refurl::dom(&re);
    let d = d.as_ref();
    ensure_eq!(u.domain(), d.map(|d| d.domain()), "domain", "{what}: domain of {}", u.as_str());
    ensure_eq!(u.fqdn_period(), d.and_then(|d| d.fqdn.then_some(".")), "fqdn", "{what}: fqdn period of {}", u.as_str());
    Ok(())
}

fn history(g: &mut G) -> Res {
    let start = gn::url(g);
    g.input(start.as_str());
    let mut u = BetterUrl::from(start);
    check_details(&u, "parsed")?;
    let n = 1 + g.usize(7);
    let (mut changed, mut failed) = (0, 0);
    for _ in 0..n {
        let before = (u.to_string(), u.host_details());
        let what;
        let r: Result<(), ()> = match g.weighted(&[12, 2, 2, 1, 1, 1, 1]) {
            0 => {
                // Any part, as configs do it; host parts are drawn more often.
                let p = if g.flip() {let x = g.of(&["Host", "Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod", "Whole", "Scheme", "Path"]); serde_json::json!(x)} else {gn::part(g)};
                let v = gn::part_value(g, &p);
                what = format!("set {p} {v:?}");
                let part: UrlPart = serde_json::from_value(p).expect("part");
                part.set(&mut u, v.as_deref()).map_err(|_| ())
            },
            1 => {let h = gn::host(g); let h = if g.chance(1, 6) {None} else {Some(h)}; what = format!("set_host {h:?}"); u.set_host(h.as_deref()).map_err(|_| ())},
            2 => {let h = gn::host(g); what = format!("set_domain_host {h:?}"); u.set_domain_host(&h).map_err(|_| ())},
            3 => {
                let ip: std::net::IpAddr = g.of(&["127.0.0.1", "::1", "10.0.0.1"]).parse().unwrap(); what = format!("set_ip_host {ip}");
                let can = !u.cannot_be_a_base();
                let r = u.set_ip_host(ip).map_err(|_| ());
                ensure_eq!(r.is_ok(), can, "ip-host-result", "{what} of {}", before.0);
                if r.is_ok() && u.scheme() != "file" {ensure_eq!(u.host_str(), Some(&*if ip.is_ipv6() {format!("[{ip}]")} else {ip.to_string()}), "ip-host-effect", "{what} of {}", before.0);}
                r
            },
            4 => {
                let f = g.flip(); what = format!("set_fqdn {f}");
                let r = u.set_fqdn(f).map_err(|_| ());
                if r.is_ok() && u.scheme() != "file" && !before.0.contains("..") {ensure_eq!(u.fqdn_period().is_some(), f, "fqdn-effect", "{what} of {}", before.0);}
                r
            },
            5 => {
                let s = g.of(&["https", "http", "foo", "file", "ws"]); what = format!("set_scheme {s}");
                let r = u.set_scheme(s).map_err(|_| ());
                if r.is_ok() {ensure_eq!(u.scheme(), s, "scheme-effect", "{what} of {}", before.0);}
                r
            },
            _ => {
                let s = gn::query(g); what = format!("query_pairs_mut append {s}");
                u.query_pairs_mut().append_pair(&s, "1");
                ensure_eq!(u.query_pairs().last(), Some((std::borrow::Cow::Borrowed(&*s), std::borrow::Cow::Borrowed("1"))), "append-effect", "{what} to {}", before.0);
                Ok(())
            }
        };
        g.input(what.clone());
        match r {
            Err(()) => {
                failed += 1;
                ensure_eq!((u.to_string(), u.host_details()), before, "failed-edit-changed", "{what} failed");
            },
            Ok(()) => if u.as_str() != before.0 {changed += 1;}
        }
        check_details(&u, &what)?;
    }
    if failed > 0 {g.label("has failed edit");}
    if changed > 0 {g.label("has changing edit"); g.nontrivial();}
    if u.host_details().is_none() {g.label("ends hostless");}
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P01",
        rule: "a history of 1 to 8 edits in which at least one edit changed the URL",
        assumptions: &["The url crate's parser and the psl rule file are the reference for hosts and suffixes."],
        subs: vec![Sub {name: "history", quick: 300_000, thorough: 6_000_000, threads: 8, f: history}],
        repro: vec![]
    }
}
