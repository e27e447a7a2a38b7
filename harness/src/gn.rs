//! Generators: strings, URLs, hosts, part descriptions. Everything is drawn from small pools with heavy
//! collisions (so that matches, duplicates and boundaries happen) plus hostile tokens.

use crate::core::G;
use crate::refurl::RULE_LINES;
use serde_json::{json, Value};
use url::Url;

pub const TOKENS: &[&str] = &[
    "a", "b", "c", "A", "ab", "abc", "x", "y", "1", "0", "42", "-", "_", ".", "/", "=", "&", "?", "#", "%", "+", " ", ":", "@", ";", ",", "~", "!", "*", "(", "[", "]",
    "é", "ß", "日", "İ", "🦀", "e\u{301}", "\u{0}", "\n", "\t", "\u{7f}", "\u{feff}", "\"", "'", "\\", "<", ">", "&amp;", "%20", "%2F", "%zz", "%E3%81", "..", "//", "www.", "www",
    "http://", "https://example.com/", "com", "co.uk", "utm_source", "utm_", "a=1", "a=2&b", "null", "true", "{", "}", "$", "^", "|"
];

/// A string of up to `max` tokens; shrinks to "".
pub fn string(g: &mut G, max: usize) -> String {
    let n = match g.weighted(&[2, 5, 4, 3, 2]) {0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => g.usize(max + 1)};
    (0..n).map(|_| if g.chance(1, 24) {any_char(g).to_string()} else if g.chance(3, 5) {g.of(&TOKENS[..10]).to_string()} else {g.of(TOKENS).to_string()}).collect()
}
pub fn any_char(g: &mut G) -> char {
    match g.usize(4) {
        0 => g.range(0x20, 0x7e) as u8 as char,
        1 => g.range(0, 0xff) as u8 as char,
        2 => char::from_u32(g.range(0, 0xd7ff) as u32).unwrap_or('a'),
        _ => char::from_u32(g.range(0xe000, 0x10ffff) as u32).unwrap_or('a')
    }
}
/// Short lowercase word.
pub fn word(g: &mut G) -> String {let n = 1 + g.usize(4); (0..n).map(|_| g.of(&['a', 'b', 'c', 'x', '1'])).collect()}

/// The suffix part of a domain.
pub fn suffix(g: &mut G) -> String {
    match g.weighted(&[6, 4, 3, 4, 1]) {
        0 => "com".into(),
        1 => g.of(&["co.uk", "uk", "net", "org", "jp", "github.io", "city.kawasaki.jp", "kawasaki.jp", "ck", "www.ck", "bd"]).into(),
        2 => g.of(&["xn--55qx5d.cn", "公司.cn", "рф", "xn--p1ai", "xn--fiqs8s", "中国", "xn--j1amh"]).into(),
        3 => {let l = g.of(&RULE_LINES[..]); let l = l.trim_start_matches('!'); match l.strip_prefix("*.") {Some(x) => format!("{}.{x}", word(g)), None => l.to_string()}},
        _ => g.of(&["invalid", "localhost", "nosuchtld", "example"]).into()
    }
}
pub fn label(g: &mut G) -> String {
    match g.weighted(&[8, 5, 3, 1, 1]) {0 => "example".into(), 1 => word(g), 2 => g.of(&["www", "m", "old", "a-b", "x1", "www2", "example2", "co", "com"]).into(), 3 => g.of(&["ünï", "日本", "xn--nxa", "ß", "under_score", "XN--P1AI", "EXAMPLE"]).into(), _ => g.of(&["1", "0x1", "-", "a".repeat(63).as_str(), ""]).into()}
}
/// A domain, mostly valid.
pub fn domain(g: &mut G) -> String {
    let mut ls: Vec<String> = Vec::new();
    match g.weighted(&[10, 2, 1]) {
        0 => {for _ in 0..g.weighted(&[4, 5, 3, 1]) {ls.push(if g.chance(2, 5) {"www".into()} else {label(g)});} ls.push(label(g)); ls.push(suffix(g));},
        1 => ls.push(suffix(g)),
        _ => ls.push(label(g))
    }
    let mut d = ls.join(".");
    if g.chance(1, 7) {d.push('.');}
    if g.chance(1, 60) {d.push('.');}
    if g.chance(1, 60) {d.insert(0, '.');}
    if g.chance(1, 60) {d = d.replacen('.', "..", 1);}
    d
}
pub fn host(g: &mut G) -> String {
    match g.weighted(&[16, 2, 2, 1]) {
        0 => domain(g),
        1 => g.of(&["127.0.0.1", "0x7f.1", "1.2.3.4.", "1", "255.255.255.255", "192.168.0.300"]).into(),
        2 => g.of(&["[::1]", "[2001:db8::1]", "[::ffff:1.2.3.4]"]).into(),
        _ => g.of(&["", ".", "..", "a b", "a%20b", "%41bc", "a_b", "foo.1.", "localhost", "ex%61mple.com", "a:80", "a@b", "a/b", "WWW.Example.COM"]).into()
    }
}

pub const QNAMES: &[&str] = &["a", "b", "c", "a", "b", "utm_source", "utm_medium", "é", "a b", "", "A", "a%20b", "q", "url", "id"];
pub fn qvalue(g: &mut G) -> String {
    match g.weighted(&[4, 3, 2]) {0 => g.of(&["1", "2", "3", "x"]).into(), 1 => g.of(&["", "a b", "é", "%20", "+", "a=b", "%zz", "https%3A%2F%2Fexample.org%2F", "a/b", "%C3%A9", "%FF"]).into(), _ => string(g, 4)}
}
/// A raw query string (not necessarily canonical).
pub fn query(g: &mut G) -> String {
    let n = g.weighted(&[1, 4, 4, 3, 2, 1]);
    (0..n).map(|_| {
        let k = g.of(QNAMES).to_string();
        match g.weighted(&[8, 1, 1, 1]) {0 => format!("{k}={}", qvalue(g)), 1 => k, 2 => String::new(), _ => format!("{k}=={}", qvalue(g))}
    }).collect::<Vec<_>>().join("&")
}
pub fn segment(g: &mut G) -> String {
    match g.weighted(&[8, 2, 3]) {0 => g.of(&["a", "b", "c", "d", "index.html", "p", "1"]).into(), 1 => String::new(), _ => g.of(&["é", "%20", "a b", ".", "..", "%2e", "a=b", "@u", "a;b", "%2F", "%", "\\", "a:b", "日本", "a|b", "%zz"]).into()}
}
pub fn path(g: &mut G) -> String {
    let n = g.weighted(&[3, 5, 5, 4, 2, 1]);
    (0..n).map(|_| format!("/{}", segment(g))).collect()
}

/// A URL as text; mostly parses.
pub fn url_text(g: &mut G) -> String {
    let kind = g.weighted(&[24, 6, 3, 5, 3]);
    let scheme = match kind {0 => "https", 1 => "http", 2 => g.of(&["ws", "wss", "ftp", "file", "HTTPS"]), 3 => g.of(&["foo", "web+app", "git"]), _ => g.of(&["mailto", "data", "javascript", "about", "blob"])};
    let mut s = format!("{scheme}:");
    if kind == 4 {
        s.push_str(g.of(&["x", "a@example.com", "text/html,<b>", "void(0)", "blank", ""]));
    } else if kind == 3 && g.chance(1, 3) {
        if g.chance(1, 4) {s.push_str("/.");}
        s.push_str(&path(g)); if s.ends_with(':') || s.ends_with("/.") {s.push('/');}
        if s[scheme.len() + 1..].starts_with("//") && g.flip() {s.insert_str(scheme.len() + 1, "/.");}
    } else {
        s.push_str("//");
        if g.chance(1, 12) {s.push_str(g.of(&["u@", "u:p@", ":p@", "us%40r:p%3Aw@", "é:ü@"]));}
        s.push_str(&host(g));
        if g.chance(1, 9) {s.push_str(g.of(&[":80", ":443", ":8080", ":", ":0", ":65535"]));}
        s.push_str(&path(g));
    }
    if g.chance(3, 5) {s.push('?'); s.push_str(&query(g));}
    if g.chance(2, 7) {s.push('#'); if g.chance(1, 3) {s.push_str(&query(g));} else {s.push_str(&string(g, 3));}}
    s
}
pub fn url(g: &mut G) -> Url {
    let t = url_text(g);
    Url::parse(&t).unwrap_or_else(|_| Url::parse("https://www.example.com/a/b?a=1&b=2#f").unwrap())
}

pub fn index(g: &mut G) -> i64 {if g.chance(1, 40) {g.of(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, 255, -256])} else {g.around(5)}}

pub const PLAIN_PARTS: &[&str] = &["Whole", "Scheme", "Username", "Password", "Host", "HostWithoutWWWDotPrefixAndFqdnPeriod", "Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod", "Port", "Path", "NextPathSegment", "Query", "Fragment", "NextDomainSegment", "NextSubdomainSegment", "NextDomainSuffixSegment"];
pub const SEG_PARTS: &[&str] = &["PathSegment", "BeforePathSegment", "AfterPathSegment", "DomainSegment", "BeforeDomainSegment", "AfterDomainSegment", "SubdomainSegment", "BeforeSubdomainSegment", "AfterSubdomainSegment", "DomainSuffixSegment", "BeforeDomainSuffixSegment", "AfterDomainSuffixSegment"];
pub fn part(g: &mut G) -> Value {
    match g.weighted(&[PLAIN_PARTS.len() as u64, SEG_PARTS.len() as u64, 4]) {
        0 => json!(g.of(PLAIN_PARTS)),
        1 => {let i = index(g); json!({(g.of(SEG_PARTS)): i})},
        _ => query_param(g)
    }
}
pub fn query_param(g: &mut G) -> Value {
    let n = g.of(QNAMES);
    if g.chance(1, 3) {json!({"QueryParam": n})} else {json!({"QueryParam": {"name": n, "index": g.usize(4)}})}
}
/// A value to write to a part: mostly something that suits it.
pub fn part_value(g: &mut G, p: &Value) -> Option<String> {
    if g.chance(1, 5) {return None;}
    if g.chance(1, 6) {return Some(string(g, 4));}
    let name = crate::refurl::split_part(p).0;
    Some(match name {
        "Whole" => url_text(g),
        "Scheme" => g.of(&["https", "http", "ftp", "file", "foo", "wss", "HTTP", "1x", "", "a+b", "foo:"]).into(),
        "Host" | "HostWithoutWWWDotPrefixAndFqdnPeriod" => host(g),
        "Domain" | "RegDomain" => domain(g),
        "DomainSuffix" => suffix(g),
        "Subdomain" | "NotDomainSuffix" | "DomainMiddle" => g.vec(1, 3, label).join("."),
        "FqdnPeriod" => g.of(&[".", ".", ".", "", "..", "x"]).into(),
        "Port" => g.of(&["80", "443", "8080", "0", "65535", "65536", "+80", "", "-1", "a", "080", "21"]).into(),
        "Path" => if g.chance(1, 4) {string(g, 4)} else {path(g)},
        "Query" => query(g), "QueryParam" => qvalue(g), "Fragment" => query(g),
        "NextPathSegment" | "PathSegment" | "BeforePathSegment" | "AfterPathSegment" => segment(g),
        n if n.contains("Domain") || n.contains("domain") => label(g),
        _ => string(g, 3)
    })
}
