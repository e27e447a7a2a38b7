//! P23 HTML, P24 JavaScript, P25 codecs and extractors, P26 regexes and globs.
use crate::codec;
use crate::core::*;
use crate::gn;
use crate::real::{parse, Env};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use url_cleaner::glue::parse::{html, js};
use url_cleaner::glue::*;
use url_cleaner::types::*;

/// Applies the modification as a config would.
fn apply(m: &Value, to: &str) -> Result<String, String> {
    let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    let mut s = to.to_string();
    match parse::<StringModification>(m).apply(&mut s, &e.view()) {Ok(()) => Ok(s), Err(e) => {if s != to {return Err(format!("{e}, and the string changed to {s:?}"));} Err(String::new())}}
}
/// Both the helper and the element agree with the expectation.
fn both(direct: Result<String, String>, element: Result<String, String>, want: &Option<String>, what: &str) -> Res {
    for (n, r) in [("helper", direct), ("modification", element)] {
        match (&r, want) {
            (Ok(a), Some(b)) => ensure_eq!(a, b, "value", "{n}: {what}"),
            (Err(_), None) => if let Err(m) = &r && m.contains("changed to") {return fail("changed-on-error", format!("{what}: {m}"));},
            (Ok(a), None) => return fail("error-missing", format!("{n}: {what}: got {a:?}, expected an error")),
            (Err(e), Some(b)) => return fail("error-unexpected", format!("{n}: {what}: got an error {e}, expected {b:?}"))
        }
    }
    Ok(())
}

// ---------- P23

fn table() -> &'static Vec<(String, String)> {
    static T: OnceLock<Vec<(String, String)>> = OnceLock::new();
    T.get_or_init(|| serde_json::from_str::<BTreeMap<String, String>>(include_str!("../data/html5.json")).expect("harness/src html5.json").into_iter().collect())
}
fn disallowed(c: char) -> bool {c.is_control() || c.is_whitespace()}
fn num_ref(g: &mut G, c: char) -> String {
    let n = c as u32;
    let z = "0".repeat(if g.chance(1, 4) {g.usize(5)} else {0});
    match g.usize(4) {0 => format!("#{z}{n}"), 1 => format!("#x{z}{n:x}"), 2 => format!("#X{z}{n:X}"), _ => format!("#x{z}{n:X}")}
}
fn hard_char(g: &mut G) -> char {
    match g.usize(4) {
        0 => gn::any_char(g),
        1 => g.of(&['&', '<', '>', '"', '\'', ';', '#', 'x', '0', 'A', '\u{ad}', '\u{200b}', '\u{feff}', '\u{fffd}', '\u{fdd0}', '\u{10fffe}', '\u{a1}', '~', '!']),
        2 => char::from_u32(g.range(0x10000, 0x10ffff) as u32).unwrap_or('a'),
        _ => g.of(&['a', 'é', '日', '🦀'])
    }
}
/// A reference and what it stands for.
fn good_ref(g: &mut G) -> (String, String) {
    if g.flip() {let (k, v) = &table()[g.usize(table().len())]; (format!("&{k};"), v.clone())}
    else {let mut c = hard_char(g); if disallowed(c) {c = 'q';} (format!("&{};", num_ref(g, c)), c.to_string())}
}
fn bad_ref(g: &mut G) -> String {
    match g.usize(12) {
        0 => "&;".into(),
        1 => "&#;".into(),
        2 => "&#x;".into(),
        3 => format!("&#{}g;", g.usize(100)),
        4 => format!("&#x{}g;", g.usize(100)),
        5 => format!("&#x{:x};", g.range(0xd800, 0xdfff)),
        6 => format!("&#{};", g.range(0x110000, 0xffff_ffff)),
        7 => format!("&#{}{};", u32::MAX, g.usize(100)),
        8 => {let n = &table()[g.usize(table().len())].0; let x = format!("{n}{}", g.of(&["x", "1", "Q", " ", ""])); if x.len() == n.len() {"&amp ".into()} else if table().iter().any(|t| t.0 == x) {"&zzz;".into()} else {format!("&{x};")}},
        9 => {let c = g.of(&['\u{0}', '\t', '\n', '\r', ' ', '\u{80}', '\u{9f}', '\u{a0}', '\u{7f}', '\u{2003}', '\u{1f}', '\u{c}']); format!("&{};", num_ref(g, c))},
        10 => g.of(&["& ", "&amp ", "&#65 ", "&#x41 ", "&&amp;", "&amp\t"]).into(),
        _ => g.of(&["&Amp;", "&QUOt;", "&# 65;", "&#-1;", "&#+1;", "&#xx41;", "&#Ⅷ;", "&x41;", "&é;", "&amp ;", "& amp;"]).into()
    }
}
fn plain(g: &mut G, avoid: &[char]) -> String {gn::string(g, 3).chars().filter(|c| *c != '&' && !avoid.contains(c)).collect()}
fn p23_text(g: &mut G) -> Res {
    let n = g.usize(5);
    let bad_at = if g.chance(1, 4) {Some(g.usize(n + 1))} else {None};
    let (mut t, mut w) = (String::new(), String::new());
    for i in 0..=n {
        let p = plain(g, &[]);
        t.push_str(&p); w.push_str(&p);
        if Some(i) == bad_at {t.push_str(&bad_ref(g)); g.label("malformed");}
        else if i < n {let (a, b) = good_ref(g); t.push_str(&a); w.push_str(&b);}
    }
    g.input(t.clone());
    if n > 0 || bad_at.is_some() {g.nontrivial();}
    let want = if bad_at.is_some() {None} else {Some(w)};
    both(html::unescape_text(&t).map_err(|e| e.to_string()), apply(&json!("UnescapeHtmlText"), &t), &want, &format!("{t:?}"))
}
/// One reference at a time, so that every name is visited.
fn p23_refs(g: &mut G) -> Res {
    let (k, v) = table()[g.usize(table().len())].clone();
    let c = hard_char(g);
    let n = num_ref(g, c);
    g.input(format!("{k} {n}"));
    g.nontrivial();
    match html::parse_char_ref(&k) {Ok(x) => ensure_eq!(x, v, "named", "{k}"), Err(e) => return fail("named", format!("{k}: {e}"))}
    for (r, how) in [(html::parse_char_ref(&n).map(|x| x.to_string()).map_err(|e| e.to_string()), "parse_char_ref"), (html::parse_num_char_ref(&n).map(|x| x.to_string()).map_err(|e| e.to_string()), "parse_num_char_ref")] {
        match r {
            Ok(x) => {ensure!(!disallowed(c), "numeric", "{how} {n}: a control or whitespace character was accepted"); ensure_eq!(x, c.to_string(), "numeric", "{how} {n}");},
            Err(e) => ensure!(disallowed(c), "numeric", "{how} {n}: {e}")
        }
    }
    Ok(())
}

const ATTRS: &[&str] = &["href", "hre", "hrefs", "data-href", "class", "é", "日本", "a", "x:y", "href"];
fn case(g: &mut G, s: &str) -> String {if g.chance(1, 5) {s.to_ascii_uppercase()} else {s.into()}}
fn ws(g: &mut G, min: usize) -> String {let max = min + if g.chance(1, 3) {2} else {0}; g.vec(min, max, |g| if g.chance(2, 3) {' '} else {g.of(&['\t', '\n', '\r', '\u{c}'])}).into_iter().collect()}
/// Text and meaning of an attribute value whose raw text avoids `avoid`; None for a malformed one.
fn avalue(g: &mut G, avoid: &[char]) -> (String, Option<String>) {
    let (mut t, mut w) = (plain(g, avoid), String::new());
    w.push_str(&t);
    let mut ok = true;
    for _ in 0..g.weighted(&[3, 2, 1]) {
        if g.chance(1, 16) {let b = bad_ref(g); if !b.contains(avoid) {t.push_str(&b); ok = false;}} else {let (a, b) = good_ref(g); t.push_str(&a); w.push_str(&b);}
        let p = plain(g, avoid); t.push_str(&p); w.push_str(&p);
    }
    (t, ok.then_some(w))
}
type Attr = (String, Option<Option<String>>);
/// `None` no value, `Some(None)` a malformed value.
fn attribute(g: &mut G, t: &mut String) -> Attr {
    let i = g.usize(2 * ATTRS.len());
    let n = case(g, ATTRS.get(i).copied().unwrap_or(ATTRS[0]));
    t.push_str(&n);
    if g.chance(1, 3) {return (n, None);}
    let (a, b) = (ws(g, 0), ws(g, 0));
    let a = if g.chance(1, 4) {a} else {String::new()};
    let b = if g.chance(1, 4) {b} else {String::new()};
    t.push_str(&a); t.push('='); t.push_str(&b);
    let v = match g.usize(3) {
        0 => {let v = avalue(g, &['"', '\0']); t.push('"'); t.push_str(&v.0); t.push('"'); v.1},
        1 => {let v = avalue(g, &['\'', '\0']); t.push('\''); t.push_str(&v.0); t.push('\''); v.1},
        _ => {let mut v = avalue(g, &[' ', '\t', '\n', '\r', '\u{c}', '"', '\'', '<', '>', '=', '`', '\0']); if v.0.is_empty() {v = ("v".into(), Some("v".into()));} t.push_str(&v.0); v.1}
    };
    (n, Some(v))
}
fn g_of(xs: &[&'static str], i: usize) -> &'static str {xs[i % xs.len()]}
fn tag_start(g: &mut G) -> String {format!("<{}", g.of(&["a", "A", "meta", "x-é", "h1", "a\"b"]))}
fn attrs(g: &mut G, t: &mut String, max: usize) -> Vec<Attr> {
    let mut v = Vec::new();
    for _ in 0..g.usize(max + 1) {t.push_str(&ws(g, 1)); v.push(attribute(g, t));}
    v
}
fn p23_attr(g: &mut G) -> Res {
    let mut t = tag_start(g);
    let list = attrs(g, &mut t, 5);
    t.push_str(&ws(g, 0));
    if g.chance(1, 5) {if !t.ends_with([' ', '\t', '\n', '\r', '\u{c}']) {t.push(' ');} t.push('/');}
    t.push('>');
    t.push_str(&gn::string(g, 3));
    let name = if list.is_empty() || g.chance(1, 3) {g_of(ATTRS, g.usize(ATTRS.len())).to_string()} else {list[g.usize(list.len())].0.clone()};
    g.input(format!("{name:?} in {t:?}"));
    let found = list.iter().rev().find(|a| a.0.eq_ignore_ascii_case(&name)).map(|a| &a.1);
    if found.is_some() {g.nontrivial();}
    g.label(match found {None => "absent", Some(None) => "valueless", Some(Some(None)) => "malformed value", _ => "value"});
    let r = html::get_attribute_value(&t, &name);
    let what = format!("{name:?} in {t:?}");
    match (&r, found) {
        (Ok(None), None) | (Ok(Some(None)), Some(None)) | (Err(_), Some(Some(None))) => {},
        (Ok(Some(Some(a))), Some(Some(Some(b)))) => ensure_eq!(a, b, "attribute", "{what}"),
        (r, f) => return fail("attribute", format!("{what}: got {r:?}, expected {f:?}"))
    }
    let want = match found {Some(Some(Some(b))) => Some(b.clone()), _ => None};
    both(want.clone().ok_or(String::new()), apply(&json!({"GetHtmlAttribute": name}), &t), &want, &what)
}
/// The attributes of the start tag at the start of `t` as the standard's tokenizer finds them; None if the tag does not end.
fn tokenize(t: &str) -> Option<Vec<(String, Option<String>)>> {
    #[derive(Clone, Copy)] enum S {Tag, Before, Name, After, BeforeValue, Quoted(char), Unquoted, AfterQuoted, SelfClosing}
    let sp = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}');
    let mut st = S::Tag;
    let mut list: Vec<(String, Option<String>)> = Vec::new();
    let mut it = t.chars().skip(1).peekable();
    while let Some(&c) = it.peek() {
        let mut consume = true;
        st = match st {
            S::Tag => if sp(c) {S::Before} else if c == '/' {S::SelfClosing} else if c == '>' {return Some(list)} else {S::Tag},
            S::Before => if sp(c) {S::Before} else if c == '/' || c == '>' {consume = false; S::After} else {list.push((c.to_string(), None)); S::Name},
            S::Name => if sp(c) || c == '/' || c == '>' {consume = false; S::After} else if c == '=' {S::BeforeValue} else {list.last_mut().expect("harness/src").0.push(c); S::Name},
            S::After => if sp(c) {S::After} else if c == '/' {S::SelfClosing} else if c == '>' {return Some(list)} else if c == '=' && !list.is_empty() {S::BeforeValue} else {list.push((c.to_string(), None)); S::Name},
            S::BeforeValue => if sp(c) {S::BeforeValue} else {
                list.last_mut().expect("harness/src").1 = Some(String::new());
                if c == '"' || c == '\'' {S::Quoted(c)} else if c == '>' {return Some(list)} else {consume = false; S::Unquoted}
            },
            S::Quoted(q) => if c == q {S::AfterQuoted} else {list.last_mut().expect("harness/src").1.as_mut().expect("harness/src").push(c); S::Quoted(q)},
            S::Unquoted => if sp(c) {S::Before} else if c == '>' {return Some(list)} else {list.last_mut().expect("harness/src").1.as_mut().expect("harness/src").push(c); S::Unquoted},
            S::AfterQuoted => if sp(c) {S::Before} else if c == '/' {S::SelfClosing} else if c == '>' {return Some(list)} else {consume = false; S::Before},
            S::SelfClosing => if c == '>' {return Some(list)} else {consume = false; S::Before}
        };
        if consume {it.next();}
    }
    None
}
/// Damaged start tags: whatever is wrong with one, the answer is an error or the one the standard's tokenizer gives.
fn p23_damaged(g: &mut G) -> Res {
    let mut t = tag_start(g);
    let list = attrs(g, &mut t, 4);
    t.push_str(&ws(g, 0));
    t.push('>');
    t.push_str(&gn::string(g, 2));
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..1 + g.usize(3) {
        let i = 2 + g.usize(cs.len() - 2);
        match g.usize(3) {
            0 if cs.len() > 4 => {cs.remove(i.min(cs.len() - 1));},
            1 if i < cs.len() => cs[i] = g.of(&['/', ' ', '=', '"', '\'', '>', 'a', '<', '\t', '&']),
            _ => cs.insert(i.min(cs.len()), g.of(&['/', ' ', '=', '"', '\'', '>', 'a', '<', '\n', '\0']))
        }
    }
    let t: String = cs.into_iter().collect();
    let name = if list.is_empty() || g.chance(1, 4) {g_of(ATTRS, g.usize(ATTRS.len())).to_string()} else {list[g.usize(list.len())].0.clone()};
    g.input(format!("{name:?} in {t:?}"));
    let what = format!("{name:?} in {t:?}");
    let r = html::get_attribute_value(&t, &name);
    let Some(found) = tokenize(&t) else {g.label("unfinished"); ensure!(r.is_err(), "damaged-unfinished", "{what}: got {r:?}, expected an error"); return Ok(());};
    let Ok(r) = r else {g.label("error"); return Ok(());};
    g.nontrivial();
    let want = found.iter().rev().find(|a| a.0.eq_ignore_ascii_case(&name)).map(|a| a.1.as_deref().map(|v| html::unescape_text(v).unwrap_or_else(|e| format!("error {e}"))));
    g.label(match want {None => "absent", Some(None) => "valueless", _ => "value"});
    ensure_eq!(r, want, "damaged", "{what}");
    Ok(())
}
/// Start tags the standard calls malformed.
fn p23_badtag(g: &mut G) -> Res {
    let mut t = tag_start(g);
    let _ = attrs(g, &mut t, 3);
    let i = g.usize(12);
    match i {
        0 => {}, // No `>`.
        1 => {t.push_str(" k=\"v\"k2>");},
        2 => t.push_str(" k=\"v\" =v>"),
        3 => t.push_str(&format!(" k{}k>", g.of(&["\"", "'", "<", "\0"]))),
        4 => t.push_str(" k=>"),
        5 => t.push_str(" / k>"),
        6 => t.push_str(" k=\"v\0\">"),
        7 => t.push_str(" k='v\0'>"),
        8 => t.push_str(" k=v\0>"),
        9 => t = format!("{}{t}>", g.of(&[" ", "x", "&lt;", "\u{feff}"])),
        10 => t = t.replacen('<', g.of(&["<?", "</", "<1", "< ", "<!", "<>", "<é", "<"]), 1) + if t.len() % 2 == 0 {"\0"} else {" \0>"},
        _ => t.push_str(g.of(&[" k='v", " k=\"v", " k=v", " k=", " k", " ", "/", " /"]))
    }
    g.input(format!("{t:?}"));
    g.nontrivial();
    let r = html::get_attribute_value(&t, "nosuch");
    ensure!(r.is_err(), "malformed-tag", "class {i} {t:?}: got {r:?}, expected an error");
    Ok(())
}

// ---------- P24

fn p24_good(g: &mut G) -> Res {
    let q = g.of(&['"', '\'']);
    let (mut t, mut w) = (String::from(q), String::new());
    for _ in 0..g.usize(8) {
        let c = match g.usize(3) {0 => gn::any_char(g), 1 => g.of(&['a', '0', 'x', 'u', '{', '}', '\'', '"', '/', '$', '`', '\u{2028}', '\u{0}', '7', 'n', '8', '9']), _ => g.of(&['é', '🦀', '日', '\u{ffff}', '\u{fffff}'])};
        match g.usize(8) {
            0 | 1 => {if c != q && c != '\\' && c != '\n' && c != '\r' {t.push(c); w.push(c);}},
            2 => {let (a, b) = g.of(&[('b', '\u{8}'), ('f', '\u{c}'), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('v', '\u{b}'), ('\'', '\''), ('"', '"'), ('\\', '\\')]); t.push('\\'); t.push(a); w.push(b);},
            3 => {let n = g.usize(256) as u32; t.push_str(&if g.flip() {format!("\\x{n:02x}")} else {format!("\\x{n:02X}")}); w.push(char::from_u32(n).unwrap());},
            4 => if (c as u32) < 0x10000 {t.push_str(&if g.flip() {format!("\\u{:04x}", c as u32)} else {format!("\\u{:04X}", c as u32)}); w.push(c);},
            5 => if (c as u32) < 0x100000 {let mut h = format!("{:x}", c as u32); while h.len() < 5 && g.chance(1, 3) {h.insert(0, '0');} t.push_str(&format!("\\u{{{h}}}")); w.push(c);},
            6 => match g.usize(4) {
                0 => {let n = 0o100 + g.usize(0o300) as u32; t.push_str(&format!("\\{n:03o}")); w.push(char::from_u32(n).unwrap());},
                1 => t.push_str("\\\n"),
                // Not followed by a digit.
                2 => {t.push_str("\\0"); w.push('\0'); t.push('_'); w.push('_');},
                _ => {t.push_str("\\0"); w.push('\0'); t.push_str("\\n"); w.push('\n');}
            },
            // A character that needs no escape.
            _ => if !"bfnrtvxu01234567".contains(c) && !['\n', '\r', '\u{2028}', '\u{2029}'].contains(&c) {t.push('\\'); t.push(c); w.push(c);}
        }
    }
    t.push(q);
    t.push_str(&gn::string(g, 3));
    g.input(format!("{t:?}"));
    if t.contains('\\') {g.nontrivial();}
    both(js::string_literal_prefix(&t).map_err(|e| e.to_string()), apply(&json!("GetJsStringLiteralPrefix"), &t), &Some(w), &format!("{t:?}"))
}
fn p24_bad(g: &mut G) -> Res {
    let q = g.of(&['"', '\'']);
    let mut t = String::from(q);
    for _ in 0..g.usize(3) {t.push_str(g.of(&["a", "\\n", "\\x41", "\\u0041", "é", "\\\\", "\\u{1f980}"]));}
    let z = g.of(&["g", "G", "-", " ", "é", "\\", "\"", "'", "/", ":", "@", "`"]);
    let e = match g.usize(8) {
        0 => format!("\\x{z}"), 1 => format!("\\x4{z}"),
        2 => format!("\\u{z}"), 3 => format!("\\u{}{z}", &"0041"[..1 + g.usize(3)]),
        4 => "\\u{}".into(), 5 => format!("\\u{{{}{z}", &"1f980"[..g.usize(6)]),
        6 => format!("\\u{:04x}", g.range(0xd800, 0xdfff)),
        _ => format!("\\u{{{:x}}}", g.range(0xd800, 0xdfff))
    };
    t.push_str(&e);
    t.push_str("0}");
    t.push(q);
    if g.chance(1, 8) {t = t.replacen(q, g.of(&["", "`", "x", " \"", "“"]), 1); if t.starts_with(['"', '\'']) {t.insert(0, '\\');}}
    g.input(format!("{t:?}"));
    g.nontrivial();
    both(js::string_literal_prefix(&t).map_err(|e| e.to_string()), apply(&json!("GetJsStringLiteralPrefix"), &t), &None, &format!("{t:?}"))
}
fn js_is(t: &str, w: &str, sig: &str) -> Res {let r = js::string_literal_prefix(t); ensure!(r.as_ref().is_ok_and(|x| x == w), sig, "{t:?}: got {r:?}, expected {w:?}"); Ok(())}
fn p24_octal() -> Res {js_is("\"\\012\"", "\n", "legacy-octal")?; js_is("\"\\7_\"", "\u{7}_", "legacy-octal")?; js_is("\"\\400\"", " 0", "legacy-octal")}
fn p24_continuation() -> Res {js_is("\"a\\\r\nb\"", "ab", "line-continuation")?; js_is("\"a\\\u{2028}b\"", "ab", "line-continuation")}

// ---------- P25

fn text(g: &mut G) -> String {match g.usize(4) {0 => (0..g.usize(12)).map(|_| gn::any_char(g)).collect(), 1 => "ab~?>".repeat(g.usize(40)), _ => gn::string(g, 6)}}
fn b64cfg(g: &mut G) -> (Value, bool, bool, String) {
    let mut o = serde_json::Map::new();
    let (mut st, mut pad, mut dec) = (false, true, "Indifferent".to_string());
    if g.flip() {st = g.flip(); o.insert("alphabet".into(), json!(if st {"Standard"} else {"UrlSafe"}));}
    if g.flip() {pad = g.flip(); o.insert("encode_padding".into(), json!(pad));}
    if g.flip() {dec = g.of(&["Indifferent", "RequireCanonical", "RequireNone"]).into(); o.insert("decode_padding".into(), json!(dec));}
    (Value::Object(o), st, pad, dec)
}
fn p25_base64(g: &mut G) -> Res {
    let s = text(g);
    let (c, st, pad, dec) = b64cfg(g);
    let bare = c == json!({}) && g.flip();
    let (em, dm) = if bare {(json!("Base64Encode"), json!("Base64Decode"))} else {(json!({"Base64Encode": c}), json!({"Base64Decode": c}))};
    g.input(format!("{c} {s:?}"));
    if !s.is_empty() {g.nontrivial();}
    let enc = apply(&em, &s);
    let Ok(enc) = enc else {return fail("encode", format!("{s:?}: {enc:?}"))};
    ensure_eq!(enc, codec::b64_encode(s.as_bytes(), st, pad), "encode", "{c} {s:?}");
    let alpha = codec::b64_alphabet(st);
    let body = enc.trim_end_matches('=');
    ensure!(body.bytes().all(|b| alpha.contains(&b)), "alphabet", "{c} {s:?}: {enc}");
    ensure!(if pad {enc.len() % 4 == 0} else {body.len() == enc.len()}, "padding", "{c} {s:?}: {enc}");
    // The same settings read it back, unless they contradict each other.
    let padded = body.len() != enc.len() || enc.len() % 4 == 0;
    let contradictory = (dec == "RequireNone" && body.len() != enc.len()) || (dec == "RequireCanonical" && !padded);
    let back = apply(&dm, &enc);
    if contradictory {ensure!(back.is_err(), "padding-accepted", "{c} {enc}: {back:?}");} else {ensure_eq!(back, Ok(s.clone()), "round-trip", "{c} {s:?} via {enc}");}
    // Any other text is decoded or refused as the settings say.
    let other = match g.usize(5) {
        0 => enc.trim_end_matches('=').to_string(),
        1 => format!("{enc}{}", g.of(&["=", "==", "A", "A=", "\n", " ", "\u{e9}"])),
        2 => enc.replace('-', "+").replace('_', "/"),
        3 => {let mut v: Vec<char> = enc.chars().collect(); if !v.is_empty() {let i = g.usize(v.len()); v[i] = g.of(&['A', '/', '+', '-', '_', '=', '%', 'z', '8']);} v.into_iter().collect()},
        _ => text(g)
    };
    g.input(other.clone());
    let want = codec::b64_decode(&other, st, &dec).and_then(|b| String::from_utf8(b).ok());
    let got = apply(&dm, &other);
    ensure_eq!(got.clone().ok(), want, "decode", "{c} {other:?} ({got:?})");
    Ok(())
}
fn p25_percent(g: &mut G) -> Res {
    let s = text(g);
    let a = g.of(&["JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric"]);
    let em = if a == "JsEncodeUriComponent" && g.flip() {json!("UrlEncode")} else {json!({"UrlEncode": a})};
    g.input(format!("{em} {s:?}"));
    let enc = apply(&em, &s);
    let Ok(enc) = enc else {return fail("encode", format!("{s:?}: {enc:?}"))};
    if enc != s {g.nontrivial();}
    ensure_eq!(enc, codec::pct_encode(&s, codec::keep_of(a)), "encode", "{a} {s:?}");
    ensure!(enc.bytes().all(|b| b == b'%' || b.is_ascii_alphanumeric() || codec::keep_of(a).contains(b as char)), "alphabet", "{a} {s:?}: {enc}");
    ensure_eq!(apply(&json!("UrlDecode"), &enc), Ok(s.clone()), "round-trip", "{a} {s:?} via {enc}");
    let other: String = (0..g.usize(6)).map(|_| g.of(&["%41", "%C3%A9", "%c3", "%A9", "%", "%4", "%zz", "%25", "+", "a", "é", "%00", "%F0%9F%A6%80", "%ED%A0%80", "%2"])).collect();
    g.input(other.clone());
    let got = apply(&json!("UrlDecode"), &other);
    ensure_eq!(got.clone().ok(), codec::pct_decode(&other), "decode", "{other:?} ({got:?})");
    Ok(())
}
const KEYS: &[&str] = &["a", "b", "", "a/b", "m~n", "~1", "~0", "0", "1", "01", "-", "é", " ", "\"", "\\", "a.b", "%20"];
fn jvalue(g: &mut G, d: u32) -> Value {
    match g.weighted(&[4, 1, 1, 1, if d > 0 {5} else {0}, if d > 0 {3} else {0}]) {
        0 => json!(text(g)), 1 => json!(g.range(-3, 300)), 2 => json!(g.flip()), 3 => Value::Null,
        4 => {let mut o = serde_json::Map::new(); for _ in 0..g.usize(4) {let k = g.of(KEYS); let v = jvalue(g, d - 1); o.insert(k.into(), v);} Value::Object(o)},
        _ => Value::Array((0..g.usize(4)).map(|_| jvalue(g, d - 1)).collect())
    }
}
fn p25_pointer(g: &mut G) -> Res {
    let v = jvalue(g, 4);
    // A path through the value, sometimes off it.
    let (mut p, mut cur, mut on) = (String::new(), Some(&v), true);
    while let Some(c) = cur {
        if g.chance(1, 8) {break;}
        let (tok, next) = match c {
            Value::Object(o) if !o.is_empty() => {let (k, x) = o.iter().nth(g.usize(o.len())).unwrap(); (k.clone(), Some(x))},
            Value::Array(a) if !a.is_empty() => {let i = g.usize(a.len()); (i.to_string(), Some(&a[i]))},
            _ => break
        };
        if g.chance(1, 12) {p.push('/'); p.push_str(g.of(&["0", "00", "-", "+0", "~", "~2", "9", "", "a", "18446744073709551616", "é"])); on = false; break;}
        p.push('/'); p.push_str(&tok.replace('~', "~0").replace('/', "~1"));
        cur = next;
    }
    if g.chance(1, 12) {p = g.of(&["a", "/", "//", "#/a", "/a/", " "]).into(); on = false;}
    let t = if g.chance(1, 12) {let mut x = v.to_string(); match g.usize(4) {0 => {x.pop();}, 1 => x.push('x'), 2 => x.insert(0, ','), _ => x = text(g)} x} else if g.flip() {serde_json::to_string_pretty(&v).unwrap()} else {v.to_string()};
    g.input(format!("{p:?} in {t}"));
    let want = serde_json::from_str::<Value>(&t).ok().and_then(|x| codec::json_pointer(&x, &p).and_then(|y| y.as_str().map(|z| z.to_string())));
    if want.is_some() {g.nontrivial();}
    // By construction, when nothing was spoilt.
    if on && t.trim().len() >= v.to_string().len() && serde_json::from_str::<Value>(&t).is_ok_and(|x| x == v) {ensure_eq!(cur.and_then(|c| c.as_str()).map(|x| x.to_string()), want, "harness-pointer", "{p}");}
    let got = apply(&json!({"JsonPointer": p}), &t);
    ensure_eq!(got.clone().ok(), want, "pointer", "{p:?} in {t} ({got:?})");
    if got.is_err() {ensure_eq!(got, Err(String::new()), "changed-on-error", "{p:?} in {t}");}
    Ok(())
}
/// Extracting between two delimiters, as a modification and as a source.
fn p25_between(g: &mut G) -> Res {
    let d = |g: &mut G| g.of(&["[", "]", "ab", "a", "b", "", "é", "\"", "--"]).to_string();
    let (a, b) = (d(g), d(g));
    let t: String = (0..g.usize(7)).map(|_| if g.flip() {d(g)} else {g.of(&["a", "x", "é", "b", " ", "]"]).to_string()}).collect();
    g.input(format!("{a:?}..{b:?} in {t:?}"));
    // By search over all positions rather than by splitting.
    let at = |h: &str, n: &str| (0..=h.len()).find(|i| h.is_char_boundary(*i) && h[*i..].starts_with(n));
    let want = at(&t, &a).map(|i| &t[i + a.len()..]).and_then(|r| at(r, &b).map(|j| r[..j].to_string()));
    if want.is_some() {g.nontrivial();}
    let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    let src = parse::<StringSource>(&json!({"ExtractBetween": {"value": t, "start": a, "end": b}}));
    let r = src.get(&e.view()).map_err(|e| e.to_string()).and_then(|x| x.map(|x| x.into_owned()).ok_or("none".into()));
    both(r, apply(&json!({"ExtractBetween": {"start": a, "end": b}}), &t), &want, &format!("{a:?}..{b:?} in {t:?}"))
}

// ---------- P26

const PATS: &[&str] = &["a", "A.b", "^b$", "a+?", "a+", "(a)(b)?", "a b # c", "\\w+", "\\bé", "[[:alpha:]]+", "\\101", "a$", "^$", ".", "(?i)a", "(?-u:\\xff)", "(?-i)a", "[^a]", "\\d", "a{2,}", "(?<n>a)|b", "\\", "(", "[", "a**", "(?P<x", "\\p{Greek}", "é", "É", "\\s", "a\\ b"];
fn regex_json(g: &mut G) -> Value {
    let p = if g.chance(1, 6) {gn::string(g, 4)} else {g.of(PATS).to_string()};
    let mut o = serde_json::Map::new();
    o.insert("pattern".into(), json!(p));
    for f in FLAGS.iter().map(|x| x.0) {if g.chance(1, 5) {o.insert(f.into(), json!(g.chance(2, 3)));}}
    if g.chance(1, 8) {o.insert("line_terminator".into(), json!(g.of(&[10, 0, 13, 97, 255])));}
    if o.len() == 1 && g.flip() {return json!(p);}
    Value::Object(o)
}
const FLAGS: &[(&str, char)] = &[("case_insensitive", 'i'), ("crlf", 'R'), ("dot_matches_new_line", 's'), ("ignore_whitespace", 'x'), ("multi_line", 'm'), ("octal", 'o'), ("swap_greed", 'U'), ("unicode", 'u')];
fn build(v: &Value) -> Option<::regex::Regex> {
    let f = |n: &str, d: bool| v.get(n).and_then(|x| x.as_bool()).unwrap_or(d);
    let p = v.as_str().or(v["pattern"].as_str()).unwrap();
    ::regex::RegexBuilder::new(p).case_insensitive(f("case_insensitive", false)).crlf(f("crlf", false)).dot_matches_new_line(f("dot_matches_new_line", false)).ignore_whitespace(f("ignore_whitespace", false))
        .line_terminator(v.get("line_terminator").and_then(|x| x.as_u64()).unwrap_or(10) as u8).multi_line(f("multi_line", false)).octal(f("octal", false)).swap_greed(f("swap_greed", false)).unicode(f("unicode", true)).build().ok()
}
fn hay(g: &mut G) -> String {(0..g.usize(6)).map(|_| g.of(&["a", "b", "A", "é", "É", "\n", "\r\n", " ", "aa", "ab", "\u{0}", "1", "#", "c", "AXb", "Ω", "\r"])).collect()}
fn spans(r: &::regex::Regex, h: &str) -> Vec<Vec<Option<(usize, usize)>>> {r.captures_iter(h).map(|c| c.iter().map(|m| m.map(|m| (m.start(), m.end()))).collect()).collect()}
fn p26_regex(g: &mut G) -> Res {
    let v = regex_json(g);
    let hs = g.vec(1, 3, hay);
    g.input(format!("{v} on {hs:?}"));
    let w: RegexWrapper = parse(&v);
    let want = build(&v);
    let reuse = w.clone();
    let threads = g.chance(1, 200);
    if want.is_some() && v.is_object() {g.nontrivial();}
    for h in &hs {
        match (&want, w.get()) {
            (Some(a), Ok(b)) => {ensure_eq!(spans(b, h), spans(a, h), "matches", "{v} on {h:?}"); g.label(if a.is_match(h) {"match"} else {"no match"});},
            (None, Err(_)) => g.label("invalid"),
            (a, b) => return fail("builds", format!("{v}: got {b:?}, expected {a:?}"))
        }
        // As a matcher and as modifications.
        let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
        let m = parse::<StringMatcher>(&json!({"Regex": v})).satisfied_by(h, &e.view());
        ensure_eq!(m.ok(), want.as_ref().map(|r| r.is_match(h)), "matcher", "{v} on {h:?}");
        let x = apply(&json!({"RegexFind": v}), h).ok();
        ensure_eq!(x, want.as_ref().and_then(|r| r.find(h)).map(|m| m.as_str().to_string()), "find", "{v} on {h:?}");
    }
    // A copy, and one read back, match alike.
    for (n, c) in [("copy", reuse), ("compiled copy", w.clone()), ("read back", parse(&serde_json::to_value(&w).expect("harness/src")))] {
        match (&want, c.get()) {(Some(a), Ok(b)) => ensure_eq!(spans(b, &hs[0]), spans(a, &hs[0]), "copies", "{n} of {v}"), (None, Err(_)) => {}, (a, b) => return fail("copies", format!("{n} of {v}: {a:?} {b:?}"))}
    }
    if threads {
        let w: RegexWrapper = parse(&v);
        let r: Vec<_> = std::thread::scope(|s| (0..6).map(|i| {let (w, hs) = (&w, &hs); s.spawn(move || w.get().ok().map(|r| spans(r, &hs[i % hs.len()])))}).collect::<Vec<_>>().into_iter().map(|h| h.join()).collect());
        g.label("shared by threads");
        for (i, r) in r.into_iter().enumerate() {match r {Ok(r) => ensure_eq!(r, want.as_ref().map(|w| spans(w, &hs[i % hs.len()])), "threads", "{v}"), Err(_) => return fail("threads", format!("{v}: a thread panicked"))}}
    }
    Ok(())
}
/// Two regexes used in turn do not influence each other.
fn p26_pairs(g: &mut G) -> Res {
    let p = g.of(PATS);
    let mut mk = || {let mut o = json!({"pattern": p}); for (f, _) in FLAGS {if g.chance(1, 3) {o[*f] = json!(g.flip());}} o};
    let (a, b) = (mk(), mk());
    let hs = g.vec(1, 4, hay);
    g.input(format!("{a} {b} {hs:?}"));
    g.nontrivial();
    let (ra, rb): (RegexWrapper, RegexWrapper) = (parse(&a), parse(&b));
    let (wa, wb) = (build(&a), build(&b));
    for h in &hs {for (r, w) in [(&ra, &wa), (&rb, &wb)] {ensure_eq!(r.get().ok().map(|r| spans(r, h)), w.as_ref().map(|w| spans(w, h)), "pairs", "{a} {b} on {h:?}");}}
    ensure_eq!(ra == rb, norm(&a) == norm(&b), "equality", "{a} {b}");
    Ok(())
}
fn norm(v: &Value) -> Vec<bool> {FLAGS.iter().map(|(f, _)| v.get(*f).and_then(|x| x.as_bool()).unwrap_or(*f == "unicode")).collect()}
fn p26_flags(g: &mut G) -> Res {
    let mut c = RegexConfig::default();
    let mut m: std::collections::BTreeSet<char> = ['u'].into();
    let mut hist = Vec::new();
    for _ in 0..1 + g.usize(5) {
        let fl: String = (0..g.usize(5)).map(|_| g.of(&['i', 'R', 's', 'x', 'm', 'o', 'U', 'u', 'r', 'S', 'I', 'z', ' '])).collect();
        let op = g.usize(3);
        hist.push(format!("{} {fl:?}", ["set", "add", "remove"][op]));
        let known = fl.chars().filter(|c| FLAGS.iter().any(|f| f.1 == *c));
        match op {
            0 => {c.set_flags(&fl); m = known.collect();},
            1 => {c.add_flags(&fl); m.extend(known);},
            _ => {c.remove_flags(&fl); for x in known {m.remove(&x);}}
        }
    }
    g.input(hist.join(", "));
    g.nontrivial();
    let j = serde_json::to_value(&c).expect("harness/src");
    for (f, l) in FLAGS {
        let on = j.get(*f).and_then(|x| x.as_bool()).unwrap_or(*f == "unicode");
        ensure_eq!(on, m.contains(l), "flag", "{f} after {hist:?}");
    }
    ensure_eq!(c.line_terminator, 10, "flag", "line terminator after {hist:?}");
    let got = c.get_flags();
    ensure_eq!((got.chars().collect::<std::collections::BTreeSet<_>>(), got.len()), (m.clone(), m.len()), "get_flags", "{hist:?}");
    let mut d = RegexConfig::default();
    d.set_flags(&got);
    ensure_eq!(d, c, "set-get", "{hist:?}");
    Ok(())
}
const GPATS: &[&str] = &["a*", "*", "?", "A*", "[a-c]?", "[!a]*", "**", "a/**/b", "**/b", "*/b", ".*", "*.x", "a?b", "[[]", "[]]", "é*", "a/*", "/*", "", "[A]", "***", "a**", "[", "**a", "[a", "\\*"];
/// An independent matcher for patterns without `**`.
fn globmatch(p: &[char], s: &[char], cs: bool, sep: bool, dot: bool, at_start: bool) -> bool {
    let eq = |a: char, b: char| a == b || (!cs && a.is_ascii() && b.is_ascii() && a.eq_ignore_ascii_case(&b));
    let leading = |c: char| dot && c == '.' && at_start;
    match p.first() {
        None => s.is_empty(),
        Some('*') => globmatch(&p[1..], s, cs, sep, dot, at_start) || (!s.is_empty() && !(sep && s[0] == '/') && !leading(s[0]) && globmatch(p, &s[1..], cs, sep, dot, s[0] == '/')),
        Some('?') => !s.is_empty() && !(sep && s[0] == '/') && !leading(s[0]) && globmatch(&p[1..], &s[1..], cs, sep, dot, s[0] == '/'),
        Some(c) => !s.is_empty() && eq(*c, s[0]) && globmatch(&p[1..], &s[1..], cs, sep, dot, s[0] == '/')
    }
}
fn p26_glob(g: &mut G) -> Res {
    let p = if g.chance(1, 4) {(0..g.usize(5)).map(|_| g.of(&["a", "b", "*", "?", "/", ".", "A"])).collect::<String>()} else {g.of(GPATS).to_string()};
    let (mut cs, mut sep, mut dot) = (true, false, true);
    let mut o = json!({"pattern": p});
    if g.flip() {cs = g.flip(); o["case_sensitive"] = json!(cs);}
    if g.flip() {sep = g.flip(); o["require_literal_separator"] = json!(sep);}
    if g.flip() {dot = g.flip(); o["require_literal_leading_dot"] = json!(dot);}
    if o.as_object().unwrap().len() == 1 && g.flip() {o = json!(p);}
    let h: String = (0..g.usize(6)).map(|_| g.of(&["a", "b", "A", "/", ".", "x", "é", "ab", "c", "[", "*"])).collect();
    g.input(format!("{o} on {h:?}"));
    let w = serde_json::from_value::<GlobWrapper>(o.clone());
    let pat = ::glob::Pattern::new(&p);
    let (Ok(w), Ok(pat)) = (&w, &pat) else {
        ensure_eq!(w.is_ok(), pat.is_ok(), "builds", "{o}");
        return Ok(());
    };
    let opts = ::glob::MatchOptions {case_sensitive: cs, require_literal_separator: sep, require_literal_leading_dot: dot};
    let want = pat.matches_with(&h, opts);
    if want {g.nontrivial();}
    ensure_eq!(w.matches(&h), want, "matches", "{o} on {h:?}");
    ensure_eq!(w.matches_path(std::path::Path::new(&h)), pat.matches_path_with(std::path::Path::new(&h), opts), "matches", "{o} on the path {h:?}");
    if !p.contains("**") && !p.contains('[') {
        let (pc, hc): (Vec<char>, Vec<char>) = (p.chars().collect(), h.chars().collect());
        ensure_eq!(want, globmatch(&pc, &hc, cs, sep, dot, true), "engine-and-model", "{o} on {h:?}");
    }
    let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    let m = parse::<StringMatcher>(&json!({"Glob": o})).satisfied_by(&h, &e.view());
    ensure_eq!(m.ok(), Some(want), "matcher", "{o} on {h:?}");
    let back: GlobWrapper = parse(&serde_json::to_value(w).expect("harness/src"));
    ensure_eq!(back.matches(&h), want, "copies", "{o} on {h:?}");
    Ok(())
}

fn sub(name: &'static str, quick: u64, f: fn(&mut G) -> Res) -> Sub {Sub {name, quick, thorough: quick * 30, threads: 8, f}}
pub fn p23() -> Prop {Prop {id: "P23", rule: "text: has a reference; attr: the attribute is there; refs and badtag: every case", assumptions: &["Python's html.entities.html5 table (harness/data/html5.json) is the standard's list of named references."],
    subs: vec![sub("refs", 60_000, p23_refs), sub("text", 150_000, p23_text), sub("attr", 300_000, p23_attr), sub("badtag", 60_000, p23_badtag), sub("damaged", 200_000, p23_damaged)], repro: vec![]}}
pub fn p24() -> Prop {Prop {id: "P24", rule: "good: the literal has an escape; bad: every case", assumptions: &["Supported escapes: the single-character ones, identity escapes, \\0 not before a digit, three-digit octal 100 to 377, \\xHH, \\uHHHH, \\u{H} to \\u{HHHHH}, and a backslash before a line feed."],
    subs: vec![sub("good", 250_000, p24_good), sub("bad", 80_000, p24_bad)], repro: vec![("legacy-octal", p24_octal), ("line-continuation", p24_continuation)]}}
pub fn p25() -> Prop {Prop {id: "P25", rule: "base64: not the empty string; percent: the encoding differs from the text; pointer, between: a string is extracted", assumptions: &["serde_json reads JSON text as RFC 8259 says."],
    subs: vec![sub("base64", 150_000, p25_base64), sub("percent", 150_000, p25_percent), sub("pointer", 150_000, p25_pointer), sub("between", 100_000, p25_between)], repro: vec![]}}
pub fn p26() -> Prop {Prop {id: "P26", rule: "regex: valid and written with options; glob: matches; pairs and flags: every case", assumptions: &["The regex and glob crates are the underlying engines."],
    subs: vec![sub("regex", 40_000, p26_regex), sub("pairs", 15_000, p26_pairs), sub("flags", 60_000, p26_flags), sub("glob", 250_000, p26_glob)], repro: vec![]}}
