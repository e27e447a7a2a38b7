//! Independent codecs: percent-encoding, base64, JSON pointers.

/// Percent-encodes every byte that is not ASCII alphanumeric or in `keep`.
pub fn pct_encode(s: &str, keep: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || (b.is_ascii() && keep.contains(b as char)) {o.push(b as char);} else {o.push_str(&format!("%{b:02X}"));}
    }
    o
}
pub fn keep_of(alphabet: &str) -> &'static str {
    match alphabet {"JsEncodeUriComponent" => "-_.!~*'()", "JsEncodeUri" => "-_.!~*'();/?:@&=+$,#", "NonAlphanumeric" => "", x => panic!("harness/src alphabet {x}")}
}
/// Invalid escapes stay as they are; `None` when the result is not UTF-8.
pub fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    let hex = |x: u8| (x as char).to_digit(16).map(|x| x as u8);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() && let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {o.push(h * 16 + l); i += 3;} else {o.push(b[i]); i += 1;}
    }
    String::from_utf8(o).ok()
}

pub fn b64_alphabet(standard: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    v.extend(if standard {*b"+/"} else {*b"-_"});
    v
}
pub fn b64_encode(s: &[u8], standard: bool, pad: bool) -> String {
    let a = b64_alphabet(standard);
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {o.push(a[(n >> (18 - 6 * i) & 63) as usize] as char);}
        if pad {for _ in c.len()..3 {o.push('=');}}
    }
    o
}
/// `padding`: "Indifferent", "RequireCanonical", "RequireNone". Non-zero trailing bits are invalid.
pub fn b64_decode(s: &str, standard: bool, padding: &str) -> Option<Vec<u8>> {
    let a = b64_alphabet(standard);
    let body = s.trim_end_matches('=');
    let pads = s.len() - body.len();
    let rem = body.len() % 4;
    if rem == 1 {return None;}
    let need = (4 - rem) % 4;
    match padding {
        "RequireNone" => if pads != 0 {return None;},
        "RequireCanonical" => if pads != need {return None;},
        _ => if pads > need {return None;}
    }
    let vals: Option<Vec<u32>> = body.bytes().map(|c| a.iter().position(|x| *x == c).map(|x| x as u32)).collect();
    let vals = vals?;
    let mut o = Vec::new();
    for c in vals.chunks(4) {
        let n = c.iter().enumerate().fold(0u32, |n, (i, v)| n | v << (18 - 6 * i));
        for i in 0..c.len() - 1 {o.push((n >> (16 - 8 * i) & 255) as u8);}
        if c.len() < 4 && n & ((1 << (24 - 8 * (c.len() as u32 - 1))) - 1) != 0 {return None;}
    }
    Some(o)
}

/// RFC 6901.
pub fn json_pointer<'a>(v: &'a serde_json::Value, p: &str) -> Option<&'a serde_json::Value> {
    use serde_json::Value;
    if p.is_empty() {return Some(v);}
    let mut cur = v;
    for tok in p.strip_prefix('/')?.split('/') {
        let tok = tok.replace("~1", "/").replace("~0", "~");
        cur = match cur {
            Value::Object(o) => o.get(&tok)?,
            Value::Array(a) => {
                if tok.is_empty() || !tok.bytes().all(|b| b.is_ascii_digit()) || (tok.len() > 1 && tok.starts_with('0')) {return None;}
                a.get(tok.parse::<usize>().ok()?)?
            },
            _ => return None
        };
    }
    Some(cur)
}
