//! P31: what the default config is documented to do: follow links that carry their destination, rewrite for its flags, use the context of the page.
use crate::codec;
use crate::core::*;
use crate::defcfg;
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
use url_cleaner::types::*;

/// The default config with these flags and vars (and no requests).
pub fn config(flags: &[&str], vars: &[(&str, &str)]) -> &'static Config {
    static M: OnceLock<Mutex<HashMap<String, &'static Config>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    m.entry(format!("{flags:?} {vars:?}")).or_insert_with(|| {
        let mut c = Config::get_default_no_cache().expect("harness/src: the default config loads");
        c.params.flags.insert("no-network".into());
        c.params.flags.extend(flags.iter().map(|x| x.to_string()));
        c.params.vars.extend(vars.iter().map(|(k, v)| (k.to_string(), v.to_string())));
        Box::leak(Box::new(c))
    })
}
pub fn run(c: &Config, u: &str) -> Result<String, String> {defcfg::clean(c, u, &TaskContext::default(), &JobContext::default())}
/// Two inputs that mean the same give the same.
fn agree(c: &Config, a: &str, d: &Config, b: &str, sig: &'static str) -> Res {
    let (x, y) = (run(c, a), run(d, b));
    let Ok(y) = y else {return Ok(());};
    ensure_eq!(x, Ok(y), sig, "{a} should come to what {b} comes to");
    Ok(())
}
fn comp(s: &str) -> String {s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) {(b as char).to_string()} else {format!("%{b:02X}")}).collect()}
fn form(s: &str) -> String {form_urlencoded::byte_serialize(s.as_bytes()).collect()}
fn base64(s: &str) -> String {codec::b64_encode(s.as_bytes(), false, true)}
fn id(g: &mut G) -> String {let n = 1 + g.usize(8); let first = g.of(&['a', 'k', 'Z', 'x']); std::iter::once(first).chain((1..n).map(|_| g.of(&['a', 'b', 'Q', '1', '9', 'z', '_']))).collect()}
fn plain_host(g: &mut G) -> String {g.of(&["example.com", "example.org", "a.example.co.uk", "blog.example.net", "example.com:8080", "xn--bcher-kva.example", "127.0.0.1", "example.dev"]).to_string()}
fn tail(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.usize(4) {s.push('/'); s.push_str(&match g.usize(8) {0 => "a%20b".into(), 1 => "é".into(), 2 => "x:y".into(), 3 => "a@b".into(), 4 => "a+b".into(), 5 => "1,2;3".into(), _ => id(g)});}
    if s.is_empty() || g.chance(1, 4) {s.push('/');}
    if g.flip() {
        let n = 1 + g.usize(3);
        let q: Vec<String> = (0..n).map(|_| {let k = g.of(&["a", "b", "q", "url", "u", "utm_source", "lang", "ref", "id", "é"]).to_string(); let v = match g.usize(7) {0 => "".into(), 1 => "a+b%26c".into(), 2 => "https://example.org/?x=1".into(), 3 => "https%3A%2F%2Fexample.org%2F%3Fx%3D1%26y".into(), 4 => "100%25".into(), _ => id(g)}; format!("{k}={v}")}).collect();
        s.push_str(&format!("?{}", q.join("&")));
    }
    if g.chance(1, 4) {s.push_str(&format!("#{}", g.of(&["top", "a=1&utm_source=x", "é", "a/b?c", ""])));}
    s
}
/// A destination, as it would be written in full.
fn dest(g: &mut G) -> String {
    let u = match g.weighted(&[6, 2, 2]) {
        0 => format!("{}://{}{}", if g.chance(1, 4) {"http"} else {"https"}, plain_host(g), tail(g)),
        1 => defcfg::known_url(g),
        _ => defcfg::site_url(g)
    };
    match url::Url::parse(&u) {Ok(u) if matches!(u.scheme(), "http" | "https") => u.to_string(), _ => "https://example.com/".into()}
}
/// Links that carry their destination in a query parameter: host, path, parameter, other parameters it comes with.
const BY_PARAM: &[(&str, &str, &str, &str)] = &[
    ("api.linkr.bio", "/callbacks/go", "url", "affiliate=false"), ("out.reddit.com", "/t3_abc", "url", "token=x"), ("proxy.notsobot.com", "/", "url", ""), ("carleton.ca", "/x/", "url", "action=redirect"), ("newsroom.carleton.ca", "/", "url", "action=redirect"),
    ("tumblr.com", "/safe-mode", "url", ""), ("deviantart.com", "/users/outgoing", "url", ""), ("pixiv.net", "/jump.php", "url", ""), ("awin1.com", "/cread.php", "ued", "awinmid=1"), ("duckduckgo.com", "/l/", "uddg", "rut=abc"),
    ("duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion", "/l/", "uddg", ""), ("go.bsky.app", "/redirect", "u", ""), ("l.instagram.com", "/", "u", "e=AT0"), ("l.threads.com", "/", "u", "e=AT0"), ("o93x.net", "/c/1", "u", ""),
    ("steamcommunity.com", "/linkfilter/", "u", ""), ("goodreads.com", "/gp/r.html", "U", "C=1"), ("rd.goodreads.com", "/gp/r.html", "U", "C=1"), ("lnk.bio", "/go", "d", "hash=1"), ("t.umblr.com", "/redirect", "z", "t=abc"),
    ("toyhou.se", "/~r", "q", ""), ("youtube.com", "/redirect", "q", "event=x"), ("google.com", "/url", "q", "sa=D"), ("google.co.uk", "/url", "q", "sa=t"), ("ww1.smartadserver.com", "/click", "go", "insid=1"),
    ("vk.com", "/away.php", "to", ""), ("m.vk.com", "/away.php", "to", "utf=1"), ("shareasale-analytics.com", "/r.cfm", "urllink", "b=1&u=2")
];
/// A link to `d` by way of one of the sites, and whether it says `d` exactly.
fn link(g: &mut G, d: &str) -> Option<(String, &'static str)> {
    let n = BY_PARAM.len();
    let k = g.usize(n + 12);
    let scheme = if g.chance(1, 4) {"http"} else {"https"};
    if k < n {
        let (h, p, q, other) = BY_PARAM[k];
        if q == "urllink" && d.starts_with("http:") {return None;}
        let h = match g.weighted(&[8, 3, 1]) {1 if h != "tumblr.com" => format!("www.{h}"), 2 => format!("{h}."), _ => h.to_string()};
        let e = if g.flip() {form(d)} else {comp(d)};
        let mut qs: Vec<String> = vec![format!("{q}={e}")];
        if !other.is_empty() && (other.starts_with("action") || g.flip()) {qs.push(other.into());}
        if g.chance(1, 3) {qs.push(format!("zz={}", id(g)));}
        if g.chance(1, 5) {qs.push(format!("{q}=https%3A%2F%2Fsecond.example%2F"));}
        if g.flip() {qs.rotate_left(1); if qs.iter().position(|x| x.starts_with(&format!("{q}=")) && !x.contains(&e)).is_some_and(|i| i < qs.iter().position(|x| x.contains(&e)).unwrap_or(0)) {qs.rotate_right(1);}}
        // The first occurrence is the one that counts; keep it ours.
        let first = qs.iter().find(|x| x.starts_with(&format!("{q}="))).cloned();
        if first != Some(format!("{q}={e}")) {return None;}
        return Some((format!("{scheme}://{h}{p}?{}", qs.join("&")), h_static(k)));
    }
    let s = match k - n {
        0 => format!("{scheme}://href.li/?{}", if g.flip() {comp(d)} else if d.contains(['%', '#']) {comp(d)} else {d.to_string()}),
        1 => format!("{scheme}://{}?{}", g.of(&["deviantart.com/users/outgoing", "www.deviantart.com/users/outgoing", "www.pixiv.net/jump.php"]), if g.flip() {comp(d)} else if d.contains('#') || d.contains("&url") || d.starts_with("url") {comp(d)} else {d.to_string()}),
        2 | 3 => {if d.contains("__") {return None;} format!("https://urldefense.com/v3/__{d}__;!!abc!xyz$")},
        4 => {let x = d.strip_prefix("https://")?; format!("https://ss3.shipstation.com/{x}")},
        5 => format!("{scheme}://subscribestar.adult/away?url={}", comp(&base64(d))),
        6 => format!("{scheme}://click.notification.elsevier.com/CL0/{}", comp(d)),
        7 => {let mut j = serde_json::json!({"e": d, "pad": ""}).to_string(); for _ in 0..3 {if base64(&j).contains(['/', '+', '=']) {j.insert(1, ' ');}} let b = base64(&j); if b.contains(['/', '+']) {return None;} format!("{scheme}://substack.com/redirect/2/{}.{}?", b.trim_end_matches('='), "sig")},
        8 => {if d.contains(',') {return None;} let b = base64(&format!("1,2,{d}")); if b.contains('/') {return None;} format!("{scheme}://e.emailalerts.cnn.com/click?a/b/L{b}/x")},
        9 => {if d.contains("ea.url.id") {return None;} format!("{scheme}://action.openmedia.org/page/email/redirect/1/2?ea.url.id=5&campaignpageurl={}", comp(d))},
        10 => {if d.contains('%') {return None;} format!("{scheme}://twpf.jp/home/jump?p={}", comp(d))},
        _ => format!("{scheme}://shareasale-analytics.com/r.cfm?b=1&urllink={}", comp(d.strip_prefix("https://")?))
    };
    Some((s, ["href.li", "outgoing query", "urldefense", "urldefense", "shipstation", "subscribestar", "elsevier", "substack", "cnn", "openmedia", "twpf", "shareasale"][k - n]))
}
fn h_static(k: usize) -> &'static str {BY_PARAM[k].0}
fn redirects(g: &mut G) -> Res {
    let c = if g.chance(3, 4) {config(&[], &[])} else {&defcfg::variant(g.usize(defcfg::POOL)).1};
    let d = dest(g);
    let mut u = d.clone();
    let hops = 1 + g.weighted(&[6, 2, 1]);
    for i in 0..hops {
        let Some((l, what)) = link(g, &u) else {break};
        // The text of the next hop is the parsed form of this one.
        let Ok(l) = url::Url::parse(&l) else {break};
        u = l.to_string();
        g.label(what);
        if i == 0 {g.nontrivial();}
    }
    g.input(format!("{d} by way of {u}"));
    agree(c, &u, c, &d, "redirect")
}

/// The documented rewrites of the flags.
fn flags(g: &mut G) -> Res {
    let b = config(&[], &[]);
    let one = |f: &'static str| config(&[f], &[]);
    let t = tail(g);
    let x = id(g);
    let www = g.of(&["", "www."]);
    let rule = |g: &mut G, f: &'static str, u: String, v: String| -> Res {
        g.label(f); g.input(format!("{f}: {u} means {v}"));
        agree(one(f), &u, b, &v, f)
    };
    g.nontrivial();
    match g.usize(17) {
        0 => {let (m, sub, h) = (g.of(&["m", "mobile"]), g.of(&["", "abc."]), g.of(&["example.com", "example.co.uk", "wikipedia.org"])); rule(g, "unmobile", format!("https://{sub}{m}.{h}{t}"), format!("https://{sub}{h}{t}"))},
        1 => {let (o, to) = ("duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczac".to_string(), g.of(&["to", "ws", "ly", "pet", "cab"])); let s = g.of(&["", "a.", "a.b."]); rule(g, "tor2web2tor", format!("https://{s}{o}.onion.{to}{t}"), format!("https://{s}{o}.onion{t}"))},
        2 => {let blog = g.of(&["staff", "a-blog", "x1"]); let p = g.of(&["/", "/123/slug", "/post/123/slug", "/post/123", "/archive", "/tagged/x"]); let p2 = p.strip_prefix("/post").filter(|p| p.starts_with('/')).unwrap_or(p); rule(g, "tumblr-unsubdomain-blog", format!("https://{blog}.tumblr.com{p}"), format!("https://tumblr.com/{blog}{p2}"))},
        k @ 3..=5 => {
            let (f, seg) = [("youtube-unlive", "live"), ("youtube-unshort", "shorts"), ("youtube-unembed", "embed")][k - 3];
            let q = g.of(&["", "t=5", "list=abc", "si=x", "feature=share", "t=5&list=b"]);
            // Only its own kind of page is rewritten.
            let seg2 = g.of(&[seg, seg, seg, "shorts", "live", "embed", "watch"]);
            let u = format!("https://{www}youtube.com/{seg2}/{x}{}{q}", if q.is_empty() {""} else {"?"});
            let v = if seg2 == seg {format!("https://youtube.com/watch?{q}{}v={x}", if q.is_empty() {""} else {"&"})} else {u.clone()};
            rule(g, f, u, v)
        },
        6 => {let (p, l) = (g.of(&["watch", "watch", "playlist"]), g.of(&["", "&list=PL1", "&list=PL1&index=2"])); rule(g, "youtube-unplaylist", format!("https://{www}youtube.com/{p}?v={x}{l}"), format!("https://youtube.com/{p}?v={x}{}", if p == "watch" {l.replace("&list=PL1", "")} else {l.into()}))},
        7 => {
            let p = format!("https://{www}youtube.com/@{x}?a=1");
            let u = format!("{p}&sub_confirmation=1");
            g.label("youtube-keep-sub-confirmation"); g.input(u.clone());
            agree(b, &u, b, &p, "sub_confirmation")?;
            ensure_eq!(run(one("youtube-keep-sub-confirmation"), &u), Ok(format!("https://youtube.com/@{x}?a=1&sub_confirmation=1")), "youtube-keep-sub-confirmation", "{u}");
            Ok(())
        },
        8 => {
            let (h, l) = g.of(&[("example.com", "lang"), ("instagram.com", "hl"), ("threads.net", "hl"), ("example.org", "lang")]);
            let (before, after) = (g.of(&["", "a=1&"]), g.of(&["", "&z=2"]));
            let u = format!("https://{www}{h}/{x}?{before}{l}=en{after}");
            g.label("keep-lang"); g.input(u.clone());
            let without = format!("{before}{}", after.trim_start_matches('&'));
            let without = without.trim_end_matches('&');
            agree(b, &u, b, &format!("https://{h}/{x}{}{without}", if without.is_empty() {""} else {"?"}), "language")?;
            ensure_eq!(run(one("keep-lang"), &u), Ok(format!("https://{h}/{x}?{before}{l}=en{after}")), "keep-lang", "{u}");
            Ok(())
        },
        9 => {let s = g.of(&["", "www."]); rule(g, "furaffinity-sfw", format!("https://{s}furaffinity.net/view/{x}"), format!("https://sfw.furaffinity.net/view/{x}"))},
        10 => rule(g, "furaffinity-unsfw", format!("https://sfw.furaffinity.net/view/{x}"), format!("https://furaffinity.net/view/{x}")),
        11 => {let e = g.of(&["", "/", "?igsh=1"]); rule(g, "instagram-unprofilecard", format!("https://{www}instagram.com/{x}/profilecard{e}"), format!("https://instagram.com/{x}{e}"))},
        12 => {
            let h = plain_host(g);
            let u = format!("http://{h}{t}");
            g.label("no-https-upgrade"); g.input(u.clone());
            let (with, without) = (run(one("no-https-upgrade"), &u), run(b, &u));
            let (Ok(with), Ok(without)) = (with, without) else {return fail("no-https-upgrade", format!("{u} fails"));};
            ensure!(with.starts_with("http://"), "no-https-upgrade", "{u}: {with}");
            // A single-label or numeric host or a port is not this flag's business.
            if without.starts_with("https://") {ensure_eq!(with.replacen("http://", "https://", 1), without, "no-https-upgrade", "{u}");} else {ensure_eq!(with, without, "no-https-upgrade", "{u}");}
            Ok(())
        },
        13 => {
            let d = loop_free_image(g);
            let (n, ext, scheme) = (1 + g.usize(3), g.of(&["external", "ext"]), g.of(&["https", "http"]));
            rule(g, "discord-unexternal", format!("https://images-ext-{n}.discordapp.net/{ext}/{x}/{scheme}/{d}"), format!("{scheme}://{d}"))
        },
        14 => {
            let insts: Vec<&str> = defcfg::default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"]["nitter"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            let to = g.of(&["nitter.net", "nitter.example", "xcancel.com"]);
            let inst = g.of(&insts);
            let p = format!("/{x}{}", g.of(&["", "/status/1", "/status/1?q=a", "/with_replies"]));
            if g.flip() {
                let f = g.of(&["x.com", "twitter.com", "www.x.com", "www.twitter.com", "vxtwitter.com", "fxtwitter.com", "fixupx.com", inst]);
                g.label("nitter"); let u = format!("https://{f}{p}"); g.input(format!("{u} to {to}"));
                let c = if to == "nitter.net" && g.flip() {one("nitter")} else {config(&["nitter"], &[("nitter-host", to)])};
                ensure_eq!(run(c, &u), Ok(format!("https://{to}{p}")), "nitter", "{u}");
                Ok(())
            } else {rule(g, "unnitter", format!("https://{inst}{p}"), format!("https://x.com{p}"))}
        },
        15 => {
            let insts: Vec<&str> = defcfg::default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"]["invidious"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            let to = g.of(&["yewtu.be", "inv.example", "inv.nadeko.net"]);
            let inst = g.of(&insts);
            let p = g.of(&["/watch?v=abc", "/watch?v=abc&t=5", "/@user", "/playlist?list=x"]);
            if g.flip() {
                let f = g.of(&["youtube.com", "www.youtube.com", inst]);
                g.label("invidious"); let u = format!("https://{f}{p}"); g.input(format!("{u} to {to}"));
                let c = if to == "yewtu.be" && g.flip() {one("invidious")} else {config(&["invidious"], &[("invidious-host", to)])};
                ensure_eq!(run(c, &u), Ok(format!("https://{to}{p}")), "invidious", "{u}");
                Ok(())
            } else {rule(g, "uninvidious", format!("https://{inst}{p}"), format!("https://youtube.com{p}"))}
        },
        _ => {
            let insts: Vec<&str> = defcfg::default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"]["breezewiki"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            let to = g.of(&["breezewiki.com", "bw.example", "antifandom.com"]);
            let (inst, wiki) = (g.of(&insts), g.of(&["minecraft", "star-wars", "a1"]));
            match g.usize(4) {
                0 | 1 => {
                    let (p, q) = g.of(&[("/wiki/Page", "/wiki/Page"), ("/wiki/A/b?action=edit", "/wiki/A/b?action=edit"), ("/wiki/Special:Search?query=x+y", "/search?q=x+y"), ("/wiki/Special:Search?scope=internal&query=x", "/search?q=x")]);
                    let from = if g.flip() || p != q {format!("https://{wiki}.fandom.com{p}")} else {format!("https://{inst}/{wiki}{p}")};
                    g.label("breezewiki"); g.input(format!("{from} to {to}"));
                    let c = if to == "breezewiki.com" && g.flip() {one("breezewiki")} else {config(&["breezewiki"], &[("breezewiki-host", to)])};
                    ensure_eq!(run(c, &from), Ok(format!("https://{to}/{wiki}{q}")), "breezewiki", "{from}");
                    Ok(())
                },
                2 => rule(g, "unbreezewiki", format!("https://{inst}/{wiki}/wiki/{x}"), format!("https://{wiki}.fandom.com/wiki/{x}")),
                _ => {
                    let (u, var, to) = match g.usize(2) {0 => (format!("https://{}/{x}/status/1", g.of(&["x.com", "twitter.com", "www.twitter.com", "vxtwitter.com", "fxtwitter.com"])), "twitter-embed-host", g.of(&["vxtwitter.com", "fixupx.com", "tw.example"])), _ => (format!("https://bsky.app/profile/{x}.example/post/1"), "bluesky-embed-host", g.of(&["fxbsky.app", "bs.example"]))};
                    g.label("embed-compatibility"); g.input(format!("{u} to {to}"));
                    let default = ["vxtwitter.com", "fxbsky.app"].contains(&to) && g.flip();
                    let c = if default {one("embed-compatibility")} else {config(&["embed-compatibility"], &[(var, to)])};
                    let path = url::Url::parse(&u).expect("harness/src: url").path().to_string();
                    ensure_eq!(run(c, &u), Ok(format!("https://{to}{path}")), "embed-compatibility", "{u}");
                    Ok(())
                }
            }
        }
    }
}
/// Alternative addresses of a page, and the page.
fn aliases(g: &mut G) -> Res {
    let c = if g.chance(3, 4) {config(&[], &[])} else {&defcfg::variant(g.usize(defcfg::POOL)).1};
    let (x, y) = (id(g), id(g));
    let t = tail(g);
    let lower = {let l = x.to_lowercase().replace('_', "-"); l.trim_matches('-').to_string()};
    let q = g.of(&["", "?a=1", "?q=a+b%26&x=%25", "?utm_source=x&q=1", "#f"]);
    let www = g.of(&["", "www."]);
    let hosts = |k: &str| -> Vec<&'static str> {defcfg::default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"][k].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect()};
    let (u, v, what) = match g.usize(18) {
        0 => {let (a, b) = g.of(&[("mfy.gg", "metafy.gg"), ("buymeacoff.ee", "buymeacoffee.com"), ("cach.me", "cash.app"), ("instagr.am", "instagram.com"), ("lmddgtfy.net", "duckduckgo.com"), ("be.net", "behance.net"), ("fori.io", "foriio.com"), ("wlo.link", "link.space"), ("tee.pub", "www.teepublic.com")]); (format!("{www}{a}{t}"), format!("{b}{t}"), "host")},
        1 => {let h = g.of(&hosts("fixvx")); (format!("{www}{h}/{x}/status/{y}{q}"), format!("x.com/{x}/status/{y}{q}"), "fixvx")},
        2 => (format!("{www}fxbsky.app/profile/{x}.example/post/{y}{q}"), format!("{www}bsky.app/profile/{x}.example/post/{y}{q}"), "fxbsky"),
        3 => (format!("{www}fxdeviantart.com/{x}/art/{y}{q}"), format!("deviantart.com/{x}/art/{y}{q}"), "fxdeviantart"),
        4 => {let e = g.of(&[("", ""), ("?si=abc", ""), ("?t=5", "t=5&"), ("?feature=share&t=5", "t=5&")]); (format!("{www}youtu.be/{x}{}", e.0), format!("youtube.com/watch?{}v={x}", e.1), "youtu.be")},
        5 => {let h = g.of(&hosts("lmgtfy")); (format!("{www}{h}/?q={x}"), format!("google.com/search?q={x}"), "lmgtfy")},
        6 => {let n = 1 + g.below(1 << 20); (format!("{www}bugzil.la/{n}"), format!("bugzilla.mozilla.org/show_bug.cgi?id={n}"), "bugzil.la")},
        7 => (format!("{www}skfb.ly/{x}{q}"), format!("sketchfab.com/s/{x}{q}"), "skfb.ly"),
        8 => (format!("{www}sta.sh/{x}{q}"), format!("deviantart.com/stash/{x}{q}"), "sta.sh"),
        9 => (format!("{www}open.substack.com/pub/{lower}/p/{y}{q}"), format!("{lower}.substack.com/p/{y}{q}"), "open.substack"),
        10 => (format!("{lower}.bsky.social/"), format!("bsky.app/profile/{lower}.bsky.social"), "bsky.social"),
        11 => {let e = g.of(&["", ".bsky", ".bsky.social"]); (format!("{www}bsky.app/profile/{x}{e}/post/{y}"), format!("bsky.app/profile/{x}.bsky.social/post/{y}"), "bsky handle")},
        12 => (format!("{lower}.deviantart.com/art/{y}{q}"), format!("deviantart.com/{lower}/art/{y}{q}"), "deviantart user"),
        13 => {let n = 1 + g.below(1 << 20); (format!("{www}pixiv.net/member.php?id={n}"), format!("pixiv.net/users/{n}"), "pixiv member")},
        14 => (format!("{}twitter.com/{x}/status/{y}{q}", g.of(&["", "www.", "mobile."])), format!("{{}}x.com/{x}/status/{y}{q}"), "twitter"),
        15 => {let r = format!("/{x}/status/{y}"); (format!("{}.com/i/flow/login?redirect_after_login={}", g.of(&["x", "www.x", "twitter"]), comp(&r)), format!("x.com{r}"), "login")},
        16 => {let h = g.of(&["amazon.com", "amazon.co.uk", "www.amazon.de"]); (format!("{h}/{x}-{y}/dp/B0{y}/ref=sr_1_1{}", g.of(&["", "?ie=UTF8&tag=a", "?pd_rd_i=1"])), format!("{h}/dp/B0{y}"), "amazon")},
        _ => (format!("{www}tumblr.com/login_required/{lower}/{y}"), format!("tumblr.com/{lower}/{y}"), "tumblr login")
    };
    // The login page only gives a path; the site is taken to be at https.
    let v = v.replace("{}", if u.starts_with("mobile.") {"mobile."} else {""});
    let scheme = if what != "login" && g.chance(1, 4) {"http"} else {"https"};
    g.label(what); g.input(format!("{u} is {v}")); g.nontrivial();
    agree(c, &format!("{scheme}://{u}"), c, &format!("{scheme}://{v}"), "alias")
}
fn loop_free_image(g: &mut G) -> String {format!("{}/{}.png", g.of(&["example.com", "cdn.example.org/a", "example.co.uk/x/y"]), id(g))}

/// furaffinity's contact info: site name, accepted ways to write the contact ({} is the handle), where it leads.
const FACI: &[(&str, &[&str], &str)] = &[
    ("bluesky", &["{}", "bsky.app/profile/{}", "https://bsky.app/profile/{}", "profile/{}", "http://www.bsky.app/profile/{}"], "https://bsky.app/profile/{}"),
    ("cara", &["{}", "cara.app/{}", "https://www.cara.app/{}"], "https://cara.app/{}"),
    ("dealer's den", &["{}", "store/{}", "thedealersden.com/store/{}", "https://www.thedealersden.com/store/{}"], "https://thedealersden.com/store/{}"),
    ("deviantart", &["{}", "deviantart.com/{}", "https://www.deviantart.com/{}", "{}.deviantart.com", "https://{}.deviantart.com/"], "https://deviantart.com/{}"),
    ("etsy", &["{}", "etsy.com/shop/{}", "https://www.etsy.com/shop/{}", "shop/{}"], "https://etsy.com/shop/{}"),
    ("facebook", &["{}", "facebook.com/{}", "https://www.facebook.com/{}"], "https://facebook.com/{}"),
    ("furry network", &["{}", "furrynetwork.com/{}", "https://furrynetwork.com/{}"], "https://furrynetwork.com/{}"),
    ("inkbunny", &["{}", "inkbunny.net/{}", "http://inkbunny.net/{}"], "https://inkbunny.net/{}"),
    ("itaku", &["{}", "itaku.ee/profile/{}", "https://itaku.ee/profile/{}", "profile/{}"], "https://itaku.ee/profile/{}"),
    ("ko-fi", &["{}", "ko-fi.com/{}", "https://www.ko-fi.com/{}"], "https://ko-fi.com/{}"),
    ("patreon", &["{}", "patreon.com/{}", "https://www.patreon.com/{}"], "https://patreon.com/{}"),
    ("picarto", &["{}", "picarto.tv/{}", "https://picarto.tv/{}"], "https://picarto.tv/{}"),
    ("piczel", &["{}", "watch/{}", "piczel.tv/watch/{}", "https://piczel.tv/watch/{}"], "https://piczel.tv/watch/{}"),
    ("pixiv", &["{}", "users/{}", "pixiv.net/users/{}", "https://www.pixiv.net/users/{}"], "https://pixiv.net/en/users/{}"),
    ("sofurry", &["{}.sofurry.com", "https://{}.sofurry.com/", "www.{}.sofurry.com"], "https://{}.sofurry.com"),
    ("steam", &["{}", "id/{}", "steamcommunity.com/id/{}", "https://www.steamcommunity.com/id/{}"], "https://steamcommunity.com/id/{}"),
    ("transfur", &["{}", "users/{}", "transfur.com/users/{}"], "https://transfur.com/users/{}"),
    ("tumblr", &["{}", "{}.tumblr.com", "https://{}.tumblr.com/", "tumblr.com/{}", "https://www.tumblr.com/{}"], "https://{}.tumblr.com"),
    ("twitch", &["{}", "twitch.tv/{}", "https://www.twitch.tv/{}"], "https://twitch.tv/{}"),
    ("twitter", &["{}", "@{}", "twitter.com/{}", "https://x.com/{}", "https://www.twitter.com/@{}"], "https://x.com/{}"),
    ("weasyl", &["{}", "~{}", "weasyl.com/~{}", "https://www.weasyl.com/~{}"], "https://weasyl.com/~{}"),
    ("x", &["{}", "@{}", "x.com/{}", "https://twitter.com/{}"], "https://x.com/{}"),
    ("youtube", &["{}", "youtube.com/{}", "https://www.youtube.com/{}"], "https://youtube.com/{}")
];
fn case(g: &mut G, s: &str) -> String {match g.usize(4) {0 => s.into(), 1 => s.to_uppercase(), _ => s.split(' ').map(|w| {let mut c = w.chars(); c.next().map(|f| f.to_uppercase().chain(c).collect::<String>()).unwrap_or_default()}).collect::<Vec<_>>().join(" ")}}
fn vars<const N: usize>(x: [(&str, &str); N]) -> std::collections::HashMap<String, String> {x.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()}
fn context(g: &mut G) -> Res {
    let c = config(&[], &[]);
    g.nontrivial();
    match g.usize(4) {
        0 => {
            // Redirect sites whose links show where they lead.
            let (u, reg) = g.of(&[("https://t.co/abc", "x.com"), ("http://t.co/abc", "x.com"), ("https://www.t.co./abc", "x.com"), ("https://allmylinks.com/link/out?id=1", "allmylinks.com")]);
            let d = dest(g);
            let from = g.of(&[reg, reg, reg, "example.com", "x.com", ""]);
            g.input(format!("{u} shown as {d} on {from:?}")); g.label("redirect_shortcut");
            let ctx = TaskContext {vars: vars([("redirect_shortcut", &d)]), ..Default::default()};
            let job = JobContext {vars: if from.is_empty() {Default::default()} else {vars([("SOURCE_REG_DOMAIN", from)])}, ..Default::default()};
            let got = defcfg::clean(c, u, &ctx, &job);
            // On other pages the text of a link is not to be trusted.
            let want = if from == reg {run(c, &d)} else {run(c, u)};
            if let Ok(w) = want {ensure_eq!(got, Ok(w), "redirect_shortcut", "{u}");}
            Ok(())
        },
        1 => {
            let (did, handle) = (format!("did:plc:{}", id(g).to_lowercase()), format!("{}.{}", id(g).to_lowercase().replace('_', "-").trim_matches('-'), g.of(&["bsky.social", "example.com"])));
            let rest = g.of(&["", "/post/3k", "/feed/x"]);
            let host = g.of(&["bsky.app", "www.bsky.app", "example.com"]);
            let u = format!("https://bsky.app/profile/{did}{rest}");
            g.input(format!("{u} of {handle} on {host}")); g.label("bsky_handle");
            let given = g.chance(3, 4);
            let ctx = TaskContext {vars: if given {vars([("bsky_handle", &handle)])} else {Default::default()}, ..Default::default()};
            let job = JobContext {vars: vars([("SOURCE_HOST", host)]), ..Default::default()};
            let want = if given && host.ends_with("bsky.app") {format!("https://bsky.app/profile/{handle}{rest}")} else {u.clone()};
            ensure_eq!(defcfg::clean(c, &u, &ctx, &job), Ok(want), "bsky_handle", "{u}");
            Ok(())
        },
        _ => {
            let (site, forms, to) = g.of(FACI);
            let h: String = id(g).to_lowercase().replace('_', "-").trim_matches('-').to_string();
            let text = g.of(forms).replace("{}", &h);
            let host = g.of(&["furaffinity.net", "www.furaffinity.net", "furaffinity.net", "sfw.furaffinity.net", "example.com"]);
            let name = case(g, site);
            let u = g.of(&["https://www.furaffinity.net/user/x", "https://mangled.example/abc?d=1", "http://example.com/"]);
            g.input(format!("{name}: {text:?} ({u}) on {host}")); g.label(site);
            let ctx = TaskContext {vars: vars([("faci_site_name", &name), ("link_text", &text)]), ..Default::default()};
            let job = JobContext {vars: vars([("SOURCE_HOST", host), ("SOURCE_REG_DOMAIN", host.trim_start_matches("www.").trim_start_matches("sfw."))]), ..Default::default()};
            let got = defcfg::clean(c, u, &ctx, &job);
            let want = if host.contains("furaffinity") {run(c, &to.replace("{}", &h))} else {run(c, u)};
            ensure_eq!(got, want, "contact info", "{name}: {text:?}");
            // A website is a link that only the page's script follows.
            let text = format!("{}{}", g.of(&["example.com", "a.example.co.uk"]), tail(g));
            let ctx = TaskContext {vars: vars([("faci_site_name", &case(g, "website")), ("link_text", &text)]), ..Default::default()};
            let got = defcfg::clean(c, "javascript:void(0);", &ctx, &job);
            let want = if host.contains("furaffinity") {run(c, &format!("https://{text}"))} else {Ok("javascript:void(0);".into())};
            ensure_eq!(got, want, "website", "{text:?} on {host}");
            Ok(())
        }
    }
}

/// The config's own examples, with trackers, `www.` and `http` that shouldn't matter.
fn examples(g: &mut G) -> Res {
    static T: OnceLock<Vec<(serde_json::Value, Vec<(String, String, TaskContext, JobContext)>)>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let t: serde_json::Value = serde_json::from_str(include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/tests.json"))).expect("harness/src: tests.json");
        t["sets"].as_array().expect("harness/src").iter().map(|s| {
            let job: JobContext = s.get("job_context").map(|x| serde_json::from_value(x.clone()).expect("harness/src: job context")).unwrap_or_default();
            (s["params_diff"].clone(), s["tests"].as_array().expect("harness/src").iter().map(|x| {
                let (u, ctx) = match &x["task_config"] {serde_json::Value::String(u) => (u.clone(), TaskContext::default()), o => (o["url"].as_str().expect("harness/src").to_string(), serde_json::from_value(o["context"].clone()).expect("harness/src: task context"))};
                (u, x["result"].as_str().expect("harness/src").to_string(), ctx, job.clone())
            }).collect())
        }).collect()
    });
    let (diff, tests) = &t[g.usize(t.len())];
    let flags: Vec<&str> = diff["flags"].as_array().map(|x| x.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    let (u, want, ctx, job) = &tests[g.usize(tests.len())];
    let mut v = url::Url::parse(u).expect("harness/src: test URL");
    if matches!(v.scheme(), "http" | "https") {
        if v.domain().is_some_and(|d| d.contains('.')) && g.flip() {
            let junk = g.of(&["utm_source=x", "utm_campaign=a%20b", "fbclid=AbC", "utm_medium", "gclid=", "utm_source=https%3A%2F%2Fexample.com%2F%3Fa%3D1&utm_x=y"]);
            let q = match v.query() {None | Some("") => junk.to_string(), Some(q) if g.flip() => format!("{junk}&{q}"), Some(q) => format!("{q}&{junk}")};
            v.set_query(Some(&q)); g.nontrivial();
        }
        let bare = v.host_str().is_some_and(|h| h.contains('.') && h.matches('.').count() == 1 && h.parse::<std::net::Ipv4Addr>().is_err());
        if bare && g.chance(1, 3) {let h = format!("www.{}", v.host_str().unwrap_or_default()); v.set_host(Some(&h)).expect("harness/src"); g.nontrivial();}
        if v.domain().is_some_and(|d| d.contains('.')) && g.chance(1, 3) {let s = if v.scheme() == "http" {"https"} else {"http"}; v.set_scheme(s).expect("harness/src"); g.nontrivial();}
    }
    g.input(format!("{v} with {diff}")); g.label(if flags.is_empty() {"no flags"} else {"flags"});
    let want = url::Url::parse(want).expect("harness/src: test result").to_string();
    ensure_eq!(defcfg::clean(config(&flags, &[]), v.as_str(), ctx, job), Ok(want), "example", "{v} with {diff}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {id: "P31", rule: "redirects: the link goes through at least one redirect site; aliases, flags and context: every case",
        assumptions: &["the table of redirect sites, flags and contacts in harness/src/p31.rs, taken from the default config's documentation and tests, is the specification", "no-network is set"],
        subs: vec![
            Sub {name: "redirects", quick: 150_000, thorough: 3_000_000, threads: 8, f: redirects},
            Sub {name: "aliases", quick: 150_000, thorough: 3_000_000, threads: 8, f: aliases},
            Sub {name: "flags", quick: 150_000, thorough: 3_000_000, threads: 8, f: flags},
            Sub {name: "context", quick: 100_000, thorough: 1_000_000, threads: 8, f: context},
            Sub {name: "examples", quick: 30_000, thorough: 300_000, threads: 8, f: examples}
        ], repro: vec![]}
}
