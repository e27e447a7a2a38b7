//! P32: the sites the default config knows lose exactly the noise listed for them.
use crate::core::*;
use crate::ensure_eq;
use crate::gn;
use crate::p31::{config, run};
use url_cleaner::types::Config;

/// How a rule finds its sites.
#[derive(Clone, Copy, Debug)]
enum At {Reg(&'static str), Host(&'static str), Middle(&'static str), Suffix(&'static str)}
/// What it takes from the query.
#[derive(Clone, Copy, Debug)]
enum Noise {Names(&'static [&'static str], &'static [&'static str]), Only(&'static [&'static str], &'static [&'static str], &'static [&'static str]), All}
use At::*;
use Noise::*;
const fn names(x: &'static [&'static str]) -> Noise {Names(x, &[])}
const fn only(x: &'static [&'static str]) -> Noise {Only(x, &[], &[])}
/// The site, the pages (`*`: something of its own), and the noise there. Pages of a site that aren't listed have none.
type Row = (At, &'static [(&'static str, Noise)]);
const DISNEY: Noise = names(&["cid", "cmp", "att", "t", "DISCID", "r"]);
const INSTA: Noise = names(&["igshid", "igsh", "xmt", "ig_mid", "e", "g"]);
const REDDIT: Noise = only(&["f"]);
const GOOGLE: Noise = names(&["sca_esv", "usp"]);
const AMAZON: Noise = Names(&["ref", "ref_", "ie", "_encoding", "content-id", "store_ref"], &["pd_", "pf_"]);
const SITES: &[Row] = &[
    (Reg("acer.com"), &[("/*", Names(&[], &["internal_"]))]), (Host("addons.mozilla.org"), &[("/*", names(&["platform", "appver"]))]), (Reg("alibaba.com"), &[("/*", names(&["spm", "selectedCarrierCode", "fsb", "tracelog"]))]),
    (Reg("amtrak.com"), &[("/*", names(&["atv", "cmp"]))]), (Reg("atom.bio"), &[("/*", names(&["menu_origin"]))]), (Reg("bbc.com"), &[("/*", Names(&[], &["at_"]))]),
    (Reg("beacons.ai"), &[("/*", Names(&["pageViewSource", "show_back_button"], &["refer"]))]), (Reg("bell.ca"), &[("/*", names(&["INT"]))]), (Reg("boosty.to"), &[("/*", names(&["share"]))]),
    (Reg("cbc.ca"), &[("/*", names(&["__vfz"]))]), (Reg("cbsnews.com"), &[("/*", names(&["ftag", "linkId"]))]), (Reg("cnbc.com"), &[("/*", names(&["par"]))]), (Reg("cnn.com"), &[("/*", names(&["bt_ee", "bt_ts"]))]),
    (Reg("drinkctrl.com"), &[("/*", names(&["redirect", "ref", "tid"]))]), (Reg("duckduckgo.com"), &[("/*", names(&["t", "atb", "ia"]))]), (Reg("duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion"), &[("/*", names(&["t", "atb", "ia"]))]),
    (Reg("facebook.com"), &[("/*", names(&["fs", "s", "mibextid", "rf", "share_url", "rdid"])), ("/reel", All), ("/reel/*", All)]), (Reg("go.com"), &[("/*", DISNEY)]), (Reg("marvel.com"), &[("/*", DISNEY)]),
    (Reg("goodreads.com"), &[("/*", names(&["ref_"])), ("/book/show/*", All), ("/book/*", names(&["ref_"]))]), (Reg("hp.com"), &[("/*", names(&["jumpid"]))]), (Reg("hulu.com"), &[("/*", names(&["from"]))]),
    (Reg("inkbunny.net"), &[("/*", names(&[])), ("/submissionsviewall.php", names(&["rid"])), ("/submissionsviewall.php/*", names(&[]))]), (Reg("ipetitions.com"), &[("/*", names(&[])), ("/petition", All), ("/petition/*", All), ("/petitions", names(&[]))]),
    (Reg("lenovo.com"), &[("/*", names(&["IPromoID"]))]), (Reg("linktr.ee"), &[("/*", names(&["ltsid"]))]), (Reg("loblaws.ca"), &[("/*", names(&["navid", "icid", "icta"]))]), (Reg("marshmallow-qa.com"), &[("/*", names(&["t"]))]),
    (Reg("minds.com"), &[("/*", names(&["referrer"]))]), (Reg("pawoo.net"), &[("/*", names(&["provider"]))]),
    (Reg("reddit.com"), &[("/*", REDDIT), ("/r/*", REDDIT), ("/search", names(&["share_id", "cid"])), ("/search/*", names(&["share_id", "cid"])), ("/domain/*", only(&["count", "after"])), ("/r/search", REDDIT)]),
    (Reg("roblox.com"), &[("/*", only(&["keyword", "Keyword"]))]), (Reg("snapchat.com"), &[("/*", names(&["purpose", "sp"]))]), (Reg("spotify.com"), &[("/*", names(&["si"]))]), (Reg("stackoverflow.com"), &[("/*", names(&["so_medium", "so_source", "c"]))]),
    (Reg("steampowered.com"), &[("/*", names(&["snr"]))]), (Reg("subscribestar.adult"), &[("/*", names(&["redirect_notice"]))]), (Reg("teespring.com"), &[("/*", All)]), (Reg("theguardian.com"), &[("/*", names(&["CMP"]))]),
    (Reg("thelancet.com"), &[("/*", names(&[])), ("/commissions/*", All), ("/journals/*", All), ("/journals", All), ("/*/journals", names(&[]))]), (Reg("theonion.com"), &[("/*", only(&["s"]))]),
    (Reg("tiktok.com"), &[("/*", Names(&["checksum", "source", "u_code", "timestamp", "user_id", "enable_checksum"], &["_", "sec_", "ug", "is_from", "sender", "share", "social_"]))]),
    (Reg("washingtonpost.com"), &[("/*", names(&["itid", "nid", "arcId", "account_location", "tid", "oscode", "s_l", "acqEntType", "p", "s_ct"]))]), (Reg("yahoo.com"), &[("/*", names(&["p", "src", "pspid", "activity", ".src", "specId", "y"]))]),
    (Reg("youtube.com"), &[("/*", names(&["si", "feature", "pp", "app", "sub_confirmation"])), ("/watch", names(&["si", "feature", "pp", "app", "sub_confirmation"])), ("/shorts/*", names(&["si", "feature", "pp", "app", "sub_confirmation"]))]),
    (Reg("tumblr.com"), &[("/*", All), ("/search/*", names(&[])), ("/*/search", names(&[])), ("/*/*/search", All)]),
    (Suffix("carrd.co"), &[("/*", names(&["ref"]))]),
    (Host("aliexpress.com"), &[("/*", names(&["spm"])), ("/item/*", All), ("/item", All), ("/items", names(&["spm"]))]), (Host("1688.com"), &[("/*", names(&["spm"]))]), (Host("disney.com"), &[("/*", DISNEY)]), (Host("instagram.com"), &[("/*", INSTA), ("/p/*", INSTA)]), (Host("threads.net"), &[("/*", INSTA)]), (Host("apps.apple.com"), &[("/*", names(&["pt", "ct", "mt"]))]), (Host("danbooru.donmai.us"), &[("/*", names(&[])), ("/posts", names(&["q"])), ("/posts/*", names(&["q"]))]),
    (Host("overview.mail.yahoo.com"), &[("/*", All)]), (Host("play.google.com"), &[("/*", names(&["referrer", "sca_esv", "usp"]))]), (Host("support.google.com"), &[("/*", names(&["ref_topic", "sca_esv", "usp"]))]),
    (Host("sale.alibaba.com"), &[("/*", names(&["spm", "selectedCarrierCode", "fsb", "tracelog"])), ("/p/*", names(&["spm", "selectedCarrierCode", "fsb", "tracelog", "wx_navbar_transparent", "path", "ncms_spm", "prefetchKey", "wx_xpage", "cardType"]))]),
    (Host("x.com"), &[("/*", only(&["q", "f", "pf", "lf"])), ("/*/status/1", only(&["q", "f", "pf", "lf"])), ("/intent/*", names(&[])), ("/*/intent", only(&["q", "f", "pf", "lf"]))]),
    (Middle("bestbuy"), &[("/*", names(&["icmp"]))]), (Middle("ebay"), &[("/*", names(&[])), ("/itm/*", All), ("/itm", All), ("/*/itm", names(&[]))]), (Middle("pinterest"), &[("/*", All), ("/search/*", names(&[])), ("/search", names(&[])), ("/*/search", All)]),
    (Middle("google"), &[("/*", GOOGLE), ("/search", only(&["q", "tbm", "p", "udm", "filter", "vsrid", "vsdim", "vsint", "ins_vfs", "nfpr", "hl"])), ("/search/*", GOOGLE), ("/setprefs", names(&["sa", "ved", "sca_esv", "usp"]))]),
    (Middle("amazon"), &[("/zq*", AMAZON), ("/s", Only(&["k", "i", "rh", "bbn"], &[], &[])), ("/gp/buyagain", only(&["ats"])), ("/gp/customer-reviews", All), ("/amazonprime", All), ("/product-reviews/*", All), ("/dp/B0ABC", only(&["aod"])), ("/gp/*", AMAZON)])
];
/// Names listed for some site, or close to one.
fn listed() -> &'static Vec<String> {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut s = std::collections::BTreeSet::new();
        for (_, pages) in SITES {for (_, n) in *pages {match n {
            Names(a, b) | Only(a, b, _) => {for x in a.iter() {s.insert(x.to_string());} for x in b.iter() {s.insert(format!("{x}x")); s.insert(x.to_string());}},
            All => {}
        }}}
        s.into_iter().collect()
    })
}
const PLAIN: &[&str] = &["id", "page", "v", "zq", "x", "sort", "token", "é", "a b", "time_continue", "SI", "Ref_", "q", "k", "tag"];
fn noise(n: Noise, name: &str) -> bool {
    match n {
        Names(names, prefixes) => names.contains(&name) || prefixes.iter().any(|p| name.starts_with(p)),
        Only(keep, names, prefixes) => !keep.contains(&name) || names.contains(&name) || prefixes.iter().any(|p| name.starts_with(p)),
        All => true
    }
}
/// Names that are noise everywhere, or not judged here.
fn elsewhere(name: &str, at: At) -> bool {name == "lang" || crate::p21::tracked(name) || name == "redirect_to" || matches!(at, Reg("drinkctrl.com")) && name == "url" || matches!(at, Host("instagram.com" | "threads.net")) && name == "hl"}
fn near(g: &mut G, s: &str) -> String {match g.usize(6) {0 => format!("{s}x"), 1 => format!("z{s}"), 2 => s.to_uppercase(), 3 => s.chars().skip(1).collect(), 4 => {let mut t = s.to_string(); t.pop(); t}, _ => format!("{s}_")}}
fn spell(g: &mut G, n: &str) -> String {
    let mut o = String::new();
    for b in n.bytes() {if b == b' ' {o.push('+')} else if b > 127 || b"&=#+%".contains(&b) || g.chance(1, 40) {o.push_str(&format!("%{b:02X}"))} else {o.push(b as char)}}
    o
}
fn word(g: &mut G) -> String {let n = 1 + g.usize(4); format!("zq{}", (0..n).map(|_| g.of(&['a', 'b', '1', 'x', 'Q'])).collect::<String>())}
const TLDS: &[&str] = &["com", "co.uk", "de", "ca", "co.jp"];
fn host(g: &mut G, at: At) -> String {
    match at {
        // The search of a blog is at another place on its own subdomain.
        Reg("tumblr.com") => "tumblr.com".into(),
        Reg(r) => format!("{}{r}", if g.chance(1, 3) {g.of(&["shop.", "a.b.", "en.", "zq."])} else {""}),
        Host(h) => h.to_string(),
        Middle(m) => format!("{}{m}.{}", if g.chance(1, 4) {g.of(&["zq.", "a.b."])} else {""}, g.of(TLDS)),
        Suffix(s) => format!("{}.{s}", g.of(&["zq", "abc"]))
    }
}
/// A host that looks like the site's and isn't (nor anyone else's).
fn stranger(g: &mut G, at: At) -> String {
    match at {
        Reg(r) => match g.usize(3) {0 => format!("zq{r}"), 1 => format!("{r}.zq.example"), _ => format!("{}-zq.com", r.split('.').next().unwrap_or("a"))},
        Host(h) => match g.usize(3) {
            0 => format!("{h}.zq.example"),
            // A subdomain of an entry that is a host (where no rule is about the registrable domain).
            1 if matches!(h, "1688.com" | "addons.mozilla.org" | "aliexpress.com" | "apps.apple.com" | "danbooru.donmai.us" | "disney.com" | "instagram.com" | "threads.net") => format!("{}.{h}", g.of(&["zq", "shop", "en", "zq.b"])),
            _ => format!("zq{h}.example")
        },
        Middle(m) => match g.usize(3) {0 => format!("zq{m}.com"), 1 => format!("{m}.zq.example"), _ => format!("{m}zq.co.uk")},
        Suffix(s) => format!("{}.zq.example", s)
    }
}
fn setup(g: &mut G) -> &'static Config {config(g.of(&[&[][..], &[], &["unmobile"], &["youtube-unplaylist", "keep-lang"], &["unbreezewiki"], &["bypass.vip"], &["tor2web2tor"]]), &[])}
fn page(g: &mut G, p: &str) -> String {p.split('*').enumerate().map(|(i, x)| if i == 0 {x.to_string()} else {let w = word(g); let w = if w.len() % 3 == 0 {format!("{w}/{}", g.of(&["1", "a", "b.html"]))} else {w}; format!("{w}{x}")}).collect()}

fn query(g: &mut G) -> Res {
    let c = setup(g);
    let (at, pages) = SITES[g.usize(SITES.len())];
    let (p, mut n) = pages[g.usize(pages.len())];
    let mut h = host(g, at);
    if g.chance(1, 8) {h = stranger(g, at); n = names(&[]); g.label("not the site");} else {g.label(match at {Reg(x) | Host(x) | Middle(x) | Suffix(x) => x});}
    // A site within another has the rules of both.
    let mut path = if p.matches('*').count() > 1 {p.replacen('*', "zq1", 1).replace('*', "zq2")} else {page(g, p)};
    if p.contains("search") && p.matches('*').count() == 1 && p.starts_with("/*") {path = format!("/zqa{}", &p[2..]);}
    if p.starts_with("/*/") && p.matches('*').count() == 1 {path = format!("/zqa{}", &p[2..]);}
    let k = g.weighted(&[1, 2, 4, 4, 2]);
    let mut noisy = 0;
    let params: Vec<(String, String, bool)> = (0..k).map(|_| {
        let own: Vec<String> = match n {Names(a, b) | Only(a, b, _) => a.iter().map(|x| x.to_string()).chain(b.iter().map(|x| format!("{x}{}", ["", "x", "1"][k % 3]))).collect(), All => vec![]};
        let mut name = match g.weighted(&[4, 3, 2, 2]) {
            0 if !own.is_empty() => own[g.usize(own.len())].clone(),
            1 => g.of(PLAIN).to_string(),
            2 => {let l = listed(); l[g.usize(l.len())].clone()},
            _ => {let b = if own.is_empty() {g.of(PLAIN).to_string()} else {own[g.usize(own.len())].clone()}; near(g, &b)}
        };
        if elsewhere(&name, at) || name.is_empty() || c.params.flags.contains("youtube-unplaylist") && name == "list" {name = "id".into();}
        let value = match g.usize(5) {0 => String::new(), 1 => gn::qvalue(g).replace(|c: char| matches!(c, '&' | '#') || c <= ' ', ""), 2 => "https%3A%2F%2Fexample.com%2F%3Fsi%3D1%26utm_source%3Dx".into(), _ => g.of(&["1", "x", "abc"]).to_string()};
        let gone = noise(n, &name);
        noisy += gone as usize;
        let s = spell(g, &name);
        (s.clone(), if value.is_empty() && g.flip() {s} else {format!("{s}={value}")}, gone)
    }).collect();
    if noisy > 0 {g.nontrivial();}
    let join = |x: Vec<&str>| if x.is_empty() {String::new()} else {format!("?{}", x.join("&"))};
    let fragment = if g.chance(1, 5) {g.of(&["#top", "#a=1", "#zq/b?c"])} else {""};
    let dirty = join(params.iter().map(|x| &*x.1).collect());
    let clean = join(params.iter().filter(|x| !x.2).map(|x| &*x.1).collect());
    let www = if !h.starts_with("www") && g.chance(1, 4) && !matches!(at, Suffix(_)) {"www."} else {""};
    // A www before another subdomain is not a www subdomain.
    let www = if host_is_bare(&h, at) || matches!(at, Host("x.com" | "aliexpress.com")) && h.len() < 15 {www} else {""};
    let u = format!("{}://{www}{h}{}{path}{dirty}{fragment}", g.of(&["https", "https", "http"]), if g.chance(1, 10) {"."} else {""});
    let v = format!("https://{h}{path}{clean}{fragment}");
    let Ok(v) = url::Url::parse(&v) else {return Ok(());};
    g.input(u.clone());
    ensure_eq!(run(c, &u), Ok(v.to_string()), "noise", "{u}");
    Ok(())
}
fn host_is_bare(h: &str, at: At) -> bool {match at {Reg(r) => h == r, Middle(m) => h.starts_with(m) && !h.contains("zq"), _ => false}}

/// Noise in paths and fragments, and noise that depends on a parameter.
fn other(g: &mut G) -> Res {
    let c = setup(g);
    let q = g.of(&["", "?id=1", "?page=2&x=a%20b"]);
    let w = word(g);
    g.nontrivial();
    let (u, v, what): (String, String, &'static str) = match g.usize(14) {
        0 => {let (h, f, gone) = g.of(&[("bell.ca", "INT=x", true), ("bell.ca", "INT=", true), ("bell.ca", "int=x", false), ("bell.ca", "aINT=x", false), ("history.com", "link_time=1", true), ("history.com", "link_times", true), ("history.com", "a=link_time", false), ("washingtonpost.com", "link-x", true), ("washingtonpost.com", "a-link", false), ("example.com", "INT=x", false), ("example.com", "link_time=1", false)]); (format!("https://{h}/{w}{q}#{f}"), if gone {format!("https://{h}/{w}{q}")} else {format!("https://{h}/{w}{q}#{f}")}, "fragment")},
        1 => {let (f, to) = g.of(&[("ref=x", ""), ("source=a&ref=b", ""), ("a=1&ref=b&c=2", "#a=1&c=2"), ("top", "#top"), ("refs=1", "#refs=1"), ("a&source", "#a")]); (format!("https://browserstack.com/{w}{q}#{f}"), format!("https://browserstack.com/{w}{q}{to}"), "browserstack")},
        2 => {let (f, to) = g.of(&[("vhid=x", ""), ("vhid=x&vssid=y", ""), ("a=1&vssid=b&c=2", "#a=1&c=2"), ("top", "#top"), ("vhidd=1", "#vhidd=1")]); let t = g.of(TLDS); (format!("https://google.{t}/{w}{q}#{f}"), format!("https://google.{t}/{w}{q}{to}"), "google fragment")},
        3 => {let n = g.usize(4); let e: String = (0..n).map(|i| format!("/h_{}", ["a", "", "12", "h_"][i])).collect(); let keep = g.of(&["", "/2024/h_x/zq"]); (format!("https://cnn.com{keep}/{w}{e}{q}"), format!("https://cnn.com{keep}/{w}{q}"), "cnn")},
        4 => {let page = g.of(&["post", "post", "posts", "comment"]); let (a, b) = g.of(&[("&tags=a+b", "&id=1"), ("&tags=", ""), ("", "&id=2")]); (format!("https://gelbooru.com/index.php?page={page}{a}{b}"), format!("https://gelbooru.com/index.php?page={page}{}{b}", if page == "post" {""} else {a}), "gelbooru")},
        5 => {let s = g.of(&["view", "view", "list"]); let on = g.flip(); let c = if on {config(&["remove-unused-search-query"], &[])} else {c}; let (u, v) = (format!("https://rule34.xxx/index.php?page=post&s={s}&id=1&tags=a+b"), format!("https://rule34.xxx/index.php?page=post&s={s}&id=1{}", if on && s == "view" {""} else {"&tags=a+b"})); g.label("rule34"); g.input(u.clone()); ensure_eq!(run(c, &u), Ok(v), "rule34", "{u}"); return Ok(());},
        6 => {let (p, gone) = g.of(&[("/ip/name/123", true), ("/ip/name", false), ("/ip/name/123/4", false), ("/browse/name/123", false)]); let p = format!("/{}{p}", g.of(&["zq", "en"])); let t = g.of(&["com", "ca"]); (format!("https://walmart.{t}{p}{q}"), if gone {format!("https://walmart.{t}{}{q}", p.replace("/name", ""))} else {format!("https://walmart.{t}{p}{q}")}, "walmart")},
        7 => {let t = g.of(TLDS); let n = g.usize(3); let e: String = (0..n).map(|i| format!("/ref={}", ["sr_1", "", "x%20y"][i])).collect(); (format!("https://amazon.{t}/{w}{e}{q}"), format!("https://amazon.{t}/{w}{q}"), "amazon ref")},
        8 => {let t = g.of(TLDS); let a = g.of(&["?aod=1", "", "?x=1"]); (format!("https://amazon.{t}/gp/offer-listing/B0{w}{a}"), format!("https://amazon.{t}/dp/B0{w}?aod=1"), "amazon offers")},
        9 => {let t = g.of(TLDS); let before = g.of(&["", "/some-name", "/x"]); let after = g.of(&["", "/123-456-789", "/ref=x", "/000", "/1-2/ref=sr", "/ref=a/1-2"]); let a = g.of(&["", "?aod=1", "?aod=1&tag=x&th=1", "?psc=1"]); (format!("https://amazon.{t}{before}/dp/B0{w}{after}{a}"), format!("https://amazon.{t}/dp/B0{w}{}", if a.contains("aod") {"?aod=1"} else {""}), "amazon product")},
        10 => {let b = g.of(&["staff", "zqblog"]); let (x, y) = g.of(&[("", ""), ("/123", ""), ("/123/slug", "/slug"), ("/slug/123", "/123")]); (format!("https://at.tumblr.com/{b}{x}{}", g.of(&["", "?source=share", "?utm_source=x"])), format!("https://tumblr.com/{b}{y}"), "at.tumblr")},
        11 => {let p = g.of(&["/a/b", "/x"]); (format!("https://tumblr.com/{w}?redirect_to={}&x=1", p.replace('/', "%2F")), format!("https://tumblr.com{p}"), "tumblr redirect_to")},
        12 => {let h = g.of(&["spotify.com", "open.spotify.com"]); (format!("https://{h}/track/{w}?si=abc&utm_source=x&id=1&si=2"), format!("https://{h}/track/{w}?id=1"), "twice")},
        _ => {let (h, p) = g.of(&[("thrn.co", "/u"), ("thrn.co", "/wl")]); (format!("https://{h}{p}/{w}{q}"), format!("https://throne.com/{w}{q}"), "thrn")}
    };
    g.label(what); g.input(u.clone());
    ensure_eq!(run(c, &u), Ok(url::Url::parse(&v).map(|v| v.to_string()).unwrap_or(v)), "other", "{u}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {id: "P32", rule: "query: at least one parameter is noise on that page; other: every case",
        assumptions: &["the table of sites and parameters in harness/src/p32.rs, taken from the default config, is the specification", "no-network is set"],
        subs: vec![
            Sub {name: "query", quick: 400_000, thorough: 8_000_000, threads: 8, f: query},
            Sub {name: "other", quick: 150_000, thorough: 2_000_000, threads: 8, f: other}
        ], repro: vec![]}
}
