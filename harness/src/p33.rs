//! P33: short links of the listed services are followed by asking that service, once, and nobody else.
use crate::core::*;
use crate::http;
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url_cleaner::glue::*;
use url_cleaner::types::*;

/// Hosts (and their www subdomain) whose every page is a redirect.
const SHORT: &[&str] = &[
    "2kgam.es", "4.nbcla.com", "a.aliexpress.com", "a.co", "ab.co", "abc7.la", "abc7ne.ws", "adobe.ly", "aje.io", "amzn.asia", "amzn.ew", "amzn.to", "api.link.agorapulse.com", "apple.co", "b23.tv",
    "bbc.in", "bit.ly", "bitly.com", "bityl.co", "blizz.ly", "blockclubchi.co", "bloom.bg", "buff.ly", "bzfd.it", "cbr.sh", "cbsn.ws", "cfl.re", "chn.ge", "chng.it", "clckhl.co", "cnb.cx", "cnn.it",
    "cons.lv", "cos.lv", "cutt.ly", "db.tt", "dcdr.me", "depop.app.link", "dis.gd", "dlvr.it", "econ.st", "etsy.me", "fal.cn", "fanga.me", "fb.me", "fdip.fr", "flip.it", "forms.gle", "g.co", "glo.bo",
    "go.forbes.com", "go.icj-cij.org", "go.microsoft.com", "go.nasa.gov", "go.undp.org", "goo.gl", "goo.su", "gum.co", "hmstr.fr", "hulu.tv", "ift.tt", "intel.ly", "interc.pt", "is.gd", "iwe.one",
    "j.mp", "jbgm.es", "k00.fr", "katy.to", "kck.st", "kre.pe", "l.euronews.com", "l.leparisien.fr", "lin.ee", "line.ee", "link.animaapp.com", "linkr.it", "lnkd.in", "loom.ly", "lpc.ca",
    "m.sesame.org", "mol.im", "msft.it", "msi.gm", "mzl.la", "n.opn.tl", "n.pr", "nas.cr", "nbc4i.co", "ninten.do", "ntdo.co.uk", "nvda.ws", "ny.ti", "nyer.cm", "nyp.st", "nyti.ms", "nyto.ms",
    "on.forbes.com", "on.ft.com", "on.msnbc.com", "on.nyc.gov", "onl.bz", "onl.la", "onl.sc", "operagx.gg", "orlo.uk", "ow.ly", "peoplem.ag", "perfht.ml", "pin.it", "pixiv.me", "pl.go-ga.me",
    "play.st", "politi.co", "prn.to", "propub.li", "py.pl", "qr1.be", "rb.gy", "rblx.co", "rdbl.co", "redd.it", "reut.rs", "rog.gg", "rzr.to", "s.goodsmile.link", "s.team", "s76.co",
    "share.firefox.dev", "shor.tf", "sonic.frack.deals", "sou42.co", "spoti.fi", "spr.ly", "sqex.to", "square.link", "sta.sh", "t.co", "t.ly", "t2m.io", "theatln.tc", "thecut.io", "thef.pub",
    "thr.cm", "thrn.co", "tiny.cc", "tinylf.com", "tmblr.co", "tmz.me", "to.pbs.org", "tps.to", "tr.ee", "trib.al", "u.jd.com", "unes.co", "unf.pa", "uni.cf", "uniceflink.org", "vm.tiktok.com",
    "w.wiki", "wlgrn.com", "wlo.link", "wn.nr", "wp.me", "wwdc.io", "x.gd", "xbx.ly", "xhslink.com", "yrp.ca"
];
/// Services bypass.vip knows.
const BYPASS: &[&str] = &[
    "adfoc.us", "admiregirls-byme.com", "all-fans.online", "badgirlsdrop.com", "bit.do", "bit.ly", "booo.st", "boost.ink", "bst.gg", "cemendemons.com", "depravityweb.co", "fansmega.com",
    "free-leaks.com", "goldmega.online", "hotstars-leaks.com", "ift.tt", "is.gd", "leakutopia.site", "links-loot.com", "linksloot.net", "linkvertise.com", "loot-link.com", "loot-links.com",
    "lootdest.com", "lootdest.info", "lootdest.org", "lootlink.org", "lootlinks.co", "mboost.me", "mega-guy.com", "megadropz.com", "megadumpz.com", "newsociety0.co", "ofpacksmega.com", "only-fun.xyz",
    "onlymega.co", "paster.so", "pnp-drops.me", "premiumstashdrop.com", "rareofhub.com", "rebrand.ly", "rekonise.com", "secret-links.com", "secretpack-links.com", "socialwolvez.com", "st.news",
    "sub2get.com", "sub2unlock.com", "sub2unlock.io", "sub2unlock.net", "sub4unlock.io", "t.co", "tavernleaks.com", "thepremium.online", "tiny.cc", "tinylf.com", "tinylink.onl", "tinyurl.com",
    "tomxcontent.com", "unlock.com", "unlocknow.net", "v.gd", "wc.wtf", "work.ink", "xprmpacks.com"
];
/// Links (`*`: a token) of the other services, and where the question goes.
const ASK: &[(&str, &str)] = &[
    ("boxd.it/*", "boxd.it/*"), ("shorturl.at/*", "www.shorturl.at/*"), ("www.shorturl.at/*", "www.shorturl.at/*"), ("open-api.tiktok.com/*?a=1&open_id=2&b=3", "open-api.tiktok.com/*?open_id=2"), ("pulse.ly/*", "api.link.agorapulse.com/redirect/*"), ("a.pulse.ly/*", "api.link.agorapulse.com/redirect/*"),
    ("visitlink.me/*", "visitlink.me/*"), ("shop.visitlink.me/*", "visitlink.me/*"), ("images.app.goo.gl/*", "images.app.goo.gl/*"), ("maps.goo.gl/*", "maps.goo.gl/*"), ("a.o93x.net/c/*", "a.o93x.net/c/*"), ("fireship.page.link/*", "fireship.page.link/*"), ("page.link/*", "page.link/*"), ("zq.onelink.me/*?pid=1&c=2", "zq.onelink.me/*"), ("onelink.me/*", "onelink.me/*"),
    ("pawoo.net/oauth_authentications/*?provider=x", "pawoo.net/oauth_authentications/*?provider=x"), ("api.pinterest.com/url_shortener/*/redirect", "api.pinterest.com/url_shortener/*/redirect"), ("allmylinks.com/link/out?id=*", "allmylinks.com/link/out?id=*"), ("substack.com/redirect/*?j=1", "substack.com/redirect/*?j=1"), ("substack.com/app-link/post?post_id=*", "substack.com/app-link/post?post_id=*"),
    ("sketchfab.com/s/*", "sketchfab.com/s/*"), ("skfb.ly/*", "sketchfab.com/s/*"), ("qudsnen.co/?p=*", "qudsnen.co/?p=*"), ("facebook.com/share/*", "facebook.com/share/*"), ("www.facebook.com/share/p/*/", "www.facebook.com/share/p/*/"), ("reddit.com/r/zq/s/*", "reddit.com/r/zq/s/*"), ("www.reddit.com/r/zq/s/*", "reddit.com/r/zq/s/*"), ("old.reddit.com/r/zq/s/*", "old.reddit.com/r/zq/s/*"), ("www.teepublic.com/lic/*", "www.teepublic.com/lic/*"), ("tee.pub/lic/*", "www.teepublic.com/lic/*"),
    ("action.openmedia.org/page/email/click/*?x=1", "action.openmedia.org/page/email/click/*"), ("awin1.com/cread.php?awinmid=*&p=1", "awin1.com/cread.php?awinmid=*&p=1"), ("api.linkr.com/*", "api.linkr.com/*")
];
/// Links whose page shows the destination between two texts.
const BETWEEN: &[(&str, &str, &str, &str)] = &[
    ("1link.club/*", "1link.club/*", "<a id=\"download\" href=\"", "\""), ("bfy.tw/*", "bfy.tw/*", "href=\"", "\""), ("gprivate.com/*", "gprivate.com/*", "window.location = \"", "\""), ("reurl.cc/*", "reurl.cc/*", "value=\"", "\"/>"),
    ("tinyurl.com/*", "tinyurl.com/preview/*", "let url = \"", "\""), ("tinyurl.com/app/*", "tinyurl.com/preview/*", "let url = \"", "\""), ("tinyurl.com/preview/*", "tinyurl.com/preview/*", "let url = \"", "\""), ("preview.tinyurl.com/*", "tinyurl.com/preview/*", "let url = \"", "\"")
];
/// Pages near those that are not short links.
const QUIET: &[&str] = &[
    "https://zq.bit.ly/a", "https://bit.ly.example.com/a", "https://zqbit.ly/a", "https://zqt.co/a", "https://t.co.example.org/", "https://facebook.com/zq", "https://facebook.com/shares/a", "https://facebook.com/a/share/b", "https://reddit.com/r/zq/comments/a", "https://www.reddit.com/", "https://substack.com/p/a",     "https://substack.com/app-link/posts", "https://sketchfab.com/3d-models/a", "https://sketchfab.com/zq/s", "https://pawoo.net/@zq", "https://qudsnen.co/a", "https://qudsnen.co/?q=1", "https://overpass-turbo.eu/", "https://overpass-turbo.eu/zq/s", "https://teepublic.com/t-shirt/1", "https://teepublic.com/a/lic", "https://allmylinks.com/zq", "https://allmylinks.com/link/out/a", "https://api.pinterest.com/v5/a",
    "https://action.openmedia.org/page/1", "https://awin1.com/a", "https://zqtinyurl.com/a", "https://tinyurl.com.example.org/a", "https://zqgoo.gl/a", "https://goo.gl.example.com/", "https://google.com/search?q=bit.ly", "https://example.com/?url=https://bit.ly/a", "https://shareasale.com/a", "https://shareasale-analytics.com/m.cfm?x=1", "https://lnk.bio/zq", "https://youtube.com/watch?v=zq", "https://127.0.0.1/a", "https://x.com/zq"
];

/// A proxy that answers for everyone, with the certificate of everyone.
struct Mitm {addr: SocketAddr, answers: Arc<Mutex<HashMap<String, Vec<u8>>>>, log: Arc<Mutex<Vec<(String, http::Req)>>>}
impl Mitm {
    fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("harness/src: loopback listener");
        let addr = l.local_addr().expect("harness/src: loopback address");
        let (answers, log): (Arc<Mutex<HashMap<String, Vec<u8>>>>, Arc<Mutex<Vec<(String, http::Req)>>>) = Default::default();
        let id = native_tls::Identity::from_pkcs8(include_bytes!("../tls/mitm.pem"), include_bytes!("../tls/key.pem")).expect("harness/src: identity");
        let acceptor = Arc::new(native_tls::TlsAcceptor::new(id).expect("harness/src: acceptor"));
        let (a, lg) = (answers.clone(), log.clone());
        std::thread::spawn(move || for c in l.incoming() {
            let Ok(mut c) = c else {continue};
            let (a, lg, acceptor) = (a.clone(), lg.clone(), acceptor.clone());
            let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
            let _ = c.set_nodelay(true);
            std::thread::spawn(move || {
                let Some(r) = http::read_req(&mut c) else {return;};
                let serve = |s: &mut dyn http::Both, r: http::Req, u: String| {
                    let out = a.lock().expect("harness/src: answers").get(&canon(&u)).cloned();
                    lg.lock().expect("harness/src: log").push((u, r));
                    match out {Some(o) if o.is_empty() => return, Some(o) => {let _ = s.write_all(&o);}, None => {let _ = s.write_all(&http::answer(404, &[], b""));}}
                    let _ = s.flush();
                };
                if r.method == "CONNECT" {
                    let host = r.target.strip_suffix(":443").unwrap_or(&r.target).to_string();
                    if c.write_all(b"HTTP/1.1 200 OK\r\n\r\n").is_err() {return;}
                    // An untrusted tunnel shows in the log as a CONNECT without a request.
                    let Ok(mut t) = acceptor.accept(c) else {lg.lock().expect("harness/src: log").push((format!("CONNECT {host}"), r)); return;};
                    let Some(q) = http::read_req(&mut t) else {lg.lock().expect("harness/src: log").push((format!("CONNECT {host}"), r)); return;};
                    let u = format!("https://{host}{}", q.target);
                    serve(&mut t, q, u);
                    let _ = t.shutdown();
                } else {let u = r.target.clone(); serve(&mut c, r, u); let _ = c.shutdown(std::net::Shutdown::Write); let mut rest = [0u8; 512]; while matches!(c.read(&mut rest), Ok(n) if n > 0) {}}
            });
        });
        Self {addr, answers, log}
    }
    fn taken(&self) -> Vec<(String, http::Req)> {std::mem::take(&mut *self.log.lock().expect("harness/src: log"))}
}
struct Net {mitm: Mitm, configs: RefCell<HashMap<String, &'static Config>>}
impl Net {
    fn config(&self, flags: &[&str], key: Option<&str>) -> &'static Config {
        self.configs.borrow_mut().entry(format!("{flags:?} {key:?}")).or_insert_with(|| {
            let mut c = Config::get_default_no_cache().expect("harness/src: the default config loads");
            c.params.flags.extend(flags.iter().map(|x| x.to_string()));
            if let Some(k) = key {c.params.vars.insert("bypass.vip-api-key".into(), k.into());}
            c.params.http_client_config.proxies = serde_json::from_value(json!([{"url": format!("http://{}", self.mitm.addr)}])).expect("harness/src: proxies");
            c.params.http_client_config.extra_certificates = serde_json::from_value(json!([include_str!("../tls/mitm.pem")])).expect("harness/src: certificates");
            Box::leak(Box::new(c))
        })
    }
}
thread_local! {static NET: Net = Net {mitm: Mitm::new(), configs: Default::default()};}
fn clean(c: &Config, cache: &Cache, u: &str, ctx: &TaskContext, job: &JobContext) -> Result<String, String> {
    let task = Task {url: BetterUrl::parse(u).map_err(|e| format!("parse: {e}"))?, config: c, context: ctx.clone(), job_context: job, cache};
    task.r#do().map(|u| u.to_string()).map_err(|e| format!("{e}: {e:?}"))
}
fn run(c: &Config, cache: &Cache, u: &str) -> Result<String, String> {clean(c, cache, u, &TaskContext::default(), &JobContext::default())}

fn token(g: &mut G) -> String {let n = 2 + g.usize(6); (0..n).map(|_| g.of(&['a', 'b', 'Q', '1', '9', '_', 'z', 'x'])).fold("zt".into(), |mut s: String, c| {s.push(c); s})}
#[derive(Clone, Debug)]
enum Page {Redirect, Between(&'static str, &'static str), Smart, Lnk, Js, Bypass}
struct Hop {link: String, asked: String, page: Page, odd: bool}
/// A short link, and what is asked about it.
fn hop(g: &mut G, flags: &[&str], key: Option<&str>) -> Hop {
    let t = token(g);
    let upgrade = !flags.contains(&"no-https-upgrade");
    let s = if g.chance(1, 4) {"http"} else {"https"};
    let asked_s = if upgrade {"https"} else {s};
    let own = g.of(&["", "", "?id=1&x=a%20b", "?q=é"]);
    let own = own.replace('é', "%C3%A9");
    // What identifies the click stays with the user.
    let junk = g.of(&["", "", "utm_source=x", "fbclid=AbC&utm_medium=y", "gclid=1"]);
    let frag = g.of(&["", "", "#top"]);
    let add = |q: &str, junk: &str, front: bool| if junk.is_empty() {q.to_string()} else if q.is_empty() {format!("?{junk}")} else if front {format!("?{junk}&{}", &q[1..])} else {format!("{q}&{junk}")};
    let front = g.flip();
    let dot = if g.chance(1, 10) {"."} else {""};
    let bypass = flags.contains(&"bypass.vip");
    let kind = if bypass && g.flip() {6} else {g.weighted(&[8, 5, 4, 1, 1, 1])};
    let split = |x: &str| {let (p, q) = match x.split_once('?') {Some((p, q)) => (p.to_string(), format!("?{q}")), None => (x.to_string(), String::new())}; let (h, p) = p.split_once('/').map(|(h, p)| (h.to_string(), format!("/{p}"))).unwrap_or((p.clone(), "/".into())); (h, p, q)};
    let make = |link: &str, asked: &str, page: Page| {
        let (h, p, q) = split(&link.replace('*', &t));
        let odd = link != asked || bypass && link.contains("tinyurl");
        Hop {link: format!("{s}://{h}{dot}{p}{}{frag}", add(&q, junk, front)), asked: format!("{asked_s}://{}", asked.replace('*', &t)), page, odd}
    };
    match kind {
        0 => {
            let h = g.of(SHORT);
            let www = if g.chance(1, 5) {"www."} else {""};
            g.label(h);
            // bypass.vip is asked instead, when it's on.
            if bypass && BYPASS.contains(&h) {return by(h, &t, &own, asked_s, key);}
            make(&format!("{www}{h}/*{own}"), &format!("{}{h}/*{own}", if www.is_empty() || h.matches('.').count() == 1 || COUNTRY.contains(&h) {""} else {"www."}), Page::Redirect)
        },
        1 => {let (l, a) = g.of(ASK); g.label(l); let mut h = make(l, a, Page::Redirect); if l.contains("open_id") || l.contains("onelink.me") || l.contains("openmedia") {h.asked = format!("{asked_s}://{}", a.replace('*', &t));} h},
        2 => {let (l, a, x, y) = BETWEEN[g.usize(BETWEEN.len() - bypass as usize)]; g.label(l); make(l, a, Page::Between(x, y))},
        3 => {g.label("smarturl.it"); make(&format!("smarturl.it/*{own}"), &format!("smarturl.it/*{own}"), Page::Smart)},
        4 => {g.label("lnk.to"); let sub = g.of(&["", "zq."]); Hop {link: format!("https://{sub}lnk.to/{t}{own}"), asked: format!("https://{sub}lnk.to/{t}{own}"), page: Page::Lnk, odd: false}},
        5 => {g.label("shareasale"); let h = g.of(&["shareasale.com", "shareasale-analytics.com", "www.shareasale.com"]); make(&format!("{h}/r.cfm?b=1&zq=2&u=*&m=3&urlli=4"), "shareasale-analytics.com/r.cfm?b=1&u=*&m=3", Page::Js)},
        _ => {let h = g.of(BYPASS); if h == "tinyurl.com" {return make("tinyurl.com/*", "tinyurl.com/preview/*", Page::Between("let url = \"", "\""));} g.label("bypass.vip"); by(h, &t, &own, asked_s, key)}
    }
}
const COUNTRY: &[&str] = &["ntdo.co.uk"];
fn by(h: &str, t: &str, own: &str, s: &str, key: Option<&str>) -> Hop {
    let l = format!("{s}://{h}/{t}{own}");
    let asked = format!("https://api.bypass.vip{}/bypass?url={}", if key.is_some() {"/premium"} else {""}, comp(&l));
    Hop {link: l, asked, page: Page::Bypass, odd: SHORT.contains(&h)}
}
/// The same question, however it is spelled.
fn canon(u: &str) -> String {match u.split_once('?') {Some((x, q)) if x.starts_with("https://api.bypass.vip/") => format!("{x}?{}", form(q)), _ => u.into()}}
fn comp(s: &str) -> String {s.bytes().map(|b| if b.is_ascii_alphanumeric() {(b as char).to_string()} else {format!("%{b:02X}")}).collect()}
fn form(s: &str) -> String {form_urlencoded::parse(s.as_bytes()).map(|(k, v)| format!("{k}={v}&")).collect()}
fn page(g: &mut G, p: &Page, next: &str) -> Vec<u8> {
    let junk = g.of(&["", "<!doctype html>\n<p>hi</p>\n", "{\"a\": \"b\"}", "é\u{1F600} let's\n"]);
    let status = g.of(&[200, 200, 200, 404]);
    match p {
        Page::Redirect => {
            let st = g.of(&[301, 302, 303, 307, 308]);
            let n = g.of(&["location", "Location", "LOCATION"]);
            http::answer(st, &[(n.into(), next.as_bytes().to_vec()), ("set-cookie".into(), b"a=b".to_vec())], junk.as_bytes())
        },
        Page::Between(a, b) => {
            let again = if g.flip() {format!("{a}https://wrong.example/{b}")} else {String::new()};
            let junk = if junk.contains('"') {""} else {junk};
            http::answer(status, &[], format!("{junk}{a}{next}{b}>x</a>{again}").as_bytes())
        },
        Page::Smart => {let n = if g.flip() {next.replace('/', "\\/")} else {next.into()}; http::answer(status, &[], format!("{{\"x\":1,\"originalUrl\":\"{n}\",\"y\":\"z\"}}").as_bytes())},
        Page::Lnk => {let n = if g.flip() {next.replace('/', "\\/")} else {next.into()}; http::answer(status, &[], format!("{junk}var destination = {{\"id\":1,\"url\":\"{n}\"}};\n var x = 1;\n").as_bytes())},
        Page::Js => {let n = if g.flip() {next.replace('/', "\\/")} else {next.into()}; let q = g.of(&['"', '\'']); http::answer(status, &[], format!("{junk}window.location.replace({q}{}{q});", n.replace('(', "\\u0028").replace(')', "\\u0029").replace('\'', "\\x27")).as_bytes())},
        Page::Bypass => {let n = if g.flip() {next.replace('/', "\\/")} else {next.into()}; http::answer(status, &[], format!("{{\"status\":\"success\",\"result\":\"{n}\"}}").as_bytes())}
    }
}
fn dest(g: &mut G) -> String {
    let d = format!("{}://{}{}", g.of(&["https", "https", "http"]), g.of(&["example.com", "www.example.com", "example.org", "a.example.co.uk", "youtube.com", "x.com", "zq.tumblr.com"]), g.of(&["/", "/a/b", "/watch?v=zq&si=1", "/zq?utm_source=x&id=1", "/a%20b?q=(x)&y='z'", "/é?é=è#frag", "/?a&b=&=c", "/zq/status/1?s=20&t=x"]));
    url::Url::parse(&d).map(|u| u.to_string()).unwrap_or(d)
}
const FLAGS: &[&[&str]] = &[&[], &[], &["no-https-upgrade"], &["bypass.vip"], &["unmobile"], &["embed-compatibility"], &["invidious", "keep-lang"]];

fn follow(g: &mut G) -> Res {NET.with(|net| {
    let flags = g.of(FLAGS);
    let key = if flags.contains(&"bypass.vip") && g.flip() {Some("se cret")} else {None};
    let c = net.config(flags, key);
    let d = dest(g);
    let n = 1 + g.weighted(&[5, 3, 1]);
    let mut hops: Vec<Hop> = vec![];
    for _ in 0..n {
        let h = hop(g, flags, key);
        // What these lead to is followed before it is tidied up.
        let raw = hops.last().is_some_and(|x| !matches!(x.page, Page::Redirect) || x.link.contains("//awin1.com")) && h.odd;
        if !raw && hops.iter().all(|x| x.asked != h.asked) {hops.push(h);}
    }
    let mut answers = HashMap::new();
    for i in 0..hops.len() {
        let mut next = hops.get(i + 1).map(|h| h.link.clone()).unwrap_or_else(|| d.clone());
        // Services can be short about where on them it goes on.
        if matches!(hops[i].page, Page::Redirect) && let (Ok(a), Ok(b)) = (url::Url::parse(&hops[i].asked), url::Url::parse(&next)) && a.origin() == b.origin() && g.flip() {next = next.splitn(4, '/').nth(3).map(|x| format!("/{x}")).unwrap_or(next);}
        // lf is lnk.to's own.
        answers.insert(canon(&hops[i].asked), page(g, &hops[i].page, &next));
    }
    let first = hops[0].link.clone();
    g.input(format!("{} {flags:?}", hops.iter().map(|h| format!("{} ", h.link)).collect::<String>() + &d));
    g.nontrivial();
    let (cache, other) = (Cache::from(CachePath::Memory), Cache::from(CachePath::Memory));
    *net.mitm.answers.lock().expect("harness/src: answers") = answers;
    net.mitm.taken();
    let want = run(c, &other, &d);
    ensure!(net.mitm.taken().is_empty(), "request for a plain page", "{d}");
    let Ok(want) = want else {return Ok(());};
    let got = run(c, &cache, &first);
    let asked = net.mitm.taken();
    let urls: Vec<String> = asked.iter().map(|x| canon(&x.0)).collect();
    let wanted: Vec<String> = hops.iter().map(|h| canon(&h.asked)).collect();
    ensure!(urls == wanted, "asked", "{first}: asked {urls:?}, should ask {wanted:?} (result {got:?})");
    ensure_eq!(got, Ok(want.clone()), "followed", "{first}");
    for (u, r) in &asked {
        ensure_eq!(&*r.method, "GET", "method", "{u}");
        ensure!(r.body.is_empty(), "body", "{u}");
        for (h, v) in [("user-agent", "Firefox"), ("dnt", "1"), ("sec-gpc", "1")] {ensure_eq!(r.all(h), vec![v.to_string()], "headers", "{h} of {u}");}
        for h in ["referer", "cookie", "origin"] {ensure!(r.all(h).is_empty(), "headers", "{h} of {u}: {:?}", r.all(h));}
        let k = if u.starts_with("https://api.bypass.vip/") {key.map(String::from)} else {None};
        ensure_eq!(r.all("x-api-key"), k.into_iter().collect::<Vec<_>>(), "API key", "{u}");
    }
    // And never again.
    ensure_eq!(run(c, &cache, &first), Ok(want), "remembered", "{first}");
    let asked: Vec<String> = net.mitm.taken().into_iter().map(|x| x.0).collect();
    ensure!(asked.is_empty(), "asked twice", "{first}: {asked:?}");
    Ok(())
})}

/// Pages that are no short links, and everything when the network is off limits: nobody is asked.
fn quiet(g: &mut G) -> Res {NET.with(|net| {
    let off = g.flip();
    let mut flags = g.of(FLAGS).to_vec();
    let u = if off {hop(g, &flags, None).link} else {let u = g.of(QUIET).to_string(); let u = if g.chance(1, 4) {u.replacen("https", "http", 1)} else {u}; if g.flip() && !u.contains('?') {format!("{u}?utm_source=x&id=1")} else {u}};
    if off {flags.push("no-network");}
    let c = net.config(&flags, if g.flip() {Some("k")} else {None});
    g.input(format!("{u} {flags:?}")); g.label(if off {"no-network"} else {"not a short link"}); g.nontrivial();
    net.mitm.taken();
    let cache = Cache::from(CachePath::Memory);
    let r = run(c, &cache, &u);
    let asked: Vec<String> = net.mitm.taken().into_iter().map(|x| x.0).collect();
    ensure!(asked.is_empty(), "asked", "{u} {flags:?}: {asked:?}");
    if !off {ensure!(r.is_ok(), "quiet failure", "{u}: {r:?}");}
    Ok(())
})}

/// An answer that says nothing is an error, and isn't remembered.
fn faults(g: &mut G) -> Res {NET.with(|net| {
    let flags = g.of(FLAGS);
    let c = net.config(flags, None);
    let h = hop(g, flags, None);
    if matches!(h.page, Page::Lnk) {return Ok(());}
    let d = dest(g);
    let (cache, other) = (Cache::from(CachePath::Memory), Cache::from(CachePath::Memory));
    let k = g.usize(4);
    let bad = match k {
        0 => vec![],
        1 if matches!(h.page, Page::Redirect) => http::answer(302, &[], b""),
        2 if matches!(h.page, Page::Redirect) => http::answer(302, &[("location".into(), b"http://[".to_vec())], b""),
        1 | 2 => http::answer(200, &[], b"<p>not here</p>"),
        _ => b"nonsense\r\n\r\n".to_vec()
    };
    g.input(format!("{} {flags:?}: {:?}, then {d}", h.link, String::from_utf8_lossy(&bad))); g.label(["dropped", "nothing", "no URL", "not HTTP"][k]); g.nontrivial();
    let set = |x: Vec<u8>| {net.mitm.answers.lock().expect("harness/src: answers").insert(canon(&h.asked), x);};
    net.mitm.answers.lock().expect("harness/src: answers").clear();
    set(bad);
    let r = run(c, &cache, &h.link);
    ensure!(r.is_err(), "failure taken for an answer", "{}: {r:?}", h.link);
    net.mitm.taken();
    let good = page(g, &h.page, &d);
    set(good);
    let Ok(want) = run(c, &other, &d) else {return Ok(());};
    ensure_eq!(run(c, &cache, &h.link), Ok(want), "failure remembered", "{}", h.link);
    ensure!(net.mitm.taken().len() == 1, "failure remembered", "{}", h.link);
    Ok(())
})}

pub fn prop() -> Prop {
    Prop {id: "P33", rule: "follow: at least one short link is followed; quiet and faults: every case",
        assumptions: &["the services and what their answers look like are the tables in harness/src/p33.rs, taken from the default config and its network tests", "requests go through a proxy on the loopback interface that answers for everyone, with a certificate the client is told to trust"],
        subs: vec![
            Sub {name: "follow", quick: 12_000, thorough: 300_000, threads: 8, f: follow},
            Sub {name: "quiet", quick: 8_000, thorough: 100_000, threads: 8, f: quiet},
            Sub {name: "faults", quick: 4_000, thorough: 60_000, threads: 8, f: faults}
        ], repro: vec![]}
}
