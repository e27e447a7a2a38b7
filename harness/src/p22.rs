//! P22: the default config on any URL: no errors, one result, nothing left to clean, no requests, and flags only for their own sites.
use crate::core::*;
use crate::defcfg;
use crate::http::{self, Server};
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex, OnceLock};
use url_cleaner::types::*;

type Trap = (std::net::SocketAddr, Arc<Mutex<Vec<http::Req>>>);
/// Any request the configs of this process make is seen and answered here.
fn trap() -> &'static Trap {
    static S: OnceLock<Trap> = OnceLock::new();
    S.get_or_init(|| {
        let s = Server::new(Box::new(|_| http::answer(200, &[], b"<a id=\"download\" href=\"https://example.com/\">")));
        let t = (s.addr, s.log.clone());
        std::mem::forget(s);
        t
    })
}
fn load(flags: &[String]) -> Config {
    let mut c = Config::get_default_no_cache().expect("harness/src: the default config loads");
    c.params.flags = flags.iter().cloned().collect();
    c.params.http_client_config = serde_json::from_value(json!({"proxies": [{"url": format!("http://{}", trap().0)}]})).expect("harness/src: client config");
    c
}
struct Setup {flags: Vec<String>, config: Config, twin: Config}
/// The flag sets of `defcfg::variant`, each with two configs that share nothing but their text.
fn setup(i: usize) -> &'static Setup {
    static P: OnceLock<Vec<OnceLock<Setup>>> = OnceLock::new();
    P.get_or_init(|| (0..defcfg::POOL).map(|_| OnceLock::new()).collect())[i % defcfg::POOL].get_or_init(|| {
        let flags = defcfg::variant(i).0.clone();
        Setup {config: load(&flags), twin: load(&flags), flags}
    })
}
/// Hosts that exist to redirect: a link without (a valid) destination means nothing.
const REDIRECTORS: &[&str] = &["go.bsky.app", "e.emailalerts.cnn.com", "href.li", "l.instagram.com", "l.threads.com", "proxy.notsobot.com", "o93x.net", "out.reddit.com", "t.umblr.com", "ss3.shipstation.com", "click.notification.elsevier.com", "urldefense.com", "lmgtfy2.com", "lmddgtfy.net"];
/// Pages of other sites that do, by host (and its subdomains) and start of path.
const PAGES: &[(&str, &str)] = &[
    ("action.openmedia.org", "/page/email"), ("api.linkr.bio", "/callbacks/go"), ("api.linkr.com", "/callbacks/go"), ("awin1.com", "/cread.php"), ("deviantart.com", "/users/outgoing"),
    ("duckduckgo.com", "/l/"), ("duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion", "/l/"), ("goodreads.com", "/gp/r.html"), ("lnk.bio", "/go"), ("pixiv.net", "/jump.php"),
    ("smartadserver.com", "/click"), ("subscribestar.adult", "/away"), ("substack.com", "/redirect"), ("toyhou.se", "/~r"), ("twpf.jp", "/home/jump"), ("vk.com", "/away.php"), ("youtube.com", "/redirect"), ("tumblr.com", "/safe-mode"),
    ("steamcommunity.com", "/linkfilter"), ("x.com", "/i/flow/login"), ("twitter.com", "/i/flow/login"), ("onelink.me", ""), ("facebook.com", "/l.php"), ("1link.club", "")
];
fn under(host: &str, of: &str) -> bool {host == of || host.strip_suffix(of).is_some_and(|h| h.ends_with('.'))}
fn bare(u: &url::Url) -> String {
    let h = u.host_str().unwrap_or("");
    let h = h.strip_suffix('.').unwrap_or(h);
    h.strip_prefix("www.").unwrap_or(h).to_string()
}
fn redirects(u: &url::Url) -> bool {
    let h = bare(u);
    REDIRECTORS.contains(&h.as_str()) || PAGES.iter().any(|(s, p)| under(&h, s) && u.path().starts_with(p)) || (h.contains("google.") && u.path() == "/url")
}
/// A redirect to a link of a redirector.
fn nested(u: &url::Url) -> bool {
    let rest = percent_encoding::percent_decode_str(&u[url::Position::BeforePath..]).decode_utf8_lossy().into_owned();
    redirector_known(&bare(u)) && REDIRECTORS.iter().chain(PAGES.iter().map(|x| &x.0)).any(|h| rest.contains(h))
}
/// Paths with empty or repeated segments (`/login_required/login_required`) mean nothing to the sites.
fn odd_path(u: &url::Url) -> bool {
    let s: Vec<&str> = u.path_segments().map(|s| s.collect()).unwrap_or_default();
    let n = s.len();
    s.iter().enumerate().any(|(i, x)| if x.is_empty() {i + 1 < n} else {s[..i].iter().any(|y| y.trim_start_matches("Special:").eq_ignore_ascii_case(x.trim_start_matches("Special:")))})
}
fn has(flags: &[String], f: &str) -> bool {flags.iter().any(|x| x == f)}
/// A host as the DNS could have it.
fn meaningful(u: &url::Url) -> bool {
    let Some(url::Host::Domain(h)) = u.host() else {return true;};
    let h = h.strip_suffix('.').unwrap_or(h);
    !h.split('.').any(str::is_empty)
}
/// Defects recorded in known-findings.txt.
fn known(u: &url::Url, flags: &[String], once: &str) -> Option<&'static str> {
    let o = url::Url::parse(once).ok()?;
    let (h, b) = (bare(u), bare(&o));
    let mobile = |l: &str| l == "m" || l == "mobile";
    if has(flags, "unmobile") && has(flags, "unbreezewiki") && ["m", "mobile"].iter().any(|m| b == format!("{m}.fandom.com")) && !under(&h, "fandom.com") {return Some("unbreezewiki-mobile-wiki");}
    // A mobile or mirror address of a redirecting page: the page comes out, unexpanded.
    let plain = if has(flags, "unmobile") {h.split('.').filter(|l| !mobile(l) && *l != "www").collect::<Vec<_>>().join(".")} else {h.clone()};
    let fronts = plain != h || under(&h, "fxdeviantart.com") || mirrors("invidious").contains(&plain);
    if fronts && b != h && (redirects(&o) || redirector_known(&b)) {return Some("front-of-redirector");}
    None
}
fn redirector_known(h: &str) -> bool {
    static S: OnceLock<BTreeSet<String>> = OnceLock::new();
    let s = S.get_or_init(|| {
        let mut s: BTreeSet<String> = REDIRECTORS.iter().map(|x| x.to_string()).collect();
        s.extend(PAGES.iter().map(|x| x.0.to_string()));
        for k in ["redirect-hwwwwdpafqdnps", "bypass.vip-hwwwwdpafqdnps", "redirect-reg-domains", "email-link-format-1-hosts"] {for x in defcfg::default_json()["params"]["sets"][k].as_array().into_iter().flatten() {if let Some(x) = x.as_str() {s.insert(x.to_string());}}}
        s.extend("1link.club action.openmedia.org allmylinks.com api.linkr.bio api.pinterest.com awin1.com bfy.tw boxd.it bugzil.la buymeacoff.ee buymeacoffee.com cach.me carleton.ca cash.app mfy.gg qudsnen.co facebook.com gprivate.com instagr.am instagram.com lnk.bio lnk.to m.vk.com old.reddit.com open.substack.com pawoo.net pixiv.net preview.tinyurl.com pulse.ly reddit.com reurl.cc shareasale-analytics.com shareasale.com sketchfab.com skfb.ly smarturl.it tee.pub teepublic.com tinyurl.com visitlink.me".split(' ').map(String::from));
        s
    });
    s.contains(h) || h.contains("google")
}
fn case(g: &mut G, of: fn(&mut G) -> String) -> Res {
    let s = setup(if g.flip() {0} else {g.usize(defcfg::POOL)});
    let text = of(g);
    let Ok(u) = url::Url::parse(&text) else {return Ok(());};
    if !meaningful(&u) {return Ok(());}
    g.input(format!("{text} [{}]", s.flags.join(" ")));
    g.label(if redirects(&u) {"redirector"} else {"plain"});
    let (t, j) = (TaskContext::default(), JobContext::default());
    let got = defcfg::clean(&s.config, &text, &t, &j);
    if g.chance(1, 3) {
        let again = defcfg::clean(if g.flip() {&s.config} else {&s.twin}, &text, &t, &j);
        ensure_eq!(got, again, "deterministic", "cleaning {text} again with {}", s.flags.join(", "));
    }
    let once = match got {
        Ok(o) => o,
        Err(e) => {ensure!(redirects(&u) || nested(&u), "error", "cleaning {text} with {}: {e}", s.flags.join(", ")); return Ok(());}
    };
    if once != u.as_str() {g.nontrivial();}
    match url::Url::parse(&once) {Ok(p) => ensure_eq!(once, p.to_string(), "result", "the result of cleaning {text} isn't what it parses to"), Err(e) => ensure!(false, "result", "{text} became {once}: {e}")}
    // A share link of nothing at all.
    if bare(&u) == "at.tumblr.com" && redirects(&u) {return Ok(());}
    if odd_path(&u) {g.label("odd path"); return Ok(());}
    let twice = defcfg::clean(&s.config, &once, &t, &j);
    if twice.as_ref() != Ok(&once) {
        let sig = known(&u, &s.flags, &once).unwrap_or("idempotent");
        ensure!(false, sig, "cleaning {text} with {}\n  once:  {once}\n  twice: {twice:?}", s.flags.join(", "));
    }
    Ok(())
}
fn any(g: &mut G) -> Res {case(g, defcfg::known_url)}
fn sites(g: &mut G) -> Res {case(g, defcfg::site_url)}
fn network(g: &mut G) -> Res {
    let seen = |when: &str| -> Res {let n = trap().1.lock().expect("harness/src: log"); ensure!(n.is_empty(), "network", "requests were made {when}: {:?}", n.iter().take(3).collect::<Vec<_>>()); Ok(())};
    seen("before")?;
    for i in 0..60 {
        // The answers are the other checks' business.
        match case(g, if i % 2 == 0 {defcfg::known_url} else {defcfg::site_url}) {Err(f) if f.sig == "panic" => return Err(f), _ => {}}
    }
    seen("")
}

/// Words that appear in every URL a flag is about. URLs without them anywhere are none of its business.
const ABOUT: &[(&str, &[&str])] = &[
    ("breezewiki", &["fandom", "breezewiki", "wiki", "bw.", "antifandom"]), ("unbreezewiki", &["fandom", "breezewiki", "wiki", "bw.", "antifandom"]),
    ("nitter", &["twitter", "x.com", "nitter", "fxbsky", "tw"]), ("unnitter", &["twitter", "x.com", "nitter", "tw"]),
    ("invidious", &["youtu", "invidious", "yewtu"]), ("uninvidious", &["youtu", "invidious", "yewtu"]),
    ("embed-compatibility", &["twitter", "x.com", "nitter", "bsky", "tw", "furaffinity", "deviantart", "pixiv", "phixiv", "ppxiv", "reddit", "rxddit", "instagram", "tiktok"]),
    ("discord-unexternal", &["discord"]), ("tor2web2tor", &["onion"]), ("tumblr-unsubdomain-blog", &["tumblr", "umblr"]),
    ("youtube-unlive", &["youtu", "invidious", "yewtu"]), ("youtube-unplaylist", &["youtu", "invidious", "yewtu"]), ("youtube-unshort", &["youtu", "invidious", "yewtu"]), ("youtube-unembed", &["youtu", "invidious", "yewtu"]), ("youtube-keep-sub-confirmation", &["youtu", "invidious", "yewtu"]),
    ("instagram-unprofilecard", &["instagr"]), ("furaffinity-sfw", &["furaffinity"]), ("furaffinity-unsfw", &["furaffinity"])
];
/// Hosts of mirror sites per flag, which need none of those words.
fn mirrors(flag: &str) -> &'static BTreeSet<String> {
    static M: OnceLock<std::collections::BTreeMap<&'static str, BTreeSet<String>>> = OnceLock::new();
    static NONE: OnceLock<BTreeSet<String>> = OnceLock::new();
    M.get_or_init(|| {
        let cats = &defcfg::default_json()["params"]["named_partitionings"]["hwwwwdpafqdnp_categories"];
        let list = |k: &str| cats[k].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect::<BTreeSet<_>>();
        let mut m = std::collections::BTreeMap::new();
        for (f, k) in [("breezewiki", "breezewiki"), ("unbreezewiki", "breezewiki"), ("nitter", "nitter"), ("unnitter", "nitter"), ("embed-compatibility", "nitter"), ("invidious", "invidious"), ("uninvidious", "invidious")] {m.insert(f, list(k));}
        m
    }).get(flag).unwrap_or_else(|| NONE.get_or_init(BTreeSet::new))
}
fn concerns(flag: &str, words: &[&str], url: &str, u: &url::Url) -> bool {
    let mut low = url.to_ascii_lowercase();
    low.push_str(&percent_encoding::percent_decode_str(&low).decode_utf8_lossy().into_owned());
    words.iter().any(|w| low.contains(w)) || mirrors(flag).iter().any(|m| low.contains(m.as_str())) || redirects(u) && u.path().len() > 30
}
fn unrelated(g: &mut G) -> Res {
    static BASE: OnceLock<Config> = OnceLock::new();
    static WITH: OnceLock<Vec<Config>> = OnceLock::new();
    let base = BASE.get_or_init(|| load(&["no-network".into()]));
    let with = WITH.get_or_init(|| ABOUT.iter().map(|(f, _)| load(&["no-network".into(), f.to_string()])).collect());
    let text = if g.flip() {defcfg::known_url(g)} else {defcfg::site_url(g)};
    let Ok(u) = url::Url::parse(&text) else {return Ok(());};
    if !meaningful(&u) {return Ok(());}
    let (t, j) = (TaskContext::default(), JobContext::default());
    let want = defcfg::clean(base, &text, &t, &j);
    g.input(text.clone());
    for (i, (f, words)) in ABOUT.iter().enumerate() {
        if concerns(f, words, u.as_str(), &u) {continue;}
        g.nontrivial();
        let got = defcfg::clean(&with[i], &text, &t, &j);
        ensure_eq!(want, got, "unrelated-flag", "{f} on {text}");
    }
    Ok(())
}
fn repro(text: &str, flags: &[&str]) -> Res {
    let flags: Vec<String> = flags.iter().map(|x| x.to_string()).collect();
    let c = load(&flags);
    let (t, j) = (TaskContext::default(), JobContext::default());
    let u = url::Url::parse(text).expect("harness/src: repro");
    let once = defcfg::clean(&c, text, &t, &j).map_err(|e| Fail {sig: "error".into(), msg: e})?;
    let twice = defcfg::clean(&c, &once, &t, &j);
    ensure!(twice.as_ref() == Ok(&once), known(&u, &flags, &once).unwrap_or("idempotent"), "cleaning {text}\n  once:  {once}\n  twice: {twice:?}");
    Ok(())
}
fn r1() -> Res {repro("https://m.href.li/?https://example.com/", &["no-network", "unmobile"])}
fn r3() -> Res {repro("https://bw.projectsegfau.lt/m/wiki/A", &["no-network", "unmobile", "unbreezewiki"])}
pub fn prop() -> Prop {
    Prop {
        id: "P22",
        rule: "a case is non-trivial when cleaning changes the URL (for unrelated flags: when some flag is about other sites)",
        assumptions: &["hosts with empty labels aren't semantically valid, and of paths with empty or repeated segments only success and determinism are demanded", "links of redirect services without a valid destination may be errors; the services and their paths are a table in the check", "flags that ask for opposite rewrites aren't combined", "task and job context empty"],
        subs: vec![
            Sub {name: "any", quick: 120_000, thorough: 4_000_000, threads: 8, f: any},
            Sub {name: "sites", quick: 200_000, thorough: 6_000_000, threads: 8, f: sites},
            Sub {name: "unrelated", quick: 30_000, thorough: 600_000, threads: 8, f: unrelated},
            Sub {name: "network", quick: 2_000, thorough: 20_000, threads: 8, f: network}
        ],
        repro: vec![("front-of-redirector", r1), ("unbreezewiki-mobile-wiki", r3)]
    }
}
