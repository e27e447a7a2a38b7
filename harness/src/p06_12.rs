//! P06 to P12: every element of the config language against the reference interpreter.
use crate::core::*;
use crate::cfg::{self, Cx};
use crate::real::{parse, Env};
use crate::refcfg::{self, Er, St};
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use url_cleaner::types::*;

/// Results agree, and an explicit error that the documentation lets through comes out.
fn same<T: PartialEq + std::fmt::Debug, E: std::fmt::Display + std::fmt::Debug>(real: Result<T, E>, model: Result<T, Er>, what: &str) -> Res {
    match (real, model) {
        (Ok(a), Ok(b)) => ensure_eq!(a, b, "value", "{what}"),
        (Err(e), Err(Er {explicit: Some(m), ..})) => ensure_eq!(e.to_string(), format!("Explicit error: {m}"), "which-error", "{what}"),
        (Err(_), Err(_)) => {},
        (Ok(a), Err(e)) => return fail("error-missing", format!("{what}: got {a:?}, expected the error {e:?}")),
        (Err(e), Ok(b)) => return fail("error-unexpected", format!("{what}: got the error {e} ({e:?}), expected {b:?}"))
    }
    Ok(())
}
fn unchanged(e: &Env, before: &(String, Option<HostDetails>, JobScratchpad), what: &str) -> Res {
    ensure_eq!(&e.snapshot(), before, "evaluation-changed-the-task", "{what}");
    Ok(())
}
fn state_eq(e: &Env, st: &St, what: &str) -> Res {
    ensure_eq!(e.url.as_str(), st.url.as_str(), "url", "{what}");
    let flags: std::collections::BTreeSet<String> = e.pad.flags.iter().cloned().collect();
    let vars: std::collections::BTreeMap<String, String> = e.pad.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ensure_eq!((&flags, &vars), (&st.pad.flags, &st.pad.vars), "scratchpad", "{what}");
    ensure_eq!(e.url.host_details(), BetterUrl::from(st.url.clone()).host_details(), "host-details", "{what}");
    Ok(())
}
fn classes(g: &mut G, v: &Value) {
    let mut s = Default::default();
    cfg::variants(v, &mut s);
    for x in s {g.label(x);}
}
fn short(st: &Value) -> String {json!({"url": st["url"], "pad": st["pad"], "common": st["common"], "context": st["context"]}).to_string()}
fn depth(g: &mut G) -> u32 {g.weighted(&[3, 4, 4, 2]) as u32}

type Gen = for<'a, 'b> fn(&'a mut Cx<'b>, u32) -> Value;
fn case(g: &mut G, commons: u32, f: Gen) -> (Value, Value) {
    let d = depth(g);
    let mut cx = Cx::new(g);
    if commons == 0 {cx.commons = 0;}
    let st = cx.state(commons);
    let v = f(&mut cx, d);
    g.input(v.to_string());
    g.input(short(&st));
    if commons > 0 {g.input(st["commons"].to_string());}
    classes(g, &v);
    (st, v)
}

fn cond(g: &mut G, commons: u32) -> Res {
    let (st, v) = case(g, commons, |c, d| c.condition(d));
    let e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let r = parse::<Condition>(&v).satisfied_by(&e.view());
    let m = refcfg::condition(&v, &St::new(&st));
    if m.is_ok() && v.is_object() {g.nontrivial();}
    g.label(match &m {Ok(true) => "true", Ok(false) => "false", Err(_) => "error"});
    same(r, m, &v.to_string())?;
    unchanged(&e, &before, &v.to_string())
}
fn p06_plain(g: &mut G) -> Res {cond(g, 0)}

/// The error filters: which failure a handler takes.
fn p06_errors(g: &mut G) -> Res {
    let mut cx = Cx::new(g);
    let st = cx.state(1);
    let leaf = |cx: &mut Cx| {
        let s = json!("a");
        match cx.g.usize(12) {
            0 => json!({"Error": "e1"}),
            1 => json!({"PartContains": {"part": "Password", "value": "x"}}),
            2 => json!({"StringContains": {"value": null, "substring": "x"}}),
            3 => json!({"StringMatches": {"value": "a", "matcher": {"Error": "e2"}}}),
            4 => json!({"StringContains": {"value": "a", "substring": "a", "where": {"Error": "e3"}}}),
            5 => json!({"StringIs": {"left": {"Error": "e4"}, "right": s}}),
            6 => json!({"TryElse": {"try": {"Error": "e5"}, "else": {"Error": "e6"}}}),
            7 => json!({"Common": "c9"}),
            8 => json!({"Common": {"name": "c0", "args": {"vars": {"v": {"Error": "e7"}}}}}),
            9 => json!({"FlagIsSet": {"type": "Common", "name": {"Error": "e8"}}}),
            10 => json!({"VarIs": {"type": "Scratchpad", "name": null, "value": s}}),
            _ => json!({"PartMatches": {"part": "Password", "matcher": "Always"}})
        }
    };
    let a = leaf(&mut cx);
    let filt = |cx: &mut Cx| {let mut v = cx.g.vec(0, 6, |g| g.of(cfg::FILTERS).to_string()); v.sort(); v.dedup(); v};
    let f = filt(&mut cx);
    let mut v = match cx.g.usize(3) {
        0 => {let mut o = a.as_object().unwrap().clone(); o.insert("filter".into(), json!(f)); json!({"TreatErrorAsPass": o})},
        1 => {let mut o = a.as_object().unwrap().clone(); o.insert("filter".into(), json!(f)); json!({"TreatErrorAsFail": o})},
        _ => {let b = if cx.g.flip() {leaf(&mut cx)} else {json!("Always")}; json!({"TryElse": {"try": a, "else": b, "filter": f}})}
    };
    if cx.g.chance(1, 3) {let f = filt(&mut cx); let mut o = v.as_object().unwrap().clone(); o.insert("filter".into(), json!(f)); v = json!({"TreatErrorAsPass": o});}
    g.input(v.to_string());
    g.nontrivial();
    let e = Env::new(&st).expect("harness/src");
    same(parse::<Condition>(&v).satisfied_by(&e.view()), refcfg::condition(&v, &St::new(&st)), &v.to_string())
}

fn hay(g: &mut G) -> String {
    match g.usize(5) {0 => crate::gn::string(g, 5), 1 => crate::gn::query(g), 2 => g.of(cfg::STRS).repeat(2), _ => g.of(cfg::STRS).into()}
}
fn matcher_case(g: &mut G, commons: u32) -> Res {
    let h = hay(g);
    let (st, v) = case(g, commons, |c, d| c.matcher(d));
    g.input(format!("{h:?}"));
    let e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let r = parse::<StringMatcher>(&v).satisfied_by(&h, &e.view());
    let m = refcfg::matcher(&v, &h, &St::new(&st));
    if m.is_ok() && v.is_object() {g.nontrivial();}
    g.label(match &m {Ok(true) => "true", Ok(false) => "false", Err(_) => "error"});
    same(r, m, &format!("{v} on {h:?}"))?;
    unchanged(&e, &before, &v.to_string())
}
fn p07_matcher(g: &mut G) -> Res {matcher_case(g, 0)}
fn p07_location(g: &mut G) -> Res {
    let h = hay(g);
    // A needle that often occurs.
    let n = if g.flip() {let cs: Vec<usize> = h.char_indices().map(|x| x.0).chain([h.len()]).collect(); let (a, b) = (g.usize(cs.len()), g.usize(cs.len())); h[cs[a.min(b)]..cs[a.max(b)]].to_string()} else {hay(g)};
    let d = depth(g);
    let v = Cx::new(g).location(d);
    g.input(format!("{v} {h:?} {n:?}"));
    classes(g, &v);
    let m = refcfg::location(&v, &h, &n);
    g.label(match &m {Ok(true) => "true", Ok(false) => "false", Err(_) => "error"});
    if m.is_ok() && v.is_object() {g.nontrivial();}
    same(parse::<StringLocation>(&v).satisfied_by(&h, &n), m, &format!("{v} {h:?} {n:?}"))
}
fn p07_char(g: &mut G) -> Res {
    let c = if g.flip() {g.of(&['a', 'b', 'A', 'Z', '0', '9', 'é', 'É', 'ß', ' ', '\n', '\u{b}', '\u{c}', '\u{a0}', '.', '\u{7f}', '²', '①', '٣', 'ǅ', '\u{0}', '\u{80}', '@', '[', '`', '{', '~', '!', '/', ':', 'g', 'z', 'G', 'f', '\u{85}', '中'])} else {crate::gn::any_char(g)};
    let d = depth(g);
    let v = Cx::new(g).chr(d);
    g.input(format!("{v} {c:?}"));
    classes(g, &v);
    let m = refcfg::chr(&v, c);
    let r = parse::<CharMatcher>(&v).satisfied_by(c);
    g.nontrivial();
    match (r, m) {
        (Ok(a), Ok(b)) => ensure_eq!(a, b, "value", "{v} {c:?}"),
        (Err(_), Err(_)) => {},
        (a, b) => return fail("char-verdict", format!("{v} {c:?}: got {a:?}, expected {b:?}"))
    }
    Ok(())
}

fn modif(g: &mut G, commons: u32) -> Res {
    let h = hay(g);
    let (st, v) = case(g, commons, |c, d| c.modification(d));
    g.input(format!("{h:?}"));
    let e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let (mut a, mut b) = (h.clone(), h.clone());
    let r = parse::<StringModification>(&v).apply(&mut a, &e.view());
    let m = refcfg::modify(&v, &mut b, &St::new(&st));
    if m.is_ok() && a != h {g.nontrivial();}
    g.label(if m.is_ok() {"ok"} else {"error"});
    let what = format!("{v} on {h:?}");
    same(r, m, &what)?;
    ensure_eq!(a, b, "string", "{what}");
    unchanged(&e, &before, &what)
}
/// Words over a very small alphabet, so that needles occur, occur twice and overlap themselves.
fn word(g: &mut G, max: usize) -> String {
    let a: &[&str] = match g.usize(4) {0 => &["a"], 1 => &["a", "b"], 2 => &["a", "."], _ => &["a", "b", "é", "."]};
    (0..g.usize(max + 1)).map(|_| g.of(a)).collect()
}
fn lit(g: &mut G, max: usize) -> Value {if g.chance(1, 12) {json!({"Join": {"join": word(g, 2), "sources": [word(g, 2), word(g, 2)]}})} else {json!(word(g, max))}}
fn small_location(g: &mut G, d: u32) -> Value {
    if d > 0 && g.chance(1, 4) {
        return match g.usize(4) {
            0 => json!({"Not": small_location(g, d - 1)}),
            1 => json!({"All": [small_location(g, d - 1), small_location(g, d - 1)]}),
            2 => json!({"AnySegment": {"split": word(g, 2), "location": small_location(g, d - 1)}}),
            _ => json!({"NthSegment": {"split": word(g, 2), "n": g.usize(7) as i64 - 3, "location": small_location(g, d - 1)}})
        };
    }
    match g.usize(8) {
        0 => json!("Start"), 1 => json!("End"), 2 => json!("Equals"), 3 => json!("Anywhere"),
        4 | 5 => json!({(g.of(&["StartsAt", "EndsAt", "After", "Before"])): crate::gn::index(g)}),
        _ => json!({"Range": {"start": crate::gn::index(g), "end": if g.chance(1, 3) {Value::Null} else {json!(crate::gn::index(g))}, "location": small_location(g, 0)}})
    }
}
/// The matchers that compare text, on words that repeat and overlap.
fn p07_words(g: &mut G) -> Res {
    let h = word(g, 8);
    let split = word(g, 3);
    let v = match g.usize(6) {
        0 => {let l = small_location(g, 2); json!({"Contains": {"value": lit(g, 4), "where": l}})},
        1 => {let l = small_location(g, 1); json!({"ContainsAny": {"values": [lit(g, 3), lit(g, 3)], "where": l}})},
        2 => json!({"NthSegmentMatches": {"split": split, "n": crate::gn::index(g), "matcher": {"Is": lit(g, 3)}}}),
        3 => json!({"AnySegmentMatches": {"split": split, "matcher": {"Is": lit(g, 3)}}}),
        4 => json!({"SegmentsStartWith": {"split": split, "value": lit(g, 5)}}),
        _ => json!({"SegmentsEndWith": {"split": split, "value": lit(g, 5)}})
    };
    g.input(format!("{v} on {h:?}"));
    let st = json!({"url": "https://example.com/"});
    let e = Env::new(&st).expect("harness/src");
    let m = refcfg::matcher(&v, &h, &St::new(&st));
    if matches!(m, Ok(true)) {g.nontrivial();}
    g.label(match &m {Ok(true) => "true", Ok(false) => "false", Err(_) => "error"});
    same(parse::<StringMatcher>(&v).satisfied_by(&h, &e.view()), m, &format!("{v} on {h:?}"))
}
/// The same for the modifications.
fn p08_words(g: &mut G) -> Res {
    let h = word(g, 8);
    let oidx = |g: &mut G| if g.chance(1, 3) {Value::Null} else {json!(crate::gn::index(g))};
    let split = word(g, 2);
    let idx = crate::gn::index(g);
    let v = match g.usize(13) {
        0 => {let f = lit(g, 3); json!({"Replace": {"find": f, "replace": lit(g, 3)}})},
        1 => {let f = lit(g, 3); json!({"Replacen": {"find": f, "replace": lit(g, 3), "count": g.usize(4)}})},
        2 => {let e = oidx(g); json!({"ReplaceRange": {"start": idx, "end": e, "replace": lit(g, 3)}})},
        3 => json!({(g.of(&["StripPrefix", "StripMaybePrefix", "StripSuffix", "StripMaybeSuffix"])): lit(g, 4)}),
        4 => json!({"Insert": {"value": lit(g, 3), "index": idx}}),
        5 => json!({"RemoveChar": idx}),
        6 => json!({"KeepRange": {"start": idx, "end": oidx(g)}}),
        7 => json!({"KeepNthSegment": {"split": split, "index": idx}}),
        8 => json!({(g.of(&["SetSegment", "InsertSegment"])): {"split": split, "index": idx, "value": if g.chance(1, 4) {Value::Null} else {lit(g, 2)}}}),
        9 => json!({"KeepSegmentRange": {"split": split, "start": idx, "end": oidx(g)}}),
        10 => {let f = lit(g, 3); json!({"ExtractBetween": {"start": f, "end": lit(g, 3)}})},
        11 => json!({"RegexReplacen": {"regex": word(g, 2), "n": g.usize(4), "replace": lit(g, 2)}}),
        _ => json!({(g.of(&["Append", "Prepend", "Set"])): lit(g, 3)})
    };
    let real = parse::<StringModification>(&v);
    g.input(format!("{v} on {h:?}"));
    let st = json!({"url": "https://example.com/"});
    let e = Env::new(&st).expect("harness/src");
    let (mut a, mut b) = (h.clone(), h.clone());
    let m = refcfg::modify(&v, &mut b, &St::new(&st));
    if m.is_ok() && b != h {g.nontrivial();}
    let what = format!("{v} on {h:?}");
    same(real.apply(&mut a, &e.view()), m, &what)?;
    ensure_eq!(a, b, "string", "{what}");
    Ok(())
}
fn p08_plain(g: &mut G) -> Res {modif(g, 0)}

fn src(g: &mut G, commons: u32) -> Res {
    let (st, v) = case(g, commons, |c, d| c.source(d));
    let e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let s = parse::<StringSource>(&v);
    let r = s.get(&e.view()).map(|x| x.map(|x| x.into_owned()));
    let m = refcfg::source(&v, &St::new(&st));
    if matches!(m, Ok(Some(_))) && v.is_object() {g.nontrivial();}
    g.label(match &m {Ok(Some(_)) => "some", Ok(None) => "none", Err(_) => "error"});
    same(r, m, &v.to_string())?;
    unchanged(&e, &before, &v.to_string())
}
fn p09_plain(g: &mut G) -> Res {src(g, 0)}
/// References to flags and vars in every scope.
fn p09_scopes(g: &mut G) -> Res {
    let mut cx = Cx::new(g);
    let st = cx.state(0);
    cx.commons = 0;
    let (f, v) = (cx.flag(1), cx.var(1));
    g.input(format!("{f} {v}")); g.input(short(&st));
    let e = Env::new(&st).expect("harness/src");
    let s = St::new(&st);
    let mf = refcfg::flag(&f, &s);
    let mv = refcfg::var(&v, &s);
    if matches!(mv, Ok(Some(_))) || matches!(mf, Ok(true)) {g.nontrivial();}
    same(parse::<FlagRef>(&f).get(&e.view()), mf, &f.to_string())?;
    same(parse::<VarRef>(&v).get(&e.view()).map(|x| x.map(|x| x.into_owned())), mv, &v.to_string())
}
/// Documented: "If any of the calls to StringSource::get return None, returns the error StringSourceIsNone".
fn p09_join_finding() -> Res {
    let e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    let r = parse::<StringSource>(&json!({"Join": {"sources": ["a", null]}})).get(&e.view()).map(|x| x.map(|x| x.into_owned()));
    ensure!(r.is_err(), "join-with-none", "Join of a none: {r:?}");
    Ok(())
}

fn map(g: &mut G, commons: u32) -> Res {
    let (st, v) = case(g, commons, |c, d| c.mapper(d));
    let mut e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let mut s = St::new(&st);
    let Some(m) = refcfg::bounded(|| refcfg::mapper(&v, &mut s)) else {g.label("discarded: too much work"); return Ok(());};
    let r = parse::<Mapper>(&v).apply(&mut e.state());
    g.label(if m.is_ok() {"ok"} else {"error"});
    if e.snapshot() != before {g.nontrivial(); g.label("changed");}
    // Laws of their own, whatever the model says.
    if let Value::Object(o) = &v && let Some((k, _)) = o.iter().next() && r.is_err() && matches!(k.as_str(), "RevertOnError" | "SetPart" | "ModifyPart" | "CopyPart" | "MovePart" | "SetHost" | "Join" | "RemoveQueryParam" | "RemoveQueryParamsMatching" | "AllowQueryParamsMatching" | "GetUrlFromQueryParam" | "SetScratchpadVar" | "SetScratchpadFlag" | "ModifyScratchpadVar") {
        ensure_eq!(e.snapshot(), before, "failed-step-changed", "{v}");
    }
    same(r, m, &v.to_string())?;
    state_eq(&e, &s, &v.to_string())
}
fn p10_plain(g: &mut G) -> Res {map(g, 0)}
/// Deep nests of the forms that sequence, revert and fall back.
fn p10_flow(g: &mut G) -> Res {
    fn tree(cx: &mut Cx, d: u32) -> Value {
        let leaf = d == 0 || cx.g.chance(1, 4);
        if leaf {
            let n = cx.g.usize(4);
            return match cx.g.usize(5) {
                0 => {cx.errs += 1; json!({"Error": format!("e{}", cx.errs)})},
                1 => json!({"SetScratchpadVar": {"name": "t", "value": {"Join": {"sources": [{"NoneToEmptyString": {"Var": {"type": "Scratchpad", "name": "t"}}}, n.to_string()]}}}}),
                2 => json!({"SetPart": {"part": {"AfterPathSegment": -1}, "value": n.to_string()}}),
                3 => json!({"SetScratchpadFlag": {"name": format!("g{n}"), "value": cx.g.flip()}}),
                _ => json!({"SetPart": {"part": "Host", "value": "a b"}})
            };
        }
        let t = |cx: &mut Cx| tree(cx, d - 1);
        match cx.g.usize(7) {
            0 => {let n = cx.g.usize(4); json!({"All": (0..n).map(|_| t(cx)).collect::<Vec<_>>()})},
            1 => json!({"RevertOnError": t(cx)}),
            2 => json!({"IgnoreError": t(cx)}),
            3 => {let (a, b) = (t(cx), t(cx)); json!({"TryElse": {"try": a, "else": b}})},
            4 => {let n = cx.g.usize(4); json!({"FirstNotError": (0..n).map(|_| t(cx)).collect::<Vec<_>>()})},
            5 => {let m = t(cx); json!({"Retry": {"mapper": m, "delay": 0.0, "limit": cx.g.usize(3)}})},
            _ => {let (a, b) = (t(cx), t(cx)); json!({"If": {"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "g1"}}, "mapper": a, "else_mapper": b}})}
        }
    }
    let d = 2 + g.usize(4) as u32;
    let v = tree(&mut Cx::new(g), d);
    g.input(v.to_string());
    let st = json!({"url": "https://example.com/a"});
    let mut e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let mut s = St::new(&st);
    let Some(m) = refcfg::bounded(|| refcfg::mapper(&v, &mut s)) else {g.label("discarded: too much work"); return Ok(());};
    let r = parse::<Mapper>(&v).apply(&mut e.state());
    if e.snapshot() != before {g.nontrivial();}
    same(r, m, &v.to_string())?;
    state_eq(&e, &s, &v.to_string())
}

fn rules(g: &mut G, commons: u32) -> Res {
    let (st, v) = case(g, commons, |c, d| c.rules(d));
    let mut e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let mut s = St::new(&st);
    let Some(m) = refcfg::bounded(|| refcfg::rules(&v, &mut s)) else {g.label("discarded: too much work"); return Ok(());};
    let rs = parse::<Rules>(&v);
    let r = rs.apply(&mut e.state());
    g.label(if m.is_ok() {"ok"} else {"error"});
    if e.snapshot() != before {g.nontrivial();}
    same(r, m, &v.to_string())?;
    state_eq(&e, &s, &v.to_string())
}
fn p11_plain(g: &mut G) -> Res {rules(g, 0)}
/// Repeats, counted by the edits of each round.
fn p11_repeat(g: &mut G) -> Res {
    let limit = g.usize(15) as u64;
    let stop = g.usize(12);
    let inner = g.usize(4);
    let round = match g.usize(3) {
        // Grows the path until it has `stop` segments.
        0 => json!([{"condition": {"Not": {"PartIs": {"part": {"PathSegment": stop as i64}, "value": "x"}}}, "mapper": {"SetPart": {"part": {"AfterPathSegment": -1}, "value": "x"}}}]),
        // Only the scratchpad changes.
        1 => json!([{"Mapper": {"SetScratchpadVar": {"name": "t", "value": {"Join": {"sources": [{"NoneToEmptyString": {"Var": {"type": "Scratchpad", "name": "t"}}}, "x"]}}}}},
                    {"condition": {"StringMatches": {"value": {"NoneToEmptyString": {"Var": {"type": "Scratchpad", "name": "t"}}}, "matcher": {"LengthIs": stop + 1}}}, "mapper": {"ModifyScratchpadVar": {"name": "t", "modification": {"KeepRange": {"start": 0, "end": -2}}}}}]),
        // Changes that cancel out within a round, and a nested repeat.
        _ => json!([{"Mapper": {"SetPart": {"part": "Fragment", "value": "tmp"}}}, {"Repeat": {"rules": [{"Mapper": {"SetPart": {"part": {"AfterPathSegment": -1}, "value": "y"}}}], "limit": inner}}, {"Mapper": {"SetPart": {"part": "Fragment", "value": null}}}])
    };
    let v = if g.chance(1, 5) {json!([{"Repeat": {"rules": round}}])} else {json!([{"Repeat": {"rules": round, "limit": limit}}])};
    g.input(v.to_string());
    g.nontrivial();
    let st = json!({"url": "https://example.com/x"});
    let mut e = Env::new(&st).expect("harness/src");
    let mut s = St::new(&st);
    let Some(m) = refcfg::bounded(|| refcfg::rules(&v, &mut s)) else {g.label("discarded: too much work"); return Ok(());};
    let r = parse::<Rules>(&v).apply(&mut e.state());
    same(r, m, &v.to_string())?;
    state_eq(&e, &s, &v.to_string())
}

/// Rules that run a Turing machine (as in the project's example configs), against a simulation of that machine.
fn p11_machine(g: &mut G) -> Res {
    let (nstates, symbols) = (1 + g.usize(4), ["0", "1", "x", "&", "%", "+"]);
    let nsym = 2 + g.usize(5);
    let limit = g.of(&[0u64, 1, 2, 7, 30, 100, 300]);
    let (mut set, mut mov, mut next) = (serde_json::Map::new(), serde_json::Map::new(), serde_json::Map::new());
    for st in 0..nstates {for sy in &symbols[..nsym] {
        let k = format!("{st},{sy}");
        set .insert(k.clone(), json!(symbols[g.usize(nsym)]));
        mov .insert(k.clone(), json!(["r", "l", "s"][g.weighted(&[5, 4, 1])]));
        next.insert(k, json!(if g.chance(1, 12) {"halt".to_string()} else {g.usize(nstates).to_string()}));
    }}
    let tape = g.vec(0, 6, |g| symbols[g.usize(nsym)]).concat();
    let var = |n: &str| json!({"Var": {"type": "Scratchpad", "name": n}});
    let tab = |n: &str| json!({"ParamsMap": {"name": n, "key": {"Common": "key"}}});
    let blank = |n: &str| json!({"If": {"condition": {"StringIs": {"left": var(n), "right": ""}}, "mapper": {"ModifyScratchpadVar": {"name": n, "modification": {"Append": {"Common": "blank"}}}}}});
    let chars = |v: Value, m: Value| json!({"Modified": {"value": v, "modification": {"KeepRange": m}}});
    let put = |n: &str, v: Value| json!({"SetScratchpadVar": {"name": n, "value": v}});
    let edit = |n: &str, m: Value| json!({"ModifyScratchpadVar": {"name": n, "modification": m}});
    let mut st = json!({"url": "https://example.com/?k=v", "params": {"maps": {"set": {"map": set}, "move": {"map": mov}, "next": {"map": next}}}, "commons": {
        "string_sources": {"blank": "0", "key": {"Join": {"sources": [var("state"), ",", var("read")]}}},
        "mappers": {
            "r": {"All": [edit("behind", json!({"Append": chars(var("tape"), json!({"start": 0, "end": 1}))})), edit("tape", json!({"RemoveChar": 0}))]},
            "l": {"All": [blank("behind"), edit("tape", json!({"Prepend": chars(var("behind"), json!({"start": -1}))})), edit("behind", json!({"RemoveChar": -1}))]},
            "s": "None"
        }
    }});
    let mut u = url::Url::parse("https://example.com/?k=v").expect("harness/src");
    u.query_pairs_mut().append_pair("tape", &tape);
    st["url"] = json!(u.as_str());
    let round = json!({"condition": {"Not": {"StringIs": {"left": var("state"), "right": "halt"}}}, "mapper": {"All": [
        blank("tape"), put("read", chars(var("tape"), json!({"start": 0, "end": 1}))),
        put("tape", json!({"Join": {"sources": [tab("set"), chars(var("tape"), json!({"start": 1}))]}})),
        {"Common": {"name": tab("move")}}, put("state", tab("next"))
    ]}});
    let v = json!([
        {"Mapper": {"All": [put("state", json!("0")), put("behind", json!("")), put("tape", json!({"Part": {"QueryParam": "tape"}}))]}},
        {"Repeat": {"rules": [round], "limit": limit}},
        {"Mapper": {"SetPart": {"part": {"QueryParam": "tape"}, "value": {"Join": {"sources": [var("behind"), var("tape")]}}}}}
    ]);
    g.input(format!("{limit} steps on {tape:?} of {}", st["params"]["maps"]));
    // The machine itself.
    let at = |t: &serde_json::Map<String, Value>, k: &str| t[k].as_str().expect("harness/src").to_string();
    let (mut behind, mut ahead, mut state, mut steps) = (Vec::<String>::new(), tape.chars().map(String::from).collect::<Vec<_>>(), "0".to_string(), 0);
    let maps = &st["params"]["maps"];
    let m = |n: &str| maps[n]["map"].as_object().expect("harness/src");
    while state != "halt" && steps < limit {
        if ahead.is_empty() {ahead.push("0".into());}
        let k = format!("{state},{}", ahead[0]);
        ahead[0] = at(m("set"), &k);
        match &*at(m("move"), &k) {
            "r" => behind.push(ahead.remove(0)),
            "l" => ahead.insert(0, behind.pop().unwrap_or("0".into())),
            _ => {}
        }
        state = at(m("next"), &k);
        steps += 1;
    }
    if steps > 2 {g.nontrivial();}
    if state == "halt" {g.label("halts");}
    let mut e = Env::new(&st).expect("harness/src");
    let r = parse::<Rules>(&v).apply(&mut e.state());
    ensure!(r.is_ok(), "error", "{r:?}");
    let pairs: Vec<(String, String)> = e.url.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect();
    ensure_eq!(pairs, vec![("k".to_string(), "v".to_string()), ("tape".to_string(), [behind.concat(), ahead.concat()].concat())], "tape", "after {steps} steps");
    ensure_eq!(e.pad.vars.get("state"), Some(&state), "state", "after {steps} steps");
    Ok(())
}

/// Failed attempts are repeated with the given pause between them, up to the limit.
fn p11_retry(g: &mut G) -> Res {
    thread_local! {static AT: std::cell::RefCell<(Vec<std::time::Instant>, usize)> = const {std::cell::RefCell::new((Vec::new(), 0))};}
    fn attempt(_: &mut TaskState) -> Result<(), MapperError> {
        AT.with(|a| {let mut a = a.borrow_mut(); a.0.push(std::time::Instant::now()); if a.0.len() > a.1 {Ok(())} else {Err(MapperError::ExplicitError("again".into()))}})
    }
    let (limit, fails) = (g.usize(5) as u8, g.usize(6));
    let delay = std::time::Duration::from_millis(g.of(&[0, 1, 3, 8]));
    g.input(format!("Retry of {limit} with {delay:?}, the first {fails} attempts fail"));
    AT.with(|a| *a.borrow_mut() = (Vec::new(), fails));
    let mut e = Env::new(&json!({"url": "https://example.com/"})).expect("harness/src");
    let m = Mapper::Retry {mapper: Box::new(Mapper::Custom(attempt)), delay, limit};
    let r = m.apply(&mut e.state());
    let at = AT.with(|a| a.borrow().0.clone());
    ensure_eq!(at.len(), (limit as usize).min(fails + 1), "attempts", "");
    ensure_eq!(r.is_ok(), limit == 0 || fails < limit as usize, "result", "{r:?}");
    for w in at.windows(2) {ensure!(w[1] - w[0] >= delay, "pause between attempts", "{:?} is less than {delay:?}", w[1] - w[0]);}
    if at.len() > 1 {g.nontrivial();}
    Ok(())
}

fn p12_all(g: &mut G) -> Res {
    match g.usize(6) {0 => cond(g, 2), 1 => matcher_case(g, 2), 2 => modif(g, 2), 3 => src(g, 2), 4 => map(g, 2), _ => rules(g, 2)}
}
/// Calls that reach into the arguments of their callers.
fn p12_calls(g: &mut G) -> Res {
    let kinds = ["conditions", "string_sources", "string_matchers", "string_modifications", "mappers", "rules"];
    let see = |g: &mut G, d: u32| -> Value {
        // What is visible here, as a string source.
        let base = json!({"Join": {"join": ",", "sources": [
            {"TryElse": {"try": {"NoneTo": {"value": {"Var": {"type": "Common", "name": g.of(&["v1", "v2"])}}, "if_none": "-"}}, "else": "!"}},
            {"TryElse": {"try": {"IfFlag": {"type": "Common", "name": g.of(&["f1", "f2"]), "then": "t", "else": "f"}}, "else": "?"}}]}});
        let _ = d; base
    };
    let args = |g: &mut G| -> Value {
        let mut vars = serde_json::Map::new();
        if g.flip() {let s = if g.flip() {see(g, 0)} else {json!(g.of(&["x", "y"]))}; vars.insert("v1".into(), s);}
        if vars.is_empty() && g.flip() {let s = if g.chance(1, 6) {json!(null)} else if g.flip() {json!({"Var": {"type": "Common", "name": "v1"}})} else {json!("z")}; vars.insert("v2".into(), s);}
        let f: Vec<&str> = ["f1", "f2"].into_iter().filter(|_| g.flip()).collect();
        json!({"flags": f, "vars": vars})
    };
    let mut commons = json!({});
    for i in 0..3usize {for k in kinds {
        let call = |g: &mut G| {let j = if i == 0 || g.chance(1, 10) {9} else {g.usize(i)}; if g.chance(1, 4) {json!(format!("c{j}"))} else {json!({"name": format!("c{j}"), "args": args(g)})}};
        let s = see(g, 0);
        let deeper = i > 0 && g.chance(2, 3);
        let c = call(g);
        let note = |s: Value| json!({"SetScratchpadVar": {"name": format!("seen{i}"), "value": s}});
        commons[k][format!("c{i}")] = match k {
            "string_sources" => if deeper {json!({"Join": {"join": ";", "sources": [s, {"Common": c}, see(g, 0)]}})} else {s},
            "conditions" => if deeper {json!({"Any": [{"StringContains": {"value": s, "substring": "x"}}, {"Common": c}]})} else {json!({"StringContains": {"value": s, "substring": g.of(&["x", "t", "-"])}})},
            "string_matchers" => if deeper {json!({"Any": [{"Is": s}, {"Common": c}]})} else {json!({"Contains": {"value": s, "where": "Anywhere"}})},
            "string_modifications" => if deeper {json!({"All": [{"Append": s}, {"Common": c}, {"Append": see(g, 0)}]})} else {json!({"Append": s})},
            "mappers" => if deeper {json!({"All": [note(s), {"Common": c}, {"SetPart": {"part": "Fragment", "value": see(g, 0)}}]})} else {note(s)},
            _ => if deeper {json!({"Rules": [{"Mapper": note(s)}, {"Common": c}, {"Mapper": {"SetPart": {"part": "Query", "value": see(g, 0)}}}]})} else {json!({"Mapper": note(s)})}
        };
    }}
    let top = json!({"name": if g.chance(1, 12) {"c9"} else {"c2"}, "args": args(g)});
    let mut st = json!({"url": "https://example.com/x", "commons": commons});
    if g.flip() {st["common"] = json!({"flags": ["f1"], "vars": {"v1": "outer"}});}
    let v = json!([
        {"Mapper": {"TryElse": {"try": {"SetScratchpadVar": {"name": "src", "value": {"Common": top}}}, "else": {"SetScratchpadVar": {"name": "src", "value": "failed"}}}}},
        {"Mapper": {"TryElse": {"try": {"If": {"condition": {"Common": top}, "mapper": {"SetScratchpadFlag": {"name": "cond", "value": true}}}}, "else": {"SetScratchpadFlag": {"name": "condfailed", "value": true}}}}},
        {"Mapper": {"IgnoreError": {"ModifyPart": {"part": "Path", "modification": {"Common": top}}}}},
        {"Mapper": {"IgnoreError": {"If": {"condition": {"PartMatches": {"part": "Path", "matcher": {"Common": top}}}, "mapper": {"SetScratchpadFlag": {"name": "match", "value": true}}}}}},
        {"Mapper": {"IgnoreError": {"Common": top}}},
        {"Mapper": {"SetScratchpadVar": {"name": "after", "value": see(g, 0)}}},
        {"Common": top},
        {"Mapper": {"SetScratchpadVar": {"name": "end", "value": see(g, 0)}}}
    ]);
    g.input(top.to_string()); g.input(commons.to_string()); g.input(st["common"].to_string());
    g.nontrivial();
    let mut e = Env::new(&st).expect("harness/src");
    let mut s = St::new(&st);
    let Some(m) = refcfg::bounded(|| refcfg::rules(&v, &mut s)) else {g.label("discarded: too much work"); return Ok(());};
    let r = parse::<Rules>(&v).apply(&mut e.state());
    same(r, m, &top.to_string())?;
    state_eq(&e, &s, &format!("call {top}"))
}
/// An unknown name is an error that changes nothing.
fn p12_unknown(g: &mut G) -> Res {
    let mut cx = Cx::new(g);
    let mut st = cx.state(1);
    for k in ["conditions", "string_sources", "string_matchers", "string_modifications", "mappers", "rules"] {if cx.g.flip() {st["commons"].as_object_mut().unwrap().remove(k);}}
    let mut call = cx.call(1);
    let name = cx.of_pub(&["c9", "nosuch", "C0", "c0 ", ""]);
    if call.is_string() {call = json!(name);} else {call["name"] = json!(name);}
    g.input(call.to_string());
    g.nontrivial();
    let c = json!({"Common": call});
    let mut e = Env::new(&st).expect("harness/src");
    let before = e.snapshot();
    let mut x = "abc".to_string();
    let v = e.view();
    let res = [parse::<Condition>(&c).satisfied_by(&v).is_err(), parse::<StringSource>(&c).get(&v).is_err(), parse::<StringMatcher>(&c).satisfied_by("abc", &v).is_err(), parse::<StringModification>(&c).apply(&mut x, &v).is_err(), parse::<Mapper>(&c).apply(&mut e.state()).is_err(), parse::<Rule>(&c).apply(&mut e.state()).is_err()];
    ensure_eq!(res, [true; 6], "unknown-accepted", "{call}");
    ensure!(x == "abc", "unknown-changed", "{call}: {x}");
    unchanged(&e, &before, &call.to_string())
}

const A: &[&str] = &["The reference interpreter (harness/src/refcfg.rs), written from the documentation of each element, is the specification."];
fn sub(name: &'static str, quick: u64, f: fn(&mut G) -> Res) -> Sub {Sub {name, quick, thorough: quick * 20, threads: 8, f}}
pub fn p06() -> Prop {Prop {id: "P06", rule: "the condition is not a bare variant and has a truth value (not an error)", assumptions: A, subs: vec![sub("trees", 300_000, p06_plain), sub("errors", 100_000, p06_errors)], repro: vec![]}}
pub fn p07() -> Prop {Prop {id: "P07", rule: "matcher and location: not a bare variant and a verdict (not an error); char: every case", assumptions: A, subs: vec![sub("matcher", 300_000, p07_matcher), sub("location", 300_000, p07_location), sub("char", 150_000, p07_char), sub("words", 200_000, p07_words)], repro: vec![]}}
pub fn p08() -> Prop {Prop {id: "P08", rule: "the modification succeeded and changed the string", assumptions: A, subs: vec![sub("trees", 500_000, p08_plain), sub("words", 200_000, p08_words)], repro: vec![]}}
pub fn p09() -> Prop {Prop {id: "P09", rule: "trees: not a literal and some string; scopes: a flag is set or a var has a value", assumptions: A, subs: vec![sub("trees", 400_000, p09_plain), sub("scopes", 100_000, p09_scopes)], repro: vec![("join-with-none", p09_join_finding)]}}
pub fn p10() -> Prop {Prop {id: "P10", rule: "the URL or the scratchpad changed", assumptions: A, subs: vec![sub("trees", 400_000, p10_plain), sub("flow", 150_000, p10_flow)], repro: vec![]}}
pub fn p11() -> Prop {Prop {id: "P11", rule: "trees: the URL or the scratchpad changed; repeat: every case; retry: more than one attempt; machine: more than two steps", assumptions: A, subs: vec![sub("trees", 250_000, p11_plain), sub("repeat", 20_000, p11_repeat), sub("retry", 400, p11_retry), sub("machine", 40_000, p11_machine)], repro: vec![]}}
pub fn p12() -> Prop {Prop {id: "P12", rule: "trees: as for the element called; calls and unknown: every case", assumptions: A, subs: vec![sub("trees", 100_000, p12_all), sub("calls", 60_000, p12_calls), sub("unknown", 20_000, p12_unknown)], repro: vec![]}}
