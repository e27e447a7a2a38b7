//! P29: the suitability check and the self-test runner.
use crate::cfg::Cx;
use crate::cli::{self, Scratch};
use crate::core::*;
use crate::defcfg;
use crate::ensure;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use url_cleaner::types::*;

/// What a config has to document: everything the generators name, and in every kind of documentation the names that another kind lacks.
fn docs(g: &mut G) -> Value {
    let of = |names: &[&str], lacks: &str| {
        let mut m = serde_json::Map::new();
        for n in names {m.insert(n.to_string(), json!("x"));}
        for z in ["zset", "zmap", "znp", "zflag", "zvar", "zenv", "zjob", "ztask"] {if z != lacks {m.insert(z.into(), json!("x"));}}
        Value::Object(m)
    };
    let vars = ["v1", "v2", "v3", "none"];
    let mut d = json!({
        "flags": of(&["f1", "f2", "f3"], "zflag"), "vars": of(&vars, "zvar"), "environment_vars": of(&["UCH_ENV_SET", "UCH_ENV_UNSET", "UCH_ENV_EMPTY"], "zenv"),
        "sets": of(&["s1", "s2", "s9"], "zset"), "lists": of(&["l1", "zset"], ""), "maps": of(&["m1", "m2", "m9"], "zmap"), "named_partitionings": of(&["n1", "n9"], "znp"),
        "job_context": {"vars": of(&vars, "zjob")}, "task_context": {"vars": of(&vars, "ztask")}
    });
    if g.chance(1, 3) {d["title"] = json!("t"); d["description"] = json!(["Debug", "("]);}
    d
}
fn config(g: &mut G) -> (Value, Option<String>) {
    let d = docs(g);
    let plant = if g.chance(2, 3) {Some(if g.flip() {g.usize(12)} else {g.usize(150)})} else {None};
    let mut cx = Cx::new(g);
    cx.suit = true;
    let params = cx.params();
    cx.plant = plant;
    let depth = 1 + cx.g.usize(3) as u32;
    // Rules before or after the commons, so that both are planted in.
    let (rules, commons) = if cx.g.flip() {let r = cx.rules(depth); (r, cx.commons_def(depth - 1))} else {let c = cx.commons_def(depth - 1); (cx.rules(depth), c)};
    let planted = cx.planted.take();
    (json!({"docs": d, "params": params, "commons": commons, "rules": rules}), planted)
}
fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
fn suitability(g: &mut G) -> Res {
    let (text, planted) = config(g);
    g.input(text.to_string());
    if let Some(p) = &planted {g.nontrivial(); g.label(p.split(':').next().unwrap_or("")); g.input(p.clone());} else {g.label("nothing planted");}
    let c: Config = serde_json::from_value(text).unwrap_or_else(|e| panic!("harness/src: not a config: {e} (planted {planted:?})"));
    let got = quietly(|| c.assert_suitability());
    match (&planted, &got) {
        (Some(p), Ok(())) => ensure!(false, "accepted", "a config with {p} in it is found suitable"),
        (None, Err(e)) => ensure!(false, "rejected", "a suitable config is rejected: {e}"),
        _ => {}
    }
    Ok(())
}
/// The default config as shipped, and with one thing gone wrong.
fn default(g: &mut G) -> Res {
    let mut v = defcfg::default_json().clone();
    let mut planted = None;
    let kinds = ["none", "debug mapper", "debug condition", "undocument", "common"];
    let k = g.of(&kinds);
    match k {
        "debug mapper" | "debug condition" => {
            // Wrap the nth mapper or condition in its debugging variant.
            fn wrap(v: &mut Value, key: &str, n: &mut usize) -> bool {
                match v {
                    Value::Object(o) => {
                        for (k, x) in o.iter_mut() {
                            if k == key && (x.is_object() || x.is_string()) {
                                if *n == 0 {*x = json!({"Debug": x.take()}); return true;}
                                *n -= 1;
                            }
                            if wrap(x, key, n) {return true;}
                        }
                        false
                    },
                    Value::Array(a) => a.iter_mut().any(|x| wrap(x, key, n)),
                    _ => false
                }
            }
            let key = if k == "debug mapper" {"mapper"} else {"condition"};
            let mut n = g.usize(110);
            let nth = n;
            let part = if g.chance(1, 4) {"commons"} else {"rules"};
            if wrap(&mut v[part], key, &mut n) {planted = Some(format!("a {k} at {nth} in {part}"));}
        },
        "undocument" => {
            let (d, names): (&str, Vec<&str>) = match g.usize(4) {
                0 => ("flags", vec!["no-network", "unmobile", "youtube-unshort", "breezewiki", "keep-lang", "no-https-upgrade", "tor2web2tor", "furaffinity-sfw"]),
                1 => ("vars", vec!["breezewiki-host", "nitter-host", "invidious-host", "twitter-embed-host"]),
                2 => ("sets", vec!["redirect-hwwwwdpafqdnps", "utps", "utps-reg-domain-whitelist", "https-upgrade-host-blacklist", "unmobile-reg-domain-blacklist"]),
                _ => ("named_partitionings", vec!["hwwwwdpafqdnp_categories"])
            };
            let n = names[g.usize(names.len())];
            if v["docs"][d].as_object_mut().and_then(|o| o.remove(n)).is_some() {planted = Some(format!("undocumented {n}"));}
        },
        "common" => {v["commons"]["string_matchers"]["never used"] = json!({"Regex": "("}); planted = Some("an unused common with a broken regex".into());},
        _ => {}
    }
    g.label(k);
    if planted.is_some() {g.nontrivial();}
    g.input(format!("{planted:?}"));
    let c: Config = serde_json::from_value(v).unwrap_or_else(|e| panic!("harness/src: not a config: {e} ({planted:?})"));
    match (planted, quietly(|| c.assert_suitability())) {
        (Some(p), Ok(())) => fail("accepted", format!("the default config with {p} is found suitable")),
        (None, Err(e)) => fail("rejected", format!("the default config is found unsuitable: {e}")),
        _ => Ok(())
    }
}

/// Configs whose results depend on everything a test can set.
const TESTED: &[&str] = &[
    r#"{"rules": []}"#,
    r#"{"rules": [{"Mapper": "RemoveQuery"}]}"#,
    r##"{"params": {"vars": {"v": "config"}}, "rules": [{"condition": {"FlagIsSet": "f"}, "mapper": {"SetPart": {"part": "Fragment", "value": "f"}}}, {"condition": {"FlagIsSet": "g"}, "mapper": "RemoveQuery"}, {"Mapper": {"SetPart": {"part": {"QueryParam": "v"}, "value": {"Var": "v"}}}}, {"Mapper": {"SetPart": {"part": {"QueryParam": "j"}, "value": {"Var": {"type": "JobContext", "name": "j"}}}}}, {"Mapper": {"SetPart": {"part": {"QueryParam": "t"}, "value": {"Var": {"type": "TaskContext", "name": "t"}}}}}, {"condition": {"PathIs": "/error"}, "mapper": {"Error": "x"}}]}"##,
    r#"{"params": {"flags": ["h", "k"], "vars": {"v": "1", "w": "2"}, "sets": {"s": ["a", "b"]}, "maps": {"m": {"map": {"k": "1", "l": "2"}, "else": "e"}}}, "rules": [
        {"condition": {"FlagIsSet": "h"}, "mapper": {"SetPart": {"part": {"QueryParam": "h"}, "value": "h"}}}, {"condition": {"FlagIsSet": "f"}, "mapper": {"SetPart": {"part": {"QueryParam": "f"}, "value": "f"}}},
        {"Mapper": {"SetPart": {"part": {"QueryParam": "v"}, "value": {"Var": "v"}}}}, {"Mapper": {"SetPart": {"part": {"QueryParam": "w"}, "value": {"Var": "w"}}}},
        {"Mapper": {"IgnoreError": {"If": {"condition": {"StringMatches": {"value": "a", "matcher": {"InSet": "s"}}}, "mapper": {"SetPart": {"part": {"QueryParam": "a"}, "value": "in"}}}}}},
        {"Mapper": {"IgnoreError": {"If": {"condition": {"StringMatches": {"value": "c", "matcher": {"InSet": "s"}}}, "mapper": {"SetPart": {"part": {"QueryParam": "c"}, "value": "in"}}}}}},
        {"Mapper": {"IgnoreError": {"SetPart": {"part": {"QueryParam": "k"}, "value": {"ParamsMap": {"name": "m", "key": "k"}}}}}}, {"Mapper": {"IgnoreError": {"SetPart": {"part": {"QueryParam": "n"}, "value": {"ParamsMap": {"name": "m", "key": "n"}}}}}},
        {"condition": {"PathIs": "/error"}, "mapper": {"Error": "x"}}]}"#
];
struct TestFile {json: Value, ok: bool, why: String}
fn run_one(c: &Config, t: &TaskConfig, j: &JobContext) -> Option<String> {
    let cache = Default::default();
    Task {url: t.url.clone(), config: c, context: t.context.clone(), job_context: j, cache: &cache}.r#do().ok().map(|u| u.to_string())
}
/// A change of params, often of one kind only.
fn any_diff(g: &mut G) -> Value {
    let mut d = json!({});
    for _ in 0..1 + g.weighted(&[4, 2, 1]) {
        match g.usize(10) {
            0 => d["flags"] = json!(["f"]), 1 => d["unflags"] = json!([g.of(&["h", "f", "k"])]),
            2 => d["vars"] = json!({"v": g.of(&["diff", "", "config"])}), 3 => d["unvars"] = json!([g.of(&["v", "w"])]),
            4 => d["insert_into_sets"] = json!({"s": ["c"]}), 5 => d["remove_from_sets"] = json!({"s": ["a"]}), 6 => d["delete_sets"] = json!(["s"]),
            7 => d["map_diffs"] = json!({"m": {"insert_into_map": {g.of(&["k", "n"]): "new"}}}), 8 => d["map_diffs"] = json!({"m": {"remove_from_map": ["k"]}}), _ => d["delete_maps"] = json!(["m"])
        }
    }
    d
}
fn test_file(g: &mut G, base: &Config) -> TestFile {
    let sets = g.usize(4);
    let mut all: Vec<Value> = vec![];
    let mut at: Vec<(usize, usize)> = vec![];
    let mut errors = vec![];
    for s in 0..sets {
        let diff = match g.usize(4) {0 => json!({"flags": ["f"]}), 1 => json!({"flags": ["g"], "vars": {"v": "diff"}}), 2 => any_diff(g), _ => Value::Null};
        let job = match g.usize(3) {0 => json!({"vars": {"j": g.of(&["1", "2"])}}), _ => json!({})};
        let mut c = base.clone();
        if !diff.is_null() {let d: ParamsDiff = serde_json::from_value(diff.clone()).expect("harness/src: diff"); d.apply(&mut c.params);}
        let jc: JobContext = serde_json::from_value(job.clone()).expect("harness/src: context");
        let n = if g.chance(1, 60) {20 + g.usize(120)} else {g.usize(4)};
        let mut tests = vec![];
        for i in 0..n {
            let u = if g.chance(1, if n > 4 {2000} else {25}) {"https://example.com/error".to_string()} else {g.of(&["https://example.com/?a=1#x", "https://example.com/", "http://www.example.org/a?b&c=d", "mailto:a?b", "https://example.com/?v=0"]).to_string()};
            let tc = match g.usize(3) {0 => json!({"url": u, "context": {"vars": {"t": g.of(&["3", "4"])}}}), _ => json!(u)};
            let t: TaskConfig = serde_json::from_value(tc.clone()).expect("harness/src: task");
            let result = match run_one(&c, &t, &jc) {Some(r) => r, None => {errors.push((s, i)); u.clone()}};
            at.push((s, i));
            tests.push(json!({"task_config": tc, "result": result}));
        }
        let mut set = json!({"tests": tests});
        if !diff.is_null() || g.flip() {set["params_diff"] = diff;}
        if job != json!({}) || g.flip() {set["job_context"] = job;}
        all.push(set);
    }
    let mut ok = errors.is_empty();
    let mut why = if ok {"all as expected".to_string()} else {format!("{errors:?} fail")};
    if !at.is_empty() && g.flip() {
        let (s, i) = at[g.usize(at.len())];
        let r = &mut all[s]["tests"][i]["result"];
        let old = r.as_str().expect("harness/src").to_string();
        let mut new = match g.usize(5) {0 => format!("{old}x"), 1 => old.replacen("http", "httq", 1), 2 => {let mut u = url::Url::parse(&old).expect("harness/src"); u.set_fragment(Some("other")); u.to_string()}, 3 => old.split('?').next().unwrap_or("").to_string(), _ => "https://example.net/".into()};
        if let Ok(u) = url::Url::parse(&new) {new = u.to_string();}
        *r = json!(new);
        if new != old && url::Url::parse(&new).is_ok() {ok = false; why = format!("set {s} test {i} expects {new} instead of {old}");}
        else if new != old {ok = false; why = format!("set {s} test {i} expects something that isn't a URL");}
    }
    TestFile {json: json!({"sets": all}), ok, why}
}
fn bases() -> &'static Vec<Config> {
    static B: OnceLock<Vec<Config>> = OnceLock::new();
    B.get_or_init(|| TESTED.iter().map(|t| serde_json::from_str(t).expect("harness/src: config")).collect())
}
fn tests(g: &mut G) -> Res {
    let b = &bases()[g.usize(TESTED.len())];
    let f = test_file(g, b);
    g.input(f.json.to_string());
    g.label(if f.ok {"pass"} else {"fail"});
    if !f.ok {g.nontrivial();}
    let before = b.clone();
    let got = match serde_json::from_value::<url_cleaner::testing::Tests>(f.json.clone()) {Ok(t) => quietly(|| b.run_tests(t)), Err(e) => Err(e.to_string())};
    ensure!(got.is_ok() == f.ok, "tests", "{}: the run gave {got:?}\n{}", f.why, f.json);
    ensure!(*b == before, "config changed", "running tests changed the config");
    Ok(())
}
/// The same through the program: its exit code is what scripts see.
fn program(g: &mut G) -> Res {
    let dir = Scratch::fast(g)?;
    let mut args = vec!["--config".to_string()];
    let mut why = vec![];
    let mut ok = true;
    let which = g.usize(3);
    if which == 0 {
        let (c, planted) = config(g);
        args.push(dir.write("c.json", &c.to_string())?);
        args.push("--test-suitability".into());
        ok = planted.is_none();
        why.push(format!("{planted:?}"));
    } else {
        let i = g.usize(TESTED.len());
        args.push(dir.write("c.json", TESTED[i])?);
        let n = 1 + g.usize(3);
        for k in 0..n {
            let f = test_file(g, &bases()[i]);
            args.push("--tests".into());
            args.push(dir.write(&format!("t{k}.json"), &f.json.to_string())?);
            ok &= f.ok;
            why.push(f.why);
        }
        if g.chance(1, 8) {args.push("--tests".into()); if g.flip() {args.push(dir.path("missing.json"));} else {args.push(dir.write("bad.json", "{\"sets\": [")?);} ok = false; why.push("an unreadable file".into());}
    }
    g.input(json!({"args": args, "why": why}).to_string());
    g.label(if ok {"pass"} else {"fail"});
    if !ok {g.nontrivial();}
    let out = cli::run(&args, b"https://example.com/?stdin\n", 60)?;
    ensure!((out.code == Some(0)) == ok, "exit code", "{why:?}: exit code {:?}\n{}\n{}", out.code, out.text(), out.err().chars().take(600).collect::<String>());
    ensure!(!out.text().contains("stdin"), "cleaned", "tasks were cleaned while testing: {}", out.text());
    if which != 0 {ensure!(out.text().contains("All tests passed!") == ok, "message", "{why:?}: {}", out.text());}
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "P29",
        rule: "a case is non-trivial when something unsuitable is planted, or some test must fail",
        assumptions: &["names of flags and variables that are not literals count as unsuitable, as the check says itself", "what each test really gives is found by cleaning it alone (P19 and P22 judge that)"],
        subs: vec![
            Sub {name: "suitability", quick: 60_000, thorough: 2_000_000, threads: 8, f: suitability},
            Sub {name: "default", quick: 400, thorough: 4_000, threads: 8, f: default},
            Sub {name: "tests", quick: 100_000, thorough: 600_000, threads: 8, f: tests},
            Sub {name: "program", quick: 800, thorough: 10_000, threads: 8, f: program}
        ],
        repro: vec![]
    }
}
