//! Generators for every element of the config language, as the JSON a config file holds, and for task states.

use crate::core::G;
use crate::gn;
use serde_json::{json, Map, Value};

pub const STRS: &[&str] = &["a", "b", "c", "ab", "abc", "", "x.y", "a.b.c", "a=1&b=2", "1", "www.example.com", "example.com", "com", "https://example.org/p?q=1", "f1", "v1", "é", "日本x", "A", "a/b/c", "null", "k1", "k2", ".", "www", "\"q\"", "{\"a\":{\"b\":\"c\"},\"n\":1}", "YWJj", "%20", "a b", "none"];
pub const FLAGS: &[&str] = &["f1", "f2", "f3"];
pub const VARS: &[&str] = &["v1", "v2", "v3", "none"];
pub const ENVS: &[&str] = &["UCH_ENV_SET", "UCH_ENV_UNSET", "UCH_ENV_EMPTY"];
pub const COMMONS: usize = 3;
pub const REGEXES: &[&str] = &["a", "b+", "^a", "c$", "(?P<x>a)(b)?", "[a-c]", ".", "", "é", "\\.", "(a)|(b)", "\\d+", "a.*c", "A"];
pub const GLOBS: &[&str] = &["a", "*", "a*", "?", "[ab]c", "*.com", "A*", ".*", "a/*", "**", ""];
pub const FILTERS: &[&str] = &["ExplicitError", "PartIsNone", "StringSourceIsNone", "StringMatcherError", "StringLocationError", "StringSourceError", "TryElseError", "CommonConditionNotFound", "CommonCallArgsError", "GetFlagError", "GetVarError"];

pub struct Cx<'a> {
    pub g: &'a mut G,
    /// How many of the common definitions may be called.
    pub commons: usize,
    /// Explicit errors get numbered messages, so that which error came out can be told.
    pub errs: u32,
    /// Whether the caller has commons arguments.
    pub regexes: bool,
    /// For suitability: only elements that are suitable as long as nothing is planted.
    pub suit: bool,
    /// How many more nodes to leave alone before planting something unsuitable.
    pub plant: Option<usize>,
    pub planted: Option<String>,
    /// Wrap one in this many elements in their debugging variant.
    pub debug: Option<u64>
}
type V = Value;

impl<'a> Cx<'a> {
    pub fn new(g: &'a mut G) -> Self {Cx {g, commons: COMMONS, errs: 0, regexes: true, suit: false, plant: None, planted: None, debug: None}}
    fn err(&mut self) -> V {self.errs += 1; json!(format!("e{}", self.errs))}
    pub fn s(&mut self) -> String {if self.g.chance(1, 12) {gn::string(self.g, 4)} else {self.g.of(STRS).into()}}
    pub fn of_pub(&mut self, x: &[&str]) -> String {self.of(x)}
    fn of(&mut self, x: &[&str]) -> String {self.g.of(x).into()}
    fn idx(&mut self) -> i64 {gn::index(self.g)}
    fn oidx(&mut self) -> V {if self.g.chance(1, 3) {V::Null} else {json!(self.idx())}}
    fn set(&mut self, max: usize) -> V {let mut v = self.g.vec(0, max, |g| g.of(STRS).to_string()); v.sort(); v.dedup(); json!(v)}
    fn list(&mut self, d: u32, max: usize, f: fn(&mut Self, u32) -> V) -> V {let n = self.g.usize(max + 1); V::Array((0..n).map(|_| f(self, d)).collect())}
    /// A map with fallbacks, merged into `o`.
    fn map(&mut self, mut o: Map<String, V>, d: u32, f: fn(&mut Self, u32) -> V) -> V {
        let mut m = Map::new();
        for _ in 0..self.g.usize(4) {let k = if self.g.chance(1, 3) {self.of(&["www.example.com", "example.com", "https", "www", "a", "/", "com"])} else {self.of(STRS)}; if m.contains_key(&k) {continue;} let x = f(self, d); m.insert(k, x);}
        o.insert("map".into(), V::Object(m));
        if self.g.chance(1, 3) {o.insert("if_null".into(), f(self, d));}
        if self.g.chance(1, 3) {o.insert("else".into(), f(self, d));}
        V::Object(o)
    }
    fn obj(x: V) -> Map<String, V> {match x {V::Object(o) => o, _ => unreachable!()}}
    fn with(mut a: V, k: &str, v: V) -> V {a.as_object_mut().unwrap().insert(k.into(), v); a}

    pub fn part(&mut self) -> V {let v = self.part_(); self.node("part", v)}
    fn part_(&mut self) -> V {
        match self.g.weighted(&[4, 3, 1]) {
            0 => json!(self.of(&["Host", "Domain", "Subdomain", "RegDomain", "DomainMiddle", "DomainSuffix", "Path", "Query", "Fragment", "Scheme", "NotDomainSuffix", "Whole"])),
            1 => gn::part(self.g),
            _ => gn::query_param(self.g)
        }
    }
    pub fn regex(&mut self) -> V {let v = self.regex_(); self.node("regex", v)}
    fn regex_(&mut self) -> V {
        let p = self.of(REGEXES);
        if self.g.chance(2, 3) {return json!(p);}
        let mut o = Self::obj(json!({"pattern": p}));
        for f in ["case_insensitive", "dot_matches_new_line", "multi_line", "swap_greed", "ignore_whitespace", "crlf", "octal"] {if self.g.chance(1, 6) {o.insert(f.into(), json!(self.g.flip()));}}
        V::Object(o)
    }
    pub fn glob(&mut self) -> V {
        let p = self.of(GLOBS);
        if self.g.chance(1, 2) {return json!(p);}
        let mut o = Self::obj(json!({"pattern": p}));
        for f in ["case_sensitive", "require_literal_separator", "require_literal_leading_dot"] {if self.g.chance(1, 3) {o.insert(f.into(), json!(self.g.flip()));}}
        V::Object(o)
    }
    fn name(&mut self, d: u32, pool: &[&str]) -> V {
        if self.g.chance(1, 10) {self.source(d)} else {json!(self.of(pool))}
    }
    /// The name of something that has to be documented.
    fn documented(&mut self, d: u32, pool: &[&str]) -> V {
        if !self.suit {return self.name(d, pool);}
        if self.g.chance(1, 6) {let v = self.source(d); json!({"NoneTo": {"value": v, "if_none": "a"}})} else {json!(self.of(pool))}
    }
    pub fn flag(&mut self, d: u32) -> V {let v = self.flag_(d); self.node("flag", v)}
    fn flag_(&mut self, d: u32) -> V {
        if self.suit {return match self.g.usize(4) {0 => json!(self.of(FLAGS)), 1 => json!({"name": self.of(FLAGS)}), 2 => json!({"type": "Scratchpad", "name": self.of(&["f1", "zflag"])}), _ => json!({"type": "Common", "name": self.of(&["f1", "zflag"])})};}
        match self.g.weighted(&[2, 2, 3, 2]) {
            0 => json!(self.of(FLAGS)),
            1 => {let n = self.name(d, FLAGS); json!({"name": n})},
            2 => {let n = self.name(d, FLAGS); json!({"type": "Scratchpad", "name": n})},
            _ => {let n = self.name(d, FLAGS); json!({"type": "Common", "name": n})}
        }
    }
    pub fn var(&mut self, d: u32) -> V {let v = self.var_(d); self.node("var", v)}
    fn var_(&mut self, d: u32) -> V {
        if self.suit {
            let t = self.of(&["Params", "Common", "Scratchpad", "TaskContext", "JobContext", "Env"]);
            let n = match t.as_str() {"Env" => self.of(ENVS), "Common" | "Scratchpad" => self.of(&["v1", "zvar", "zenv"]), _ => self.of(VARS)};
            return if t == "Params" && self.g.flip() {json!(n)} else {json!({"type": t, "name": n})};
        }
        let t = self.of(&["Params", "Common", "Scratchpad", "TaskContext", "JobContext", "Env"]);
        if t == "Params" && self.g.flip() {return json!(self.of(VARS));}
        let n = self.name(d, if t == "Env" {ENVS} else {VARS});
        if t == "Params" && self.g.flip() {return json!({"name": n});}
        json!({"type": t, "name": n})
    }
    pub fn call(&mut self, d: u32) -> V {
        let n = if self.g.chance(1, 8) {"c9".to_string()} else {format!("c{}", self.g.usize(self.commons))};
        if self.g.chance(1, 3) {return json!(n);}
        let name = if self.g.chance(1, 12) {self.source(d)} else {json!(n)};
        let mut o = Self::obj(json!({"name": name}));
        if self.g.chance(3, 4) {
            let mut a = Map::new();
            if self.g.flip() {let mut v = self.g.vec(0, 2, |g| g.of(FLAGS).to_string()); v.sort(); v.dedup(); a.insert("flags".into(), json!(v));}
            if self.g.flip() {
                let mut m = Map::new();
                // Only one of the arguments may fail, because their order is not specified.
                let n = self.g.usize(3);
                for i in 0..n {let k = self.of(VARS); if m.contains_key(&k) {continue;} let v = if i == 0 {self.source(d)} else {json!(self.s())}; m.insert(k, v);}
                if m.values().filter(|x| !x.is_string()).count() > 1 {m.clear();}
                a.insert("vars".into(), V::Object(m));
            }
            o.insert("args".into(), V::Object(a));
        }
        V::Object(o)
    }

    /// Where something unsuitable may be planted.
    fn node(&mut self, kind: &str, v: V) -> V {
        if let Some(n) = self.debug && !v.is_null() && !["regex", "flag", "var", "rule"].contains(&kind) && self.g.chance(1, n) {return json!({"Debug": v});}
        match self.plant {
            None => return v,
            Some(0) => self.plant = None,
            Some(n) => {self.plant = Some(n - 1); return v;}
        }
        const BAD: &[&str] = &["(", "[", "a{2,1}", "(?P<x", "\\", "*a", "(?P<a>x)(?P<a>y)", "\\p{Nope}"];
        let non_literal = json!({"Part": "Host"});
        let out = match kind {
            "regex" => if self.g.flip() {json!(self.of(BAD))} else {let p = self.of(BAD); json!({"pattern": p, "case_insensitive": true})},
            "flag" => match self.g.usize(4) {0 => json!("zflag"), 1 => json!({"name": "zflag"}), 2 => json!({"name": non_literal}), _ => {let t = self.of(&["Scratchpad", "Common"]); json!({"type": t, "name": non_literal})}},
            "var" => match self.g.usize(7) {0 => json!("zvar"), 1 => json!({"name": "zvar"}), 2 => json!({"type": "Env", "name": "zenv"}), 3 => json!({"type": "JobContext", "name": "zjob"}), 4 => json!({"type": "TaskContext", "name": "ztask"}), 5 => json!({"name": non_literal}), _ => {let t = self.of(&["Scratchpad", "Common", "Env", "JobContext", "TaskContext"]); json!({"type": t, "name": non_literal})}},
            "source" => match self.g.usize(7) {
                0 | 1 => json!({"Debug": v}), 2 => json!({"CommandOutput": "true"}), 3 => json!({"ParamsMap": {"name": "zmap", "key": v}}), 4 => json!({"ParamsNamedPartitioning": {"name": "znp", "element": v}}),
                5 => json!({"ParamsMap": {"name": {"Debug": "m1"}, "key": v}}), _ => json!({"ParamsNamedPartitioning": {"name": {"Debug": "n1"}, "element": v}})
            },
            "matcher" => match self.g.usize(4) {0 | 1 => json!({"Debug": v}), 2 => json!({"InSet": "zset"}), _ => json!({"InSet": {"Debug": "s1"}})},
            "rule" => match self.g.usize(3) {0 => json!({"Mapper": {"Debug": "None"}}), 1 => json!({"condition": {"Debug": "Always"}, "mapper": "None"}), _ => json!({"condition": "Always", "mapper": "None", "else_mapper": {"Debug": "None"}})},
            _ => json!({"Debug": v})
        };
        self.planted = Some(format!("{kind}: {out}"));
        out
    }

    fn logic(&mut self, d: u32, f: fn(&mut Self, u32) -> V) -> V {
        match self.g.usize(5) {
            0 => json!({"Not": f(self, d)}),
            1 => json!({"All": self.list(d, 3, f)}),
            2 => json!({"Any": self.list(d, 3, f)}),
            3 => {let (a, b, c) = (f(self, d), f(self, d), f(self, d)); json!({"If": {"if": a, "then": b, "else": c}})},
            _ => json!(self.of(&["Always", "Never"]))
        }
    }
    fn errors(&mut self, d: u32, f: fn(&mut Self, u32) -> V) -> V {
        match self.g.usize(4) {
            0 => json!({"TreatErrorAsPass": f(self, d)}),
            1 => json!({"TreatErrorAsFail": f(self, d)}),
            2 => {let (a, b) = (f(self, d), f(self, d)); json!({"TryElse": {"try": a, "else": b}})},
            _ => json!({"FirstNotError": self.list(d, 3, f)})
        }
    }

    pub fn chr(&mut self, d: u32) -> V {let v = self.chr_(d); self.node("chr", v)}
    fn chr_(&mut self, d: u32) -> V {
        const CH: &[&str] = &["a", "b", "A", "1", "é", " ", "z", "."];
        if d > 0 && self.g.chance(1, 4) {return self.logic(d - 1, Self::chr);}
        if d > 0 && self.g.chance(1, 8) {return self.errors(d - 1, Self::chr);}
        match self.g.weighted(&[1, 3, 2, 2, 8, 2]) {
            0 => json!("Error"),
            1 => json!({"Equals": self.of(CH)}),
            2 => {let (a, b) = (self.of(CH), self.of(CH)); json!({"Between": {"min": a, "max": b}})},
            3 => {let mut v = self.g.vec(0, 3, |g| g.of(CH).to_string()); v.sort(); v.dedup(); json!({"IsOneOf": v})},
            4 => json!(self.of(&["IsAlphabetic", "IsAlphanumeric", "IsAscii", "IsAsciiAlphabetic", "IsAsciiAlphanumeric", "IsAsciiControl", "IsAsciiDigit", "IsDigit", "IsAsciiGraphic", "IsAsciiHexdigit", "IsAsciiLowercase", "IsAsciiPunctuation", "IsAsciiUppercase", "IsAsciiWhitespace", "IsControl", "IsLowercase", "IsNumeric", "IsUppercase", "IsWhitespace"])),
            _ => {let r = if self.g.chance(1, 6) {self.g.of(&[0, 1, 37, 255, u32::MAX as u64])} else {self.g.of(&[2, 8, 10, 11, 16, 35, 36])}; json!({"IsDigitRadix": r})}
        }
    }
    pub fn location(&mut self, d: u32) -> V {let v = self.location_(d); self.node("location", v)}
    fn location_(&mut self, d: u32) -> V {
        if d > 0 {match self.g.weighted(&[9, 2, 2, 4]) {
            1 => return self.logic(d - 1, Self::location),
            2 => return self.errors(d - 1, Self::location),
            3 => return match self.g.usize(3) {
                0 => {let (a, b, l) = (self.idx(), self.oidx(), self.location(d - 1)); json!({"Range": {"start": a, "end": b, "location": l}})},
                1 => {let (s, l) = (self.of(&[".", "a", "/", "&"]), self.location(d - 1)); json!({"AnySegment": {"split": s, "location": l}})},
                _ => {let (s, n, l) = (self.of(&[".", "a", "/", "&"]), self.idx(), self.location(d - 1)); json!({"NthSegment": {"split": s, "n": n, "location": l}})}
            },
            _ => {}
        }}
        match self.g.weighted(&[10, 8, 1]) {
            0 => json!(self.of(&["Anywhere", "Start", "End", "Equals"])),
            1 => {let n = self.idx(); json!({(self.of(&["StartsAt", "EndsAt", "After", "Before"])): n})},
            _ => {let e = self.err(); json!({"Error": e})}
        }
    }
    fn wher(&mut self, mut o: Map<String, V>) -> V {if self.g.chance(2, 3) {let l = self.location(1); o.insert("where".into(), l);} V::Object(o)}

    pub fn source(&mut self, d: u32) -> V {let v = self.source_(d); self.node("source", v)}
    fn source_(&mut self, d: u32) -> V {
        if self.suit && d > 0 && self.g.chance(1, 10) {
            let d = d - 1;
            if self.g.chance(1, 4) {let (a, b, c) = (self.source(d), self.source(d), self.source(d)); return json!({"Cache": {"category": a, "key": b, "value": c}});}
            let (u, h) = (self.source(d), self.source(d));
            let body = match self.g.usize(5) {0 => V::Null, 1 => json!({"Text": self.source(d)}), 2 => json!({"Form": {"a": self.source(d)}}), 3 => json!({"Json": {"String": self.source(d)}}), _ => json!({"Json": [{"Object": {"x": {"String": self.source(d)}}}, 1, null]})};
            let r = match self.g.usize(4) {0 => json!("Body"), 1 => json!("Url"), 2 => json!({"Header": self.source(d)}), _ => json!({"Cookie": self.source(d)})};
            return json!({"HttpRequest": {"url": u, "headers": {"x": h}, "body": body, "response_handler": r}});
        }
        if d == 0 || self.g.chance(2, 5) {
            return match self.g.weighted(&[10, 1, 1, 5, 5, 1]) {
                0 => json!(self.s()),
                1 => V::Null,
                2 => {let e = self.err(); json!({"Error": e})},
                3 => json!({"Part": self.part()}),
                4 => json!({"Var": self.var(0)}),
                _ => if self.g.flip() {json!("none")} else {let s = self.s(); json!({"String": s})}
            };
        }
        let d = d - 1;
        match self.g.weighted(&[1, 1, 2, 1, 2, 3, 2, 2, 2, 3, 2, 2, 3, 2, 3, 2, 2, 2]) {
            0 => json!({"ErrorToNone": self.source(d)}),
            1 => json!({"ErrorToEmptyString": self.source(d)}),
            2 => {let (a, b) = (self.source(d), self.source(d)); json!({"TryElse": {"try": a, "else": b}})},
            3 => json!({"NoneToEmptyString": self.source(d)}),
            4 => {let (a, b) = (self.source(d), self.source(d)); json!({"NoneTo": {"value": a, "if_none": b}})},
            5 => {let l = self.list(d, 3, Self::source); let mut o = Self::obj(json!({"sources": l})); if self.g.flip() {o.insert("join".into(), json!(self.of(&[".", "", "&", "é"])));} json!({"Join": o})},
            6 => {let f = self.flag(d); let mut o = match f {V::String(n) => Self::obj(json!({"name": n})), f => Self::obj(f)}; o.insert("then".into(), self.source(d)); o.insert("else".into(), self.source(d)); json!({"IfFlag": o})},
            7 => {let (v, m, a, b) = (self.source(d), self.matcher(d), self.source(d), self.source(d)); json!({"IfStringMatches": {"value": v, "matcher": m, "then": a, "else": b}})},
            8 => {let (v, a, b) = (self.source(d), self.source(d), self.source(d)); json!({"IfStringIsNone": {"value": v, "then": a, "else": b}})},
            9 => {let v = self.source(d); let o = Self::obj(json!({"value": v})); let m = self.map(o, d, Self::source); json!({"Map": m})},
            10 => {let (v, p) = (if self.g.flip() {json!(gn::url_text(self.g))} else {self.source(d)}, self.part()); json!({"ExtractPart": {"value": v, "part": p}})},
            11 => json!({"Var": self.var(d)}),
            12 => {let (n, k) = (self.documented(d, &["m1", "m2", "m9"]), self.source(d)); json!({"ParamsMap": {"name": n, "key": k}})},
            13 => {let (n, e) = (self.documented(d, &["n1", "n1", "n9"]), self.source(d)); json!({"ParamsNamedPartitioning": {"name": n, "element": e}})},
            14 => {let (v, m) = (self.source(d), self.modification(d)); json!({"Modified": {"value": v, "modification": m}})},
            15 => {let (v, a, b) = (self.source(d), self.source(d), self.source(d)); json!({"ExtractBetween": {"value": v, "start": a, "end": b}})},
            16 => {let (v, r) = (self.source(d), self.regex()); json!({"RegexFind": {"value": v, "regex": r}})},
            _ => if self.commons > 0 {json!({"Common": self.call(d)})} else {json!(self.s())}
        }
    }

    pub fn matcher(&mut self, d: u32) -> V {let v = self.matcher_(d); self.node("matcher", v)}
    fn matcher_(&mut self, d: u32) -> V {
        if d > 0 {match self.g.weighted(&[10, 2, 2]) {
            1 => return self.logic(d - 1, Self::matcher),
            2 => return self.errors(d - 1, Self::matcher),
            _ => {}
        }}
        let e = d.saturating_sub(1);
        match self.g.weighted(&[3, 3, 2, 4, 2, 2, 2, 2, if d > 0 {2} else {0}, 1, 2, 2, 1, if d > 0 {2} else {0}, if d > 0 {2} else {0}, 1, 2, 2, if d > 0 && self.commons > 0 {2} else {0}, 1]) {
            0 => json!({"Is": self.source(e)}),
            1 => json!({"IsOneOf": self.set(4)}),
            2 => json!({"InSet": self.documented(e, &["s1", "s2", "s9"])}),
            3 => {let v = self.source(e); let o = self.wher(Self::obj(json!({"value": v}))); json!({"Contains": o})},
            4 => {let (v, l) = (self.list(e, 3, Self::source), self.location(e)); json!({"ContainsAny": {"values": v, "where": l}})},
            5 => {let (l, w) = (self.name(e, &["l1", "l2", "l9"]), self.location(e)); json!({"ContainsAnyInList": {"list": l, "where": w}})},
            6 => json!({"Regex": self.regex()}),
            7 => json!({"Glob": self.glob()}),
            8 => {let (m, x) = (self.modification(e), self.matcher(e)); json!({"Modified": {"modification": m, "matcher": x}})},
            9 => json!({"OnlyTheseChars": self.g.vec(0, 4, |g| g.of(&["a", "b", "c", "1", "é", ".", "/"]).to_string())}),
            10 => json!({"AllCharsMatch": self.chr(e)}),
            11 => json!({"AnyCharMatches": self.chr(e)}),
            12 => json!("IsAscii"),
            13 => {let (s, n, m) = (self.name(e, &[".", "/", "a", ""]), self.idx(), self.matcher(e)); json!({"NthSegmentMatches": {"split": s, "n": n, "matcher": m}})},
            14 => {let (s, m) = (self.name(e, &[".", "/", "a", ""]), self.matcher(e)); json!({"AnySegmentMatches": {"split": s, "matcher": m}})},
            15 => json!({"LengthIs": self.g.usize(6)}),
            16 => {let (s, v) = (self.name(e, &[".", "/", "a"]), self.source(e)); json!({"SegmentsStartWith": {"split": s, "value": v}})},
            17 => {let (s, v) = (self.name(e, &[".", "/", "a"]), self.source(e)); json!({"SegmentsEndWith": {"split": s, "value": v}})},
            18 => json!({"Common": self.call(e)}),
            _ => {let x = self.err(); json!({"Error": x})}
        }
    }

    pub fn modification(&mut self, d: u32) -> V {let v = self.modification_(d); self.node("modification", v)}
    fn modification_(&mut self, d: u32) -> V {
        let e = d.saturating_sub(1);
        if d > 0 && self.g.chance(1, 3) {
            return match self.g.usize(9) {
                0 => json!({"IgnoreError": self.modification(e)}),
                1 => json!({"RevertOnError": self.modification(e)}),
                2 => {let (a, b) = (self.modification(e), self.modification(e)); json!({"TryElse": {"try": a, "else": b}})},
                3 | 4 => json!({"All": self.list(e, 3, Self::modification)}),
                5 => json!({"FirstNotError": self.list(e, 3, Self::modification)}),
                6 => {let (c, a) = (self.condition(e), self.modification(e)); let mut o = Self::obj(json!({"condition": c, "then": a})); if self.g.flip() {o.insert("else".into(), self.modification(e));} json!({"If": o})},
                7 => {let (c, a) = (self.matcher(e), self.modification(e)); let mut o = Self::obj(json!({"matcher": c, "then": a})); if self.g.flip() {o.insert("else".into(), self.modification(e));} json!({"IfMatches": o})},
                _ => {let v = self.source(e); let m = self.map(Self::obj(json!({"value": v})), e, Self::modification); json!({"StringMap": m})}
            };
        }
        const SP: &[&str] = &[".", "/", "a", "&", "é", ""];
        match self.g.weighted(&[2, 6, 4, 3, 4, 2, 2, 4, 4, 6, 2, 4, 3, 2, 4, 3, 3, 4, 4, 2, if d > 0 && self.commons > 0 {2} else {0}, 2]) {
            0 => json!("None"),
            1 => json!({(self.of(&["Set", "Append", "Prepend"])): self.source(e)}),
            2 => {let (a, b) = (self.source(e), self.source(e)); json!({"Replace": {"find": a, "replace": b}})},
            3 => {let (a, b, n) = (self.source(e), self.source(e), self.g.usize(4)); json!({"Replacen": {"find": a, "replace": b, "count": n}})},
            4 => {let (a, b, r) = (self.idx(), self.oidx(), self.source(e)); json!({"ReplaceRange": {"start": a, "end": b, "replace": r}})},
            5 => json!("Lowercase"),
            6 => json!("Uppercase"),
            7 => json!({(self.of(&["StripPrefix", "StripMaybePrefix"])): self.source(e)}),
            8 => json!({(self.of(&["StripSuffix", "StripMaybeSuffix"])): self.source(e)}),
            9 => {let (v, i) = (self.source(e), self.idx()); json!({"Insert": {"value": v, "index": i}})},
            10 => json!({"RemoveChar": self.idx()}),
            11 => {let (a, b) = (self.idx(), self.oidx()); json!({"KeepRange": {"start": a, "end": b}})},
            12 => {
                let (r, k) = (self.regex(), self.g.usize(6));
                if k == 2 {return json!({"RegexFind": r});}
                let p = if self.g.flip() {json!(self.of(&["$0", "$x", "${2}b", "$1$1", "", "$$", "[$0]"]))} else {self.source(e)};
                match k {
                    0 => json!({"RegexCaptures": {"regex": r, "replace": p}}),
                    1 => {let j = self.source(e); json!({"JoinAllRegexCaptures": {"regex": r, "replace": p, "join": j}})},
                    3 => json!({"RegexReplace": {"regex": r, "replace": p}}),
                    4 => json!({"RegexReplaceAll": {"regex": r, "replace": p}}),
                    _ => {let n = self.g.usize(4); json!({"RegexReplacen": {"regex": r, "n": n, "replace": p}})}
                }
            },
            13 => match self.g.usize(4) {
                0 => json!({"UrlEncode": self.of(&["JsEncodeUri", "JsEncodeUriComponent"])}),
                1 => json!("UrlDecode"),
                2 => json!({"Base64Encode": self.base64()}),
                _ => json!({"Base64Decode": self.base64()})
            },
            14 => {let (s, n) = (self.name(e, SP), self.idx()); json!({"KeepNthSegment": {"split": s, "index": n}})},
            15 => {let s = self.name(e, SP); let mut o = Self::obj(json!({"split": s})); if self.g.chance(3, 4) {o.insert("start".into(), json!(self.idx()));} if self.g.flip() {let x = self.oidx(); o.insert("end".into(), x);} json!({"KeepSegmentRange": o})},
            16 => {let (a, b) = (self.source(e), self.source(e)); json!({"ExtractBetween": {"start": a, "end": b}})},
            17 => {let (s, i, v) = (self.name(e, SP), self.idx(), if self.g.chance(1, 4) {V::Null} else {self.source(e)}); json!({"SetSegment": {"split": s, "index": i, "value": v}})},
            18 => {let (s, i, v) = (self.name(e, SP), self.idx(), if self.g.chance(1, 4) {V::Null} else {self.source(e)}); json!({"InsertSegment": {"split": s, "index": i, "value": v}})},
            19 => match self.g.usize(3) {
                0 => json!({"JsonPointer": self.name(e, &["/a", "/a/b", "", "/n", "/0", "/a/b/c"])}),
                1 => json!({"RemoveQueryParamsMatching": self.matcher(e)}),
                _ => json!({"AllowQueryParamsMatching": self.matcher(e)})
            },
            20 => json!({"Common": self.call(e)}),
            _ => {let x = self.err(); json!({"Error": x})}
        }
    }
    fn base64(&mut self) -> V {
        let mut o = Map::new();
        if self.g.flip() {o.insert("alphabet".into(), json!(self.of(&["Standard", "UrlSafe"])));}
        if self.g.flip() {o.insert("encode_padding".into(), json!(self.g.flip()));}
        if self.g.flip() {o.insert("decode_padding".into(), json!(self.of(&["Indifferent", "RequireCanonical", "RequireNone"])));}
        V::Object(o)
    }

    /// A condition written so that it can be flattened among other fields.
    fn flatten(v: V) -> Map<String, V> {match v {V::String(s) => Self::obj(json!({s: null})), v => Self::obj(v)}}
    fn filter(&mut self, o: &mut Map<String, V>) {
        if self.g.chance(2, 3) {let mut v = self.g.vec(0, 4, |g| g.of(FILTERS).to_string()); v.sort(); v.dedup(); o.insert("filter".into(), json!(v));}
    }
    pub fn condition(&mut self, d: u32) -> V {let v = self.condition_(d); self.node("condition", v)}
    fn condition_(&mut self, d: u32) -> V {
        let e = d.saturating_sub(1);
        if d > 0 {match self.g.weighted(&[8, 3, 3, 2]) {
            1 => return self.logic(e, Self::condition),
            2 => {
                return match self.g.usize(3) {
                    0 => {let mut o = Self::flatten(self.condition(e)); self.filter(&mut o); json!({"TreatErrorAsPass": o})},
                    1 => {let mut o = Self::flatten(self.condition(e)); self.filter(&mut o); json!({"TreatErrorAsFail": o})},
                    _ => {let (a, b) = (self.condition(e), self.condition(e)); let mut o = Self::obj(json!({"try": a, "else": b})); self.filter(&mut o); json!({"TryElse": o})}
                };
            },
            3 => return if self.g.flip() {let p = self.part(); let m = self.map(Self::obj(json!({"part": p})), e, Self::condition); json!({"PartMap": m})} else {let v = self.source(e); let m = self.map(Self::obj(json!({"value": v})), e, Self::condition); json!({"StringMap": m})},
            _ => {}
        }}
        match self.g.weighted(&[8, 2, 4, 2, 2, 3, 4, 3, 2, 4, 3, 3, 3, 3, if d > 0 && self.commons > 0 {3} else {0}, 2]) {
            0 => {let k = self.of(&["HostIs", "SubdomainIs", "RegDomainIs", "DomainIs", "DomainMiddleIs", "NotDomainSuffixIs", "DomainSuffixIs"]); let v = if self.g.chance(1, 4) {V::Null} else {json!(self.of(&["www.example.com", "example.com", "www", "example", "com", "a.b", "www.example.com.", "127.0.0.1", "co.uk"]))}; json!({k: v})},
            1 => {let mut v = self.g.vec(0, 3, |g| g.of(&["www.example.com", "example.com", "127.0.0.1", "a.co.uk"]).to_string()); v.sort(); v.dedup(); json!({"HostIsOneOf": v})},
            2 => json!(self.of(&["UrlHasHost", "HostIsFqdn", "HostIsDomain", "HostIsIp", "HostIsIpv4", "HostIsIpv6"])),
            3 => json!({"QueryHasParam": self.of(gn::QNAMES)}),
            4 => json!({"PathIs": self.of(&["/", "/a/b", "/a", "", "/a//b"])}),
            5 => {let (p, v) = (self.part(), self.source(e)); json!({"PartIs": {"part": p, "value": v}})},
            6 => {let (p, v) = (self.part(), self.source(e)); let o = self.wher(Self::obj(json!({"part": p, "value": v}))); json!({"PartContains": o})},
            7 => {let (p, m) = (self.part(), self.matcher(e)); json!({"PartMatches": {"part": p, "matcher": m}})},
            8 => {let (p, v) = (self.part(), self.set(4)); json!({"PartIsOneOf": {"part": p, "values": v}})},
            9 => json!({"FlagIsSet": self.flag(e)}),
            10 => {let (r, v) = (self.var(e), self.source(e)); let r = match r {V::String(n) => json!({"name": n}), r => r}; json!({"VarIs": Self::with(r, "value", v)})},
            11 => {let (a, b) = (self.source(e), self.source(e)); json!({"StringIs": {"left": a, "right": b}})},
            12 => {let (a, b) = (self.source(e), self.source(e)); let o = self.wher(Self::obj(json!({"value": a, "substring": b}))); json!({"StringContains": o})},
            13 => {let (a, m) = (self.source(e), self.matcher(e)); json!({"StringMatches": {"value": a, "matcher": m}})},
            14 => json!({"Common": self.call(e)}),
            _ => {let x = self.err(); json!({"Error": x})}
        }
    }

    pub fn mapper(&mut self, d: u32) -> V {let v = self.mapper_(d); self.node("mapper", v)}
    fn mapper_(&mut self, d: u32) -> V {
        if self.suit && d > 0 && self.g.chance(1, 20) {let (c, m) = (self.source(d - 1), self.mapper(d - 1)); return json!({"CacheUrl": {"category": c, "mapper": m}});}
        let e = d.saturating_sub(1);
        if d > 0 && self.g.chance(2, 5) {
            return match self.g.weighted(&[3, 2, 5, 2, 2, 2, 3, 3, 2, 1, 1, 2, if self.commons > 0 {2} else {0}]) {
                0 => {let (c, m) = (self.condition(e), self.mapper(e)); let mut o = Self::obj(json!({"condition": c, "mapper": m})); if self.g.flip() {o.insert("else_mapper".into(), self.mapper(e));} json!({"If": o})},
                1 => {let n = self.g.usize(4); let v: Vec<V> = (0..n).map(|_| {let (c, m) = (self.condition(e), self.mapper(e)); json!({"condition": c, "mapper": m})}).collect(); json!({"ConditionChain": v})},
                2 => json!({"All": self.list(e, 4, Self::mapper)}),
                3 => {let p = self.part(); let m = self.map(Self::obj(json!({"part": p})), e, Self::mapper); json!({"PartMap": m})},
                4 => {let v = self.source(e); let m = self.map(Self::obj(json!({"value": v})), e, Self::mapper); json!({"StringMap": m})},
                5 => json!({"IgnoreError": self.mapper(e)}),
                6 => json!({"RevertOnError": self.mapper(e)}),
                7 => {let (a, b) = (self.mapper(e), self.mapper(e)); json!({"TryElse": {"try": a, "else": b}})},
                8 => json!({"FirstNotError": self.list(e, 3, Self::mapper)}),
                9 => json!({"Rule": self.rule(e)}),
                10 => json!({"Rules": self.list(e, 3, Self::rule)}),
                11 => {let m = self.mapper(e); let mut o = Self::obj(json!({"mapper": m, "delay": 0.0})); if self.g.chance(2, 3) {o.insert("limit".into(), json!(self.g.usize(4)));} json!({"Retry": o})},
                _ => json!({"Common": self.call(e)})
            };
        }
        match self.g.weighted(&[1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 8, 6, 3, 3, 4, 5, 4]) {
            0 => json!("None"),
            1 => {let x = self.err(); json!({"Error": x})},
            2 => json!("RemoveQuery"),
            3 => json!({"RemoveQueryParam": self.name(e, gn::QNAMES)}),
            4 => {let mut v = self.g.vec(0, 3, |g| g.of(gn::QNAMES).to_string()); v.sort(); v.dedup(); json!({"RemoveQueryParams": v})},
            5 => {let mut v = self.g.vec(0, 3, |g| g.of(gn::QNAMES).to_string()); v.sort(); v.dedup(); json!({"AllowQueryParams": v})},
            6 => json!({(self.of(&["RemoveQueryParamsMatching", "AllowQueryParamsMatching"])): self.matcher(e)}),
            7 => json!({"GetUrlFromQueryParam": self.name(e, gn::QNAMES)}),
            8 => {let v = if self.g.chance(1, 6) {V::Null} else {json!(gn::host(self.g))}; json!({"SetHost": v})},
            9 => {let v = if self.g.flip() {json!(self.of(&["../x", "y", "/z", "//h/p", "?q", "#f", "https://example.net/", "", "http://[", "mailto:x"]))} else {self.source(e)}; json!({"Join": v})},
            10 => {let p = self.part(); let v = if self.g.flip() {gn::part_value(self.g, &p).map_or(V::Null, |x| json!(x))} else {self.source(e)}; json!({"SetPart": {"part": p, "value": v}})},
            11 => {let (p, m) = (self.part(), self.modification(e)); json!({"ModifyPart": {"part": p, "modification": m}})},
            12 => {let (a, b) = (self.part(), self.part()); json!({"CopyPart": {"from": a, "to": b}})},
            13 => {let (a, b) = (self.part(), self.part()); json!({"MovePart": {"from": a, "to": b}})},
            14 => {let (n, v) = (self.name(e, FLAGS), self.g.flip()); json!({"SetScratchpadFlag": {"name": n, "value": v}})},
            15 => {let (n, v) = (self.name(e, VARS), self.source(e)); json!({"SetScratchpadVar": {"name": n, "value": v}})},
            _ => {let (n, m) = (self.name(e, VARS), self.modification(e)); json!({"ModifyScratchpadVar": {"name": n, "modification": m}})}
        }
    }

    pub fn rules(&mut self, d: u32) -> V {self.list(d, 3, Self::rule)}
    pub fn rule(&mut self, d: u32) -> V {let v = self.rule_(d); self.node("rule", v)}
    fn rule_(&mut self, d: u32) -> V {
        let e = d.saturating_sub(1);
        if d > 0 {
            match self.g.weighted(&[4, 2, 2, 2, 3, 3, 3, 2, if self.commons > 0 {2} else {0}]) {
                1 => {let p = self.part(); let m = self.map(Self::obj(json!({"part": p})), e, Self::mapper); return json!({"PartMap": m});},
                2 => {let p = self.part(); let (k, f): (_, fn(&mut Self, u32) -> V) = if self.g.flip() {("PartRuleMap", Self::rule)} else {("PartRulesMap", Self::rules)}; let m = self.map(Self::obj(json!({"part": p})), e, f); return json!({k: m});},
                3 => {let v = self.source(e); let m = self.map(Self::obj(json!({"value": v})), e, Self::mapper); return json!({"StringMap": m});},
                4 => {let v = self.source(e); let (k, f): (_, fn(&mut Self, u32) -> V) = if self.g.flip() {("StringRuleMap", Self::rule)} else {("StringRulesMap", Self::rules)}; let m = self.map(Self::obj(json!({"value": v})), e, f); return json!({k: m});},
                5 => {let r = self.rules(e); let mut o = Self::obj(json!({"rules": r})); if self.g.chance(2, 3) {o.insert("limit".into(), json!(self.g.usize(5)));} return json!({"Repeat": o});},
                6 => {let (c, r) = (self.condition(e), self.rules(e)); return json!({"SharedCondition": {"condition": c, "rules": r}});},
                7 => return json!({"Rules": self.rules(e)}),
                8 => return json!({"Common": self.call(e)}),
                _ => {}
            }
        }
        if self.g.flip() {return json!({"Mapper": self.mapper(e)});}
        let (c, m) = (self.condition(e), self.mapper(e));
        let mut o = Self::obj(json!({"condition": c, "mapper": m}));
        if self.g.chance(1, 3) {o.insert("else_mapper".into(), self.mapper(e));}
        V::Object(o)
    }

    fn scope(&mut self) -> V {
        let f: Vec<&str> = FLAGS.iter().filter(|_| self.g.flip()).copied().collect();
        json!({"flags": f, "vars": self.vars()})
    }
    fn vars(&mut self) -> V {
        let mut m = Map::new();
        for k in &VARS[..3] {if self.g.flip() {let v = if self.g.chance(1, 6) {self.of(&["f1", "v1", "c1", "m1"])} else {self.s()}; m.insert(k.to_string(), json!(v));}}
        V::Object(m)
    }
    pub fn url(&mut self) -> String {
        let t = match self.g.weighted(&[3, 4]) {
            0 => self.of(&["https://www.example.com/a/b?a=1&b=2#f", "https://example.com/", "http://a.b.example.co.uk/a//b?a=1&a=2&utm_source=x", "https://127.0.0.1/a?b", "https://www.example.com./?url=https%3A%2F%2Fexample.org%2F", "mailto:x?a=1"]),
            _ => gn::url_text(self.g)
        };
        // In the form it keeps when read again.
        url::Url::parse(&t).ok().map(|u| u.to_string()).filter(|t| url::Url::parse(t).is_ok_and(|u| u.as_str() == t)).unwrap_or_else(|| "https://www.example.com/a/b?a=1&b=2#f".into())
    }
    /// Params without documentation or HTTP settings.
    pub fn params(&mut self) -> V {
        let f: Vec<&str> = FLAGS.iter().filter(|_| self.g.flip()).copied().collect();
        let mut m = Map::new();
        for k in ["m1", "m2"] {
            let mut o = Map::new();
            for _ in 0..self.g.usize(4) {let (k, v) = (self.of(STRS), self.s()); o.insert(k, json!(v));}
            let mut o = Self::obj(json!({"map": o}));
            if self.g.flip() {o.insert("if_null".into(), json!(self.s()));}
            if self.g.flip() {o.insert("else".into(), json!(self.s()));}
            m.insert(k.into(), V::Object(o));
        }
        let (mut pa, mut pb): (Vec<&str>, Vec<&str>) = Default::default();
        for s in STRS {match self.g.usize(4) {0 => pa.push(s), 1 => pb.push(s), _ => {}}}
        let v = self.vars();
        let (s1, s2) = (self.set(6), self.set(3));
        let (l1, l2) = (self.g.vec(0, 4, |g| g.of(STRS).to_string()), self.g.vec(0, 1, |g| g.of(STRS).to_string()));
        json!({"flags": f, "vars": v, "sets": {"s1": s1, "s2": s2}, "lists": {"l1": l1, "l2": l2}, "maps": m, "named_partitionings": {"n1": {"pa": pa, "pb": pb}}})
    }
    /// Definitions that only call the ones before them.
    pub fn commons_def(&mut self, d: u32) -> V {
        let kinds: [(&str, fn(&mut Self, u32) -> V); 6] = [("rules", Self::rule), ("conditions", Self::condition), ("mappers", Self::mapper), ("string_sources", Self::source), ("string_modifications", Self::modification), ("string_matchers", Self::matcher)];
        let old = self.commons;
        let mut out = Map::new();
        for (k, f) in kinds {
            let mut m = Map::new();
            for i in 0..COMMONS {self.commons = i; m.insert(format!("c{i}"), f(self, d));}
            out.insert(k.into(), V::Object(m));
        }
        self.commons = old;
        V::Object(out)
    }
    /// A task state; commons only as deep as `d`.
    pub fn state(&mut self, d: u32) -> V {
        let u = self.url();
        let mut v = json!({"url": u, "pad": self.scope(), "context": self.vars(), "job_context": self.vars(), "params": self.params()});
        if self.g.flip() {let s = self.scope(); v["common"] = s;}
        v["commons"] = if d > 0 {self.commons_def(d)} else {json!({})};
        v
    }
}

/// Without the debugging wrappers.
pub fn undebug(v: &V) -> V {
    match v {
        V::Array(a) => a.iter().map(undebug).collect(),
        V::Object(o) if o.contains_key("Debug") => {
            let inner = undebug(&o["Debug"]);
            if o.len() == 1 {return inner;}
            // A condition among other fields.
            let mut r = Cx::flatten(inner);
            for (k, x) in o {if k != "Debug" {r.insert(k.clone(), undebug(x));}}
            V::Object(r)
        },
        V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), match undebug(x) {
            V::String(s) if x.is_object() && k.starts_with("TreatErrorAs") => V::Object(Cx::flatten(V::String(s))),
            x => x
        })).collect()),
        v => v.clone()
    }
}
/// Whether a name occurs as a key or string anywhere.
pub fn mentions(v: &V, x: &str) -> bool {
    match v {V::String(s) => s == x, V::Array(a) => a.iter().any(|y| mentions(y, x)), V::Object(o) => o.iter().any(|(k, y)| k == x || mentions(y, x)), _ => false}
}
/// Variant names in an element, for the coverage classes of the evidence.
pub fn variants(v: &V, out: &mut std::collections::BTreeSet<String>) {
    match v {
        V::String(s) if s.len() > 2 && s.chars().next().unwrap().is_ascii_uppercase() && s.chars().all(|c| c.is_ascii_alphanumeric()) => {out.insert(s.clone());},
        V::Array(a) => a.iter().for_each(|y| variants(y, out)),
        V::Object(o) => o.iter().for_each(|(k, y)| {if k.len() > 1 && k.starts_with(|c: char| c.is_ascii_uppercase()) {out.insert(k.clone());} variants(y, out)}),
        _ => {}
    }
}
