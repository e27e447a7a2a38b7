//! Runs the real code on a task state described by JSON, and the result in a comparable form.

use std::collections::{HashMap, HashSet};
use std::borrow::Cow;
use serde_json::{json, Value};
use url_cleaner::types::*;
use url_cleaner::glue::*;

/// Everything a `TaskState` borrows, owned.
pub struct Env {
    pub url: BetterUrl,
    pub pad: JobScratchpad,
    pub common: Option<CommonCallArgs<'static>>,
    pub context: TaskContext,
    pub job_context: JobContext,
    pub params: Params,
    pub commons: Commons,
    pub cache: Cache
}

fn strs(v: &Value) -> HashSet<String> {v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().into()).collect()).unwrap_or_default()}
fn map(v: &Value) -> HashMap<String, String> {v.as_object().map(|a| a.iter().map(|(k, x)| (k.clone(), x.as_str().unwrap().into())).collect()).unwrap_or_default()}

impl Env {
    /// From `{"url", "pad": {flags, vars}, "common"?: {flags, vars}, "context": vars, "job_context": vars, "params", "commons"}`.
    pub fn new(v: &Value) -> Result<Self, String> {
        let d = |n: &str| v.get(n).cloned().unwrap_or_else(|| json!({}));
        Ok(Self {
            url: BetterUrl::parse(v["url"].as_str().ok_or("url")?).map_err(|e| e.to_string())?,
            pad: JobScratchpad {flags: strs(&d("pad")["flags"]), vars: map(&d("pad")["vars"])},
            common: v.get("common").filter(|x| !x.is_null()).map(|c| CommonCallArgs {
                flags: strs(&c["flags"]).into_iter().map(Cow::Owned).collect(), vars: map(&c["vars"]).into_iter().map(|(k, v)| (Cow::Owned(k), v)).collect()
            }),
            context: TaskContext {vars: map(&d("context"))},
            job_context: JobContext {vars: map(&d("job_context"))},
            params: serde_json::from_value(d("params")).map_err(|e| format!("params: {e}"))?,
            commons: serde_json::from_value(d("commons")).map_err(|e| format!("commons: {e}"))?,
            cache: Default::default()
        })
    }
    pub fn state(&mut self) -> TaskState<'_> {
        TaskState {url: &mut self.url, scratchpad: &mut self.pad, common_args: self.common.as_ref(), context: &self.context, job_context: &self.job_context, params: &self.params, commons: &self.commons, cache: &self.cache}
    }
    pub fn view(&self) -> TaskStateView<'_> {
        TaskStateView {url: &self.url, scratchpad: &self.pad, common_args: self.common.as_ref(), context: &self.context, job_context: &self.job_context, params: &self.params, commons: &self.commons, cache: &self.cache}
    }
    /// URL, host details and scratchpad, for before/after comparisons.
    pub fn snapshot(&self) -> (String, Option<HostDetails>, JobScratchpad) {(self.url.to_string(), self.url.host_details(), self.pad.clone())}
}

/// Parses an element from JSON text, as a config file would.
pub fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    let t = v.to_string();
    serde_json::from_str(&t).unwrap_or_else(|e| panic!("generated element does not deserialize (harness/src): {e}; {:?}: {t}", why(v)))
}
/// The innermost parts that do not deserialize (rules are untagged, so serde's own message says nothing).
fn why(v: &Value) -> Vec<String> {
    fn t<T: serde::de::DeserializeOwned>(v: &Value, out: &mut Vec<String>) {if let Err(e) = serde_json::from_str::<T>(&v.to_string()) && !e.to_string().contains("untagged") {out.push(format!("{e} in {v}"))}}
    let mut out = Vec::new();
    match v {
        Value::Object(o) => for (k, x) in o {
            match k.as_str() {"mapper" | "else_mapper" | "Mapper" => t::<Mapper>(x, &mut out), "condition" => t::<Condition>(x, &mut out), "value" => t::<StringSource>(x, &mut out), "part" => t::<UrlPart>(x, &mut out), _ => {}}
            out.extend(why(x));
        },
        Value::Array(a) => for x in a {out.extend(why(x));},
        _ => {}
    }
    out
}
