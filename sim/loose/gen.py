#!/usr/bin/env python3
"""One-off: writes src/lib.rs from schema.json."""
import json, os
d=os.path.dirname(os.path.abspath(__file__))
s=json.load(open(d+"/schema.json"))
rows="\n".join(f'    {x["short"]}: {"header" if x["short"].startswith("bah_") else "document"}::{x["short"]}::{x["rust"]},' for x in s["docs"])
open(d+"/src/lib.rs","w").write('''//! The message definitions and headers that MxMessage does not carry, used the way their README examples use them:
//! serde with quick-xml and serde_json, and `Validate`.  In a crate of its own because it takes a while to build.
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use mx_message::{document, header};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};

fn one(cfg: &ParserConfig, f: &dyn Fn(&ParserConfig, &mut ErrorCollector)) -> Value {
    let mut c = ErrorCollector::new();
    f(cfg, &mut c);
    let (h, n) = (c.has_errors(), c.error_count());
    let e: Vec<Value> = c.errors().into_iter().map(|e| json!([e.code, e.field, e.path])).collect();
    json!({"e": e, "has": h, "n": n})
}
fn report(m: Value, f: &dyn Fn(&ParserConfig, &mut ErrorCollector)) -> Value {
    json!({"m": m, "default": one(&ParserConfig::default(), f), "fast": one(&ParserConfig::fail_fast(), f), "lenient": one(&ParserConfig::lenient(), f), "again": one(&ParserConfig::default(), f)})
}
fn run<T: Serialize + DeserializeOwned + Validate>(f: &str, s: &str) -> Result<Value, String> {
    let xml = match f { "findings" | "value" => !s.trim_start().starts_with('{'), _ => f.starts_with("xml") };
    let t: T = if xml { quick_xml::de::from_str(s).map_err(|e| e.to_string())? } else { serde_json::from_str(s).map_err(|e| e.to_string())? };
    Ok(match f {
        "findings" => report(serde_json::to_value(&t).map_err(|e| e.to_string())?, &|cfg, c| t.validate("", cfg, c)),
        "value" => serde_json::to_value(&t).map_err(|e| e.to_string())?,
        _ if f.ends_with("_xml") => Value::String(quick_xml::se::to_string(&t).map_err(|e| e.to_string())?),
        _ => Value::String(serde_json::to_string_pretty(&t).map_err(|e| e.to_string())?),
    })
}
macro_rules! table { ($($n:ident: $t:path,)*) => {
    /// One hop (`xml_xml`, `xml_json`, `json_xml`, `json_json`), the value read, or the findings, for the definition `module`.
    pub fn call(module: &str, f: &str, s: &str) -> Result<Value, String> { match module { $(stringify!($n) => run::<$t>(f, s),)* _ => Err(format!("no module {module}")) } }
} }
table! {
'''+rows+'''
}
''')
