//! Plans (what a run does) and their interpretation inside a simulated process.
use crate::exec::{self, Out};
use crate::model::{self, GenCfg, Layout};
use crate::rng::{hash_bytes, Rng};
use crate::sys::{self, ClockPlan, EntropyPlan, SchedPlan};
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig, error::Result as DfResult, message::{Change, Message}};
use dataflow_rs::{Engine, Workflow};
use datalogic_rs::DataLogic;
use mx_message::mx_envelope::{Document, MxMessage};
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MsgSpec { pub doc: usize, pub seed: u64, pub g: GenCfg }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// keep only the first n bytes
    Trunc { at: usize },
    /// lose the bytes a..b
    Lose { a: usize, b: usize },
    /// the bytes a..b arrive again at position `at` (>= b)
    Repeat { a: usize, b: usize, at: usize },
    /// a..b and b..c arrive in the other order
    Swap { a: usize, b: usize, c: usize },
    Flip { at: usize, x: u8 },
    /// overwrite in place
    Edit { at: usize, s: String },
    Insert { at: usize, s: String },
    /// replace everything
    Junk { s: String },
    /// insert `open` repeated n times (deep nesting)
    Deep { at: usize, n: usize, name: String, close: bool },
    /// insert the same text n times, "{}" in it being the count
    Bulk { at: usize, n: usize, s: String },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part { pub msg: usize, /* 0 envelope, 1 Document-only, 2 JSON, 3 nothing, 4 inner element only */ pub form: u8, pub layout: Layout, pub faults: Vec<Fault> }
/// One delivered payload: the parts back to back, then faults on the whole.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Deliv { pub parts: Vec<Part>, pub faults: Vec<Fault> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WStep {
    Parse { src: String, dst: String },
    Publish { src: String, dst: String },
    Validate { src: String, dst: String },
    Generate { dst: String },
    /// a step with an arbitrary input object (missing or ill-typed parameters)
    Raw { name: String, input: Value },
    Yield { ns: u64 },
    Probe,
    /// write the message to the simulated disk; synced or not
    Checkpoint { sync: bool },
    /// copy a context path to a data field through the engine's map function
    Map { from: String, to: String },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FStep { pub s: WStep, #[serde(default)] pub cond: Value, #[serde(default)] pub cont: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Flow { pub workflows: Vec<Vec<FStep>>, #[serde(default)] pub cont: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Src { Deliv(usize), Content(usize), Json(Value), Field(usize), Scenario(usize), None }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// direct call of a library function on a delivered payload
    Api { f: String, d: usize },
    /// same on a literal string
    ApiLit { f: String, s: String },
    /// a message through the shared engine of a flow
    Flow { flow: usize, payload: Src, init: Vec<(String, Src)>, cancel: u32, again: u32, key: String },
    /// the same steps by direct handler calls (composition)
    Steps { steps: Vec<WStep>, payload: Src, init: Vec<(String, Src)>, peek_before: bool },
    Clock { jump_ns: i64 },
    Sleep { ns: u64 },
    /// forward message through hops using the plain API: each hop one of the encodings
    Relay { msg: usize, layout: Layout, hops: Vec<u8>, key: String },
    /// the same operations again and again, every round on messages with identifiers of their own
    Churn { ops: Vec<Op>, rounds: usize },
    /// what the random data generator itself makes of a scenario (reference)
    Fake { payload: Src },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TaskPlan { pub ops: Vec<Op> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String, pub idx: u64, pub kind: String,
    pub threads: usize,
    /// one schedule per epoch (process lifetime)
    pub sched: Vec<SchedPlan>,
    /// crash instants: scheduling point in epoch i; an epoch without entry runs to its end
    pub crashes: Vec<u64>,
    pub clock: ClockPlan, pub entropy: EntropyPlan,
    pub msgs: Vec<MsgSpec>, pub delivs: Vec<Deliv>, pub flows: Vec<Flow>, pub tasks: Vec<TaskPlan>,
    pub disk_seed: u64,
    pub max_steps: u64,
    #[serde(default)] pub x: Value,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Disk { pub synced: BTreeMap<String, String>, pub pending: Vec<(String, String)>, #[serde(default)] pub lost: u32, #[serde(default)] pub torn: u32 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec { pub task: usize, pub op: usize, pub step: u64, pub ev: String, pub v: Value }
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct EpochOut {
    pub end: String, pub log: Vec<Rec>, pub disk: Disk, pub steps: u64, pub switches: u64, pub hash: u64, pub decisions: Vec<(u64, u32)>,
    pub now: u64, pub reads: Vec<(u32, i64)>, pub ent_bytes: u64, pub peak: i64, pub futex_waits: u64, pub timeouts: u64, pub panics: Vec<String>, #[serde(default)] pub calls: u64,
    /// last operation begun, for runs that died
    #[serde(default)] pub at: String,
}

// ------------------------------------------------------------------ payload construction (harness code)
fn floor_char(s: &str, mut i: usize) -> usize { if i >= s.len() { return s.len() } while !s.is_char_boundary(i) { i -= 1 } i }
pub fn apply_fault(b: &mut Vec<u8>, f: &Fault) {
    let n = b.len();
    match f {
        Fault::Trunc { at } => b.truncate(*at),
        Fault::Lose { a, b: e } => { let (a, e) = ((*a).min(n), (*e).min(n)); if a < e { b.drain(a..e); } }
        Fault::Repeat { a, b: e, at } => { let (a, e, at) = ((*a).min(n), (*e).min(n), (*at).min(n)); if a < e { let c = b[a..e].to_vec(); let t = b.split_off(at); b.extend(c); b.extend(t); } }
        Fault::Swap { a, b: m, c } => { let (a, m, c) = ((*a).min(n), (*m).min(n), (*c).min(n)); if a <= m && m <= c { b[a..c].rotate_left(m - a) } }
        Fault::Flip { at, x } => if let Some(c) = b.get_mut(*at) { *c ^= *x },
        Fault::Edit { at, s } => for (i, c) in s.bytes().enumerate() { if let Some(x) = b.get_mut(*at + i) { *x = c } },
        Fault::Insert { at, s } => { let at = (*at).min(n); let t = b.split_off(at); b.extend(s.as_bytes()); b.extend(t); }
        Fault::Junk { s } => *b = s.as_bytes().to_vec(),
        Fault::Bulk { at, n: k, s } => {
            let at = (*at).min(n); let t = b.split_off(at);
            for i in 0..*k { if s.contains("{}") { b.extend(s.replace("{}", &i.to_string()).as_bytes()) } else { b.extend(s.as_bytes()) } }
            b.extend(t);
        }
        Fault::Deep { at, n: k, name, close } => {
            let at = (*at).min(n); let t = b.split_off(at);
            for _ in 0..*k { b.extend(format!("<{name}>").as_bytes()) }
            if *close { for _ in 0..*k { b.extend(format!("</{name}>").as_bytes()) } }
            b.extend(t);
        }
    }
}
pub const MARK: &str = "QZROUND000";
/// identifiers and names become the marker
pub fn mark(v: &mut Value) {
    match v {
        Value::Object(m) => for (k, x) in m.iter_mut() { if x.is_string() { if (k.ends_with("Id") || k.ends_with("Nm") || k == "BizMsgIdr") && k != "@Ccy" { *x = Value::String(MARK.into()) } } else { mark(x) } },
        Value::Array(a) => for x in a { mark(x) },
        _ => {}
    }
}
pub fn gen_msg(p: &MsgSpec) -> Value { model::Gen::new(p.seed, p.g, None).message(p.doc) }
pub fn encode_part(m: &Value, part: &Part, seed: u64) -> String {
    match part.form {
        0 => model::encode_envelope(m, &part.layout, seed),
        1 => model::encode_document(m, &part.layout, seed),
        2 => model::encode_json(m, &part.layout, seed),
        // a definition on its own
        5 => model::encode_loose(m, &part.layout, seed),
        6 => model::encode_json(m["Document"].as_object().unwrap().values().next().unwrap(), &Layout { esc: 0, tagws: 0, ..part.layout }, seed),
        4 => { let d = model::encode_document(m, &Layout::default(), seed); d.trim_start_matches("<Document>").trim_end_matches("</Document>").to_string() }
        _ => String::new(),
    }
}
pub fn build_deliv(msgs: &[Value], plan: &Plan, d: &Deliv) -> String {
    let mut all = vec![];
    for p in &d.parts {
        let mut b = encode_part(&msgs[p.msg], p, plan.msgs[p.msg].seed).into_bytes();
        for f in &p.faults { apply_fault(&mut b, f) }
        all.extend(b);
    }
    for f in &d.faults { apply_fault(&mut all, f) }
    String::from_utf8_lossy(&all).into_owned()
}

// ------------------------------------------------------------------ state of the simulated process
pub struct World { pub plan: Plan, pub msgs: Vec<Value>, pub delivs: Vec<String>, pub disk: Disk, pub log: Vec<Rec>, pub op: Vec<usize>, pub panics: Vec<String>, engines: Vec<Option<Arc<Engine>>>, pub cur_key: Vec<String>, pub mute: bool }
static mut WORLD: Option<Box<World>> = None;
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World { unsafe { WORLD.as_mut().unwrap() } }
pub static mut AT: *mut u8 = std::ptr::null_mut(); // shared page: what the child was doing
fn at(s: &str) { unsafe { if !AT.is_null() { let n = s.len().min(900); std::ptr::copy_nonoverlapping(s.as_ptr(), AT, n); *AT.add(n) = 0; } } }
/// the report is JSON text again, with serde_json's limit of 128 levels: what lies deeper becomes text
fn flat(v: Value, n: usize) -> Value { match v { Value::Array(a) => if n == 0 { json!({"deep": Value::Array(a).to_string()}) } else { Value::Array(a.into_iter().map(|x| flat(x, n - 1)).collect()) }, Value::Object(o) => if n == 0 { json!({"deep": Value::Object(o).to_string()}) } else { Value::Object(o.into_iter().map(|(k, x)| (k, flat(x, n - 1))).collect()) }, x => x } }
fn log(ev: &str, v: Value) {
    if world().mute { return }
    let v = flat(v, 100);
    let w = world(); let t = exec::current();
    let op = w.op.get(t).copied().unwrap_or(0);
    let step = if sys::tid() != sys::NONE { sys::sim().step } else { 0 };
    w.log.push(Rec { task: t, op, step, ev: ev.into(), v });
}
pub fn record_panic(s: String) { if sys::tid() == sys::NONE { eprintln!("harness: {s}") } else { sys::harness(|| { at(&s); unsafe { #[allow(static_mut_refs)] if let Some(w) = WORLD.as_mut() { w.panics.push(s) } } }) } }

fn snapshot(m: &Message) -> Value { json!({"ctx": m.context, "payload": *m.payload, "errors": m.errors, "audit": m.audit_trail, "id": m.id}) }

// ------------------------------------------------------------------ harness steps inside engine workflows
struct SimStep(u8);
#[async_trait::async_trait]
impl AsyncFunctionHandler for SimStep {
    async fn execute(&self, message: &mut Message, config: &FunctionConfig, _d: Arc<DataLogic>) -> DfResult<(usize, Vec<Change>)> {
        let ns = match config { FunctionConfig::Custom { input, .. } => input.get("ns").and_then(Value::as_u64).unwrap_or(0), _ => 0 };
        match self.0 {
            0 => exec::sleep(ns).await,
            1 => sys::harness(|| { let mut s = snapshot(message); s["cached"] = Value::Bool(*message.get_context_arc() == message.context); log("probe", s) }),
            _ => sys::harness(|| {
                let w = world(); let key = w.cur_key[exec::current()].clone();
                let s = serde_json::to_string(&*message).unwrap();
                if ns == 1 { let pend = std::mem::take(&mut w.disk.pending); for (k, v) in pend { w.disk.synced.insert(k, v); } w.disk.synced.insert(key, s); } else { w.disk.pending.push((key, s)); }
                log("checkpoint", json!({"sync": ns == 1}));
            }),
        }
        Ok((200, vec![]))
    }
}
pub fn wstep_fn(s: &WStep) -> (String, Value) {
    match s {
        WStep::Parse { src, dst } => ("parse_mx".into(), json!({"source": src, "target": dst})),
        WStep::Publish { src, dst } => ("publish_mx".into(), json!({"source": src, "target": dst})),
        WStep::Validate { src, dst } => ("validate_mx".into(), json!({"source": src, "target": dst})),
        WStep::Generate { dst } => ("generate_mx".into(), json!({"target": dst})),
        WStep::Raw { name, input } => (name.clone(), input.clone()),
        WStep::Yield { ns } => ("sim_yield".into(), json!({"ns": ns})),
        WStep::Probe => ("sim_probe".into(), json!({})),
        WStep::Checkpoint { sync } => ("sim_checkpoint".into(), json!({"ns": if *sync { 1 } else { 0 }})),
        WStep::Map { from, to } => ("map".into(), json!({"mappings": [{"path": to, "logic": {"var": from}}]})),
    }
}
fn build_engine(f: &Flow) -> Engine {
    let mut ws = vec![];
    for (wi, steps) in f.workflows.iter().enumerate() {
        let tasks: Vec<Value> = steps.iter().enumerate().map(|(i, s)| {
            let (name, input) = wstep_fn(&s.s);
            let mut t = json!({"id": format!("t{wi}_{i}"), "name": name, "function": {"name": name, "input": input}, "continue_on_error": s.cont});
            if !s.cond.is_null() { t["condition"] = s.cond.clone(); }
            t
        }).collect();
        let w = json!({"id": format!("w{wi}"), "name": format!("w{wi}"), "priority": wi, "tasks": tasks, "continue_on_error": f.cont});
        ws.push(Workflow::from_json(&w.to_string()).expect("workflow"));
    }
    let mut fns: std::collections::HashMap<String, Box<dyn AsyncFunctionHandler + Send + Sync>> = Default::default();
    for (n, h) in mx_message::plugin::register_mx_functions() { fns.insert(n.to_string(), h); }
    fns.insert("sim_yield".into(), Box::new(SimStep(0)));
    fns.insert("sim_probe".into(), Box::new(SimStep(1)));
    fns.insert("sim_checkpoint".into(), Box::new(SimStep(2)));
    Engine::new(ws, Some(fns))
}
fn engine(i: usize) -> Arc<Engine> {
    let w = world();
    if w.engines[i].is_none() { let f = w.plan.flows[i].clone(); let e = sys::harness(|| build_engine(&f)); w.engines[i] = Some(Arc::new(e)); }
    w.engines[i].as_ref().unwrap().clone()
}
pub fn scenarios() -> &'static Vec<(String, Value)> { unsafe { #[allow(static_mut_refs)] SCEN.as_ref().unwrap() } }
static mut SCEN: Option<Vec<(String, Value)>> = None;
pub fn load_scenarios(repo: &str) {
    let mut v = vec![];
    let mut dirs: Vec<_> = std::fs::read_dir(format!("{repo}/test_scenarios")).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.is_dir()).collect()).unwrap_or_default();
    dirs.sort();
    for d in dirs {
        let mut fs: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json") && p.file_name().is_some_and(|n| n != "index.json")).collect();
        fs.sort();
        // what the folder's index lists
        let index: Option<Vec<String>> = std::fs::read_to_string(d.join("index.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).and_then(|v| v["scenarios"].as_array().map(|a| a.iter().filter_map(|e| e["file"].as_str().or(e.as_str()).map(String::from)).collect()));
        for f in fs { if let Some(ix) = &index && !ix.iter().any(|n| f.file_name().is_some_and(|x| x == n.as_str())) { continue }
            if let Ok(t) = std::fs::read_to_string(&f) && let Ok(j) = serde_json::from_str::<Value>(&t) && j.get("schema").is_some() { v.push((f.strip_prefix(repo).unwrap_or(&f).to_string_lossy().trim_start_matches('/').to_string(), j)) } }
    }
    unsafe { SCEN = Some(v) }
}
fn src_value(s: &Src) -> Value {
    let w = world();
    match s {
        Src::Deliv(d) => Value::String(w.delivs[*d].clone()),
        Src::Field(d) => json!({"mx_message": w.delivs[*d].clone()}),
        Src::Content(m) => w.msgs[*m].clone(),
        Src::Json(v) => v.clone(),
        Src::Scenario(i) => scenarios()[*i].1.clone(),
        Src::None => Value::Null,
    }
}
fn new_message(payload: &Src, init: &[(String, Src)]) -> Message {
    let p = src_value(payload);
    let mut m = sys::lib(|| Message::from_value(&p));
    for (k, s) in init {
        let v = src_value(s);
        match k.as_str() { "@data" => m.context["data"] = v, "@metadata" => m.context["metadata"] = v, "@context" => m.context = v, _ => { m.context["data"][k.as_str()] = v; } }
    }
    m
}
/// Everything observable about a processed message except its random id.
pub fn result_of(m: &Message) -> Value { json!({"ctx": m.context, "errors": m.errors, "audit": m.audit_trail, "payload": *m.payload}) }

// ------------------------------------------------------------------ direct API
fn mxv(r: Result<MxMessage, mx_message::error::MxError>) -> Value { match r { Ok(m) => json!({"ok": serde_json::to_value(&m).unwrap_or(Value::Null)}), Err(e) => json!({"err": e.to_string()}) } }
fn rs<E: std::fmt::Display>(r: Result<String, E>) -> Value { match r { Ok(m) => json!({"ok": m}), Err(e) => json!({"err": e.to_string()}) } }
fn rv<E: std::fmt::Display>(r: Result<Value, E>) -> Value { match r { Ok(m) => json!({"ok": m}), Err(e) => json!({"err": e.to_string()}) } }
fn doc_validate(m: &MxMessage, cfg: &ParserConfig) -> Value {
    let mut c = ErrorCollector::new();
    m.app_hdr.validate("AppHdr", cfg, &mut c);
    macro_rules! each { ($($v:ident),*) => { match &m.document { $(Document::$v(d) => d.validate("Document", cfg, &mut c)),* } } }
    each!(Pacs008, Pacs002, Pacs003, Pacs004, Pacs009, Pacs010, Pain001, Pain002, Pain008, Camt025, Camt029, Camt052, Camt053, Camt054, Camt055, Camt056, Camt058, Camt057, Camt060, Camt105, Camt106, Camt107, Camt108, Camt109, Admi024);
    let e: Vec<Value> = c.errors().into_iter().map(|e| json!([e.code, e.message, e.field, e.path])).collect();
    Value::Array(e)
}
/// field-level findings under the three ready-made configurations, on one parsed message
fn findings(m: &MxMessage) -> Value {
    let one = |cfg: &ParserConfig| -> Value {
        let mut c = ErrorCollector::new();
        m.app_hdr.validate("AppHdr", cfg, &mut c);
        macro_rules! each { ($($v:ident),*) => { match &m.document { $(Document::$v(d) => d.validate("", cfg, &mut c)),* } } }
        each!(Pacs008, Pacs002, Pacs003, Pacs004, Pacs009, Pacs010, Pain001, Pain002, Pain008, Camt025, Camt029, Camt052, Camt053, Camt054, Camt055, Camt056, Camt058, Camt057, Camt060, Camt105, Camt106, Camt107, Camt108, Camt109, Admi024);
        let (h, n) = (c.has_errors(), c.error_count());
        let e: Vec<Value> = c.errors().into_iter().map(|e| json!([e.code, e.field, e.path])).collect();
        json!({"e": e, "has": h, "n": n})
    };
    json!({"m": serde_json::to_value(m).unwrap_or(Value::Null), "default": one(&ParserConfig::default()), "fast": one(&ParserConfig::fail_fast()), "lenient": one(&ParserConfig::lenient()), "again": one(&ParserConfig::default())})
}
fn any_form(s: &str) -> Result<MxMessage, mx_message::error::MxError> { if s.trim_start().starts_with('{') { MxMessage::from_json(s) } else { MxMessage::from_xml(s) } }
/// `plugin::common` is meant for the crate itself: a tree that no longer exports it is still checked through everything else.
#[cfg(feature = "internals")]
mod helpers {
    pub const HERE: bool = true;
    pub fn type_xml(s: &str) -> Result<String, String> { mx_message::plugin::common::extract_message_type_from_xml(s).map_err(|e| e.to_string()) }
    pub fn type_json(v: &serde_json::Value) -> Result<String, String> { mx_message::plugin::common::extract_message_type(v).map_err(|e| e.to_string()) }
}
#[cfg(not(feature = "internals"))]
mod helpers {
    pub const HERE: bool = false;
    pub fn type_xml(s: &str) -> Result<String, String> { crate::model::schema().docs.iter().find(|d| s.contains(&format!("<{}", d.elem))).map(|d| d.short.clone()).ok_or("no known document".into()) }
    pub fn type_json(_: &serde_json::Value) -> Result<String, String> { Err("absent".into()) }
}
pub const INTERNALS: bool = helpers::HERE;
pub const APIS: &[&str] = &["from_xml", "from_json", "peek_xml", "peek_json", "doc_json", "envelope_str", "xml_to_json", "xml_xml", "json_xml", "xml_jsonstr", "fields", "fields_fast", "doc_typed", "type_xml", "type_json", "registry"];
pub fn api(f: &str, s: &str) -> Option<Value> {
    exec::call(|| match f {
        "from_xml" => mxv(MxMessage::from_xml(s)),
        "from_json" => mxv(MxMessage::from_json(s)),
        "peek_xml" => rs(mx_message::mx_envelope::peek_message_type_from_xml(s)),
        "peek_json" => rs(mx_message::mx_envelope::peek_message_type_from_json(s)),
        "type_xml" => rs(helpers::type_xml(s)),
        "type_json" => match serde_json::from_str::<Value>(s) { Ok(v) => rs(helpers::type_json(&v)), Err(e) => json!({"err": e.to_string()}) },
        "doc_json" => match helpers::type_xml(s) { Ok(t) => rv(mx_message::xml::xml_to_json_via_document(s, &t)), Err(e) => json!({"err": e.to_string()}) },
        "doc_typed" => { let mut o = vec![]; for t in ["pacs.008", "camt.053", "camt.025", "nonsense"] { o.push(rv(mx_message::xml::xml_to_json_via_document(s, t))) } Value::Array(o) }
        "envelope_str" => { let t = helpers::type_xml(s).unwrap_or("none".into()); match mx_message::xml::from_mx_xml_envelope_str(s, &t) { Ok(()) => json!({"ok": true}), Err(e) => json!({"err": e.to_string()}) } }
        "xml_to_json" => rv(mx_message::xml::from_mx_xml_to_json(s)),
        "xml_xml" => match MxMessage::from_xml(s) { Ok(m) => rs(m.to_xml()), Err(e) => json!({"err": e.to_string()}) },
        "json_xml" => match MxMessage::from_json(s) { Ok(m) => rs(m.to_xml()), Err(e) => json!({"err": e.to_string()}) },
        "xml_jsonstr" => match MxMessage::from_xml(s) { Ok(m) => rs(m.to_json()), Err(e) => json!({"err": e.to_string()}) },
        "fields" => match MxMessage::from_xml(s) { Ok(m) => json!({"ok": doc_validate(&m, &ParserConfig::default())}), Err(e) => json!({"err": e.to_string()}) },
        "fields_fast" => match MxMessage::from_xml(s) { Ok(m) => json!({"ok": doc_validate(&m, &ParserConfig::fail_fast())}), Err(e) => json!({"err": e.to_string()}) },
        "findings" => match any_form(s) { Ok(m) => json!({"ok": findings(&m)}), Err(e) => json!({"err": e.to_string()}) },
        "registry" => {
            let mut o = vec![];
            for d in &model::schema().docs { o.push(json!([mx_message::message_registry::get_namespace(&d.short), mx_message::message_registry::normalize_message_type(&d.full), mx_message::message_registry::element_to_message_type(&d.elem), mx_message::message_registry::message_type_to_element(&d.short)])) }
            o.push(json!(mx_message::mx_envelope::normalize_message_type(s)));
            Value::Array(o)
        }
        _ => unreachable!("{f}"),
    })
}
/// one function on a definition of its own
#[cfg(feature = "loose")]
fn loose_api(msg: usize, f: &str, s: &str) -> Value {
    let m = &model::schema().docs[world().plan.msgs[msg].doc].elem;
    exec::call(|| match loose::call(m, f, s) { Ok(v) => json!({"ok": v}), Err(e) => json!({"err": e}) }).unwrap_or(json!({"panic": true}))
}
#[cfg(not(feature = "loose"))]
fn loose_api(_: usize, _: &str, _: &str) -> Value { json!({"err": "absent"}) }
pub const LOOSE: bool = cfg!(feature = "loose");
fn handler(name: &str) -> Box<dyn AsyncFunctionHandler + Send + Sync> {
    match name { "parse_mx" => Box::new(mx_message::plugin::Parse), "publish_mx" => Box::new(mx_message::plugin::Publish), "validate_mx" => Box::new(mx_message::plugin::Validate), "generate_mx" => Box::new(mx_message::plugin::Generate), _ => Box::new(SimStep(match name { "sim_yield" => 0, "sim_probe" => 1, _ => 2 })) }
}

// ------------------------------------------------------------------ interpreter
async fn run_task(ti: usize) {
    let ops = world().plan.tasks[ti].ops.clone();
    for (oi, op) in ops.iter().enumerate() {
        world().op[ti] = oi;
        at(&format!("task {ti} op {oi}: {}", { let s = format!("{op:?}"); s.chars().take(300).collect::<String>() }));
        run_op(ti, op).await;
    }
}
async fn run_op(ti: usize, op: &Op) {
    match op {
        Op::Api { f, d } if model::is_loose() => { let w = world(); let s = w.delivs[*d].clone(); let r = loose_api(w.plan.delivs[*d].parts[0].msg, f, &s); log("res", r) }
        Op::Api { f, d } => { let s = world().delivs[*d].clone(); let r = api(f, &s); log("res", r.unwrap_or(json!({"panic": true}))); drop(s); }
        Op::ApiLit { f, s } => { let r = api(f, s); log("res", r.unwrap_or(json!({"panic": true}))); }
        Op::Clock { jump_ns } => { let s = sys::sim(); s.wall_off += *jump_ns; if s.now as i64 + s.wall_off < 1_000_000_000 { s.wall_off = 1_000_000_000 } log("clock", json!(jump_ns)); }
        Op::Sleep { ns } => exec::sleep(*ns).await,
        Op::Fake { payload } => { let m = new_message(payload, &[]); let p = (*m.payload).clone(); let r = exec::call(|| match datafake_rs::DataGenerator::from_value(p).and_then(|g| g.generate()) { Ok(v) => json!({"ok": v}), Err(e) => json!({"err": e.to_string()}) }); log("fake", r.unwrap_or(json!({"panic": true}))); }
        Op::Flow { flow, payload, init, cancel, again, key } => {
            world().cur_key[ti] = key.clone();
            let eng = engine(*flow);
            // resume from the disk if this message has a durable checkpoint
            let mut resumed = false;
            let mut m = match if key.is_empty() { None } else { world().disk.synced.get(key).cloned() } {
                Some(s) if !key.is_empty() && serde_json::from_str::<Message>(&s).is_ok() => { resumed = true; serde_json::from_str::<Message>(&s).unwrap() }
                _ => new_message(payload, init),
            };
            log("start", json!({"resumed": resumed, "snap": snapshot(&m)}));
            for round in 0..=*again {
                let c = if round == 0 { *cancel } else { 0 };
                let r0 = sys::sim().reads.len();
                let out = exec::libfut(eng.process_message(&mut m), c).await;
                let o = match out { Out::Done(Ok(())) => json!("ok"), Out::Done(Err(e)) => json!({"err": e.to_string()}), Out::Panicked => json!({"panic": true}), Out::Cancelled => json!("cancelled") };
                let mut r = result_of(&m); r["out"] = o; r["round"] = json!(round); r["reads"] = json!([r0, sys::sim().reads.len()]);
                log("res", r);
            }
            let s = if key.is_empty() { None } else { Some(serde_json::to_string(&m).unwrap()) };
            if let Some(s) = s { let w = world(); let pend = std::mem::take(&mut w.disk.pending); for (k, v) in pend { w.disk.synced.insert(k, v); } w.disk.synced.insert(key.clone(), s); }
            sys::lib(move || drop((m, eng)));
        }
        Op::Steps { steps, payload, init, peek_before } => {
            let mut m = new_message(payload, init);
            let dl = Arc::new(DataLogic::new());
            let mut last = Value::Null;
            for s in steps {
                let (name, input) = wstep_fn(s);
                if name == "sim_yield" { if let WStep::Yield { ns } = s { exec::sleep(*ns).await } continue; }
                let h = handler(&name);
                let cfg = FunctionConfig::Custom { name: name.clone(), input };
                if *peek_before { let _ = m.get_context_arc(); }
                let before = snapshot(&m);
                let r0 = sys::sim().reads.len(); let w0 = sys::wall_now();
                let out = exec::libfut(h.execute(&mut m, &cfg, dl.clone()), 0).await;
                let cached = *m.get_context_arc() == m.context;
                if !*peek_before { m.invalidate_context_cache(); }
                let o = match out { Out::Done(Ok((c, ch))) => json!({"ok": c, "changes": ch}), Out::Done(Err(e)) => json!({"err": e.to_string()}), Out::Panicked => json!({"panic": true}), Out::Cancelled => json!("cancelled") };
                log("step", json!({"step": s, "before": before, "after": snapshot(&m), "out": o, "cached": cached, "reads": [r0, sys::sim().reads.len()], "wall": [w0, sys::wall_now()]}));
                last = o;
            }
            let mut r = result_of(&m); r["out"] = last;
            log("res", r);
            sys::lib(move || drop(m));
        }
        Op::Churn { ops, rounds } => {
            let base: Vec<String> = world().delivs.clone();
            let lits: Vec<String> = ops.iter().map(|o| if let Op::ApiLit { s, .. } = o { s.clone() } else { String::new() }).collect();
            let mut ops = ops.clone();
            let mut live: Vec<i64> = Vec::with_capacity(*rounds); let mut points: Vec<u64> = Vec::with_capacity(*rounds);
            sys::measure();
            world().mute = true;
            for k in 0..*rounds {
                let id = format!("QZROUND{k:03}");
                for (i, b) in base.iter().enumerate() { world().delivs[i] = b.replace(MARK, &id) }
                for (o, l) in ops.iter_mut().zip(&lits) { if let Op::ApiLit { s, .. } = o { *s = l.replace(MARK, &id) } }
                drop(id);
                let p0 = sys::sim().step;
                for o in &ops { let f: std::pin::Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(run_op(ti, o)); f.await }
                points.push(sys::sim().step - p0); live.push(sys::live());
            }
            world().mute = false;
            log("mem", json!({"live": live, "points": points}));
        }
        Op::Relay { msg, layout, hops, key } => {
            // each hop: bytes in -> library -> bytes out, kept on the node's disk under `key`
            let w = world();
            let (mut i, mut cur): (usize, String) = match w.disk.synced.get(key).and_then(|s| serde_json::from_str::<(usize, String)>(s).ok()) {
                Some(x) => { log("resume", json!(x.0)); x }
                None if model::is_loose() => (0, encode_part(&w.msgs[*msg], &Part { msg: *msg, form: 5 + (hops[0] & 1), layout: *layout, faults: vec![] }, w.plan.msgs[*msg].seed)),
                None => (0, match hops[0] & 1 { 0 => model::encode_envelope(&w.msgs[*msg], layout, w.plan.msgs[*msg].seed), _ => w.msgs[*msg].to_string() }),
            };
            let fields = w.plan.x["fields"] == true;
            let look = |cur: &str, i: usize| if fields { let r = if model::is_loose() { Some(loose_api(*msg, "findings", cur)) } else { api("findings", cur) }; log("fnd", json!({"i": i, "r": r.unwrap_or(json!({"panic": true}))})) };
            look(&cur, i);
            while i + 1 < hops.len() {
                let (from, to) = (hops[i] & 1, hops[i + 1] & 1);
                let step = hops[i] & 4 != 0 && from != to && !model::is_loose();
                let f = match (from, to) { (0, 1) if model::is_loose() => "xml_json", _ if step => if from == 0 { "parse_mx" } else { "publish_mx" }, (0, 0) => "xml_xml", (0, 1) => "xml_jsonstr", (1, 0) => "json_xml", _ => "json_json" };
                let r = if model::is_loose() { Some(loose_api(*msg, f, &cur)) } else if step {
                    let mut m = if from == 0 { new_message(&Src::Json(Value::String(cur.clone())), &[]) } else { new_message(&Src::None, &[("s".into(), Src::Json(serde_json::from_str(&cur).unwrap_or(Value::Null)))]) };
                    let cfg = FunctionConfig::Custom { name: f.into(), input: json!({"source": if from == 0 { "payload" } else { "s" }, "target": "d"}) };
                    let h = handler(f);
                    match exec::libfut(h.execute(&mut m, &cfg, Arc::new(DataLogic::new())), 0).await {
                        Out::Done(Ok(_)) => Some(json!({"ok": if from == 0 { m.context["data"]["d"].to_string() } else { m.context["data"]["d"].as_str().unwrap_or("").to_string() }})),
                        Out::Done(Err(e)) => Some(json!({"err": e.to_string()})), _ => None }
                } else if f == "json_json" { exec::call(|| match MxMessage::from_json(&cur) { Ok(m) => rs(m.to_json()), Err(e) => json!({"err": e.to_string()}) }) } else { api(f, &cur) };
                let r = r.unwrap_or(json!({"panic": true}));
                log("hop", json!({"f": f, "i": i, "r": r}));
                let Some(n) = r.get("ok").and_then(Value::as_str) else { break };
                cur = n.to_string(); i += 1;
                look(&cur, i);
                let w = world();
                if hops[i] & 2 != 0 { let pend = std::mem::take(&mut w.disk.pending); for (k, v) in pend { w.disk.synced.insert(k, v); } w.disk.synced.insert(key.clone(), json!([i, cur]).to_string()); }
                else { w.disk.pending.push((key.clone(), json!([i, cur]).to_string())) }
                exec::sleep(1000).await;
            }
        }
    }
}

static mut OUT_FD: i32 = -1;
fn send(end: &str) {
    let w = world(); let s = sys::sim();
    // what survives the crash of this process
    if end == "crash" {
        let mut r = Rng::derive(w.plan.disk_seed, s.step);
        let pend = std::mem::take(&mut w.disk.pending);
        for (k, v) in pend { match r.below(3) { 0 => w.disk.lost += 1, 1 => { w.disk.torn += 1; let n = floor_char(&v, r.below(v.len() + 1)); w.disk.synced.entry(format!("torn:{k}")).or_insert(v[..n].to_string()); } _ => { w.disk.synced.insert(k, v); } } }
    }
    let o = EpochOut { end: end.into(), log: std::mem::take(&mut w.log), disk: w.disk.clone(), steps: s.step, switches: s.switches, hash: { let mut h = s.hash; for r in &s.reads { h = hash_bytes(h, &r.1.to_le_bytes()) } h }, decisions: s.decisions.clone(), now: s.now, reads: s.reads.clone(), ent_bytes: s.ent_bytes, peak: s.peak_bytes, futex_waits: s.futex_waits, timeouts: s.timeouts, panics: std::mem::take(&mut w.panics), calls: s.calls, at: String::new() };
    let b = serde_json::to_vec(&o).unwrap();
    let mut off = 0;
    while off < b.len() { let n = unsafe { libc::write(OUT_FD, b[off..].as_ptr() as *const _, b.len() - off) }; if n <= 0 { break } off += n as usize }
}
fn on_end(why: &'static str) -> ! { send(why); unsafe { libc::_exit(0) } }

/// Body of a child: runs one epoch of the plan and reports through `fd`.
pub fn child(plan: &Plan, epoch: usize, disk: Disk, fd: i32) -> ! {
    unsafe { OUT_FD = fd; }
    model::use_schema(&plan.prop);
    let mut msgs: Vec<Value> = plan.msgs.iter().map(gen_msg).collect();
    if plan.x["mark"] == true { for m in &mut msgs { mark(m) } }
    let delivs: Vec<String> = plan.delivs.iter().map(|d| build_deliv(&msgs, plan, d)).collect();
    let nt = plan.tasks.len();
    unsafe { WORLD = Some(Box::new(World { plan: plan.clone(), msgs, delivs, disk, log: Vec::with_capacity(64), op: vec![0; nt], panics: vec![], engines: plan.flows.iter().map(|_| None).collect(), cur_key: vec![String::new(); nt], mute: false })); }
    if !plan.clock.tz.is_empty() { unsafe { std::env::set_var("TZ", &plan.clock.tz) } }
    let sp = plan.sched.get(epoch).or(plan.sched.last()).cloned().unwrap_or_default();
    sys::start(plan.threads, &sp, &plan.clock, &plan.entropy, plan.max_steps, plan.crashes.get(epoch).copied().unwrap_or(u64::MAX));
    sys::sim().on_end = Some(on_end);
    // time went on while the node was down
    sys::sim().now = epoch as u64 * 3_600_000_000_000;
    for i in 0..nt { exec::spawn(Box::pin(run_task(i))); }
    exec::run(plan.threads, 2 << 20);
    send("done");
    unsafe { libc::_exit(0) }
}
