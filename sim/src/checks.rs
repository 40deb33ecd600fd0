//! What each property's runs do, and how their histories are judged.
use crate::driver::{Budget, Ex};
use crate::model::{self, GenCfg, Layout, diff, norm_json, schema, short};
use crate::rng::{Rng, hash_str, mix};
use crate::sys::{ClockPlan, EntropyPlan, SchedPlan};
use crate::world::{self, APIS, Deliv, EpochOut, FStep, Fault, Flow, MsgSpec, Op, Part, Plan, Rec, Src, TaskPlan, WStep};
use serde_json::{Map, Value, json};

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C17", "C18", "C19"];
pub struct Viol { pub sig: String, pub msg: String }
fn viol(sig: impl Into<String>, msg: impl Into<String>) -> Option<Viol> { Some(Viol { sig: sig.into(), msg: msg.into().chars().take(900).collect() }) }
pub fn home() -> String { std::env::var("MXSIM_HOME").unwrap_or("/verif".into()) }

pub fn budget(prop: &str, tier: &str) -> Budget {
    let quick = tier == "quick";
    let runs = match prop { "C01" => 2400, "C04" => 4000, "C10" => 6000, "C17" => 320, "C14" => 4000, "C02" | "C06" | "C07" | "C19" => 8000, _ => 12000 };
    Budget { runs: if quick { runs } else { runs * 40 }, secs: if quick { 60 } else { 600 } }
}
pub fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "3-8 messages processed by 2-4 preempted threads over shared engines, handlers and functions, each operation then repeated alone in a fresh process; every 8th run is one long history of several hundred operations",
        "C02" => "workflows with failing, refused and cancelled steps; the message is photographed before and after every step",
        "C03" => "deliveries through a channel that truncates, loses, repeats, reorders, resends and runs messages together, at arbitrary bytes, block boundaries and element edges; every receiver entry point",
        "C04" => "poisonous payloads (all faults, deep nesting, junk, ill-typed workflow data) on every entry point, then an intact message",
        "C05" => "relays over 1-7 hops (XML/JSON, plain functions or workflow steps) with checkpoints and crashes; the seed walks all schema fields and codes",
        "C06" => "the same intact or faulty payload validated and parsed through every source form, several times",
        "C07" => "validations under clock skew, jumps, stalls and time zones; the same run again under another clock",
        "C08" => "every shipped scenario under random and degenerate entropy, generated, published, validated and parsed",
        "C09" => "workflows that overwrite, fail, are redelivered and resumed; the audit trail is replayed",
        "C10" => "workflows with checkpoints killed at chosen scheduling points and resumed in fresh processes, compared with an uninterrupted run",
        "C11" => "peeking before and after parsing the same intact, rewrapped or faulty payload",
        "C12" => "step sequences with context snapshots and conditions evaluated between them",
        "C14" => "messages with texts at, within and just beyond their length and pattern rules, and texts altered in transit, examined field by field at every node of relays with crashes and by concurrent receivers",
        "C18" => "the same content sent in many layouts, orders and forms, with characters XML forbids or alters, through functions, steps, workflows and crashing relays; every XML message that leaves a node is examined as bytes",
        "C19" => "the definitions and headers the envelope does not carry, over relays of 1-4 hops with checkpoints and crashes and at concurrent receivers; the seed walks every field, every code and every rule",
        "C17" => "one node handling the same mix of accepted, refused, unroutable, abandoned and generated messages for hundreds of rounds, every round with identifiers, texts and types of its own; the memory held is weighed after every round",
        _ => "",
    };
    format!("{what}. Each case is a plan derived from (VERIF_SEED, property, index); counted as distinct by plan, schedule and clock readings; every case carries at least one fault, preemption, redelivery or non-default layout or environment unless it is the fault-free control share (about 1 in 8).")
}
pub fn describe(p: &Plan, o: &[EpochOut]) -> Value {
    json!({"index": p.idx, "kind": p.kind, "threads": p.threads, "clock": p.clock, "entropy": p.entropy, "messages": p.msgs.iter().map(|m| schema().docs[m.doc].short.clone()).collect::<Vec<_>>(),
        "deliveries": p.delivs.iter().take(4).map(|d| short(&serde_json::to_value(d).unwrap())).collect::<Vec<_>>(), "tasks": p.tasks.iter().take(4).map(|t| t.ops.iter().take(4).map(|o| format!("{o:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "epochs": o.iter().map(|e| json!({"end": e.end, "points": e.steps, "switches": e.switches, "decisions": e.decisions.len()})).collect::<Vec<_>>()})
}

// ------------------------------------------------------------------ generators
fn gcfg(r: &mut Rng) -> GenCfg {
    let mut g = GenCfg { density: *r.pick(&[0, 10, 30, 60, 90]), text: *r.pick(&[0, 0, 1, 2, 3]), target: if r.chance(40) { r.below(schema().nfields) } else { usize::MAX }, rep: *r.pick(&[1, 2, 3]), budget: *r.pick(&[40, 120, 300, 700]), long: if r.chance(10) { *r.pick(&[40, 400, 4000]) } else { 0 }, code: r.below(1 << 16), rules: 0, via: 0, how: 0, many: 0 };
    // now and then a very large message: one long text, or many items
    if r.permille(12) { g.long = *r.pick(&[model::BULK, 66_000, 140_000]) } else if r.permille(6) { g.budget = 4000; g.rep = 60; g.long = 0 }
    g
}
fn small(r: &mut Rng) -> GenCfg { let g = gcfg(r); GenCfg { budget: *r.pick(&[30, 80, 160]), long: if g.long >= model::BULK { g.long } else { 0 }, rep: g.rep.min(3), ..g } }
fn spec(r: &mut Rng, g: GenCfg) -> MsgSpec {
    let s = schema(); let mut doc = r.below(s.docs.len());
    // a targeted field lies in the types of one document
    if g.target < s.nfields { let t = s.owner[g.target].0; let c: Vec<usize> = (0..s.docs.len()).filter(|&i| s.docs[i].reach.contains(&t)).collect(); if !c.is_empty() { doc = *r.pick(&c) } }
    MsgSpec { doc, seed: r.u64() >> 12, g }
}
fn layout(r: &mut Rng) -> Layout {
    if r.chance(30) { return Layout::default() }
    Layout { ws: r.below(4) as u8, ns: r.below(8) as u8, decl: r.below(3) as u8, comment: *r.pick(&[0, 0, 1, 2]), esc: *r.pick(&[0, 0, 1, 2]), root: *r.pick(&[0, 0, 0, 1, 2]), sq: r.chance(25) as u8, tagws: r.chance(15) as u8, trailing_nl: r.chance(30) as u8, lead: *r.pick(&[0, 0, 0, 1, 2]) }
}
fn clock(r: &mut Rng) -> ClockPlan {
    ClockPlan { wall_ns: match r.below(6) { 0 => 1_000_000_000, 1 => 951_782_399_999_999_999, 2 => 1_709_164_799_500_000_000, 3 => 7_258_118_399_000_000_000, _ => r.range(86_400, 7_000_000_000) * 1_000_000_000 + r.range(0, 999_999_999) },
        tick_ns: *r.pick(&[0, 1, 900, 1_000_000, 250_000_000]), grain_ns: *r.pick(&[0, 0, 0, 0, 0, 0, 1_000, 1_000_000, 15_625_000]), tz: r.pick(&["", "UTC", "Asia/Tokyo", "America/New_York", "<+0545>-5:45", "<-03>3"]).to_string() }
}
fn sched(r: &mut Rng, gap: u32) -> SchedPlan { SchedPlan { seed: r.u64() >> 12, gap, decisions: None } }
fn blank(prop: &str, seed: u64, idx: u64, kind: &str, r: &mut Rng) -> Plan {
    Plan { prop: prop.into(), idx, kind: kind.into(), threads: 1, sched: vec![sched(r, 0)], crashes: vec![], clock: clock(r), entropy: EntropyPlan { seed: r.u64() >> 12, mode: if r.chance(15) { 1 + r.below(4) as u8 } else { 0 } },
        msgs: vec![], delivs: vec![], flows: vec![], tasks: vec![], disk_seed: r.u64() >> 12, max_steps: 40_000_000, x: json!({"seed": seed}) }
}
fn threaded(p: &mut Plan, r: &mut Rng, lo: usize, hi: usize) { p.threads = r.range(lo as i64, hi as i64) as usize; let g = *r.pick(&[3, 20, 100, 600, 4000]); let g = if p.threads > 1 || r.chance(50) { g } else { 0 }; p.sched = vec![sched(r, g)]; }
fn part(msg: usize, form: u8, layout: Layout) -> Part { Part { msg, form, layout, faults: vec![] } }
fn intact(msg: usize, form: u8, layout: Layout) -> Deliv { Deliv { parts: vec![part(msg, form, layout)], faults: vec![] } }
fn bytes(p: &Plan, q: &Part) -> Vec<u8> { let mut b = world::encode_part(&world::gen_msg(&p.msgs[q.msg]), q, p.msgs[q.msg].seed).into_bytes(); for f in &q.faults { world::apply_fault(&mut b, f) } b }
fn find_all(b: &[u8], t: &[u8]) -> Vec<usize> { if b.len() < t.len() { return vec![] } (0..=b.len() - t.len()).filter(|&i| &b[i..i + t.len()] == t).collect() }
/// A position where a channel may cut: any byte, a block boundary, an element edge, an edge of one of the outer elements.
fn cut(r: &mut Rng, b: &[u8]) -> usize {
    if b.is_empty() { return 0 }
    match r.below(8) {
        0 => r.below(b.len() + 1),
        1 => { let c = *r.pick(&[16usize, 64, 256, 536, 1024, 1460]); (c * (1 + r.below(b.len() / c + 1))).min(b.len()) }
        2 | 3 => { let t = *r.pick(&["<Document", "</Document>", "<AppHdr", "</AppHdr>", "</Envelope>", "<MsgDefIdr>", "</MsgDefIdr>", "<BizMsgIdr>"]); let v = find_all(b, t.as_bytes()); if v.is_empty() { r.below(b.len() + 1) } else { let i = *r.pick(&v); match r.below(4) { 0 => i, 1 => i + t.len(), 2 => (i + r.below(t.len())).min(b.len()), _ => b[i..].iter().position(|c| *c == b'>').map_or(b.len(), |k| i + k + 1) } } }
        _ => { let s = r.below(b.len()); match r.below(2) { 0 => b[s..].iter().position(|c| *c == b'<').map_or(b.len(), |k| s + k), _ => b[s..].iter().position(|c| *c == b'>' || *c == b',' || *c == b'}').map_or(b.len(), |k| s + k + 1) } }
    }
}
fn cuts(r: &mut Rng, b: &[u8], n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).map(|_| cut(r, b)).collect(); v.sort(); v }
/// A whole element somewhere in the text (start, end).
fn element(r: &mut Rng, b: &[u8]) -> Option<(usize, usize)> {
    for _ in 0..20 {
        let s = r.below(b.len().max(1)); let i = s + b[s..].iter().position(|c| *c == b'<')?;
        let e = i + b[i..].iter().position(|c| *c == b'>' || *c == b' ')?; if b.get(i + 1) == Some(&b'/') || b.get(i + 1) == Some(&b'?') || b.get(i + 1) == Some(&b'!') { continue }
        let name = &b[i + 1..e]; let mut t = b"</".to_vec(); t.extend(name); t.push(b'>');
        if let Some(k) = find_all(&b[e..], &t).first() { return Some((i, e + k + t.len())) }
    }
    None
}
/// A whole element that arrives before its elder siblings.
fn moved(r: &mut Rng, b: &[u8]) -> Option<Fault> {
    let mut all: Vec<(usize, usize, usize)> = vec![]; let mut st: Vec<usize> = vec![]; let mut i = 0;
    let to = |i: usize, e: &[u8]| b[i..].windows(e.len()).position(|w| w == e).map_or(b.len(), |k| i + k + e.len());
    while i < b.len() {
        if b[i] != b'<' { i += 1; continue }
        let t = &b[i..];
        if t.starts_with(b"<!--") { i = to(i, b"-->"); continue } if t.starts_with(b"<![CDATA[") { i = to(i, b"]]>"); continue } if t.starts_with(b"<?") { i = to(i, b"?>"); continue }
        let e = to(i, b">");
        if t.starts_with(b"</") { let k = st.pop()?; all[k].1 = e } else { all.push((i, e, st.last().copied().unwrap_or(usize::MAX))); if !b[..e].ends_with(b"/>") { st.push(all.len() - 1) } }
        i = e;
    }
    let outer: Vec<usize> = (0..all.len()).filter(|&k| all[k].2 == usize::MAX || { let t = &b[all[all[k].2].0..]; t.starts_with(b"<AppHdr") || t.starts_with(b"<Envelope") }).collect();
    for _ in 0..20 {
        let k = if r.chance(50) && !outer.is_empty() { *r.pick(&outer) } else { r.below(all.len().max(1)) };
        let (a, e, up) = *all.get(k)?;
        let v: Vec<usize> = all[..k].iter().filter(|x| x.2 == up && x.1 <= a).map(|x| x.0).collect();
        if !v.is_empty() { return Some(Fault::Swap { a: *r.pick(&v), b: a, c: e }) }
    }
    None
}
fn chan_fault(r: &mut Rng, b: &[u8]) -> Fault {
    match r.below(9) {
        0 | 1 => Fault::Trunc { at: cut(r, b) },
        2 => { let c = cuts(r, b, 2); Fault::Lose { a: c[0], b: c[1] } }
        3 => match element(r, b) { Some((a, e)) => Fault::Lose { a, b: e }, None => Fault::Trunc { at: cut(r, b) } },
        4 => { let c = cuts(r, b, 3); Fault::Repeat { a: c[0], b: c[1], at: c[2] } }
        5 => match element(r, b) { Some((a, e)) => Fault::Repeat { a, b: e, at: e }, None => Fault::Trunc { at: cut(r, b) } },
        6 if r.chance(40) && let Some(f) = moved(r, b) => f,
        6 => { let c = cuts(r, b, 3); Fault::Swap { a: c[0], b: c[1], c: c[2] } }
        7 => { let c = cuts(r, b, 2); Fault::Repeat { a: c[0], b: c[1], at: c[1] } }
        _ => { let k = cut(r, b); let n = 1 + r.below(40); Fault::Lose { a: k, b: k + n } }
    }
}
const TAGS: &[&str] = &["<Document>", "<Document", "</Document>", "<AppHdr>", "</AppHdr>", "<AppHdr", "</Envelope>", "<Envelope>", "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "&", "&#x110000;", "&#0;", "&lt", "<?", "?>", "<!DOCTYPE x [", "\u{0}", "\u{feff}", "é", "😀", "\"", "'", "=", "<MsgDefIdr>", "</MsgDefIdr>", "{", "}", "[", "]", "\\", "\\n", "\\u0000", ",", "null", "1e999", "NaN", "-", "<Document/>", "<AppHdr/>", "<Rcpt/>", "<Document><", "<Document>é", "<Documenté>", "xmlns=\"", "xmlns:xsi=\""];
const JUNK: &[&str] = &["", " ", "<", ">", "<>", "</>", "<a", "<Document", "<Document>", "<Document><", "<Document></Document>", "<Document></", "</Document><Document>", "<Document>é</Document>", "<Document><é", "<Document><é>", "<Document>\u{feff}<Rcpt></Rcpt></Document>", "<Document><!-- é --><Rcpt/></Document>", "<Document><:></Document>", "<Document><a:></a:></Document>", "<AppHdr", "<AppHdr>", "<AppHdr></AppHdr><Document></Document>", "</AppHdr><AppHdr>", "<AppHdr><Document></AppHdr></Document>", "<Envelope", "<Envelope/>", "<Envelope><AppHdr/><Document/></Envelope>", "<Envelope xmlns=\"", "<Envelope xmlns=\"é", "<Envelope><AppHdr></AppHdr><Document><Rcpt/></Document></Envelope>", "<Envelope><AppHdr>é</AppHdr><Document>é</Document></Envelope>", "<?xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<!DOCTYPE a [<!ENTITY b \"&b;\">]><a>&b;</a>", "{}", "[]", "null", "\"", "{\"AppHdr\":{}}", "{\"AppHdr\":{\"MsgDefIdr\":\"\"}}", "{\"AppHdr\":{\"MsgDefIdr\":\"é\"},\"Document\":{}}", "{\"AppHdr\":null,\"Document\":null}", "{\"Document\":{\"é\":1}}", "{\"message_type\":\"\"}", "{\"Envelope\":{\"AppHdr\":{\"MsgDefIdr\":\".\"}}}", "<MsgDefIdr>é</MsgDefIdr>", "<MsgDefIdr>.</MsgDefIdr>", "<MsgDefIdr>...</MsgDefIdr>", "<MsgDefIdr>pacs</MsgDefIdr>", "日本", "\u{0}", "\\n", "]]>", "<Document>]]></Document>", "<Document >", "<Document/>", "<Document", "<Document\u{a0}>", "<Document>   </Document>", "<Document>x</Document>", "<AppHdr", "<Document><Rcpt", "<Document><Rcpt/", "<Document><Rcpt /></Document>", "<Document><Rcpt\u{2003}></Rcpt></Document>", "pacs.008", "pacs.008.001.08", ".....", "é.é.é", "a.b"];
fn any_fault(r: &mut Rng, b: &[u8]) -> Fault {
    match r.below(10) {
        0..=3 => chan_fault(r, b),
        4 => Fault::Flip { at: r.below(b.len().max(1)), x: 1 << r.below(8) },
        5 => Fault::Insert { at: cut(r, b), s: r.pick(TAGS).to_string() },
        6 => Fault::Insert { at: r.below(b.len() + 1), s: r.pick(&["é", "😀", "\u{feff}", "日本", "\u{0}", "<", "&"]).to_string() },
        7 => Fault::Deep { at: cut(r, b), n: *r.pick(&[10, 127, 128, 129, 400, 1000, 5000, 20000]), name: r.pick(&["a", "AppHdr", "Document", "GrpHdr", "é"]).to_string(), close: r.chance(60) },
        8 => Fault::Junk { s: if r.chance(80) { r.pick(JUNK).to_string() } else { let n = r.below(60); let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(TAGS)) } s } },
        _ => { let t = r.pick(&["<Document", "</Document>", "<AppHdr", "</AppHdr>", "<MsgDefIdr>", "</MsgDefIdr>", "<Rcpt"]); let v = find_all(b, t.as_bytes()); if v.is_empty() { Fault::Trunc { at: cut(r, b) } } else { let i = *r.pick(&v); match r.below(3) { 0 => Fault::Lose { a: i, b: i + t.len() }, 1 => Fault::Insert { at: i + t.len(), s: r.pick(&["é", "/", "<", ">", " ", ":"]).to_string() }, _ => Fault::Insert { at: i, s: r.pick(&["é", "</", "<"]).to_string() } } } }
    }
}
/// JSON with more members than the message has, or the same ones again.
fn beside(r: &mut Rng, b: &[u8]) -> Option<Fault> {
    let t = std::str::from_utf8(b).ok()?; let sc = schema();
    if r.chance(50) { let v = model::spans_json(t); if v.is_empty() { return None } let (a, e) = r.pick(&v).at; return Some(Fault::Repeat { a, b: e, at: e }) }
    let d = r.pick(&sc.docs); let full = json!(if r.chance(70) { d.full.clone() } else { s("x") });
    let (k, v) = match r.below(8) { 0..=2 => ("Envelope", json!({"AppHdr": {"MsgDefIdr": full}})), 3 => ("Envelope", json!({"AppHdr": {"MsgDefIdr": full}, "Document": {d.elem.clone(): {}}})), 4 => ("MsgDefIdr", full), 5 => ("AppHdr", json!({"MsgDefIdr": full})), 6 => ("Document", json!({d.elem.clone(): {}})), _ => ("é", json!(null)) };
    let last = t.rfind('}')?; let first = t.find('{')? + 1;
    let m = format!("{}:{v}", json!(k));
    Some(if r.chance(50) { Fault::Insert { at: first, s: m + "," } } else { Fault::Insert { at: last, s: format!(",{m}") } })
}
/// A delivery through the faulty channel, made of the messages of the plan.
fn channel(p: &Plan, r: &mut Rng, msgs: &[usize], form: u8) -> Deliv {
    let a = *r.pick(msgs); let c = *r.pick(msgs);
    let l = layout(r);
    let pa = part(a, form, l);
    let ba = bytes(p, &pa);
    let one = |f: Vec<Fault>| Deliv { parts: vec![Part { faults: f, ..pa.clone() }], faults: vec![] };
    if form == 2 && r.chance(20) && let Some(f) = beside(r, &ba) { return one(vec![f]) }
    match r.below(9) {
        0 => one(vec![]),
        1 | 2 => one(vec![chan_fault(r, &ba)]),
        3 => { let f = chan_fault(r, &ba); let g = chan_fault(r, &ba); one(vec![f, g]) }
        // partly sent, then sent again from the start
        4 => { let x = cut(r, &ba); Deliv { parts: vec![Part { faults: vec![Fault::Trunc { at: x }], ..pa.clone() }, pa], faults: vec![] } }
        // run together, whole or damaged
        5 => { let f2 = if r.chance(70) { form } else { r.below(2) as u8 }; let pb = part(c, f2, if r.chance(50) { l } else { layout(r) }); let mut d = Deliv { parts: vec![pa, pb], faults: vec![] }; if r.chance(30) { let t = d.parts[0].layout.trailing_nl; d.parts[0].layout.trailing_nl = 1 - t } d }
        // head of one, tail of another
        6 => { let pb = part(c, form, l); let bb = bytes(p, &pb); let (x, y) = (cut(r, &ba), cut(r, &bb)); Deliv { parts: vec![Part { faults: vec![Fault::Trunc { at: x }], ..pa }, Part { faults: vec![Fault::Lose { a: 0, b: y }], ..pb }], faults: vec![] } }
        // blocks of two transfers interleaved
        7 => { let pb = part(c, form, l); let bb = bytes(p, &pb); let (x, y) = (cut(r, &ba), cut(r, &bb)); Deliv { parts: vec![Part { faults: vec![Fault::Trunc { at: x }], ..pa.clone() }, Part { faults: vec![Fault::Trunc { at: y }], ..pb.clone() }, Part { faults: vec![Fault::Lose { a: 0, b: x }], ..pa }, Part { faults: vec![Fault::Lose { a: 0, b: y }], ..pb }], faults: vec![] } }
        // whole message, then a lost tail of it again, or a prefix of the next one
        _ => { let pb = part(c, form, l); let bb = bytes(p, &pb); let y = cut(r, &bb); let f = if r.chance(50) { Fault::Trunc { at: y } } else { Fault::Lose { a: 0, b: y } }; Deliv { parts: vec![pa, Part { faults: vec![f], ..pb }], faults: vec![] } }
    }
}
fn s(x: &str) -> String { x.to_string() }
fn parse(a: &str, b: &str) -> WStep { WStep::Parse { src: s(a), dst: s(b) } }
fn publish(a: &str, b: &str) -> WStep { WStep::Publish { src: s(a), dst: s(b) } }
fn validate(a: &str, b: &str) -> WStep { WStep::Validate { src: s(a), dst: s(b) } }
fn fs(x: WStep) -> FStep { FStep { s: x, cond: Value::Null, cont: false } }
fn yld(r: &mut Rng) -> WStep { WStep::Yield { ns: *r.pick(&[0, 0, 10, 5000, 3_000_000_000]) } }
fn var(p: &str) -> Value { json!({"var": p}) }
/// receive, validate, store, forward, check
fn pipeline(r: &mut Rng, yields: bool) -> Flow {
    let mut v = match r.below(4) {
        0 => vec![fs(parse("payload", "m")), fs(publish("m", "x"))],
        1 => vec![fs(validate("payload", "v")), FStep { s: parse("payload", "m"), cond: json!({"==": [var("data.v.valid"), true]}), cont: false }, FStep { s: publish("m", "x"), cond: json!({"==": [var("metadata.m.format"), "json"]}), cont: false }, FStep { s: validate("x", "v2"), cond: json!({"!!": [var("data.x")]}), cont: true }],
        2 => vec![fs(parse("payload", "m")), fs(validate("payload", "v")), fs(publish("m", "x")), fs(validate("x", "v")), fs(parse("x", "m2")), fs(publish("m2", "x2"))],
        _ => vec![fs(validate("payload", "v")), FStep { s: parse("payload", "m"), cond: Value::Null, cont: true }, FStep { s: publish("m", "x"), cond: Value::Null, cont: true }, FStep { s: validate("x", "v"), cond: Value::Null, cont: true }],
    };
    if yields { let mut i = 0; while i <= v.len() { if r.chance(45) { let y = yld(r); v.insert(i, fs(y)); i += 1 } i += 1 } }
    let cut = if r.chance(30) && v.len() > 2 { 1 + r.below(v.len() - 1) } else { v.len() };
    let rest = v.split_off(cut);
    let mut w = vec![v]; if !rest.is_empty() { w.push(rest) }
    Flow { workflows: w, cont: r.chance(50) }
}
fn flow_op(flow: usize, payload: Src) -> Op { Op::Flow { flow, payload, init: vec![], cancel: 0, again: 0, key: String::new() } }
/// A small change of text that keeps length, header and structure: another message that looks almost the same.
fn near(p: &Plan, r: &mut Rng, q: &Part) -> Option<Fault> {
    let b = bytes(p, q);
    if q.form == 2 {
        let v: Vec<(usize, usize)> = model::spans_json(std::str::from_utf8(&b).ok()?).iter().map(|s| (s.inner.0 + 1, s.inner.1 - 1)).filter(|s| s.1 > s.0 && b[s.0 - 1] == b'"' && b[s.0..s.1].iter().all(u8::is_ascii_alphanumeric)).filter(|s| !b[s.0..s.1].iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit())).collect();
        if v.is_empty() { return None }
        let (a, e) = *r.pick(&v); let k = a + r.below(e - a); let c = b[k];
        let n = if c.is_ascii_digit() { b'0' + (c - b'0' + 1) % 10 } else if c == b'z' || c == b'Z' { c - 1 } else { c + 1 };
        return Some(Fault::Edit { at: k, s: (n as char).to_string() });
    }
    for _ in 0..30 {
        let i = r.below(b.len().max(1)); let gt = i + b[i..].iter().position(|c| *c == b'>')?; let lt = gt + b[gt..].iter().position(|c| *c == b'<')?;
        if lt - gt > 2 && b[gt + 1..lt].iter().all(|c| c.is_ascii_alphanumeric()) && b.get(lt + 1) == Some(&b'/') && !b[gt + 1..lt].iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) {
            let k = gt + 1 + r.below(lt - gt - 1); let c = b[k]; let n = if c.is_ascii_digit() { b'0' + (c - b'0' + 1) % 10 } else if c == b'z' || c == b'Z' { c - 1 } else { c + 1 };
            // the same characters in another order
            let t = &b[gt + 1..lt]; if r.chance(40) && let Some(j) = (0..t.len() - 1).find(|&j| t[j] != t[j + 1]) && !t.iter().any(u8::is_ascii_digit) { return Some(Fault::Edit { at: gt + 1 + j, s: format!("{}{}", t[j + 1] as char, t[j] as char) }) }
            return Some(Fault::Edit { at: k, s: (n as char).to_string() });
        }
    }
    None
}
/// JSON data of the wrong shape somewhere.
fn mutate(v: &mut Value, r: &mut Rng, depth: usize) {
    let stop = depth > 0 && r.chance(30);
    match v {
        Value::Object(m) if !stop && !m.is_empty() => {
            let ks: Vec<String> = m.keys().cloned().collect(); let k = r.pick(&ks).clone();
            if r.chance(10) { m.remove(&k); return }
            if r.chance(5) { let x = m[&k].clone(); m.insert(format!("{k}é"), x); return }
            mutate(m.get_mut(&k).unwrap(), r, depth + 1)
        }
        Value::Array(a) if !stop && !a.is_empty() => { let i = r.below(a.len()); mutate(&mut a[i], r, depth + 1) }
        _ => *v = match r.below(12) { 0 => Value::Null, 1 => json!([]), 2 => json!({}), 3 => json!(true), 4 => json!(-1), 5 => json!(1e300), 6 => json!(""), 7 => json!("é"), 8 => json!([[[["x"]]]]), 9 => { let mut d = json!(1); for _ in 0..r.below(110) { d = json!({"a": d}) } d } 10 => json!(u64::MAX), _ => json!("\u{0}") },
    }
}

// ------------------------------------------------------------------ plans
pub fn plan(prop: &str, seed: u64, idx: u64, tier: &str) -> Plan {
    model::use_schema(prop);
    let mut r = Rng::new(mix(seed) ^ hash_str(prop) ^ mix(idx.wrapping_mul(0x9E37_79B9)));
    let r = &mut r;
    let mut p = blank(prop, seed, idx, "", r);
    match prop { "C01" => p01(&mut p, r), "C02" => p02(&mut p, r), "C03" => p03(&mut p, r), "C04" => p04(&mut p, r), "C05" => p05(&mut p, r, tier), "C06" => p06(&mut p, r), "C07" => p07(&mut p, r), "C08" => p08(&mut p, r), "C09" => p09(&mut p, r), "C10" => p10(&mut p, r), "C11" => p11(&mut p, r), "C12" => p12(&mut p, r), "C14" => p14(&mut p, r), "C17" => p17(&mut p, r), "C18" => p18(&mut p, r), "C19" => p19(&mut p, r), _ => panic!("unknown property {prop}") }
    p
}
fn any_deliv(p: &Plan, r: &mut Rng, m: usize, pct_bad: u32) -> Deliv {
    let form = *r.pick(&[0, 0, 0, 1, 2]);
    let mut d = intact(m, form, layout(r));
    if r.chance(pct_bad) { let b = bytes(p, &d.parts[0]); d.faults.push(any_fault(r, &b)) }
    d
}
fn pick_api(r: &mut Rng) -> &'static str { if r.chance(60) { *r.pick(&["from_xml", "xml_xml", "xml_jsonstr", "json_xml", "fields", "findings", "peek_xml", "doc_json"]) } else { *r.pick(APIS) } }
fn p01(p: &mut Plan, r: &mut Rng) {
    let long = p.idx % 8 == 7;
    p.kind = if long { "history" } else { "concurrent" }.into();
    let nm = r.range(2, 5) as usize;
    for _ in 0..nm { let g = if long { small(r) } else { gcfg(r) }; let sp = spec(r, g); p.msgs.push(sp) }
    // messages that differ from an earlier one in little
    if r.chance(60) { let mut c = p.msgs[0].clone(); if r.chance(50) { c.g.text = (c.g.text + 1) % 4 } else { c.g.density = 100 - c.g.density.min(100) } p.msgs.push(c) }
    for m in 0..p.msgs.len() {
        for _ in 0..r.range(1, 3) { let d = any_deliv(p, r, m, 25); p.delivs.push(d); }
        if r.chance(60) { let d = p.delivs.last().unwrap().clone(); if d.parts[0].form < 3 && let Some(f) = near(p, r, &d.parts[0]) { let mut e = d; e.faults = vec![f]; p.delivs.push(e) } }
    }
    let nf = r.range(1, 2) as usize;
    for _ in 0..nf { let f = pipeline(r, true); p.flows.push(f) }
    if r.chance(30) { p.flows.push(Flow { workflows: vec![vec![fs(WStep::Generate { dst: s("g") }), fs(publish("g", "x")), fs(validate("x", "v")), fs(parse("x", "m"))]], cont: true }) }
    let gen_flow = p.flows.len() > nf;
    let nd = p.delivs.len();
    let op = |r: &mut Rng, light: bool| -> Op {
        match if light { r.below(7) } else { r.below(10) } {
            0..=5 => Op::Api { f: pick_api(r).into(), d: r.below(nd) },
            6 => Op::ApiLit { f: pick_api(r).into(), s: r.pick(JUNK).to_string() },
            7 => Op::Steps { steps: match r.below(3) { 0 => vec![parse("payload", "m"), publish("m", "x")], 1 => vec![validate("payload", "v")], _ => vec![parse("payload", "m"), validate("payload", "v")] }, payload: Src::Deliv(r.below(nd)), init: vec![], peek_before: r.chance(50) },
            _ => flow_op(r.below(nf), if r.chance(85) { Src::Deliv(r.below(nd)) } else { Src::Content(r.below(nm)) }),
        }
    };
    if long {
        p.threads = 1;
        let n = r.range(80, 300) as usize;
        let mut ops: Vec<Op> = vec![];
        let probe: Vec<Op> = (0..8).map(|_| op(r, false)).collect();
        ops.extend(probe.iter().cloned());
        for i in 0..n { ops.push(if i % 7 == 3 { probe[r.below(8)].clone() } else if r.chance(30) { Op::ApiLit { f: r.pick(&["peek_xml", "type_xml", "registry", "peek_json"]).to_string(), s: format!("<AppHdr><MsgDefIdr>x{:03}.{:03}.001.0{}</MsgDefIdr></AppHdr><Document><E{}>", i % 90, r.below(40), i % 10, r.below(500)) } } else { op(r, true) }) }
        ops.extend(probe);
        p.tasks.push(TaskPlan { ops });
    } else {
        threaded(p, r, 2, 4);
        let nt = r.range(p.threads as i64, 7) as usize;
        for _ in 0..nt { let k = r.range(1, 4); let mut ops: Vec<Op> = (0..k).map(|_| op(r, false)).collect(); if gen_flow && r.chance(20) { ops.push(flow_op(nf, Src::Scenario(r.below(world::scenarios().len().max(1))))) } if r.chance(15) { ops.insert(0, Op::Clock { jump_ns: r.range(-4_000_000_000, 4_000_000_000) }) } p.tasks.push(TaskPlan { ops }) }
    }
}
fn p02(p: &mut Plan, r: &mut Rng) {
    p.kind = r.pick(&["refused", "refused", "engine", "cancel", "cancel"]).to_string();
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    for i in 0..4 { let m = r.below(2); let d = any_deliv(p, r, m, if i == 0 { 0 } else { 70 }); p.delivs.push(d) }
    p.delivs[0] = intact(0, 0, layout(r));
    let mut bad = world::gen_msg(&p.msgs[0]); mutate(&mut bad, r, 0);
    let init = |r: &mut Rng| -> Vec<(String, Src)> {
        let mut v = vec![("a".into(), Src::Deliv(r.below(4))), ("b".into(), Src::Content(1)), ("c".into(), Src::Json(bad.clone())), ("d".into(), Src::Json(r.pick(&[json!(1), json!(null), json!([]), json!({"mx_message": 5}), json!({"mx_message": "<x"}), json!("")]).clone())), ("e".into(), Src::Field(r.below(4)))];
        if r.chance(15) { let k = r.pick(&["@data", "@metadata", "@context"]).to_string(); let x = match k.as_str() { "@context" => r.pick(&[json!({"data": {}}), json!({"metadata": {}}), json!({"data": {}, "metadata": 3})]).clone(), _ => r.pick(&[json!([]), json!("text"), json!(1), json!(null), json!(true)]).clone() }; v.push((k, Src::Json(x))) }
        v
    };
    let src = |r: &mut Rng| r.pick(&["payload", "a", "b", "c", "d", "e", "missing", "t", "u"]).to_string();
    let step = |r: &mut Rng| -> WStep {
        let (a, b) = (src(r), r.pick(&["t", "u", "a", "validation"]).to_string());
        match r.below(11) {
            0..=2 => WStep::Parse { src: a, dst: b }, 3..=5 => WStep::Publish { src: a, dst: b }, 6 | 7 => WStep::Validate { src: a, dst: b }, 8 => WStep::Generate { dst: b },
            _ => WStep::Raw { name: r.pick(&["parse_mx", "publish_mx", "validate_mx", "generate_mx"]).to_string(), input: r.pick(&[json!({}), json!({"source": "payload"}), json!({"target": "t"}), json!({"source": 5, "target": "t"}), json!({"source": "a", "target": null}), json!(null), json!([1])]).clone() },
        }
    };
    let payload = |r: &mut Rng| match r.below(6) { 0 => Src::Json(r.pick(&[json!(null), json!(5), json!([1, 2]), json!({"schema": 5}), json!("x"), json!({"a": "<Document>"})]).clone()), 1 => Src::Content(0), _ => Src::Deliv(r.below(4)) };
    match p.kind.as_str() {
        "refused" => { let n = r.range(2, 8); let steps = (0..n).map(|_| step(r)).collect(); let pl = payload(r); let i = init(r); p.tasks.push(TaskPlan { ops: vec![Op::Steps { steps, payload: pl, init: i, peek_before: r.chance(60) }] }); p.sched = vec![sched(r, 0)] }
        "engine" => {
            let n = r.range(2, 6);
            let mut v = vec![fs(WStep::Probe)]; for _ in 0..n { let st = step(r); v.push(FStep { s: st, cond: Value::Null, cont: true }); v.push(fs(WStep::Probe)); }
            p.flows.push(Flow { workflows: vec![v], cont: true });
            let pl = payload(r); let i = init(r).into_iter().filter(|x| !x.0.starts_with('@')).collect();
            p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: 0, payload: pl, init: i, cancel: 0, again: r.below(2) as u32, key: String::new() }] });
        }
        _ => {
            let mut f = pipeline(r, false);
            for w in &mut f.workflows { let mut o = vec![fs(WStep::Probe)]; for x in w.drain(..) { o.push(x); o.push(fs(WStep::Probe)); o.push(fs(WStep::Yield { ns: *r.pick(&[0, 1000]) })) } *w = o; }
            p.flows.push(f);
            let ok = r.chance(70);
            let k = r.range(1, 3);
            for i in 0..k { p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: 0, payload: Src::Deliv(if ok && i == 0 { 0 } else { r.below(4) }), init: vec![], cancel: 1 + r.below(7) as u32, again: 1, key: String::new() }] }) }
            threaded(p, r, 1, 3);
        }
    }
}
/// every field, with every way to lose or repeat exactly that part of a message: 0 lost, 1 emptied, 2 repeated
fn parts() -> &'static Vec<(usize, u8)> {
    static A: std::sync::OnceLock<Vec<(usize, u8)>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let sc = schema(); let mut v: Vec<(usize, u8)> = vec![]; let mut seen = vec![false; sc.nfields];
        for &(id, c) in sweep() { if c == 0 && !std::mem::replace(&mut seen[id], true) { let (t, i) = sc.owner[id]; if let model::Def::Struct(f) = &sc.defs[t] { if f[i].name == "$value" { continue } if !f[i].opt { v.push((id, 0)); v.push((id, 0)) } v.push((id, 1)); if !f[i].vec { v.push((id, 2)) } } } }
        let mut r = Rng::new(313); for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)) } v
    })
}
fn part_fault(p: &Plan, r: &mut Rng, q: &Part, id: usize, how: u8) -> Option<Fault> {
    let b = String::from_utf8(bytes(p, q)).ok()?;
    let sp: Vec<model::Span> = if q.form == 2 { model::spans_json(&b) } else { model::spans_xml(&b) }.into_iter().filter(|s| s.field == id).collect();
    if sp.is_empty() { return None }
    let s = *r.pick(&sp);
    Some(match how { 0 => Fault::Lose { a: s.at.0, b: s.at.1 }, 1 => Fault::Lose { a: s.inner.0, b: s.inner.1 }, _ => Fault::Repeat { a: s.at.0, b: s.at.1, at: s.at.1 } })
}
/// Six messages, each with another part lost, emptied or repeated, and tasks to handle them.
fn part_msgs(p: &mut Plan, r: &mut Rng, at: u64, forms: &[u8]) {
    p.kind = "part".into();
    let a = parts(); let sc = schema();
    for k in 0..6usize {
        let (id, how) = a[((at * 6 + k as u64) % a.len() as u64) as usize];
        let mut g = small(r); g.target = id; g.long = 0; g.density = *r.pick(&[0, 0, 10, 30]); g.budget = 80; g.text = *r.pick(&[0, 0, 1, 2]);
        let t = sc.owner[id].0; let c: Vec<usize> = (0..sc.docs.len()).filter(|&i| sc.docs[i].reach.contains(&t)).collect();
        let mut sp = spec(r, g); if !c.is_empty() { sp.doc = *r.pick(&c) }
        p.msgs.push(sp);
        let f = *r.pick(forms); let mut q = part(k, if c.is_empty() && f == 1 { 0 } else { f }, layout(r));
        if let Some(f) = part_fault(p, r, &q, id, how) { q.faults.push(f) }
        p.delivs.push(Deliv { parts: vec![q], faults: vec![] });
    }
    let nt = r.range(1, 2) as usize; p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
}
const MARKUP: &[&str] = &["\u{1}", "\u{1}", "&#1;", "&#xFFFF;", "\u{fffe}", "&#13;", "&", "&x;", "&amp", "<", "</X>", "<X>", "<X/>", "<X></X>", "<X>text</X>", "<X>&y;</X>", "<X>&#xZ;</X>", "<X><Y></X></Y>", "<X a=\"1\" a=\"2\"/>", "<X a=\"<\"/>", "<X a='&z;'/>", "<X a/>", "<X a=1/>", "<X", "X>", "<!-- ", "<!--x-->", "-->",
    "<![CDATA[", "<![CDATA[x]]>", "text", "<X>text<Y/></X>", "<X>text<Y>t</Y>text</X>", "<Document/>", "<AppHdr/>", "<Envelope/>", "<X><AppHdr/></X>", "<X><Document/></X>", "<Document></Document>", "<AppHdr><X/></AppHdr>", "<?p ", "<?p q?>"];
/// Something foreign got between: markup, well-formed or not, or another part of the same message.
fn markup(p: &Plan, r: &mut Rng) -> Deliv {
    let m = r.below(2); let f = *r.pick(&[0, 0, 0, 1]); let l = if r.chance(50) { Layout::default() } else { layout(r) };
    let mut d = intact(m, f, l); let b = bytes(p, &d.parts[0]);
    let gt: Vec<usize> = find_all(&b, b">").into_iter().map(|i| i + 1).collect(); let leaf = |i: &usize| b.get(*i).is_some_and(|c| *c != b'<');
    for _ in 0..r.range(1, 2) {
        let at = match r.below(8) { 0 => 0, 1 => b.len(), 2 | 3 => *r.pick(&gt), 4 => { let v: Vec<usize> = gt.iter().copied().filter(leaf).collect(); if v.is_empty() { b.len() } else { *r.pick(&v) } } 5 => r.below(b.len() + 1), _ => cut(r, &b) };
        let x = match element(r, &b) { Some((a, e)) if r.chance(25) => Fault::Repeat { a, b: e, at }, _ => Fault::Insert { at, s: r.pick(MARKUP).to_string() } };
        d.parts[0].faults.push(x);
    }
    d
}
fn p03(p: &mut Plan, r: &mut Rng) {
    if p.idx % 2 == 0 {
        part_msgs(p, r, p.idx / 2, &[0, 1, 2]); let nt = p.tasks.len();
        for d in 0..6 {
            let o = &mut p.tasks[r.below(nt)].ops;
            if p.delivs[d].parts[0].form == 2 { o.push(Op::Api { f: s("from_json"), d }) } else { if p.delivs[d].parts[0].form == 0 { o.push(Op::Api { f: s("from_xml"), d }) } if r.chance(40) { o.push(Op::Api { f: s("doc_json"), d }) } o.push(Op::Steps { steps: vec![parse("payload", "m")], payload: Src::Deliv(d), init: vec![], peek_before: false }) }
        }
        threaded(p, r, 1, 2);
        return
    }
    p.kind = r.pick(&["xml", "xml", "xml", "document", "json", "intact"]).to_string();
    if p.idx % 8 == 1 { p.kind = s("markup") }
    let g = small(r); let a = spec(r, g); let g2 = small(r); let mut b = spec(r, g2);
    if r.chance(40) { b = MsgSpec { doc: a.doc, ..b }; if r.chance(50) { b = MsgSpec { seed: a.seed ^ 1, ..a.clone() } } }
    p.msgs = vec![a, b];
    let form = match p.kind.as_str() { "document" => 1, "json" => 2, _ => 0 };
    let n = 6;
    for _ in 0..n { let d = if p.kind == "intact" { let m = r.below(2); let f = r.below(3) as u8; intact(m, f, layout(r)) } else if p.kind == "markup" { markup(p, r) } else { channel(p, r, &[0, 1], form) }; p.delivs.push(d) }
    let nt = r.range(1, 3) as usize;
    p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
    for d in 0..n {
        let t = r.below(nt);
        let o = &mut p.tasks[t].ops;
        for f in ["from_xml", "from_json", "doc_json", "envelope_str"] { o.push(Op::Api { f: f.into(), d }) }
        o.push(Op::Steps { steps: vec![parse("payload", "m")], payload: Src::Deliv(d), init: vec![], peek_before: false });
        if r.chance(50) { o.push(Op::Steps { steps: vec![parse("a", "m"), validate("a", "v")], payload: Src::None, init: vec![("a".into(), if r.chance(50) { Src::Deliv(d) } else { Src::Field(d) })], peek_before: false }) }
    }
    threaded(p, r, 1, 3);
}
/// Undamaged structure, awkward text: every field in turn.
fn p04_texts(p: &mut Plan, r: &mut Rng) {
    p.kind = "texts".into();
    static A: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new(); let sc = schema();
    let a = A.get_or_init(|| sweep().iter().filter(|x| { let (t, i) = sc.owner[x.0]; x.1 == 0 && matches!(&sc.defs[t], model::Def::Struct(fs) if matches!(fs[i].ty, model::Ty::Str | model::Ty::F64)) }).map(|x| x.0).collect());
    for k in 0..8usize {
        let id = a[((p.idx / 4 * 8 + k as u64) % a.len() as u64) as usize];
        let mut g = small(r); g.target = id; g.long = 0; g.density = *r.pick(&[0, 0, 10]); g.budget = 50; g.rules = 0; g.text = *r.pick(&[9, 9, 9, 2, 3]);
        let t = sc.owner[id].0; let c: Vec<usize> = (0..sc.docs.len()).filter(|&i| sc.docs[i].reach.contains(&t)).collect();
        let mut sp = spec(r, g); if !c.is_empty() { sp.doc = *r.pick(&c) }
        p.msgs.push(sp); let f = *r.pick(&[0, 0, 2]); let l = layout(r); p.delivs.push(intact(k, f, l));
    }
    p.tasks = vec![TaskPlan { ops: vec![] }];
    for d in 0..8 {
        let o = &mut p.tasks[0].ops; let json = p.delivs[d].parts[0].form == 2;
        for f in if json { &["from_json", "json_xml", "peek_json"][..] } else { &["from_xml", "xml_xml", "fields", "fields_fast", "doc_json", "xml_jsonstr", "peek_xml"][..] } { o.push(Op::Api { f: s(f), d }) }
        if json { let v = world::gen_msg(&p.msgs[d]); o.push(Op::Steps { steps: vec![publish("j", "x"), validate("x", "v")], payload: Src::None, init: vec![(s("j"), Src::Json(v))], peek_before: false }) } else { o.push(Op::Steps { steps: vec![validate("payload", "v"), parse("payload", "m"), publish("m", "x")], payload: Src::Deliv(d), init: vec![], peek_before: false }) }
    }
    let mut g = small(r); g.target = usize::MAX; let sp = spec(r, g); p.msgs.push(sp);
    let l = layout(r); p.delivs.push(intact(8, 0, l)); p.delivs.push(intact(8, 2, Layout::default()));
    p.tasks[0].ops.push(Op::Api { f: s("from_xml"), d: 8 }); p.tasks[0].ops.push(Op::Api { f: s("from_json"), d: 9 });
    p.x["good"] = json!(8);
    threaded(p, r, 1, 1);
}
const IN_TAG: &[&str] = &[" a{}=\"\"", " xmlns:p{}=\"u\"", "  ", " a=\"\"", "a", " a{}"];
const BETWEEN: &[&str] = &["<!--x-->", "<?x y?>", " \n", "<X/>", "<X{}></X{}>", "<X>", "<", "</X>", "<AppHdr/>", "<Document>", "<![CDATA[]]>", "<!DOCTYPE x>", "<Document/>", "<Envelope>", "<X a=\"1\" b=\"2\"/>"];
const IN_TEXT: &[&str] = &["&amp;", "&#65;", "<![CDATA[x]]>", "<!--x-->", "x", "é", " ", "&", "<x/>", "]]>", "\r\n"];
const IN_JSON: &[&str] = &["[", "{\"a\":", "1,", "\"a\":1,", "\\u0041", " ", "\"a{}\":1,", "0", "x", "\\", "{\"AppHdr\":"];
/// the same little thing a hundred thousand times: the work must not grow with the square of it
fn p04_bulk(p: &mut Plan, r: &mut Rng) {
    p.kind = "bulk".into();
    let json = r.chance(20); let form = if json { 2 } else { *r.pick(&[0, 0, 1]) };
    let mut g = small(r); g.long = 0; g.budget = 40; g.density = *r.pick(&[0, 10]); g.text = 0; g.rules = 0; g.target = usize::MAX;
    let sp = spec(r, g); p.msgs.push(sp); let l = if r.chance(70) { Layout::default() } else { layout(r) };
    p.delivs.push(intact(0, form, l));
    let b = bytes(p, &p.delivs[0].parts[0]); let all = |t: &[u8]| find_all(&b, t);
    let ends = |v: Vec<usize>| -> Vec<usize> { v.into_iter().map(|i| i + 1).collect() };
    let class = p.idx / 25 % 4;
    let (at, set): (Vec<usize>, &[&str]) = if json { (match r.below(3) { 0 => ends(all(b"{")), 1 => ends(all(b":\"")).into_iter().map(|i| i + 1).collect(), _ => (0..=b.len()).collect() }, IN_JSON) } else { match class {
        // behind the name of a start tag, often one of the outer ones
        0 => { let mut v = vec![]; let outer = r.chance(60); for i in all(b"<") { let e = b[i..].iter().position(|c| *c == b'>' || *c == b' ' || *c == b'/').map_or(b.len(), |k| i + k); if e > i + 1 && b[i + 1].is_ascii_alphabetic() && (!outer || [&b"Envelope"[..], b"AppHdr", b"Document", b"MsgDefIdr"].contains(&&b[i + 1..e]) || v.len() < 4) { v.push(e) } } (v, IN_TAG) }
        1 => { let mut v = ends(all(b">")); v.retain(|&i| b.get(i) == Some(&b'<')); v.push(0); v.push(b.len()); (v, BETWEEN) }
        2 => { let mut v = ends(all(b">")); v.retain(|&i| b.get(i).is_some_and(|c| *c != b'<')); (v, IN_TEXT) }
        _ => ((0..=b.len()).collect(), *r.pick(&[IN_TAG, BETWEEN, IN_TEXT])),
    } };
    let at = if at.is_empty() { 0 } else { *r.pick(&at) }; let t = r.pick(set).to_string();
    let n = 500_000 / t.len().max(6);
    p.delivs[0].faults.push(Fault::Bulk { at, n, s: t });
    p.tasks = vec![TaskPlan { ops: vec![] }];
    let o = &mut p.tasks[0].ops;
    for f in if json { &["from_json", "json_xml", "peek_json", "type_json"][..] } else { &["from_xml", "doc_json", "peek_xml", "type_xml", "xml_to_json"][..] } { o.push(Op::Api { f: s(f), d: 0 }) }
    let src = match r.below(3) { 0 => (Src::Deliv(0), vec![], "payload"), 1 => (Src::None, vec![(s("a"), Src::Deliv(0))], "a"), _ => (Src::None, vec![(s("a"), Src::Field(0))], "a") };
    o.push(Op::Steps { steps: vec![validate(src.2, "v"), parse(src.2, "m"), publish("m", "x")], payload: src.0, init: src.1, peek_before: false });
    let mut g = small(r); g.target = usize::MAX; g.long = 0; let sp = spec(r, g); p.msgs.push(sp);
    let l = layout(r); p.delivs.push(intact(1, 0, l)); p.delivs.push(intact(1, 2, Layout::default()));
    p.tasks[0].ops.push(Op::Api { f: s("from_xml"), d: 1 }); p.tasks[0].ops.push(Op::Api { f: s("from_json"), d: 2 });
    p.x["good"] = json!(1);
}
fn p04(p: &mut Plan, r: &mut Rng) {
    p.kind = r.pick(&["bytes", "bytes", "bytes", "data"]).to_string();
    if p.idx % 4 == 1 { return p04_texts(p, r) }
    if p.idx % 25 == 2 { return p04_bulk(p, r) }
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    let n = if p.kind == "bytes" { 8 } else { 2 };
    for _ in 0..n { let m = r.below(2); let mut d = any_deliv(p, r, m, 0); let k = r.range(1, 3); for _ in 0..k { let all = { let ms: Vec<Value> = p.msgs.iter().map(world::gen_msg).collect(); world::build_deliv(&ms, p, &d).into_bytes() }; d.faults.push(any_fault(r, &all)) } p.delivs.push(d) }
    let nt = r.range(1, 3) as usize;
    p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
    for d in 0..n {
        let t = r.below(nt); let o = &mut p.tasks[t].ops;
        for f in APIS { if r.chance(70) { o.push(Op::Api { f: f.to_string(), d }) } }
        let src = match r.below(3) { 0 => (Src::Deliv(d), vec![], "payload"), 1 => (Src::None, vec![("a".into(), Src::Deliv(d))], "a"), _ => (Src::None, vec![("a".into(), Src::Field(d))], "a") };
        o.push(Op::Steps { steps: vec![validate(src.2, "v"), parse(src.2, "m"), publish("m", "x"), publish("a", "y"), publish(src.2, "z")], payload: src.0, init: src.1, peek_before: r.chance(30) });
    }
    for k in 0..(if p.kind == "data" { 10 } else { 1 }) {
        let mut v = world::gen_msg(&p.msgs[k % 2]); for _ in 0..r.range(1, 2) { mutate(&mut v, r, 0) }
        let t = r.below(nt);
        let mut init = vec![("j".to_string(), Src::Json(v.clone()))];
        if r.chance(25) { init.push((r.pick(&["@data", "@metadata", "@context"]).to_string(), Src::Json(r.pick(&[json!([]), json!("text"), json!(1), json!(null), json!({"j": 5}), json!({"data": {}}), json!({"data": [], "metadata": []})]).clone()))) }
        p.tasks[t].ops.push(Op::Steps { steps: vec![publish("j", "x"), validate("x", "v"), validate("j", "v"), parse("j", "m"), validate("payload", "v"), parse("payload", "m")], payload: if r.chance(50) { Src::Json(v.clone()) } else { Src::Deliv(r.below(n)) }, init, peek_before: false });
        p.tasks[t].ops.push(Op::ApiLit { f: r.pick(&["from_json", "json_xml", "peek_json", "type_json"]).to_string(), s: v.to_string() });
    }
    for _ in 0..3 { let t = r.below(nt); p.tasks[t].ops.push(Op::ApiLit { f: r.pick(APIS).to_string(), s: r.pick(JUNK).to_string() }) }
    // afterwards, an intact message of another type
    let mut g = small(r); g.target = usize::MAX; let sp = spec(r, g); p.msgs.push(sp);
    let l = layout(r); let d = p.delivs.len();
    p.delivs.push(intact(2, 0, l)); p.delivs.push(intact(2, 2, Layout::default()));
    for t in &mut p.tasks { t.ops.push(Op::Api { f: s("from_xml"), d }); t.ops.push(Op::Api { f: s("from_json"), d: d + 1 }); t.ops.push(Op::Steps { steps: vec![validate("payload", "v"), parse("payload", "m"), publish("m", "x")], payload: Src::Deliv(d), init: vec![], peek_before: false }) }
    p.x["good"] = json!(d);
    threaded(p, r, 1, 3);
}
/// every (field) and every (enumeration, code), in an order fixed by the seed
fn sweep() -> &'static Vec<(usize, usize)> {
    static mut BOTH: [Option<Vec<(usize, usize)>>; 2] = [None, None];
    unsafe {
        #[allow(static_mut_refs)]
        let slot = &mut BOTH[model::is_loose() as usize];
        if slot.is_none() {
            let sc = schema(); let mut v: Vec<(usize, usize)> = vec![]; let mut used = vec![false; sc.defs.len()];
            let mut live = vec![false; sc.defs.len()]; for d in &sc.docs { for t in &d.reach { live[*t] = true } } let mut st = vec![sc.header]; while let Some(t) = st.pop() { if live[t] && t != sc.header { continue } live[t] = true; if let model::Def::Struct(f) = &sc.defs[t] { for f in f { if let model::Ty::Ref(x) = f.ty { if !live[x] { st.push(x) } } } } }
            for id in 0..sc.nfields { let (t, i) = sc.owner[id]; if !live[t] { continue } v.push((id, 0)); if let model::Def::Struct(f) = &sc.defs[t] && let model::Ty::Ref(e) = f[i].ty && let model::Def::Enum(c) = &sc.defs[e] && !used[e] { used[e] = true; for k in 1..c.len() { v.push((id, k)) } } }
            let mut r = Rng::new(4711); for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)) }
            *slot = Some(v);
        }
        slot.as_ref().unwrap()
    }
}
fn p05(p: &mut Plan, r: &mut Rng, _tier: &str) {
    let sw = sweep();
    let n = 4;
    let sc = schema();
    for k in 0..n {
        let (f, c) = sw[((p.idx * n + k) % sw.len() as u64) as usize];
        let mut g = gcfg(r); g.target = f; g.code = c; if r.chance(80) { g.density = *r.pick(&[0, 0, 10, 30]) } g.budget = g.budget.min(300);
        let mut f = f;
        if r.permille(25) { let v: Vec<usize> = sw.iter().filter(|x| { let (t, i) = sc.owner[x.0]; x.1 == 0 && matches!(&sc.defs[t], model::Def::Struct(fs) if fs[i].vec) }).map(|x| x.0).collect(); f = *r.pick(&v); g.target = f; g.many = *r.pick(&[130, 300, 1100]); g.density = 0; g.long = 0; g.budget = 40; g.rep = 1 }
        let mut sp = spec(r, g);
        let t = sc.owner[f].0; let docs: Vec<usize> = (0..sc.docs.len()).filter(|&i| sc.docs[i].reach.contains(&t)).collect(); if !docs.is_empty() { sp.doc = *r.pick(&docs) }
        p.msgs.push(sp);
        let nh = r.range(2, 6) as usize; let mut hops: Vec<u8> = (0..nh).map(|_| r.below(8) as u8).collect();
        // every relay crosses both forms
        if hops.iter().all(|h| h & 1 == hops[0] & 1) { hops[1] ^= 1 }
        p.tasks.push(TaskPlan { ops: vec![Op::Relay { msg: k as usize, layout: layout(r), hops, key: format!("k{k}") }] });
    }
    if r.chance(50) { let f = pipeline(r, true); p.flows.push(f); p.delivs.push(intact(0, 0, layout(r))); p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: 0, payload: Src::Deliv(0), init: vec![], cancel: 0, again: r.below(2) as u32, key: String::new() }] }) }
    { let d = p.delivs.len(); p.delivs.push(intact(1, 1, layout(r))); p.tasks.push(TaskPlan { ops: vec![Op::Api { f: s("doc_json"), d }, Op::Steps { steps: vec![parse("payload", "m")], payload: Src::Deliv(d), init: vec![], peek_before: false }] }) }
    threaded(p, r, 1, 3);
    p.kind = "relay".into();
    if r.chance(35) { p.kind = "relay-crash".into(); for _ in 0..r.range(1, 2) { p.crashes.push(r.range(50, 12_000) as u64) } let g = p.sched[0].gap; p.sched.push(sched(r, g)); p.sched.push(sched(r, g)) }
}
fn p06(p: &mut Plan, r: &mut Rng) {
    if p.idx % 3 == 1 {
        part_msgs(p, r, p.idx / 3, &[0, 0, 1, 1]);
        for d in 0..6 { let t = r.below(p.tasks.len()); let o = &mut p.tasks[t].ops; let steps = if r.chance(50) { vec![validate("payload", "v"), parse("payload", "m")] } else { vec![parse("payload", "m"), validate("payload", "v")] }; o.push(Op::Steps { steps, payload: Src::Deliv(d), init: vec![], peek_before: false }) }
        threaded(p, r, 1, 2);
        return
    }
    p.kind = r.pick(&["intact", "faulty", "faulty", "faulty"]).to_string();
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    let n = 5;
    for _ in 0..n {
        let d = if p.kind == "intact" { let m = r.below(2); let f = *r.pick(&[0, 0, 1]); intact(m, f, layout(r)) } else {
            let form = *r.pick(&[0, 0, 1, 2, 4]);
            if r.chance(50) { channel(p, r, &[0, 1], form.min(2)) } else { let m = r.below(2); let mut d = intact(m, form, layout(r)); let b = bytes(p, &d.parts[0]); for _ in 0..r.range(1, 2) { d.faults.push(any_fault(r, &b)) } d } };
        p.delivs.push(d)
    }
    let nt = r.range(1, 3) as usize;
    p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
    for d in 0..n {
        for form in 0..3 { if form > 0 && r.chance(30) { continue }
            let (pl, init, f) = match form { 0 => (Src::Deliv(d), vec![], "payload"), 1 => (Src::None, vec![("a".to_string(), Src::Deliv(d))], "a"), _ => (Src::None, vec![("a".to_string(), Src::Field(d))], "a") };
            let steps = match r.below(3) { 0 => vec![validate(f, "v"), parse(f, "m")], 1 => vec![parse(f, "m"), validate(f, "v"), validate(f, "v2")], _ => vec![validate(f, "v"), validate(f, "v"), parse(f, "m"), validate(f, "v2")] };
            let t = r.below(nt); p.tasks[t].ops.push(Op::Steps { steps, payload: pl, init, peek_before: false });
        }
        let t = r.below(nt);
        for f in ["from_xml", "envelope_str", "doc_json"] { if r.chance(60) { p.tasks[t].ops.push(Op::Api { f: f.into(), d }) } }
    }
    threaded(p, r, 1, 3);
}
fn p07(p: &mut Plan, r: &mut Rng) {
    p.kind = "clock".into();
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    for _ in 0..3 { let m = r.below(2); let d = any_deliv(p, r, m, 35); p.delivs.push(d) }
    let nt = r.range(1, 4) as usize;
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(2, 4) {
            if r.chance(60) { ops.push(Op::Clock { jump_ns: match r.below(5) { 0 => -r.range(1, 400) * 86_400_000_000_000, 1 => r.range(1, 400) * 86_400_000_000_000, 2 => r.range(-5_000_000_000, 5_000_000_000), 3 => 1_000_000, _ => -3_600_000_000_000 } }) }
            if r.chance(50) { ops.push(Op::Sleep { ns: *r.pick(&[1, 2_000_000_000, 90_000_000_000, 86_400_000_000_000]) }) }
            let mut st = vec![]; for _ in 0..r.range(1, 4) { st.push(match r.below(4) { 0 => parse("payload", "m"), 1 => WStep::Yield { ns: *r.pick(&[0, 1_500_000_000, 7_200_000_000_000]) }, _ => validate("payload", *r.pick(&["v", "w"])) }) }
            if r.chance(30) { st.push(publish("m", "x")); st.push(validate("x", "v")) }
            ops.push(Op::Steps { steps: st, payload: Src::Deliv(r.below(3)), init: vec![], peek_before: r.chance(50) });
        }
        p.tasks.push(TaskPlan { ops });
    }
    threaded(p, r, 1, 4);
}
fn p08(p: &mut Plan, r: &mut Rng) {
    let n = world::scenarios().len().max(1);
    p.kind = "generate".into(); p.x["fixed_flows"] = json!(true);
    p.entropy.mode = match p.idx / n as u64 { 0 => 0, _ => *r.pick(&[0, 0, 0, 1, 2, 3, 4]) };
    if p.idx % 8 == 7 {
        // several generations in one process, same random numbers and clock for each: what was generated before must not matter
        p.kind = "repeat".into(); p.entropy.mode = *r.pick(&[0, 1, 2, 3]); p.clock.tick_ns = 0; p.clock.grain_ns = 1_000_000_000; p.clock.wall_ns -= p.clock.wall_ns % 1_000_000_000;
        p.flows.push(Flow { workflows: vec![vec![fs(WStep::Generate { dst: s("g") })]], cont: false });
        let mut src = |r: &mut Rng| if r.chance(60) { Src::Scenario(r.below(n)) } else { Src::Json(json!({"variables": {}, "schema": {"AppHdr": {"BizMsgIdr": *r.pick(&[json!("FIXED"), json!({"fake": ["uuid"]}), json!({"fake": ["bool"]}), json!({"fake": ["u8"]})]), "MsgDefIdr": "camt.025.001.08"}, "Document": {"n": {"fake": ["u64"]}, "w": {"fake": ["word"]}, "u": {"fake": ["uuid"]}}}})) };
        let pool = [src(r), src(r)];
        p.tasks.push(TaskPlan { ops: (0..r.range(2, 6)).map(|_| flow_op(0, r.pick(&pool).clone())).collect() });
        return
    }
    p.flows.push(Flow { workflows: vec![vec![fs(WStep::Generate { dst: s("g") }), fs(WStep::Yield { ns: 0 }), fs(publish("g", "x")), fs(validate("x", "v")), fs(WStep::Yield { ns: 0 }), fs(parse("x", "m"))]], cont: false });
    let nt = r.range(1, 3) as usize;
    for t in 0..nt { p.tasks.push(TaskPlan { ops: vec![flow_op(0, Src::Scenario(if t == 0 { (p.idx % n as u64) as usize } else { r.below(n) }))] }) }
    if r.chance(40) { let g = small(r); let sp = spec(r, g); p.msgs.push(sp); let d = any_deliv(p, r, 0, 30); p.delivs.push(d); let f = pipeline(r, true); p.flows.push(f); p.tasks.push(TaskPlan { ops: vec![flow_op(1, Src::Deliv(0)), Op::Api { f: pick_api(r).into(), d: 0 }] }) }
    threaded(p, r, 1, 3);
}
fn p09(p: &mut Plan, r: &mut Rng) {
    p.kind = "audit".into();
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    for i in 0..3 { let m = r.below(2); let d = if i == 0 { intact(m, r.below(2) as u8, layout(r)) } else { any_deliv(p, r, m, 50) }; p.delivs.push(d) }
    let nt = r.range(1, 2) as usize;
    let names = ["t", "u", "a", "payload", "x.y", ""];
    for k in 0..nt {
        let mut v = vec![];
        for _ in 0..r.range(2, 8) {
            let dst = if r.chance(70) { r.pick(&["t", "u"]).to_string() } else { r.pick(&names).to_string() };
            let src = r.pick(&["payload", "payload", "a", "b", "t", "u", "missing"]).to_string();
            v.push(FStep { s: match r.below(8) { 0..=2 => WStep::Parse { src, dst }, 3 | 4 => WStep::Publish { src, dst }, 5 | 6 => WStep::Validate { src, dst }, _ => WStep::Generate { dst } }, cond: Value::Null, cont: r.chance(80) });
            if r.chance(30) { let y = yld(r); v.push(fs(y)) }
            if r.chance(25) { v.push(fs(WStep::Checkpoint { sync: r.chance(60) })) }
        }
        p.flows.push(Flow { workflows: vec![v], cont: r.chance(70) });
        let payload = if r.chance(15) { Src::Scenario(r.below(world::scenarios().len().max(1))) } else { Src::Deliv(r.below(3)) };
        p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: k, payload, init: vec![("a".into(), Src::Deliv(0)), ("b".into(), Src::Content(1)), ("t".into(), Src::Json(r.pick(&[json!("old"), json!(null), json!({"k": 1})]).clone()))], cancel: 0, again: r.below(3) as u32, key: format!("k{k}") }] });
        if r.chance(60) { let st: Vec<WStep> = (0..r.range(2, 6)).map(|_| { let (src, dst) = (r.pick(&["payload", "a", "b", "t"]).to_string(), r.pick(&["t", "u", "a"]).to_string()); match r.below(3) { 0 => WStep::Parse { src, dst }, 1 => WStep::Publish { src, dst }, _ => WStep::Validate { src, dst } } }).collect(); p.tasks.push(TaskPlan { ops: vec![Op::Steps { steps: st, payload: Src::Deliv(0), init: vec![("a".into(), Src::Deliv(1)), ("b".into(), Src::Content(0))], peek_before: r.chance(50) }] }) }
    }
    threaded(p, r, 1, 2);
    if r.chance(40) { for _ in 0..r.range(1, 2) { p.crashes.push(r.range(20, 9000) as u64) } let g = p.sched[0].gap; p.sched.push(sched(r, g)); p.sched.push(sched(r, g)) }
}
fn p10(p: &mut Plan, r: &mut Rng) {
    p.kind = "crash".into();
    let k = r.range(1, 3) as usize;
    for i in 0..k {
        let g = small(r); let sp = spec(r, g); p.msgs.push(sp); let d = if r.chance(70) { intact(i, *r.pick(&[0, 0, 1]), layout(r)) } else { any_deliv(p, r, i, 60) }; p.delivs.push(d);
        let mut f = pipeline(r, false);
        f.cont = true;
        for w in &mut f.workflows { let mut o = vec![]; for x in w.drain(..) { o.push(x); if r.chance(50) { o.push(fs(WStep::Checkpoint { sync: r.chance(60) })) } if r.chance(30) { o.push(fs(yld(r))) } } *w = o; }
        p.flows.push(f);
        p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: i, payload: Src::Deliv(i), init: vec![], cancel: 0, again: r.below(2) as u32, key: format!("k{i}") }] });
    }
    threaded(p, r, 1, 3);
    let g = p.sched[0].gap;
    for _ in 0..r.range(1, 4) { p.crashes.push(match r.below(3) { 0 => r.range(10, 600), 1 => r.range(10, 6000), _ => r.range(10, 25_000) } as u64); p.sched.push(sched(r, g)); }
}
fn p11(p: &mut Plan, r: &mut Rng) {
    p.kind = r.pick(&["intact", "faulty", "faulty"]).to_string();
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    let n = 5;
    for _ in 0..n { let m = r.below(2); let d = if p.kind == "intact" { let f = r.below(3) as u8; intact(m, f, layout(r)) } else if r.chance(50) { let f = r.below(3) as u8; channel(p, r, &[0, 1], f) } else { any_deliv(p, r, m, 100) }; p.delivs.push(d) }
    let nt = r.range(1, 3) as usize;
    p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
    for d in 0..n {
        let mut seq: Vec<&str> = vec!["peek_xml", "peek_json", "type_xml", "type_json", "from_xml", "from_json", "doc_json"];
        for i in (1..seq.len()).rev() { let j = r.below(i + 1); seq.swap(i, j) }
        let t = r.below(nt);
        for f in seq { p.tasks[t].ops.push(Op::Api { f: f.into(), d }) }
        p.tasks[t].ops.push(Op::Api { f: s("peek_xml"), d }); p.tasks[t].ops.push(Op::Api { f: s("from_xml"), d });
        let dst = r.pick(&["m", "payload", "validation"]).to_string();
        p.tasks[t].ops.push(Op::Steps { steps: vec![parse("payload", &dst)], payload: Src::Deliv(d), init: vec![], peek_before: false });
    }
    threaded(p, r, 1, 3);
}
fn p12(p: &mut Plan, r: &mut Rng) {
    p.kind = r.pick(&["direct", "direct", "engine"]).to_string(); p.x["fixed_flows"] = json!(true);
    for _ in 0..2 { let g = small(r); let sp = spec(r, g); p.msgs.push(sp) }
    for i in 0..3 { let m = r.below(2); let d = if i == 0 { intact(m, 0, layout(r)) } else { any_deliv(p, r, m, 40) }; p.delivs.push(d) }
    for k in 0..r.range(1, 3) as usize {
        let init = vec![("a".to_string(), Src::Deliv(r.below(3))), ("b".to_string(), Src::Content(1)), ("e".to_string(), Src::Field(r.below(3))), ("t".to_string(), Src::Json(r.pick(&[json!("old"), json!(null), json!({"k": 1}), json!([1])]).clone()))];
        if p.kind == "direct" {
            let scen = r.chance(15);
            let steps = (0..r.range(2, 9)).map(|_| { let (a, b) = (r.pick(&["payload", "payload", "a", "b", "e", "t", "u"]).to_string(), r.pick(&["t", "u", "a", "z"]).to_string()); match r.below(if scen { 8 } else { 7 }) { 0..=2 => WStep::Parse { src: a, dst: b }, 3 | 4 => WStep::Publish { src: a, dst: b }, 5 | 6 => WStep::Validate { src: a, dst: b }, _ => WStep::Generate { dst: b } } }).collect();
            p.tasks.push(TaskPlan { ops: vec![Op::Steps { steps, payload: if scen { Src::Scenario(r.below(world::scenarios().len().max(1))) } else { Src::Deliv(r.below(3)) }, init, peek_before: r.chance(70) }] });
        } else {
            let map = |a: &str, b: &str| WStep::Map { from: s(a), to: s(b) };
            let eq = |a: &str, v: Value| json!({"==": [var(a), v]});
            let mut v = vec![
                fs(validate("payload", "v")), fs(map("data.v.valid", "data.k0")),
                FStep { s: parse("payload", "m"), cond: eq("data.v.valid", json!(true)), cont: true }, fs(map("metadata.m.message_type", "data.k1")),
                FStep { s: publish("m", "x"), cond: json!({"==": [var("metadata.m.format"), "json"]}), cont: true }, fs(map("data.x", "data.k2")),
                FStep { s: validate("x", "v"), cond: json!({"!!": [var("data.x")]}), cont: true }, fs(map("data.v.valid", "data.k3")), fs(map("metadata.validation.validated", "data.k4")),
                FStep { s: WStep::Generate { dst: s("g") }, cond: json!(false), cont: true },
                FStep { s: WStep::Raw { name: s("parse_mx"), input: json!({"source": "missing", "target": "m"}) }, cond: Value::Null, cont: true },
                FStep { s: parse("x", "m"), cond: json!({"!!": [var("data.k3")]}), cont: true }, fs(map("data.m", "data.k5")), fs(WStep::Probe)];
            for _ in 0..r.below(4) { let i = r.below(v.len()); let y = yld(r); v.insert(i, fs(y)) }
            let rest = v.split_off(3 + r.below(6)); 
            p.flows.push(Flow { workflows: vec![v, rest], cont: true });
            p.tasks.push(TaskPlan { ops: vec![Op::Flow { flow: k, payload: Src::Deliv(r.below(3)), init: vec![], cancel: 0, again: r.below(2) as u32, key: String::new() }] });
        }
    }
    threaded(p, r, 1, 3);
}
fn all_aims() -> &'static Vec<(usize, u8)> {
    static A: [std::sync::OnceLock<Vec<(usize, u8)>>; 2] = [const { std::sync::OnceLock::new() }; 2];
    A[model::is_loose() as usize].get_or_init(|| { let mut v = model::aims(); let mut r = Rng::new(815); for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)) } v })
}
/// a message for one (field, relation to its rule)
fn aimed(r: &mut Rng, (id, how): (usize, u8)) -> MsgSpec {
    let how = match how { 5 if r.chance(40) => 6, 4 if r.chance(10) => 6, h => h };
    let mut g = small(r); g.target = usize::MAX; g.text = *r.pick(&[0, 0, 0, 2]); g.density = *r.pick(&[0, 0, 10, 30]); g.budget = 60; g.long = 0; g.rules = *r.pick(&[0, 60, 200, 200]); g.via = id + 1; g.how = how; g.many = match how { 10 => *r.pick(&[2, 3, 7]), 11 => *r.pick(&[4, 130, 130, 260]), _ => 0 };
    let t = schema().owner[id].0; let c: Vec<usize> = (0..schema().docs.len()).filter(|&i| schema().docs[i].reach.contains(&t)).collect();
    let doc = if c.is_empty() { r.below(schema().docs.len()) } else { *r.pick(&c) };
    MsgSpec { doc, seed: r.u64() >> 12, g }
}
fn p19(p: &mut Plan, r: &mut Rng) {
    p.x["fields"] = json!(true);
    let form = |r: &mut Rng| *r.pick(&[5, 5, 6]);
    if p.idx % 2 == 0 {
        // every rule of every field in turn
        p.kind = "sweep".into(); let a = all_aims();
        for k in 0..8 { let m = aimed(r, a[((p.idx / 2 * 8 + k) % a.len() as u64) as usize]); p.msgs.push(m); let d = intact(k as usize, if p.msgs[k as usize].g.how == 6 { 6 } else { form(r) }, layout(r)); p.delivs.push(d) }
        let nt = r.range(1, 3) as usize; p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
        for d in 0..8 { let t = r.below(nt); p.tasks[t].ops.push(Op::Api { f: s("findings"), d }); if r.chance(20) { let t = r.below(nt); p.tasks[t].ops.push(Op::Api { f: s("findings"), d: r.below(8) }) } }
        threaded(p, r, 1, 3);
        return
    }
    // every field and every code in turn
    p.kind = "relay".into(); let sw = sweep(); let sc = schema();
    for k in 0..4 {
        let (f, c) = sw[((p.idx / 2 * 4 + k) % sw.len() as u64) as usize];
        let mut g = gcfg(r); g.target = f; g.code = c; g.text = g.text.min(2); g.budget = g.budget.min(300); if r.chance(80) { g.density = *r.pick(&[0, 0, 10, 30]) } if r.chance(40) { g.rules = *r.pick(&[40, 80, 200]) }
        let sp = spec(r, g); p.msgs.push(sp);
        if sc.docs[p.msgs[k as usize].doc].elem.starts_with("bah_") { p.msgs[k as usize].g.long = p.msgs[k as usize].g.long.min(4000) }
        let hops: Vec<u8> = (0..r.range(2, 5)).map(|_| r.below(4) as u8).collect();
        p.tasks.push(TaskPlan { ops: vec![Op::Relay { msg: k as usize, layout: layout(r), hops, key: format!("k{k}") }] });
    }
    for d in 0..2 { let f = form(r); p.delivs.push(intact(d, f, layout(r))); p.tasks[3 - d].ops.push(Op::Api { f: s("value"), d }) }
    threaded(p, r, 1, 3);
    if r.chance(35) { p.kind = "relay-crash".into(); for _ in 0..r.range(1, 2) { p.crashes.push(r.range(50, 12_000) as u64) } let g = p.sched[0].gap; p.sched.push(sched(r, g)); p.sched.push(sched(r, g)) }
}
fn p14(p: &mut Plan, r: &mut Rng) {
    if p.idx % 3 != 0 {
        let n = p.idx / 3 * 2 + p.idx % 3 - 1;
        // every rule of every field, and every way down to one, in turn
        p.kind = "sweep".into(); p.x["fields"] = json!(true);
        let a = all_aims();
        for k in 0..8 {
            let m = aimed(r, a[((n * 8 + k) % a.len() as u64) as usize]); p.msgs.push(m);
            let d = intact(k as usize, if p.msgs[k as usize].g.how == 6 { 2 } else { *r.pick(&[0, 0, 2]) }, layout(r)); p.delivs.push(d);
        }
        let nt = r.range(1, 2) as usize; p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
        for d in 0..8 { let t = r.below(nt); p.tasks[t].ops.push(Op::Api { f: s("findings"), d }) }
        threaded(p, r, 1, 2);
        return
    }
    p.kind = r.pick(&["relay", "delivery", "delivery"]).to_string(); p.x["fields"] = json!(true);
    for _ in 0..2 { let mut g = small(r); g.rules = *r.pick(&[40, 80, 100, 200]); g.text = *r.pick(&[0, 0, 0, 2, 3]); g.density = *r.pick(&[0, 10, 30, 60]); if r.permille(40) { g.rules = 120; g.budget = *r.pick(&[700, 1500, 3000]); g.rep = *r.pick(&[3, 20, 60]); g.density = *r.pick(&[10, 30, 60, 90]); g.long = 0 } g.target = if r.chance(70) { r.below(schema().nfields) } else { usize::MAX }; let sp = spec(r, g); p.msgs.push(sp) }
    if p.kind == "relay" {
        for m in 0..2 { let nh = r.range(2, 4) as usize; let hops: Vec<u8> = (0..nh).map(|_| r.below(8) as u8).collect(); p.tasks.push(TaskPlan { ops: vec![Op::Relay { msg: m, layout: layout(r), hops, key: format!("k{m}") }] }) }
        threaded(p, r, 1, 2);
        if r.chance(40) { p.crashes.push(r.range(50, 30_000) as u64); let g = p.sched[0].gap; p.sched.push(sched(r, g)) }
    } else {
        for m in 0..2 {
            let d = intact(m, *r.pick(&[0, 0, 2]), layout(r));
            // texts altered on the way
            let q = d.parts[0].clone(); p.delivs.push(d);
            for _ in 0..r.range(1, 2) { let mut e = intact(m, q.form, q.layout); for _ in 0..r.range(1, 4) { if let Some(f) = wound(p, r, &Part { faults: e.parts[0].faults.clone(), ..q.clone() }) { e.parts[0].faults.push(f) } } p.delivs.push(e) }
        }
        let nt = r.range(1, 3) as usize; let nd = p.delivs.len();
        p.tasks = (0..nt).map(|_| TaskPlan { ops: vec![] }).collect();
        for d in 0..nd { for _ in 0..r.range(1, 2) { let t = r.below(nt); p.tasks[t].ops.push(Op::Api { f: s("findings"), d }) } }
        for t in &mut p.tasks { if r.chance(30) { t.ops.push(Op::Api { f: s("findings"), d: r.below(nd) }) } }
        threaded(p, r, 1, 3);
    }
}
fn p17(p: &mut Plan, r: &mut Rng) {
    use world::MARK;
    p.kind = "churn".into(); p.x["mark"] = json!(true);
    for _ in 0..2 { let mut g = small(r); g.budget = *r.pick(&[30, 60]); g.long = 0; g.text = *r.pick(&[0, 0, 2]); let sp = spec(r, g); p.msgs.push(sp) }
    for m in 0..2 { let d = intact(m, *r.pick(&[0, 0, 1, 2]), layout(r)); p.delivs.push(d) }
    for _ in 0..2 { let m = r.below(2); let mut d = any_deliv(p, r, m, 0); let b = bytes(p, &d.parts[0]); d.faults.push(match any_fault(r, &b) { Fault::Deep { at, name, close, .. } => Fault::Deep { at, n: 40, name, close }, f => f }); p.delivs.push(d) }
    // texts of the round's own where they damage something, so that each refusal is worded differently
    for form in [0, *r.pick(&[1, 2])] { let mut d = intact(r.below(2), form, layout(r)); let b = bytes(p, &d.parts[0]); d.faults.push(Fault::Insert { at: r.below(b.len()), s: s(MARK) }); p.delivs.push(d) }
    p.flows = vec![pipeline(r, true)];
    let gen_flow = r.chance(25);
    if gen_flow { p.flows.push(Flow { workflows: vec![vec![fs(WStep::Generate { dst: s("g") }), fs(publish("g", "x")), fs(validate("x", "v")), fs(parse("x", "m"))]], cont: true }) }
    let lit = |r: &mut Rng| -> String { match r.below(8) {
        0 => format!("<AppHdr><MsgDefIdr>{MARK}</MsgDefIdr></AppHdr><Document><{MARK}/></Document>"),
        1 => format!("<Document><{MARK}></{MARK}></Document>"),
        2 => format!("<Document xmlns=\"urn:{MARK}\"><Rcpt>{MARK}</Rcpt></Document>"),
        3 => format!("{{\"message_type\":\"{MARK}\"}}"),
        4 => format!("{{\"AppHdr\":{{\"MsgDefIdr\":\"x.{MARK}.001.02\"}},\"Document\":{{\"{MARK}\":1}}}}"),
        5 => format!("{MARK}"),
        6 => format!("<Envelope><AppHdr><BizMsgIdr>{MARK}</BizMsgIdr><MsgDefIdr>pacs.{MARK}</MsgDefIdr></AppHdr><Document><FICdtTrf><{MARK}></FICdtTrf></Document></Envelope>"),
        _ => format!("pacs.{MARK}.001.08"),
    } };
    let mut ops = vec![];
    for d in 0..6 { ops.push(Op::Api { f: pick_api(r).into(), d }) }
    for d in 4..6 { ops.push(Op::Steps { steps: vec![validate("payload", "v"), parse("payload", "m"), publish("payload", "x")], payload: Src::Deliv(d), init: vec![], peek_before: false }) }
    for f in ["from_xml", "peek_xml", "type_xml", "from_json", "peek_json", "type_json", "doc_json", "envelope_str", "registry"] { if r.chance(60) { ops.push(Op::ApiLit { f: f.into(), s: lit(r) }) } }
    let d = r.below(4);
    ops.push(Op::Flow { flow: 0, payload: Src::Deliv(d), init: vec![], cancel: if r.chance(40) { 1 + r.below(5) as u32 } else { 0 }, again: r.below(2) as u32, key: String::new() });
    let d = r.below(4);
    ops.push(Op::Steps { steps: vec![validate("payload", "v"), parse("payload", "m"), publish("m", "x"), WStep::Raw { name: s("publish_mx"), input: json!({"source": "nothing", "target": "t"}) }], payload: Src::Deliv(d), init: vec![], peek_before: r.chance(50) });
    if gen_flow { let n = world::scenarios().len().max(1); ops.push(flow_op(1, Src::Scenario(r.below(n)))) }
    for i in (1..ops.len()).rev() { let j = r.below(i + 1); ops.swap(i, j) }
    p.tasks.push(TaskPlan { ops: vec![Op::Churn { ops, rounds: 300 }] });
    p.max_steps = 2_000_000_000;
}
/// What XML forbids, or readers alter.
const ODD: &[&str] = &["\u{1}", "\u{0}", "\u{8}", "\u{b}", "\u{1b}", "\u{1f}", "\u{fffe}", "\u{ffff}", "\r", "\r", "\r\n", "\n", "\t", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{1ffff}", "]]>", "-->", "&#13;", "&amp;#1;", "<![CDATA[", "&", "<", "\"", "'"];
fn odd(p: &Plan, r: &mut Rng, q: &Part) -> Option<Fault> {
    let b = bytes(p, q); let t = std::str::from_utf8(&b).ok()?; let sc = schema();
    let v: Vec<model::Span> = if q.form == 2 { model::spans_json(t) } else { model::spans_xml(t) }.into_iter().filter(|s| { let (d, i) = sc.owner[s.field]; matches!(&sc.defs[d], model::Def::Struct(f) if matches!(f[i].ty, model::Ty::Str)) && s.inner.1 > s.inner.0 + 3 && !t[s.inner.0..s.inner.1].contains(['&', '\\', '[', ']', '<']) && !matches!(match &sc.defs[sc.owner[s.field].0] { model::Def::Struct(f) => f[sc.owner[s.field].1].name.as_str(), _ => "" }, "MsgDefIdr" | "CreDt" | "CreDtTm") }).collect();
    if v.is_empty() { return None }
    let (mut a, mut e) = r.pick(&v).inner; if q.form == 2 { a += 1; e -= 1 }
    let inside: Vec<usize> = t[a..e].char_indices().map(|c| a + c.0).filter(|&i| i > a && !t[a..i].ends_with(char::is_whitespace) && !t[i..e].starts_with(char::is_whitespace)).collect(); if inside.is_empty() { return None }
    let at = *r.pick(&inside);
    let c = *r.pick(ODD);
    let s = if q.form == 2 { let mut o = String::new(); for c in c.chars() { if (c as u32) < 32 || r.chance(50) { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{u:04x}")) } } else if c == '"' { o.push_str("\\\"") } else { o.push(c) } } o }
        else { let mut o = String::new(); for c in c.chars() { match c { '\r' => o.push_str("&#13;"), c if r.chance(60) => o.push_str(&format!("&#x{:x};", c as u32)), '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), c => o.push(c) } } o };
    Some(Fault::Insert { at, s })
}
/// What leaves a node.
fn p18(p: &mut Plan, r: &mut Rng) {
    let sw = sweep(); let sc = schema();
    p.kind = ["same", "odd", "relay", "same"][(p.idx % 4) as usize].into();
    let n = if p.kind == "odd" { 3 } else { 2 };
    for k in 0..n {
        let mut g = if p.kind == "relay" { gcfg(r) } else { small(r) };
        let (f, c) = sw[((p.idx * 3 + k) % sw.len() as u64) as usize];
        if r.chance(60) { g.target = f; g.code = c }
        let mut sp = spec(r, g);
        if g.target < sc.nfields { let t = sc.owner[g.target].0; let v: Vec<usize> = (0..sc.docs.len()).filter(|&i| sc.docs[i].reach.contains(&t)).collect(); if !v.is_empty() { sp.doc = *r.pick(&v) } }
        p.msgs.push(sp);
        if p.kind == "relay" {
            for j in 0..2 {
                let nh = r.range(3, 6) as usize; let mut hops: Vec<u8> = (0..nh).map(|_| r.below(8) as u8).collect(); let l = hops.len(); if hops[1..].iter().all(|h| h & 1 == 1) { hops[l - 1] ^= 1 }
                p.tasks.push(TaskPlan { ops: vec![Op::Relay { msg: k as usize, layout: layout(r), hops, key: format!("k{k}{j}") }] });
            }
            continue
        }
        let mut ops = vec![];
        for _ in 0..r.range(3, 5) {
            let m = k as usize; let form = *r.pick(&[0, 0, 2]); let mut d = intact(m, form, layout(r));
            if p.kind == "odd" { for _ in 0..r.range(1, 2) { if let Some(f) = odd(p, r, &d.parts[0]) { d.parts[0].faults.push(f) } } }
            else if form == 0 && r.chance(40) { for _ in 0..r.range(1, 3) { let b = bytes(p, &d.parts[0]); if let Some(f) = moved(r, &b) { d.parts[0].faults.push(f) } } }
            let di = p.delivs.len(); p.delivs.push(d);
            match (form, r.below(4)) {
                (0, 0) => ops.push(Op::Steps { steps: vec![parse("payload", "m"), publish("m", "x"), parse("x", "m2"), publish("m2", "x2")], payload: Src::Deliv(di), init: vec![], peek_before: false }),
                (0, 1) => { p.flows.push(pipeline(r, true)); ops.push(flow_op(p.flows.len() - 1, Src::Deliv(di))) }
                (0, _) => ops.push(Op::Api { f: s("xml_xml"), d: di }),
                (_, 0 | 1) => ops.push(Op::Steps { steps: vec![publish("s", "x"), parse("x", "m2"), publish("m2", "x2")], payload: Src::None, init: vec![("s".into(), Src::Json(serde_json::from_slice(&bytes(p, &p.delivs[di].parts[0])).unwrap_or(Value::Null))), ("d".into(), Src::Json(json!(di)))], peek_before: false }),
                _ => ops.push(Op::Api { f: s("json_xml"), d: di }),
            }
        }
        if r.chance(50) { p.tasks.push(TaskPlan { ops }) } else { let mut o2 = vec![]; while ops.len() > 1 && o2.len() < 2 { o2.push(ops.pop().unwrap()) } p.tasks.push(TaskPlan { ops }); if !o2.is_empty() { p.tasks.push(TaskPlan { ops: o2 }) } }
    }
    threaded(p, r, 1, 4);
    if p.kind == "relay" && r.chance(50) { for _ in 0..r.range(1, 2) { p.crashes.push(r.range(50, 20_000) as u64) } let g = p.sched[0].gap; p.sched.push(sched(r, g)); p.sched.push(sched(r, g)) }
}
/// A change inside one text: a character replaced, added, lost or repeated.
fn wound(p: &Plan, r: &mut Rng, q: &Part) -> Option<Fault> {
    let b = bytes(p, q); let json = q.form == 2;
    for _ in 0..40 {
        let i = r.below(b.len().max(1));
        let (a, e) = if json { let a = i + find_all(&b[i..b.len().min(i + 4000)], b":\"").first()? + 2; (a, a + b[a..].iter().position(|c| *c == b'"')?) } else { let a = i + b[i..].iter().position(|c| *c == b'>')? + 1; (a, a + b[a..].iter().position(|c| *c == b'<')?) };
        if e <= a || !b[a..e].iter().all(|c| c.is_ascii_alphanumeric() || b"-:.+ ,/".contains(c)) || b[a..e].iter().all(|c| *c == b' ') || (!json && b.get(e + 1) != Some(&b'/')) { continue }
        let k = a + r.below(e - a);
        return Some(match r.below(5) {
            0 => Fault::Edit { at: k, s: r.pick(&["~", "|", "a", "Z", "9", "_"]).to_string() },
            1 => Fault::Insert { at: if r.chance(50) { k } else { e }, s: r.pick(&["é", "~", "x", "7", "日"]).to_string() },
            2 => Fault::Insert { at: e, s: "X7".repeat(r.range(1, 90) as usize) },
            3 => Fault::Lose { a: k, b: if r.chance(50) { e } else { k + 1 } },
            _ => Fault::Repeat { a, b: e, at: e },
        });
    }
    None
}

// ------------------------------------------------------------------ judging
fn masked(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "reads" && *k != "wall" && *k != "id").map(|(k, x)| (k.clone(), if (k == "timestamp" || k == "processed_at") && x.is_string() { json!("*") } else { masked(x) })).collect::<Map<_, _>>()),
        Value::Array(a) => Value::Array(a.iter().map(masked).collect()),
        x => x.clone(),
    }
}
fn last(o: &[EpochOut]) -> &EpochOut { o.last().unwrap() }
/// Runs that did not end by themselves.
fn ended(p: &Plan, o: &[EpochOut]) -> Option<Viol> {
    let e = last(o);
    match e.end.as_str() {
        "done" | "silent" => None,
        x => viol(format!("{}/{}", p.prop, x.split(':').next().unwrap()), format!("process ended with '{x}' during {} {}", e.at, e.panics.join("; "))),
    }
}
fn recs<'a>(o: &'a [EpochOut], ev: &'a str) -> impl Iterator<Item = &'a Rec> { o.iter().flat_map(|e| e.log.iter()).filter(move |r| r.ev == ev) }
fn panicked(p: &Plan, o: &[EpochOut]) -> Option<Viol> {
    for r in o.iter().flat_map(|e| e.log.iter()) {
        if r.v.get("panic").is_some() || r.v.get("out").is_some_and(|x| x.get("panic").is_some()) || r.v.get("r").is_some_and(|x| x.get("panic").is_some()) {
            let opk = p.tasks[r.task].ops.get(r.op).map(|o| format!("{o:?}")).unwrap_or_default();
            return viol(format!("{}/panic", p.prop), format!("panic in {} : {}", opk.chars().take(200).collect::<String>(), last(o).panics.join("; ")));
        }
    }
    None
}
fn op_of<'a>(p: &'a Plan, r: &Rec) -> &'a Op { &p.tasks[r.task].ops[r.op] }
struct Payloads { msgs: Vec<Value>, bytes: Vec<String> }
fn payloads(p: &Plan) -> Payloads { let msgs: Vec<Value> = p.msgs.iter().map(world::gen_msg).collect(); let bytes = p.delivs.iter().map(|d| world::build_deliv(&msgs, p, d)).collect(); Payloads { msgs, bytes } }
pub fn payload_bytes(p: &Plan) -> Vec<String> { payloads(p).bytes }
fn is_intact(d: &Deliv) -> bool { d.parts.len() == 1 && d.faults.is_empty() && d.parts[0].faults.is_empty() && d.parts[0].form != 4 && d.parts[0].form != 3 }
fn note_docs(p: &Plan, ex: &mut Ex) { if !ex.quiet { for m in &p.msgs { ex.st.docs.insert(m.doc); } } }

pub fn check(p: &Plan, ex: &mut Ex) -> Option<Viol> {
    model::use_schema(&p.prop);
    let o = ex.main(p);
    note_docs(p, ex);
    if last(&o).end == "silent" { return None }
    if let Some(v) = ended(p, &o) { return Some(v) }
    if let Some(v) = panicked(p, &o) { return Some(v) }
    match p.prop.as_str() { "C01" => c01(p, ex, &o), "C02" => c02(p, ex, &o), "C03" => c03(p, ex, &o), "C04" => c04(p, ex, &o), "C05" => c05(p, ex, &o), "C06" => c06(p, ex, &o), "C07" => c07(p, ex, &o), "C08" => c08(p, ex, &o), "C09" => c09(p, ex, &o), "C10" => c10(p, ex, &o), "C11" => c11(p, ex, &o), "C12" => c12(p, ex, &o), "C14" => c14(p, ex, &o), "C17" => c17(p, ex, &o), "C18" => c18(p, ex, &o), "C19" => c19(p, ex, &o), _ => None }
}
fn generates(p: &Plan, o: &Op) -> bool { match o { Op::Flow { flow, .. } => p.flows[*flow].workflows.iter().flatten().any(|s| matches!(s.s, WStep::Generate { .. })), Op::Steps { steps, .. } => steps.iter().any(|s| matches!(s, WStep::Generate { .. })), _ => false } }
fn solo(p: &Plan) -> Plan { let mut q = p.clone(); q.threads = 1; q.sched = vec![SchedPlan { seed: 0, gap: 0, decisions: Some(vec![]) }]; q.crashes.clear(); q }

fn c01(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let mut cache: Vec<(String, Value)> = vec![];
    for rec in recs(o, "res") {
        let op = op_of(p, rec);
        if generates(p, op) || matches!(op, Op::Clock { .. } | Op::Sleep { .. }) { continue }
        let key = serde_json::to_string(op).unwrap();
        let alone = match cache.iter().find(|c| c.0 == key) { Some(c) => c.1.clone(), None => {
            let mut q = solo(p); q.tasks = vec![TaskPlan { ops: vec![op.clone()] }];
            let a = ex.run(&q); if last(&a).end == "silent" { return None }
            let v = recs(&a, "res").next().map(|r| masked(&r.v)).unwrap_or(json!({"ended": last(&a).end}));
            cache.push((key, v.clone())); v } };
        let here = masked(&rec.v);
        if here != alone { return viol(format!("C01/{}", kind_of(op)), format!("{} gave another result than alone: {}", opname(op), diff(&alone, &here, "").unwrap_or("(differs)".into()))) }
        ex.st.outcome(if rec.v.get("err").is_some() { "refused" } else { "accepted" });
    }
    None
}
fn kind_of(o: &Op) -> String { match o { Op::Api { f, .. } | Op::ApiLit { f, .. } => f.clone(), Op::Flow { .. } => "flow".into(), Op::Steps { .. } => "steps".into(), _ => "other".into() } }
fn opname(o: &Op) -> String { format!("{o:?}").chars().take(220).collect() }

fn strip_engine(ctx: &Value) -> Value { let mut c = masked(ctx); if let Some(m) = c.get_mut("metadata").and_then(Value::as_object_mut) { m.remove("progress"); m.remove("processed_at"); m.remove("engine_version"); } c }
fn c02(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    for rec in recs(o, "step") {
        if rec.v["out"].get("err").is_some() {
            ex.st.outcome("refused");
            // a context without data shows as null data once looked at: the same to every reader
            let nn = |v: &Value| { let mut v = v.clone(); if let Some(c) = v["ctx"].as_object_mut() { c.retain(|_, x| !x.is_null()) } v };
            if nn(&rec.v["before"]) != nn(&rec.v["after"]) { return viol("C02/trace-of-refused-step", format!("{} was refused ({}) but changed the message: {}", short(&rec.v["step"]), short(&rec.v["out"]["err"]), diff(&rec.v["before"], &rec.v["after"], "").unwrap_or_default())) }
        } else { ex.st.outcome("accepted"); if rec.v["before"]["payload"] != rec.v["after"]["payload"] { return viol("C02/payload", format!("{} changed the payload", short(&rec.v["step"]))) } }
    }
    if p.kind == "engine" {
        let pr: Vec<&Value> = recs(o, "probe").map(|r| &r.v).collect();
        let steps = &p.flows[0].workflows[0];
        // a probe follows every step; a failed probe step cannot happen
        let per = steps.iter().filter(|s| matches!(s.s, WStep::Probe)).count();
        for c in pr.chunks(per) {
            for (i, w) in c.windows(2).enumerate() {
                let (a, b) = (w[0], w[1]);
                let (ea, eb) = (a["errors"].as_array().unwrap().len(), b["errors"].as_array().unwrap().len());
                let st = &steps[2 * i + 1].s;
                // audit entries between: the probe itself, and the step
                let da = b["audit"].as_array().unwrap().len() - a["audit"].as_array().unwrap().len();
                if da != 2 { return viol("C02/audit-count", format!("{st:?}: {da} audit entries instead of 2")) }
                let entry = &b["audit"][a["audit"].as_array().unwrap().len() + 1];
                if eb > ea {
                    ex.st.outcome("refused");
                    if eb != ea + 1 { return viol("C02/recorded", format!("{st:?}: one failure recorded {} times", eb - ea)) }
                    if !entry["changes"].as_array().is_some_and(|c| c.is_empty()) || entry["status"].as_u64() < Some(400) { return viol("C02/audit-of-refused", format!("{st:?} failed but its audit entry says {}", short(entry))) }
                    if strip_engine(&a["ctx"]) != strip_engine(&b["ctx"]) { return viol("C02/trace-of-refused-step", format!("{st:?} failed but left {}", diff(&strip_engine(&a["ctx"]), &strip_engine(&b["ctx"]), "").unwrap_or_default())) }
                } else { ex.st.outcome("accepted") }
                if a["payload"] != b["payload"] { return viol("C02/payload", format!("{st:?} changed the payload")) }
            }
        }
    }
    if p.kind == "cancel" {
        // reference: the same messages, never cancelled, one at a time
        let mut q = solo(p);
        for t in &mut q.tasks { for op in &mut t.ops { if let Op::Flow { cancel, again, .. } = op { *cancel = 0; *again = 0 } } }
        let a = ex.run(&q);
        if last(&a).end != "done" { return None }
        for t in 0..p.tasks.len() {
            let mut states: Vec<Value> = recs(&a, "start").filter(|r| r.task == t).map(|r| strip_engine(&r.v["snap"]["ctx"])).collect();
            states.extend(recs(&a, "probe").filter(|r| r.task == t).map(|r| strip_engine(&r.v["ctx"])));
            states.extend(recs(&a, "res").filter(|r| r.task == t).map(|r| strip_engine(&r.v["ctx"])));
            let end = recs(&a, "res").find(|r| r.task == t).map(|r| strip_engine(&r.v["ctx"]));
            for r in recs(o, "res").filter(|r| r.task == t) {
                let c = strip_engine(&r.v["ctx"]);
                if r.v["out"] == "cancelled" {
                    ex.st.outcome("cancelled");
                    if !states.contains(&c) { let d = states.last().and_then(|s| diff(s, &c, "")).unwrap_or_default(); return viol("C02/partial-step", format!("abandoned message holds part of a step: {d}")) }
                } else if r.v["round"] == 1 || r.v["round"] == 0 {
                    ex.st.outcome("retried");
                    // a step that could not run before a retry may run after it: only compare when the first pass completes everything
                    if let Some(e) = &end && e != &c && !has_err(&a, t) { return viol("C02/retry-differs", format!("after abandonment and retry: {}", diff(e, &c, "").unwrap_or_default())) }
                }
            }
        }
    }
    None
}
fn has_err(o: &[EpochOut], t: usize) -> bool { recs(o, "res").any(|r| r.task == t && (r.v["errors"].as_array().is_some_and(|e| !e.is_empty()) || r.v["out"] != "ok")) }

/// What a payload means to the receiver `f`, by the independent decoder.
fn truth(f: &str, t: &str) -> Result<Value, String> {
    match f {
        "from_json" => norm_json(&model::json_once(t)?, false),
        "from_xml" => model::decode_envelope(t, false),
        // reads the document and only the document, of whatever well-formed message
        "doc_json" => model::decode_document_in(t),
        _ => model::decode_envelope(t, false).or_else(|e| model::decode_document(t).map_err(|f| format!("{e} / {f}"))),
    }
}
fn doc_only(v: &Value) -> Value { json!({"Document": v["Document"]}) }
fn clip(s: &str) -> String { let n = s.chars().count(); if n > 300 { format!("{}…{}", s.chars().take(150).collect::<String>(), s.chars().skip(n - 150).collect::<String>()) } else { s.into() } }
fn c03(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    let judge = |f: &str, d: usize, got: Option<&Value>, err: &str, ex: &mut Ex| -> Option<Viol> {
        let t = &pl.bytes[d];
        let int = is_intact(&p.delivs[d]);
        match got {
            Some(v) => {
                ex.st.outcome("accepted");
                match truth(f, t) {
                    Err(e) => viol(format!("C03/accepted/{f}"), format!("{f} accepted bytes that are not one complete message ({e}): {}", clip(t))),
                    Ok(w) => {
                        if v.is_boolean() { return None }
                        let (a, b) = if v.get("AppHdr").is_none() { (doc_only(&w), doc_only(v)) } else { (model::content(&w), model::content(v)) };
                        if f != "doc_json" && w.get("AppHdr").is_some() != v.get("AppHdr").is_some() { return viol(format!("C03/header/{f}"), format!("{f}: header of the message dropped or made up: {}", clip(t))) }
                        // the accepted document may carry optional nulls; bring it to canonical form
                        let b = if b.get("AppHdr").is_some() { norm_json(&b, true) } else { model::norm_doc(&b["Document"], true).map(|d| json!({"Document": d})) };
                        match b { Err(e) => viol(format!("C03/garbled/{f}"), format!("{f} returned something that is no message: {e}")), Ok(b) => diff(&a, &b, "").and_then(|x| viol(format!("C03/garbled/{f}"), format!("{f} accepted other content than was sent: {x}"))) }
                    }
                }
            }
            None => {
                ex.st.outcome("refused");
                if int && applies(f, p.delivs[d].parts[0].form) { return viol(format!("C03/refused/{f}"), format!("{f} refused an undamaged message: {err} — {}", clip(t))) }
                None
            }
        }
    };
    for rec in recs(o, "res").chain(recs(o, "step")) {
        match op_of(p, rec) {
            Op::Api { f, d } => { let e = rec.v["err"].as_str().unwrap_or(""); if let Some(v) = judge(f, *d, rec.v.get("ok"), e, ex) { return Some(v) } }
            Op::Steps { payload, init, .. } if rec.ev == "step" => {
                let d = match (payload, init.first()) { (Src::Deliv(d), _) => *d, (_, Some((_, Src::Deliv(d) | Src::Field(d)))) => *d, _ => continue };
                if rec.v["step"].get("Parse").is_some() { let ok = rec.v["out"].get("ok"); let e = rec.v["out"]["err"].as_str().unwrap_or("").to_string(); let got = ok.map(|_| &rec.v["after"]["ctx"]["data"]["m"]); if let Some(v) = judge("parse_mx", d, got, &e, ex) { return Some(v) } }
            }
            _ => {}
        }
    }
    None
}
/// does entry point `f` take this form at all
fn applies(f: &str, form: u8) -> bool { match f { "from_xml" => form == 0, "from_json" => form == 2, "doc_json" | "envelope_str" | "parse_mx" => form < 2, _ => false } }

fn c04(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    let g = p.x["good"].as_u64()? as usize;
    let want = &pl.msgs[p.delivs[g].parts[0].msg];
    for rec in recs(o, "res").chain(recs(o, "step")) {
        let op = op_of(p, rec);
        match op {
            Op::Api { d, f } if *d >= g => {
                if rec.ev != "res" { continue }
                match rec.v.get("ok") { None => return viol("C04/not-recovered", format!("after the poisonous payloads {f} refused an intact message: {}", short(&rec.v))), Some(v) => if let Some(x) = diff(want, &model::content(v), "") { return viol("C04/not-recovered", format!("after the poisonous payloads {f} garbled an intact message: {x}")) } }
                ex.st.outcome("recovered");
            }
            Op::Steps { payload: Src::Deliv(d), .. } if *d == g => { if rec.ev == "step" && rec.v["out"].get("ok").is_none() { return viol("C04/not-recovered", format!("after the poisonous payloads step {} failed: {}", short(&rec.v["step"]), short(&rec.v["out"]))) } if rec.ev == "res" && rec.v["ctx"]["data"]["v"]["valid"] != true { return viol("C04/not-recovered", "intact message reported invalid") } }
            _ => ex.st.outcome(if rec.v.get("err").is_some() || rec.v["out"].get("err").is_some() { "refused" } else { "returned" }),
        }
    }
    for e in o { if e.peak > 2 << 30 { return viol("C04/memory", format!("library heap peaked at {} bytes", e.peak)) } }
    None
}
fn c05(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    if !ex.quiet { for m in &p.msgs { let mut cov = vec![false; schema().nfields]; let c = { let mut g = model::Gen::new(m.seed, m.g, Some(&mut cov)); g.message(m.doc); g.codes }; ex.st.codes += c; for (i, x) in cov.iter().enumerate() { if *x { ex.st.fields.insert(i); } } } }
    for rec in recs(o, "hop") {
        let Op::Relay { msg, .. } = op_of(p, rec) else { continue };
        let want = &pl.msgs[*msg]; let f = rec.v["f"].as_str().unwrap(); let r = &rec.v["r"];
        let short_doc = &schema().docs[p.msgs[*msg].doc].short;
        let Some(t) = r.get("ok").and_then(Value::as_str) else { return viol(format!("C05/refused/{f}"), format!("{short_doc}: hop {} ({f}) refused the message: {}", rec.v["i"], short(r))) };
        let xml = f.ends_with("xml") || f == "publish_mx";
        let got = if xml { model::decode_envelope(t, true) } else { serde_json::from_str::<Value>(t).map_err(|e| e.to_string()).and_then(|v| norm_json(&v, true)) };
        match got { Err(e) => return viol(format!("C05/broken/{f}"), format!("{short_doc}: hop {} ({f}) produced no well-formed message: {e}: {}", rec.v["i"], clip(t))), Ok(g) => if let Some(d) = diff(want, &g, "") { return viol(format!("C05/content/{f}"), format!("{short_doc}: hop {} ({f}): {d}", rec.v["i"])) } }
        ex.st.outcome("hop");
    }
    for (ti, t) in p.tasks.iter().enumerate() {
        for op in &t.ops { if let Op::Relay { hops, .. } = op {
            let done = recs(o, "hop").filter(|r| r.task == ti).filter_map(|r| r.v["i"].as_u64()).max();
            if done != Some(hops.len() as u64 - 2) { return viol("C05/not-delivered", format!("relay {ti} stopped at hop {done:?} of {}", hops.len() - 1)) } } }
    }
    for rec in recs(o, "res") {
        match op_of(p, rec) {
            Op::Flow { payload: Src::Deliv(d), .. } => {
                let want = &pl.msgs[p.delivs[*d].parts[0].msg];
                let data = &rec.v["ctx"]["data"];
                for k in ["m", "m2"] { if let Some(v) = data.get(k) { match norm_json(v, true) { Err(e) => return viol("C05/broken/flow", format!("stored message: {e}")), Ok(g) => if let Some(x) = diff(want, &g, "") { return viol("C05/content/flow", x) } } } }
                for k in ["x", "x2"] { if let Some(v) = data.get(k) { match model::decode_envelope(v.as_str().unwrap_or(""), true) { Err(e) => return viol("C05/broken/flow", format!("published message: {e}")), Ok(g) => if let Some(x) = diff(want, &g, "") { return viol("C05/content/flow", x) } } } }
                if data.get("m").is_none() || data.get("x").is_none() { return viol("C05/refused/flow", format!("intact message not forwarded: {}", short(&rec.v["errors"]))) }
            }
            Op::Api { f, d } => { let want = &pl.msgs[p.delivs[*d].parts[0].msg]; match rec.v.get("ok") { None => return viol(format!("C05/refused/{f}"), format!("{f}: {}", short(&rec.v))), Some(v) => match model::norm_doc(&v["Document"], true) { Err(e) => return viol(format!("C05/broken/{f}"), e), Ok(g) => if let Some(x) = diff(&want["Document"], &g, "") { return viol(format!("C05/content/{f}"), x) } } } }
            Op::Steps { payload: Src::Deliv(d), .. } => { let want = &pl.msgs[p.delivs[*d].parts[0].msg]; let v = &rec.v["ctx"]["data"]["m"]; if rec.v["out"].get("ok").is_none() { return viol("C05/refused/parse_mx", short(&rec.v["out"])) } match model::norm_doc(&v["Document"], true) { Err(e) => return viol("C05/broken/parse_mx", e), Ok(g) => if let Some(x) = diff(&want["Document"], &g, "") { return viol("C05/content/parse_mx", x) } } }
            _ => {}
        }
    }
    None
}
fn c06(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    let mut by: Vec<Option<(bool, String)>> = vec![None; p.delivs.len()];
    for rec in recs(o, "step") {
        let Op::Steps { payload, init, .. } = op_of(p, rec) else { continue };
        let d = match (payload, init.first()) { (Src::Deliv(d), _) => *d, (_, Some((_, Src::Deliv(d) | Src::Field(d)))) => *d, _ => continue };
        let (verdict, who) = if let Some(w) = rec.v["step"].get("Validate") {
            if let Some(e) = rec.v["out"].get("err") { return viol("C06/no-verdict", format!("validation gave no verdict: {e}: {}", clip(&pl.bytes[d]))) }
            let r = &rec.v["after"]["ctx"]["data"][w["dst"].as_str().unwrap()];
            let valid = r["valid"].as_bool(); let n = r["errors"].as_array().map(|a| a.len());
            let (Some(valid), Some(n)) = (valid, n) else { return viol("C06/result-shape", format!("validation result {}", short(r))) };
            if valid != (n == 0) { return viol("C06/errors-vs-valid", format!("valid={valid} with {n} errors: {}", short(r))) }
            (valid, "validate_mx")
        } else { (rec.v["out"].get("ok").is_some(), "parse_mx") };
        let form = format!("{who} via {}", if matches!(payload, Src::Deliv(_)) { "payload" } else if matches!(init[0].1, Src::Field(_)) { "mx_message" } else { "field" });
        ex.st.outcome(if verdict { "valid" } else { "invalid" });
        match &by[d] { None => by[d] = Some((verdict, form)), Some((v, w)) => if *v != verdict { return viol("C06/disagree", format!("{w} says {v}, {form} says {verdict}: {}", clip(&pl.bytes[d]))) } }
        if is_intact(&p.delivs[d]) && p.delivs[d].parts[0].form < 2 && !verdict { return viol("C06/intact-invalid", format!("undamaged message rejected by {who}: {} — {}", short(&rec.v["out"]), clip(&pl.bytes[d]))) }
    }
    for rec in recs(o, "res") {
        let Op::Api { f, d } = op_of(p, rec) else { continue };
        let env = model::has_envelope(&pl.bytes[*d]);
        let ok = rec.v.get("ok").is_some();
        let Some((v, w)) = &by[*d] else { continue };
        // the plain functions behind the steps
        if (f == "from_xml" && (env == Some(true) || env.is_none() && ok)) || (f == "doc_json" && env == Some(false)) || (f == "envelope_str") { if ok != *v { return viol("C06/function-disagrees", format!("{f} says {ok}, {w} says {v}: {}", clip(&pl.bytes[*d]))) } }
    }
    None
}
fn instant(t: &str) -> Result<i128, String> {
    // RFC 3339: yyyy-mm-ddThh:mm:ss[.fff]Z or offset
    let b = t.as_bytes();
    let num = |a: usize, n: usize| -> Result<i64, String> { t.get(a..a + n).filter(|s| s.bytes().all(|c| c.is_ascii_digit())).and_then(|s| s.parse().ok()).ok_or(format!("bad timestamp {t}")) };
    if b.len() < 20 || b[4] != b'-' || b[7] != b'-' || (b[10] != b'T' && b[10] != b't') || b[13] != b':' || b[16] != b':' { return Err(format!("bad timestamp {t}")) }
    let (y, mo, d, h, mi, se) = (num(0, 4)?, num(5, 2)?, num(8, 2)?, num(11, 2)?, num(14, 2)?, num(17, 2)?);
    let mut i = 19; let mut ns: i128 = 0;
    if b[i] == b'.' { i += 1; let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1 } if st == i { return Err(format!("bad fraction {t}")) } let f = &t[st..i.min(st + 9)]; ns = f.parse::<i128>().unwrap() * 10i128.pow(9 - f.len() as u32); }
    match &t[i..] { "Z" | "z" | "+00:00" | "-00:00" => {} o => return Err(format!("not UTC: {o}")) }
    if !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || se > 60 { return Err(format!("out of range {t}")) }
    let (yy, mm) = if mo <= 2 { (y - 1, mo + 9) } else { (y, mo - 3) };
    let era = yy.div_euclid(400); let yoe = yy - era * 400; let doy = (153 * mm + 2) / 5 + d - 1; let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    Ok((days as i128 * 86400 + (h * 3600 + mi * 60 + se) as i128) * 1_000_000_000 + ns)
}
fn c07(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let e = last(o);
    for rec in recs(o, "step") {
        let Some(w) = rec.v["step"].get("Validate") else { continue };
        if rec.v["out"].get("ok").is_none() { continue }
        let dst = w["dst"].as_str().unwrap();
        let (a, b) = (rec.v["reads"][0].as_u64()? as usize, rec.v["reads"][1].as_u64()? as usize);
        let window: Vec<i64> = e.reads[a..b].iter().map(|x| x.1).collect();
        let ctx = &rec.v["after"]["ctx"];
        for (what, v) in [("result", &ctx["data"][dst]["timestamp"]), ("metadata", &ctx["metadata"]["validation"]["timestamp"])] {
            let Some(t) = v.as_str() else { return viol("C07/missing", format!("validation {what} has no timestamp")) };
            match instant(t) {
                Err(x) => return viol("C07/format", format!("validation {what}: {x}")),
                Ok(i) => {
                    ex.st.outcome("stamped");
                    // one of the clock readings of this step, up to a millisecond of truncation
                    if !window.iter().any(|r| { let d = *r as i128 - i; (0..1_000_000).contains(&d) }) { return viol("C07/instant", format!("validation {what} stamped {t}, but the clock said {:?} ns during the step", window.iter().take(6).collect::<Vec<_>>())) }
                }
            }
        }
    }
    // the same run under another clock and time zone
    let mut q = p.clone(); q.clock.wall_ns = 1_234_567_890_123_456_789; q.clock.tz = if p.clock.tz == "UTC" { "Asia/Tokyo".into() } else { "UTC".into() };
    for t in &mut q.tasks { for op in &mut t.ops { if let Op::Clock { jump_ns } = op { *jump_ns = jump_ns.wrapping_div(-3) } } }
    let b = ex.run(&q);
    if last(&b).end == "done" {
        for t in 0..p.tasks.len() {
            let x: Vec<Value> = recs(o, "res").filter(|r| r.task == t).map(|r| masked(&r.v)).collect();
            let y: Vec<Value> = recs(&b, "res").filter(|r| r.task == t).map(|r| masked(&r.v)).collect();
            if x != y { return viol("C07/depends-on-clock", format!("result depends on the clock: {}", diff(&Value::Array(x), &Value::Array(y), "").unwrap_or_default())) }
        }
    }
    None
}
fn c08(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    if p.kind == "repeat" {
        let mut q = p.clone();
        q.tasks[0].ops = p.tasks[0].ops.iter().map(|x| match x { Op::Flow { payload, .. } => Op::Fake { payload: payload.clone() }, x => x.clone() }).collect();
        let b = ex.run(&q);
        for (k, (x, y)) in recs(o, "res").zip(recs(&b, "fake")).enumerate() {
            ex.st.outcome("repeated");
            if x.v["out"] == "ok" && y.v.get("ok").is_none() || x.v["out"] != "ok" && y.v.get("ok").is_some() { return viol("C08/repeat", format!("generation {k}: {}, the generator says {}", short(&x.v["out"]), short(&y.v))) }
            if let Some(g) = y.v.get("ok") && let Some(d) = diff(g, &x.v["ctx"]["data"]["g"], "") { return viol("C08/repeat", format!("generation {k} of this process differs from what the scenario, these random numbers and this clock determine: {d}")) }
        }
        return None
    }
    for rec in recs(o, "res") {
        let Op::Flow { payload: Src::Scenario(i), .. } = op_of(p, rec) else { continue };
        let Some((name, sc)) = world::scenarios().get(*i) else { continue };
        let v = &rec.v;
        let what = format!("{name} (entropy mode {}, seed {})", p.entropy.mode, p.entropy.seed);
        let data = &v["ctx"]["data"];
        if v["out"] != "ok" || v["errors"].as_array().is_some_and(|e| !e.is_empty()) { return viol(format!("C08/failed/{name}"), format!("{what}: {} {}", short(&v["out"]), clip(&v["errors"].to_string()))) }
        if v["payload"] != *sc { return viol("C08/payload", format!("{what}: scenario payload changed: {}", diff(sc, &v["payload"], "").unwrap_or_default())) }
        if data["v"]["valid"] != true { return viol(format!("C08/invalid/{name}"), format!("{what}: {}", short(&data["v"]))) }
        let g = match norm_json(&data["g"], false) { Ok(g) => g, Err(e) => return viol(format!("C08/generated/{name}"), format!("{what}: generated data is no message: {e}")) };
        if let Some(d) = diff(&model::content(&data["g"]), &g, "") { return viol(format!("C08/unknown-content/{name}"), format!("{what}: the generated message carries content that is lost when published: {d}")) }
        match model::decode_envelope(data["x"].as_str().unwrap_or(""), true) { Err(e) => return viol("C08/published", format!("{what}: {e}")), Ok(x) => if let Some(d) = diff(&g, &x, "") { return viol("C08/published", format!("{what}: published: {d}")) } }
        match norm_json(&data["m"], true) { Err(e) => return viol("C08/parsed", format!("{what}: {e}")), Ok(m) => if let Some(d) = diff(&g, &m, "") { return viol("C08/parsed", format!("{what}: parsed back: {d}")) } }
        ex.st.outcome("generated");
    }
    // determined by scenario, random numbers and clock: again, and alone after unrelated work in another process
    if p.idx % 4 == 0 { let b = ex.run(p); for (x, y) in recs(o, "res").zip(recs(&b, "res")) { if x.v != y.v { return viol("C08/not-determined", format!("same scenario, random numbers and clock, other result: {}", diff(&x.v, &y.v, "").unwrap_or_default())) } } }
    if p.flows.len() > 1 {
        // results of the other steps do not depend on randomness
        let mut q = p.clone(); q.entropy.seed ^= 0x5555; q.entropy.mode = if p.entropy.mode == 1 { 3 } else { 1 };
        let n = q.tasks.len() - 1; for t in 0..n { q.tasks[t].ops.clear() }
        q.threads = 1; q.sched = vec![SchedPlan { seed: 1, gap: 0, decisions: Some(vec![]) }];
        let b = ex.run(&q);
        let x: Vec<Value> = recs(o, "res").filter(|r| r.task == n).map(|r| masked(&r.v)).collect();
        let y: Vec<Value> = recs(&b, "res").filter(|r| r.task == n).map(|r| masked(&r.v)).collect();
        if last(&b).end == "done" && x != y { return viol("C08/depends-on-randomness", format!("{}", diff(&Value::Array(x), &Value::Array(y), "").unwrap_or_default())) }
    }
    None
}
fn c09(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    for (ti, t) in p.tasks.iter().enumerate() {
        if !matches!(t.ops.first(), Some(Op::Flow { .. })) { continue }
        let Some(init) = recs(o, "start").find(|r| r.task == ti && r.v["resumed"] == false).map(|r| r.v["snap"]["ctx"]["data"].clone()) else { continue };
        for rec in recs(o, "res").filter(|r| r.task == ti) {
            let mut d = init.clone();
            for a in rec.v["audit"].as_array().unwrap() {
                for c in a["changes"].as_array().unwrap() {
                    let Some(k) = c["path"].as_str().and_then(|x| x.strip_prefix("data.")) else { return viol("C09/path", format!("audit entry with path {}", c["path"])) };
                    let cur = d.get(k).cloned().unwrap_or(Value::Null);
                    ex.st.outcome("change");
                    if c["old_value"] != cur { return viol("C09/old-value", format!("task {} records previous value {} of {k}, it was {}", a["task_id"], short(&c["old_value"]), short(&cur))) }
                    d[k] = c["new_value"].clone();
                }
            }
            let real = &rec.v["ctx"]["data"];
            if d != *real { return viol("C09/replay", format!("replaying the audit trail: {}", diff(real, &d, "data").unwrap_or("differs".into()))) }
        }
    }
    // direct composition: the returned changes
    for rec in recs(o, "step") {
        let Some(ch) = rec.v["out"]["changes"].as_array() else { continue };
        let mut d = rec.v["before"]["ctx"]["data"].clone();
        for c in ch { let Some(k) = c["path"].as_str().and_then(|x| x.strip_prefix("data.")) else { return viol("C09/path", format!("change with path {}", c["path"])) }; let cur = d.get(k).cloned().unwrap_or(Value::Null); if c["old_value"] != cur { return viol("C09/old-value", format!("{} records previous value {}, it was {}", short(&rec.v["step"]), short(&c["old_value"]), short(&cur))) } d[k] = c["new_value"].clone() }
        if d != rec.v["after"]["ctx"]["data"] { return viol("C09/replay", format!("{}: returned changes do not account for {}", short(&rec.v["step"]), diff(&rec.v["after"]["ctx"]["data"], &d, "data").unwrap_or_default())) }
    }
    None
}
fn c10(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let mut q = solo(p); for t in &mut q.tasks { for op in &mut t.ops { if let Op::Flow { again, .. } = op { *again = 0 } } }
    let b = ex.run(&q);
    if last(&b).end != "done" { return None }
    for ti in 0..p.tasks.len() {
        let Some(want) = recs(&b, "res").find(|r| r.task == ti).map(|r| strip_times(&r.v["ctx"])) else { continue };
        let fin: Vec<&Rec> = recs(o, "res").filter(|r| r.task == ti).collect();
        if !last(o).log.iter().any(|r| r.task == ti && r.ev == "res") { return viol("C10/not-finished", format!("message {ti} was never completed after {} crashes", o.len() - 1)) }
        for r in fin { let got = strip_times(&r.v["ctx"]); ex.st.outcome(if o.len() > 1 { "resumed" } else { "uninterrupted" }); if got != want { return viol(if r.v["round"] == 1 { "C10/not-idempotent" } else { "C10/resume-differs" }, format!("message {ti} after {} crashes: {}", o.len() - 1, diff(&want, &got, "").unwrap_or_default())) } }
    }
    None
}
fn strip_times(c: &Value) -> Value { masked(c) }
fn c11(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p); let sc = schema();
    let norm = |t: &str| { let v: Vec<&str> = t.trim().split('.').collect(); if v.len() >= 2 { format!("{}.{}", v[0], v[1]) } else { t.trim().to_string() } };
    let short_of = |doc: &Value| doc.as_object().and_then(|m| m.keys().next()).and_then(|k| sc.by_elem.get(k)).map(|i| sc.docs[*i].short.clone());
    for d in 0..p.delivs.len() {
        let api = |f: &str| -> Vec<&Value> { recs(o, "res").filter(|r| matches!(op_of(p, r), Op::Api { f: g, d: e } if g == f && *e == d)).map(|r| &r.v).collect() };
        for f in ["from_xml", "peek_xml"] { let v = api(f); if v.len() > 1 && v.iter().any(|x| *x != v[0]) { return viol("C11/peek-changes-result", format!("{f} gave different results for the same payload")) } }
        for (f, peek) in [("from_xml", "peek_xml"), ("from_json", "peek_json")] {
            let Some(m) = api(f).first().and_then(|v| v.get("ok")).cloned() else { continue };
            ex.st.outcome("accepted");
            let hdr = norm(m["AppHdr"]["MsgDefIdr"].as_str().unwrap_or("")); let doc = short_of(&m["Document"]).unwrap_or_default();
            let Some(pk) = api(peek).first().cloned() else { continue };
            match pk.get("ok").and_then(Value::as_str) {
                None => return viol(format!("C11/{peek}-fails"), format!("parsed as {doc}, but peeking says {}: {}", short(pk), clip(&pl.bytes[d]))),
                Some(t) => { if norm(t) != hdr { return viol(format!("C11/{peek}-header"), format!("peeked {t}, header says {hdr}: {}", clip(&pl.bytes[d]))) } if t != norm(t) && sc.docs.iter().any(|d| d.full == m["AppHdr"]["MsgDefIdr"].as_str().unwrap_or("")) { return viol(format!("C11/{peek}-form"), format!("peeked type {t} is not in short form")) } if hdr != doc { ex.st.outcome("header_names_other_document") } }
            }
            if is_intact(&p.delivs[d]) && hdr != doc { return viol("C11/document", format!("header {hdr}, document {doc}")) }
            // type detection without parsing
            if f == "from_xml" && world::INTERNALS && let Some(t) = api("type_xml").first() && let Some(t) = t.get("ok").and_then(Value::as_str) && t != doc { return viol("C11/type_xml", format!("detected {t}, document {doc}: {}", clip(&pl.bytes[d]))) }
            if f == "from_json" && world::INTERNALS && let Some(t) = api("type_json").first() && t.get("ok").and_then(Value::as_str) != Some(&doc) && !pl.bytes[d].contains("\"message_type\"") { return viol("C11/type_json", format!("detected {}, document {doc}", short(t))) }
        }
        for rec in recs(o, "step").filter(|r| matches!(op_of(p, r), Op::Steps { payload: Src::Deliv(e), .. } if *e == d)) {
            if rec.v["out"].get("ok").is_none() { continue }
            let dst = rec.v["step"]["Parse"]["dst"].as_str().unwrap_or("m");
            let ctx = &rec.v["after"]["ctx"];
            let Some(doc) = short_of(&ctx["data"][dst]["Document"]) else { return viol("C11/unknown-document", format!("parsed data has no known document: {}", short(&ctx["data"][dst]))) };
            let mt = ctx["metadata"][dst]["message_type"].as_str();
            if mt != Some(&doc) { return viol("C11/metadata", format!("metadata says {mt:?}, document is {doc}")) }
            if let Ok(t) = truth("parse_mx", &pl.bytes[d]) && short_of(&t["Document"]).as_deref() != Some(&doc) { return viol("C11/parsed-other", format!("parsed as {doc}, bytes carry {:?}", short_of(&t["Document"]))) }
        }
        // an undamaged message can always be routed
        if is_intact(&p.delivs[d]) {
            let q = &p.delivs[d].parts[0]; let want = &sc.docs[p.msgs[q.msg].doc].short;
            let must: &[&str] = match q.form { 0 => &["peek_xml", "type_xml"], 1 => &["type_xml"], _ => &["peek_json", "type_json"] };
            for f in must { if !world::INTERNALS && f.starts_with("type") { continue } for v in api(f) { let got = v.get("ok").and_then(Value::as_str); let hdr = pl.msgs[q.msg]["AppHdr"]["MsgDefIdr"].as_str().unwrap_or("");
                // a version nobody registered may be reported as it stands
                if got != Some(want) && !(f.starts_with("peek") && hdr != sc.docs[p.msgs[q.msg].doc].full && got == Some(hdr)) { return viol(format!("C11/route-{f}"), format!("{f} says {} for an undamaged {want}: {}", short(v), clip(&pl.bytes[d]))) } } }
        }
    }
    None
}
fn c12(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    for rec in recs(o, "step") {
        let v = &rec.v; let st = &v["step"];
        if v["cached"] != true { return viol("C12/stale-context", format!("after {} the shared context snapshot does not show the message", short(st))) }
        let Some(ch) = v["out"]["changes"].as_array() else { continue };
        ex.st.outcome("step");
        let (name, dst) = st.as_object().unwrap().iter().next().map(|(k, x)| (k.clone(), x["dst"].as_str().unwrap_or("").to_string())).unwrap();
        let mut want = v["before"]["ctx"].clone();
        let Some(c) = ch.iter().find(|c| c["path"] == format!("data.{dst}")) else { return viol("C12/no-change", format!("{} reports no change of its target", short(st))) };
        want["data"][dst.as_str()] = c["new_value"].clone();
        let after = &v["after"]["ctx"];
        match name.as_str() {
            "Parse" => { want["metadata"][dst.as_str()] = after["metadata"][dst.as_str()].clone(); if after["metadata"][dst.as_str()]["format"] != "json" || !after["metadata"][dst.as_str()]["message_type"].is_string() { return viol("C12/metadata", format!("parse left metadata {}", short(&after["metadata"][dst.as_str()]))) } }
            "Validate" => { want["metadata"]["validation"] = after["metadata"]["validation"].clone(); if after["metadata"]["validation"]["validated"] != true { return viol("C12/metadata", format!("validate left metadata {}", short(&after["metadata"]["validation"]))) } }
            _ => {}
        }
        if want != *after { return viol("C12/effect", format!("{}: {}", short(st), diff(&want, after, "").unwrap_or_default())) }
    }
    if p.kind == "engine" {
        for rec in recs(o, "probe") {
            let d = &rec.v["ctx"]["data"]; let m = &rec.v["ctx"]["metadata"];
            if rec.v["cached"] != true { return viol("C12/stale-context", "stale snapshot inside workflow") }
            ex.st.outcome("workflow");
            let eq = |a: &Value, b: &Value, w: &str| -> Option<Viol> { if a == b || (a.is_null() && b.is_null()) { None } else { viol("C12/stale-read", format!("{w}: mapping read {}, message holds {}", short(a), short(b))) } };
            let first_valid = &d["k0"];
            if let Some(x) = eq(&d["k1"], &m["m"]["message_type"], "message type") { return Some(x) }
            if let Some(x) = eq(&d["k3"], &d["v"]["valid"], "verdict") { return Some(x) }
            if let Some(x) = eq(&d["k2"], &d["x"], "published message") { return Some(x) }
            if let Some(x) = eq(&d["k5"], &d["m"], "parsed message") { return Some(x) }
            if d["k4"] != true { return viol("C12/stale-read", "validation metadata not visible") }
            if first_valid == true && d["m"].get("AppHdr").is_some() && d.get("x").is_none() { return viol("C12/condition", "a valid message was not parsed and forwarded") }
            if first_valid == true && d.get("m").is_none() { return viol("C12/condition", "condition on the verdict did not see it") }
            if first_valid == false && d.get("m").is_some() { return viol("C12/condition", "an invalid message was parsed") }
        }
    }
    None
}
/// Reported findings against the rules, for content that is known or (a message altered on the way) what was read.
fn judge(prop: &str, r: &Value, want: Option<&Value>, read: &dyn Fn(&Value) -> Result<Value, String>, at: String, ex: &mut Ex) -> Option<Viol> {
    let Some(v) = r.get("ok") else { ex.st.outcome("refused"); return if want.is_some() { viol(format!("{prop}/refused"), format!("{at}: message refused: {}", short(r))) } else { None } };
    let list = |k: &str| -> Vec<model::Finding> { let mut l: Vec<model::Finding> = v[k]["e"].as_array().unwrap().iter().map(|e| (e[0].as_u64().unwrap_or(0), e[1].as_str().unwrap_or("(none)").to_string(), e[2].as_str().unwrap_or("(none)").to_string())).collect(); l.sort(); l };
    for k in ["default", "fast", "lenient", "again"] { let n = v[k]["e"].as_array().unwrap().len(); if v[k]["n"].as_u64() != Some(n as u64) || v[k]["has"] != (n > 0) { return viol(format!("{prop}/count"), format!("{at}: collector says {} findings, holds {n}", v[k]["n"])) } }
    let content = match want { Some(w) => w.clone(), None => match read(&v["m"]) { Ok(m) => m, Err(e) => return viol(format!("{prop}/content"), format!("{at}: {e}")) } };
    let (all, req) = model::findings(&content);
    let got = list("default");
    ex.st.outcome(if all.is_empty() { "no_finding" } else { "findings" });
    let minus = |a: &[model::Finding], b: &[model::Finding]| -> Vec<model::Finding> { let mut b = b.to_vec(); a.iter().filter(|x| match b.iter().position(|y| y == *x) { Some(i) => { b.remove(i); false } None => true }).cloned().collect() };
    if let Some(m) = minus(&all, &got).first() { return viol(format!("{prop}/missed"), format!("{at}: {:?} not reported", m)) }
    if let Some(m) = minus(&got, &all).first() { return viol(format!("{prop}/false-finding"), format!("{at}: {:?} reported, but the field keeps its rules", m)) }
    if list("again") != got { return viol(format!("{prop}/unstable"), format!("{at}: validated again: {:?} instead of {:?}", list("again"), got)) }
    let fast = list("fast");
    if fast.len() != got.len().min(1) || !minus(&fast, &got).is_empty() { return viol(format!("{prop}/fail-fast"), format!("{at}: fail-fast reported {} findings ({:?}) of {}", fast.len(), fast.iter().take(3).collect::<Vec<_>>(), got.len())) }
    let len = list("lenient");
    if let Some(m) = minus(&len, &got).first() { return viol(format!("{prop}/lenient"), format!("{at}: lenient validation alone reports {m:?}")) }
    if let Some(m) = minus(&req, &len).first() { return viol(format!("{prop}/lenient"), format!("{at}: lenient validation misses {m:?}, which is not below an optional field")) }
    None
}
fn c14(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    for rec in recs(o, "fnd") {
        let Op::Relay { msg, .. } = op_of(p, rec) else { continue };
        if let Some(v) = judge("C14", &rec.v["r"], Some(&pl.msgs[*msg]), &|m| norm_json(m, true), format!("{} at node {}", schema().docs[p.msgs[*msg].doc].short, rec.v["i"]), ex) { return Some(v) }
    }
    for rec in recs(o, "res") {
        let Op::Api { f, d } = op_of(p, rec) else { continue };
        if f != "findings" { continue }
        let q = &p.delivs[*d].parts[0];
        if p.kind == "sweep" && (2..5).contains(&p.msgs[q.msg].g.how) { ex.st.outcome(if model::findings(&pl.msgs[q.msg]).0.is_empty() { "aim_without_finding" } else { "aim_with_finding" }) }
        if let Some(v) = judge("C14", &rec.v, if is_intact(&p.delivs[*d]) { Some(&pl.msgs[q.msg]) } else { None }, &|m| norm_json(m, true), format!("delivery {d} ({})", schema().docs[p.msgs[q.msg].doc].short), ex) { return Some(v) }
    }
    if p.kind == "relay" { for (ti, t) in p.tasks.iter().enumerate() { for op in &t.ops { if let Op::Relay { hops, .. } = op {
        let done = recs(o, "fnd").filter(|r| r.task == ti).filter_map(|r| r.v["i"].as_u64()).max();
        if done != Some(hops.len() as u64 - 1) { return viol("C14/not-delivered", format!("relay {ti} stopped at node {done:?} of {}", hops.len())) } } } } }
    None
}
/// Only characters XML knows, in every text.
fn strings(v: &Value) -> bool { match v { Value::String(s) => s.chars().all(model::legal), Value::Array(a) => a.iter().all(strings), Value::Object(o) => o.values().all(strings), _ => true } }
fn c18(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    let pl = payloads(p);
    let mut seen: std::collections::HashMap<String, (String, String)> = Default::default();
    let mut sent = |f: String, t: &str, ex: &mut Ex| -> Option<Viol> {
        ex.st.outcome("sent");
        if let Err(e) = model::wire(t) { return viol(format!("C18/wire/{f}"), format!("{f} sent what is no proper message: {e}: {}", clip(t))) }
        let c = match model::decode_envelope(t, true) { Ok(c) => c.to_string(), Err(e) => return viol(format!("C18/wire/{f}"), format!("{f} sent what is no proper message: {e}: {}", clip(t))) };
        match seen.get(&c) {
            Some((g, u)) if u != t => { let k = t.bytes().zip(u.bytes()).take_while(|(a, b)| a == b).count(); let cut = |x: &str| x.chars().skip(x[..x.floor_char_boundary(k)].chars().count().saturating_sub(30)).take(80).collect::<String>(); viol(format!("C18/bytes/{f}"), format!("{f} and {g} sent the same content in different bytes: {:?} and {:?}", cut(t), cut(u))) }
            Some(_) => { ex.st.outcome("same-bytes"); None }
            None => { seen.insert(c, (f, t.to_string())); None }
        }
    };
    let deliv = |d: usize| -> Option<Value> { let t = pl.bytes.get(d)?; if t.trim_start().starts_with('{') { truth("from_json", t).ok() } else { truth("from_xml", t).ok() } };
    // what XML can hold is sent, whatever was refused before
    let due = |d: usize| p.delivs.get(d).is_some_and(|x| p.kind == "odd" || x.parts[0].faults.is_empty()) && deliv(d).is_some_and(|w| strings(&w));
    let same = |d: usize, t: &str| -> Option<Viol> { let w = deliv(d)?; let g = model::decode_envelope(t, true).ok()?; diff(&model::content(&w), &g, "").and_then(|x| viol("C18/content", format!("sent other content than was received: {x}"))) };
    for rec in recs(o, "hop") { let f = rec.v["f"].as_str().unwrap(); if (f.ends_with("xml") || f == "publish_mx") && let Some(t) = rec.v["r"]["ok"].as_str() && let Some(v) = sent(f.into(), t, ex) { return Some(v) } }
    for rec in recs(o, "res") {
        match op_of(p, rec) {
            Op::Api { f, d } => if let Some(t) = rec.v.get("ok").and_then(Value::as_str) { if let Some(v) = sent(f.clone(), t, ex).or_else(|| same(*d, t)) { return Some(v) } } else if due(*d) { return viol(format!("C18/refused/{f}"), format!("{f} refused delivery {d}, which XML can hold: {}", short(&rec.v))) },
            Op::Steps { payload, init, .. } => { let d = match (payload, init.get(1)) { (Src::Deliv(d), _) => *d, (_, Some((_, Src::Json(d)))) => d.as_u64().unwrap_or(u64::MAX) as usize, _ => continue }; for k in ["x", "x2"] { if let Some(t) = rec.v["ctx"]["data"].get(k).and_then(Value::as_str) && let Some(v) = sent("publish_mx".into(), t, ex).or_else(|| same(d, t)) { return Some(v) } }
                if rec.v["ctx"]["data"].get("x2").is_none() && due(d) { return viol("C18/refused/publish_mx", format!("publish_mx refused delivery {d}, which XML can hold: {}", short(&rec.v["steps"]))) } }
            Op::Flow { payload: Src::Deliv(d), .. } => for k in ["x", "x2"] { if let Some(t) = rec.v["ctx"]["data"].get(k).and_then(Value::as_str) && let Some(v) = sent("workflow".into(), t, ex).or_else(|| same(*d, t)) { return Some(v) } },
            _ => {}
        }
    }
    None
}
fn c19(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    if !world::LOOSE { if ex.trouble.is_none() { ex.trouble = Some("the stand-alone definitions could not be built in".into()) } return None }
    let pl = payloads(p);
    if !ex.quiet { for m in &p.msgs { let mut cov = vec![false; schema().nfields]; let c = { let mut g = model::Gen::new(m.seed, m.g, Some(&mut cov)); g.message(m.doc); g.codes }; ex.st.codes += c; for (i, x) in cov.iter().enumerate() { if *x { ex.st.fields.insert(i); } } } }
    let name = |m: usize| schema().docs[p.msgs[m].doc].elem.clone();
    let body = |m: usize| json!({"Document": pl.msgs[m]["Document"]});
    for rec in recs(o, "hop") {
        let Op::Relay { msg, .. } = op_of(p, rec) else { continue };
        let f = rec.v["f"].as_str().unwrap(); let r = &rec.v["r"];
        let Some(t) = r.get("ok").and_then(Value::as_str) else { return viol(format!("C19/refused/{f}"), format!("{}: hop {} ({f}) refused the message: {}", name(*msg), rec.v["i"], short(r))) };
        match model::decode_loose(t, p.msgs[*msg].doc, f.ends_with("xml")) { Err(e) => return viol(format!("C19/broken/{f}"), format!("{}: hop {} ({f}) produced no well-formed message: {e}: {}", name(*msg), rec.v["i"], clip(t))), Ok(g) => if let Some(d) = diff(&body(*msg), &g, "") { return viol(format!("C19/content/{f}"), format!("{}: hop {} ({f}): {d}", name(*msg), rec.v["i"])) } }
        ex.st.outcome("hop");
    }
    for rec in recs(o, "fnd") { let Op::Relay { msg, .. } = op_of(p, rec) else { continue }; if let Some(v) = judge("C19", &rec.v["r"], Some(&body(*msg)), &|_| Err("unread".into()), format!("{} at node {}", name(*msg), rec.v["i"]), ex) { return Some(v) } }
    for rec in recs(o, "res") {
        let Op::Api { f, d } = op_of(p, rec) else { continue };
        let q = &p.delivs[*d].parts[0];
        if f == "value" { match rec.v.get("ok") { None => return viol("C19/refused/value", format!("{}: {}", name(q.msg), short(&rec.v))), Some(v) => match model::norm_loose(v, p.msgs[q.msg].doc) { Err(e) => return viol("C19/broken/value", format!("{}: {e}", name(q.msg))), Ok(g) => if let Some(x) = diff(&body(q.msg), &g, "") { return viol("C19/content/value", format!("{}: {x}", name(q.msg))) } } } continue }
        if (2..5).contains(&p.msgs[q.msg].g.how) { ex.st.outcome(if model::findings(&pl.msgs[q.msg]).0.is_empty() { "aim_without_finding" } else { "aim_with_finding" }) }
        if let Some(v) = judge("C19", &rec.v, Some(&body(q.msg)), &|_| Err("unread".into()), format!("delivery {d} ({})", name(q.msg)), ex) { return Some(v) }
    }
    for (ti, t) in p.tasks.iter().enumerate() { for op in &t.ops { if let Op::Relay { hops, .. } = op {
        let done = recs(o, "fnd").filter(|r| r.task == ti).filter_map(|r| r.v["i"].as_u64()).max();
        if done != Some(hops.len() as u64 - 1) { return viol("C19/not-delivered", format!("relay {ti} stopped at node {done:?} of {}", hops.len())) } } } }
    None
}
fn c17(p: &Plan, ex: &mut Ex, o: &[EpochOut]) -> Option<Viol> {
    ex.st.outcome("weighed");
    let v = weigh(o)?;
    // a cache of bounded size fills up and stays: the same for eight times as long
    let mut q = p.clone();
    if let Some(Op::Churn { rounds, .. }) = q.tasks[0].ops.first_mut() { *rounds *= 8 }
    q.x["cpu"] = json!(200); q.max_steps *= 10;
    let b = ex.run(&q);
    ex.st.outcome("weighed_longer");
    match ended(&q, &b) { Some(e) => Some(e), None => weigh(&b).and(Some(v)) }
}
fn weigh(o: &[EpochOut]) -> Option<Viol> {
    let m = recs(o, "mem").next()?;
    let get = |k: &str| -> Vec<i64> { m.v[k].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let (live, points) = (get("live"), get("points"));
    let n = live.len(); let (a, w) = (n / 3, (n / 10).max(1));
    // the least held at the end against the most held after warming up
    let grown = live[n - w..].iter().min().unwrap() - live[a..a + w].iter().max().unwrap();
    if grown > 2048 { return viol("C17/residue", format!("after round {a} {} bytes were held, after round {n} {} bytes: about {} bytes per round stay behind", live[a], live[n - 1], (live[n - 1] - live[a]) / (n - a) as i64)) }
    let avg = |x: &[i64]| x.iter().sum::<i64>() / x.len() as i64;
    if avg(&points[n - w..]) > avg(&points[a..a + w]) * 3 / 2 + 2000 { return viol("C17/slower", format!("a round took {} steps around round {a}, {} steps at the end", avg(&points[a..a + w]), avg(&points[n - w..]))) }
    None
}

/// Is a listed finding still there?  Each by the specific input recorded with it.
pub fn probe_known(sig: &str, ex: &mut Ex) -> bool {
    // an intact payment return whose first amount is written as `amount`, through one library function
    let mut go = |f: &str, amount: &str| -> Value {
        let mut r = Rng::new(7);
        let doc = schema().docs.iter().position(|d| d.short == "camt.057").unwrap();
        let mut g = small(&mut r); g.target = usize::MAX; g.density = 0; g.text = 0; g.long = 0;
        let m = MsgSpec { doc, seed: 7, g };
        let x = world::encode_part(&world::gen_msg(&m), &part(0, 0, Layout::default()), 7);
        let Some(a) = x.find("Ccy=\"").and_then(|k| x[k..].find('>').map(|e| k + e + 1)) else { return json!(null) };
        let b = a + x[a..].find('<').unwrap_or(0);
        let mut p = blank("known", 0, 0, "known", &mut r);
        p.tasks.push(TaskPlan { ops: vec![Op::ApiLit { f: f.into(), s: format!("{}{amount}{}", &x[..a], &x[b..]) }] });
        ex.run(&p).iter().flat_map(|o| &o.log).find(|r| r.ev == "res").map_or(json!(null), |r| r.v.clone())
    };
    match sig {
        "C05/precision" => { let v = go("xml_xml", "1234567890123.45678"); v["ok"].as_str().is_some_and(|t| !t.contains("1234567890123.45678")) }
        "C03/nan" => { let v = go("from_xml", "NaN"); v.get("ok").is_some() }
        _ => false,
    }
}
