//! Reference model: schema snapshot, message generator, and an XML/JSON codec that shares no code with the library.
use crate::rng::Rng;
use serde_json::{Map, Value};
use std::collections::HashMap;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ty { Str, Bool, F64, Ref(usize) }
#[derive(Debug, Clone)]
pub struct Field { pub name: String, pub ty: Ty, pub opt: bool, pub vec: bool, pub id: usize }
#[derive(Debug, Clone)]
pub enum Def { Struct(Vec<Field>), Enum(Vec<String>) }
#[derive(Debug, Clone)]
pub struct Doc { pub elem: String, pub short: String, pub full: String, pub rust: String, pub root: usize, pub reach: Vec<usize> }
pub struct Schema { pub defs: Vec<Def>, pub names: Vec<String>, pub docs: Vec<Doc>, pub header: usize, pub nfields: usize, pub by_elem: HashMap<String, usize>,
    /// field id -> (owner type, field index)
    pub owner: Vec<(usize, usize)>,
    /// length and pattern rules and nested checks of each type
    pub rules: Vec<Vec<Rule>>, pub patterns: Vec<Re>,
    /// field id -> its own rules
    pub frules: Vec<Vec<Rule>> }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum RuleKind { Len(Option<usize>, Option<usize>), Pat(usize), Nested }
#[derive(Debug, Clone)]
pub struct Rule { pub fi: usize, pub kind: RuleKind }

// ---------------------------------------------------------------- patterns: a small matcher of its own
#[derive(Debug, Clone)]
pub enum Re { Set(bool, Vec<(char, char)>), Seq(Vec<Re>), Alt(Vec<Re>), Rep(Box<Re>, usize, usize) }
struct ReP<'a> { c: std::iter::Peekable<std::str::Chars<'a>> }
impl ReP<'_> {
    fn alt(&mut self) -> Re { let mut v = vec![self.seq()]; while self.c.peek() == Some(&'|') { self.c.next(); v.push(self.seq()) } if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) } }
    fn seq(&mut self) -> Re { let mut v = vec![]; while let Some(&c) = self.c.peek() { if c == '|' || c == ')' { break } v.push(self.rep()) } Re::Seq(v) }
    fn rep(&mut self) -> Re {
        let a = self.atom();
        match self.c.peek() {
            Some('*') => { self.c.next(); Re::Rep(Box::new(a), 0, usize::MAX) }
            Some('+') => { self.c.next(); Re::Rep(Box::new(a), 1, usize::MAX) }
            Some('?') => { self.c.next(); Re::Rep(Box::new(a), 0, 1) }
            Some('{') => { self.c.next(); let mut t = String::new(); for c in self.c.by_ref() { if c == '}' { break } t.push(c) } let (x, y) = t.split_once(',').unwrap_or((&t, &t)); Re::Rep(Box::new(a), x.parse().unwrap(), if y.is_empty() { usize::MAX } else { y.parse().unwrap() }) }
            _ => a,
        }
    }
    fn esc(c: char) -> Vec<(char, char)> { match c { 'd' => vec![('0', '9')], 'n' => vec![('\n', '\n')], 'r' => vec![('\r', '\r')], c => { assert!(!c.is_ascii_alphanumeric()); vec![(c, c)] } } }
    fn atom(&mut self) -> Re {
        match self.c.next().unwrap() {
            '(' => { let a = self.alt(); assert_eq!(self.c.next(), Some(')')); a }
            '.' => Re::Set(true, vec![('\n', '\n')]),
            '\\' => Re::Set(false, Self::esc(self.c.next().unwrap())),
            '[' => {
                let neg = self.c.peek() == Some(&'^') && { self.c.next(); true };
                let mut v: Vec<(char, char)> = vec![];
                loop {
                    match self.c.next().unwrap() {
                        ']' => break,
                        '\\' => v.extend(Self::esc(self.c.next().unwrap())),
                        '-' if !v.is_empty() && self.c.peek() != Some(&']') => { let hi = match self.c.next().unwrap() { '\\' => self.c.next().unwrap(), c => c }; let lo = v.pop().unwrap().0; v.push((lo, hi)) }
                        c => v.push((c, c)),
                    }
                }
                Re::Set(neg, v)
            }
            c => Re::Set(false, vec![(c, c)]),
        }
    }
}
impl Re {
    pub fn new(p: &str) -> Re { let mut x = ReP { c: p.chars().peekable() }; let r = x.alt(); assert!(x.c.next().is_none(), "pattern {p}"); r }
    fn step(&self, s: &[char], at: &std::collections::BTreeSet<usize>) -> std::collections::BTreeSet<usize> {
        match self {
            Re::Set(neg, v) => at.iter().filter(|i| s.get(**i).is_some_and(|c| v.iter().any(|(a, b)| a <= c && c <= b) != *neg)).map(|i| i + 1).collect(),
            Re::Seq(v) => { let mut x = at.clone(); for r in v { if x.is_empty() { break } x = r.step(s, &x) } x }
            Re::Alt(v) => v.iter().flat_map(|r| r.step(s, at)).collect(),
            Re::Rep(r, lo, hi) => {
                let mut out = std::collections::BTreeSet::new(); let mut x = at.clone(); let mut k = 0;
                if *lo == 0 { out.extend(x.iter().copied()) }
                while k < *hi && !x.is_empty() { let y = r.step(s, &x); k += 1; if k >= *lo { let n = out.len(); out.extend(y.iter().copied()); if out.len() == n && k > *lo { break } } x = y }
                out
            }
        }
    }
    /// the whole text, as the XML Schema facet means it
    pub fn matches(&self, t: &str) -> bool { let s: Vec<char> = t.chars().collect(); self.step(&s, &[0].into()).contains(&s.len()) }
    pub fn sample(&self, r: &mut Rng, out: &mut String, more: usize) {
        match self {
            Re::Set(false, v) => { let (a, b) = *r.pick(v); out.push(char::from_u32(r.range(a as i64, b as i64) as u32).unwrap_or(a)) }
            Re::Set(true, _) => out.push(*r.pick(&['a', 'Z', '0', 'T', ':', '-'])),
            Re::Seq(v) => for x in v { x.sample(r, out, more) },
            Re::Alt(v) => r.pick(v).sample(r, out, more),
            Re::Rep(x, lo, hi) => { let n = r.range(*lo as i64, (*hi).min(lo.saturating_add(more)) as i64); for _ in 0..n { x.sample(r, out, more) } }
        }
    }
}

static mut SCHEMA: Option<&'static Schema> = None;
pub fn schema() -> &'static Schema { unsafe { SCHEMA.expect("schema loaded") } }
static mut BOTH: [Option<&'static Schema>; 2] = [None, None];
/// C19 is about the definitions and headers that the envelope does not carry, everything else about those it does.
pub fn use_schema(prop: &str) { let loose = (prop == "C19") as usize; unsafe { if BOTH[loose].is_none() { BOTH[loose] = Some(if loose == 1 { load(include_str!("../loose/schema.json"), include_str!("../loose/rules.json")) } else { load(include_str!("../schema.json"), include_str!("../rules.json")) }) } SCHEMA = BOTH[loose] } }
pub fn is_loose() -> bool { unsafe { match (SCHEMA, BOTH[1]) { (Some(a), Some(b)) => std::ptr::eq(a, b), _ => false } } }
fn load(types: &str, field_rules: &str) -> &'static Schema {
    let v: Value = serde_json::from_str(types).unwrap();
    let types = v["types"].as_object().unwrap();
    let mut names: Vec<String> = types.keys().cloned().collect();
    names.sort();
    let idx: HashMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
    let mut defs = vec![]; let mut nfields = 0; let mut owner = vec![];
    for (ti, n) in names.iter().enumerate() {
        let t = &types[n];
        if t["k"] == "s" {
            let mut fs = vec![];
            for (fi, f) in t["f"].as_array().unwrap().iter().enumerate() {
                let ty = match f["t"].as_str().unwrap() { "String" => Ty::Str, "bool" => Ty::Bool, "f64" => Ty::F64, o => Ty::Ref(idx[o]) };
                fs.push(Field { name: f["n"].as_str().unwrap().into(), ty, opt: f["o"] == 1, vec: f["v"] == 1, id: nfields });
                owner.push((ti, fi));
                nfields += 1;
            }
            defs.push(Def::Struct(fs));
        } else {
            defs.push(Def::Enum(t["c"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect()));
        }
    }
    let header = idx[v["header"].as_str().unwrap()];
    let mut docs: Vec<Doc> = v["docs"].as_array().unwrap().iter().map(|d| Doc {
        elem: d["elem"].as_str().unwrap().into(), short: d["short"].as_str().unwrap().into(), full: d["full"].as_str().unwrap().into(),
        rust: d["rust"].as_str().unwrap().into(), root: idx[d["root"].as_str().unwrap()], reach: vec![] }).collect();
    let reach = |root: usize| {
        let mut seen = vec![false; defs.len()]; let mut st = vec![root]; let mut out = vec![];
        while let Some(t) = st.pop() {
            if seen[t] { continue; } seen[t] = true; out.push(t);
            if let Def::Struct(fs) = &defs[t] { for f in fs { if let Ty::Ref(r) = f.ty { st.push(r) } } }
        }
        out.sort(); out
    };
    for d in docs.iter_mut() { d.reach = reach(d.root); }
    let by_elem = docs.iter().enumerate().map(|(i, d)| (d.elem.clone(), i)).collect();
    let rv: Value = serde_json::from_str(field_rules).unwrap();
    let patterns: Vec<Re> = rv["patterns"].as_array().unwrap().iter().map(|p| Re::new(p.as_str().unwrap())).collect();
    let mut rules = vec![vec![]; defs.len()]; let mut frules = vec![vec![]; nfields];
    for (k, v) in rv["rules"].as_object().unwrap() {
        let t = idx[k]; let Def::Struct(fs) = &defs[t] else { unreachable!() };
        for x in v.as_array().unwrap() {
            let fi = fs.iter().position(|f| f.name == x["f"].as_str().unwrap()).unwrap();
            let kind = if let Some(p) = x["p"].as_u64() { RuleKind::Pat(p as usize) } else if x.get("min").is_some() { RuleKind::Len(x["min"].as_u64().map(|n| n as usize), x["max"].as_u64().map(|n| n as usize)) } else { RuleKind::Nested };
            let r = Rule { fi, kind };
            if kind != RuleKind::Nested { frules[fs[fi].id].push(r.clone()) }
            rules[t].push(r);
        }
    }
    let s = Schema { defs, names, docs, header, nfields, by_elem, owner, rules, patterns, frules };
    Box::leak(Box::new(s))
}

// ---------------------------------------------------------------- generation
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct GenCfg {
    /// chance (percent) of an optional field at depth 0; decays with depth
    pub density: u32,
    /// 0 plain ASCII identifiers, 1 XML-special characters, 2 Unicode, 3 adversarial-looking text
    pub text: u8,
    /// field id to force present (nfields = none)
    pub target: usize,
    /// longest repetition
    pub rep: u32,
    /// node budget
    pub budget: u32,
    /// how much longer than usual text may be (0 = no)
    #[serde(default)]
    pub long: u32,
    /// code to use for enumerated targets
    #[serde(default)]
    pub code: usize,
    /// how often to repeat the target, if it can be repeated (0 = as usual)
    #[serde(default)]
    pub many: u32,
    /// percent of the constrained texts that are drawn from their rules (conforming, at the limits, just beyond);
    /// from 101: most of them wrong; from 200: all of them right
    #[serde(default)]
    pub rules: u32,
    /// field id + 1 that lies on the way to a text with a rule (or is one): that text is written in a given relation to its rule
    #[serde(default)]
    pub via: usize,
    /// 1 at the upper limit, 2 above it, 3 below the lower limit, 4 not of its pattern, 5 many bytes but few enough characters, 6 at the limit with white space around it;
    /// 10 wrong in every one of `many` items, 11 wrong in the last one only
    #[serde(default)]
    pub how: u8,
}
pub struct Gen<'a> { pub rng: Rng, pub cfg: GenCfg, pub cov: Option<&'a mut Vec<bool>>, left: i64, path: Vec<usize> /* field ids still to force */, pub codes: u64, doc: usize, bulk: bool, aim: usize, bad: bool }

fn find_path(root: usize, target: usize) -> Option<Vec<usize>> {
    // breadth-first over types: list of field ids from the root to the target field
    let s = schema();
    let mut prev: HashMap<usize, (usize, usize)> = HashMap::new(); // type -> (parent type, field id)
    let mut q = std::collections::VecDeque::from([root]);
    let mut seen = std::collections::HashSet::from([root]);
    while let Some(t) = q.pop_front() {
        if let Def::Struct(fs) = &s.defs[t] {
            for f in fs {
                if f.id == target {
                    let mut p = vec![f.id]; let mut c = t;
                    while c != root { let (pt, fid) = prev[&c]; p.push(fid); c = pt; }
                    p.reverse();
                    return Some(p);
                }
                if let Ty::Ref(r) = f.ty { if seen.insert(r) { prev.insert(r, (t, f.id)); q.push_back(r); } }
            }
        }
    }
    None
}

/// A way from `root` through field `via` to a text with a rule.
fn aim(root: usize, via: usize) -> Option<Vec<usize>> {
    let s = schema();
    let mut p = find_path(root, via)?;
    let (t, i) = s.owner[via]; let Def::Struct(fs) = &s.defs[t] else { return None };
    if !s.frules[via].is_empty() { return Some(p) }
    let Ty::Ref(c) = fs[i].ty else { return None };
    // the nearest one below
    let mut q = std::collections::VecDeque::from([c]); let mut seen = std::collections::HashSet::from([c]);
    while let Some(t) = q.pop_front() { if let Def::Struct(fs) = &s.defs[t] { for f in fs {
        if !s.frules[f.id].is_empty() { p.extend(find_path(c, f.id)?); return Some(p) }
        if let Ty::Ref(r) = f.ty && seen.insert(r) { q.push_back(r) }
    } } }
    None
}
/// Every (field, relation to the rule) there is something to see in.
pub fn aims() -> Vec<(usize, u8)> {
    let s = schema(); let mut v = vec![];
    for id in 0..s.nfields {
        let (t, i) = s.owner[id];
        let mut how = vec![];
        for r in &s.frules[id] { match r.kind { RuleKind::Len(a, b) => { if b.is_some() { how.extend([1, 2, 5]) } if a.is_some_and(|a| a > 1) { how.push(3) } } RuleKind::Pat(_) => how.push(4), _ => {} } }
        if how.is_empty() && aim(t, id).is_some() && s.rules[t].iter().any(|r| r.fi == i && r.kind == RuleKind::Nested) { how.push(2) }
        for h in how { v.push((id, h)) }
        // lists: every item, and only a late one
        if let Def::Struct(f) = &s.defs[t] && f[i].vec && aim(t, id).is_some() && (!s.frules[id].is_empty() || s.rules[t].iter().any(|r| r.fi == i && r.kind == RuleKind::Nested)) { v.push((id, 10)); v.push((id, 11)) }
    }
    v
}

const SPECIALS: &[&str] = &["&", "<", ">", "\"", "'", "&amp;", "&lt;b&gt;", "]]>", "<!--", "-->", "%", "{}", "\\", "/", "\\t", "\\\\", "${x}", "a&b", "&#65;", "<b>", "</b>", "=\"", "?>"];
const UNI: &[&str] = &["é", "ß", "Ω", "日本", "😀", "\u{a0}", "ﬁ", "Ж", "n\u{303}", "한", "\u{2028}", "ÿ", "Ā", "\u{200b}", "𝔘"];
const ADV: &[&str] = &["</Document>", "<Document>", "<AppHdr>", "</AppHdr>", "<MsgDefIdr>pacs.009.001.08</MsgDefIdr>", "xmlns=\"x\"", "</Envelope>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<FIToFICstmrCdtTrf>", "null", "true", "NaN", "1e3", "\"AppHdr\":", "FIToFICustomerCreditTransferV08", "<ReceiptV08>", "</ReceiptV08>", "<BusinessApplicationHeaderV02>", "<FICdtTrf>", "<Rcpt>", "<Envelope>", "00012", "+1.50", "0x10", "\u{7f}"];

/// What such fields hold in practice, and what a reader may be tempted to tidy up.
const USUAL: &[&str] = &["", "", "0", "1", "007", "00012", "1.50", "100.00", "-0", "+7", "1e5", "0x1F", "true", "false", "null", "None", "NaN", "N/A", "-", ".", "{}", "[]", "\"x\"", "DEUTDEFF", "deutdeff500", "DE89370400440532013000", "DE89 3704 0044 0532 0130 00", "GB33BUKB20201555555555", "7a562c67-ca16-48ba-b074-65581be6f001", "7A562C67-CA16-48BA-B074-65581BE6F001", "549300EXAMPLE0LEI123", "eur", "US", "us", "a  b", "a\u{a0}b", "e\u{301}", "\u{e9}", "\u{fb01}n", "Stra\u{df}e", "\u{130}stanbul", "NOTPROVIDED", "SHAR", "+49-30-123456", "x@example.org", "http://a.b/c?d=e&f=g", "1,234.56", "1.234,56", "12/31/2024", "20241231", "Mon", "pacs.008.001.08", "pacs.008", "swift.cbprplus.02", "%41", "\\u0041", "&#65;", "a;b|c", "#", "//", "'", "\""];
/// From this length on, one text of the message is that long (and no other).
pub const BULK: u32 = 50_000;
impl<'a> Gen<'a> {
    pub fn new(seed: u64, cfg: GenCfg, cov: Option<&'a mut Vec<bool>>) -> Self {
        Gen { rng: Rng::derive(seed, 77), cfg, cov, left: cfg.budget as i64, path: vec![], codes: 0, doc: 0, bulk: cfg.long >= BULK, aim: usize::MAX, bad: false }
    }
    pub fn message(&mut self, doc: usize) -> Value {
        let s = schema();
        self.doc = doc;
        let d = &s.docs[doc];
        if self.cfg.target < s.nfields {
            self.path = find_path(s.header, self.cfg.target).unwrap_or_default();
            if !self.path.is_empty() && s.owner[self.path[0]].0 != s.header { self.path.clear(); }
        }
        let aimed = if self.cfg.via > 0 { aim(s.header, self.cfg.via - 1).map(|p| (true, p)).or_else(|| aim(d.root, self.cfg.via - 1).map(|p| (false, p))) } else { None };
        if let Some((h, p)) = &aimed { self.aim = *p.last().unwrap(); self.path = if *h { p.clone() } else { vec![] } }
        let mut hdr = self.strukt(s.header, 0);
        hdr["MsgDefIdr"] = Value::String(d.full.clone());
        // another version of the message definition, in the same document type
        if self.cfg.code % 11 == 3 { let (a, _) = d.full.rsplit_once('.').unwrap(); hdr["MsgDefIdr"] = Value::String(format!("{a}.{:02}", 1 + self.cfg.code % 13)) }
        if let Some(r) = hdr.get_mut("Rltd") && r.get("MsgDefIdr").is_some() && self.rng.chance(60) {
            // a related message of another type: must not confuse routing
            let o = self.rng.below(s.docs.len());
            r["MsgDefIdr"] = Value::String(s.docs[o].full.clone());
        }
        self.path.clear();
        if self.cfg.target < s.nfields { self.path = find_path(d.root, self.cfg.target).unwrap_or_default(); }
        if let Some((false, p)) = aimed { self.path = p }
        self.left = self.cfg.budget as i64;
        let body = self.strukt(d.root, 0);
        let mut dm = Map::new(); dm.insert(d.elem.clone(), body);
        let mut m = Map::new(); m.insert("AppHdr".into(), hdr); m.insert("Document".into(), Value::Object(dm));
        Value::Object(m)
    }
    fn strukt(&mut self, t: usize, depth: usize) -> Value {
        let s = schema();
        let Def::Struct(fs) = &s.defs[t] else { unreachable!() };
        let mut m = Map::new();
        let forced = self.path.first().copied();
        let choice = s.names[t].contains("Choice") && !fs.is_empty();
        let chosen = if choice { match forced.and_then(|fid| fs.iter().position(|f| f.id == fid)) { Some(i) => i, None => self.rng.below(fs.len()) } } else { 0 };
        for (fi, f) in fs.iter().enumerate() {
            self.left -= 1;
            let is_forced = forced == Some(f.id);
            let present = if is_forced { true }
                else if !f.opt { true }
                else if choice { fi == chosen || (self.rng.chance(3)) }
                else {
                    let p = (self.cfg.density as usize * 100 / (100 + 35 * depth)) as u32;
                    self.left > 0 && self.rng.chance(p)
                };
            if !present { continue; }
            if is_forced { self.path.remove(0); }
            let saved = if is_forced { None } else { Some(std::mem::take(&mut self.path)) };
            if let Some(c) = self.cov.as_mut() { c[f.id] = true; }
            let v = if f.vec {
                if is_forced && self.cfg.many > 0 && f.id == self.cfg.target { self.left = 0 }
                let n = if is_forced && self.cfg.many > 0 && f.id == self.cfg.target { self.cfg.many as usize } else { 1 + if self.left > 0 { self.rng.below(self.cfg.rep.max(1) as usize) } else { 0 } };
                let mut a = vec![];
                if is_forced && self.cfg.how >= 10 && f.id + 1 == self.cfg.via {
                    let way = self.path.clone(); let n = self.cfg.many.max(1) as usize;
                    for k in 0..n { self.path = way.clone(); self.left = 0; self.bad = self.cfg.how == 10 || k + 1 == n; let x = self.value(f, depth + 1); a.push(x) }
                } else { for k in 0..n { let x = if k > 0 && (self.rng.chance(15) || k > 40 && self.cfg.many > 0) { Value::clone(a.last().unwrap()) } else { self.value(f, depth + 1) }; a.push(x); } }
                Value::Array(a)
            } else { self.value(f, depth + 1) };
            if let Some(p) = saved { self.path = p; }
            m.insert(f.name.clone(), v);
        }
        Value::Object(m)
    }
    fn value(&mut self, f: &Field, depth: usize) -> Value {
        match f.ty {
            Ty::Str => Value::String(if f.id == self.aim { self.ruled(f.id) } else if f.name == "@Ccy" { if !is_loose() && self.rng.chance(1) { self.rng.pick(&["U\tD", "EU\nR", "\n"]).to_string() } else if self.rng.chance(4) { self.rng.pick(&["usd", "", "é", "<&>", "A\"B", "A'B", "XXX", "US", "EURO"]).to_string() } else { self.rng.pick(&["EUR", "USD", "JPY", "GBP", "CHF"]).to_string() } } else if self.cfg.rules > 0 && !schema().frules[f.id].is_empty() && self.rng.chance(self.cfg.rules) { self.ruled(f.id) } else { self.text(&f.name) }),
            Ty::Bool => Value::Bool(self.rng.chance(50)),
            Ty::F64 => self.num(),
            Ty::Ref(r) => match &schema().defs[r] {
                Def::Enum(c) => { let i = if f.id == self.cfg.target { self.cfg.code % c.len() } else { self.rng.below(c.len()) }; self.codes += 1; Value::String(c[i].clone()) }
                Def::Struct(_) => self.strukt(r, depth),
            },
        }
    }
    fn num(&mut self) -> Value {
        let digits = self.rng.range(1, 15) as u32;
        let frac = self.rng.below(6) as u32;
        let n = self.rng.u64() % 10u64.pow(digits);
        let x = match self.rng.below(13) { 12 => -(n as f64 / 10f64.powi(frac as i32)), 0 => 0.0, 1 => 1.0, 2 => 0.01, 3 => 999999999999.99, 4 => 0.00001, 5 => (n % 1000000) as f64, _ => n as f64 / 10f64.powi(frac as i32) };
        let x = if digits >= 15 && frac == 0 { (n as f64).trunc() } else { x };
        // at most 15 significant digits: what a binary double carries exactly
        let t = format!("{:.*e}", 14, x);
        let x: f64 = t.parse().unwrap();
        serde_json::json!(x)
    }
    fn ascii(&mut self, n: usize) -> String {
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789/-?:().,'+";
        (0..n).map(|_| A[self.rng.below(A.len())] as char).collect()
    }
    /// a text chosen with regard to the rules of its field
    fn ruled(&mut self, id: usize) -> String {
        let sc = schema(); let rs = &sc.frules[id];
        let mut lo = 1; let mut hi = 400; let mut pat = None;
        for r in rs { match r.kind { RuleKind::Len(a, b) => { lo = lo.max(a.unwrap_or(1)); hi = hi.min(b.unwrap_or(400)) } RuleKind::Pat(p) => pat = Some(&sc.patterns[p]), _ => {} } }
        let wrong = self.cfg.rules > 100 && self.cfg.rules < 200; let mut keep = self.cfg.rules >= 200; let mut how = if id == self.aim { self.cfg.how } else { 0 };
        if how >= 10 { if self.bad { how = *self.rng.pick(&[2, 4]); if how == 4 && pat.is_none() { how = 2 } } else { how = 0; keep = true } }
        let bounded = rs.iter().any(|r| matches!(r.kind, RuleKind::Len(..)));
        let how = if !bounded && how > 0 && how != 6 { 4 } else { how };
        let r = &mut self.rng;
        let mut fit = |r: &mut Rng, n: usize| -> String {
            let mut best = String::new();
            for k in 0..12 { let mut t = String::new(); match pat { Some(p) => p.sample(r, &mut t, if k % 2 == 0 { n } else { n / 2 + k }), None => for _ in 0..n { t.push(*r.pick(&['A', 'z', '0', '-', '.', 'Q'])) } }
                let c = t.chars().count();
                if k == 0 || c.abs_diff(n) < best.chars().count().abs_diff(n) { best = t }
                if best.chars().count() == n { break } }
            best
        };
        let n = *r.pick(&[lo, lo + (hi - lo) / 3, hi.min(lo + 12)]);
        let mut t = fit(r, n);
        if keep && how == 0 { for _ in 0..20 { let c = t.chars().count(); if c >= lo && c <= hi && pat.is_none_or(|p| p.matches(t.trim())) { break } t = fit(r, lo + (hi.min(lo + 30) - lo) / 2) } }
        match match how { 0 if keep => 0, 1 => 4, 2 | 3 if !bounded => 8, 2 => 5, 3 => 7, 4 => *r.pick(&[8, 9]), 5 => 6, 6 => 0, _ => if wrong { *r.pick(&[5, 8, 9]) } else { r.below(10) } } {
            0..=3 => {}
            // at and beyond the limits
            4 if bounded => t = fit(r, hi), 5 if bounded => { t = fit(r, hi); while t.chars().count() <= hi { t.push(*r.pick(&['A', '7'])) } }
            // as many characters as allowed, more bytes than that
            6 if bounded => t = "é".repeat(hi), 7 if bounded && lo > 1 => t = fit(r, lo - 1).chars().take(lo - 1).collect(),
            // one character wrong
            8 => for _ in 0..12 { let mut c: Vec<char> = t.chars().collect(); if !c.is_empty() { let i = r.below(c.len()); c[i] = *r.pick(&['é', '~', 'a', 'Z', '5', '/', '_', '日']) } t = c.into_iter().collect(); if how != 4 || pat.is_none_or(|p| !p.matches(t.trim())) { break } }
            // right in the middle, something around it
            _ => { let t0 = t.clone(); for _ in 0..12 { let x = *r.pick(&["é", "!", "x", "Q", "9", "|", "§"]); t = if r.chance(50) { format!("{x}{t0}") } else { format!("{t0}{x}") }; if how != 4 || pat.is_none_or(|p| !p.matches(t.trim())) { break } } }
        }
        // white space around it counts, as JSON keeps it
        if how == 6 {
            if bounded { let n = *r.pick(&[hi, hi, hi, hi.saturating_sub(1).max(1)]); t = fit(r, n) }
            return match r.below(4) { 0 => format!(" {t}"), 1 => format!("{t}  "), 2 => format!("{t}\n"), _ => format!("\t{t} ") }
        }
        let t = t.trim_matches(|c: char| c.is_whitespace());
        if t.is_empty() { "0".into() } else { t.chars().map(|c| if c.is_control() { '0' } else { c }).collect() }
    }
    /// a date or time in one of its many spellings
    fn stamp(&mut self) -> String {
        let r = &mut self.rng;
        let d = format!("{:04}-{:02}-{:02}", *r.pick(&[1999, 2000, 2024, 2026, 2099, 9999]), 1 + r.below(12), 1 + r.below(28));
        let t = format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60));
        let f = *r.pick(&["", "", ".0", ".5", ".120", ".123456", ".000000001"]);
        let z = *r.pick(&["", "Z", "+00:00", "-00:00", "+02:00", "-11:30", "+14:00"]);
        match r.below(6) { 0 => d, 1 => format!("{d}{z}"), 2 => format!("{t}{f}{z}"), _ => format!("{d}T{t}{f}{z}") }
    }
    pub fn text(&mut self, name: &str) -> String {
        if name == "CreDt" || name == "CreDtTm" {
            if self.rng.chance(30) { return self.stamp() }
            return format!("20{:02}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00", self.rng.below(100), 1 + self.rng.below(12), 1 + self.rng.below(28), self.rng.below(24), self.rng.below(60), self.rng.below(60));
        }
        if self.bulk && self.rng.chance(25) { self.bulk = false; let n = self.cfg.long as usize; let mut t = self.ascii(n); if self.cfg.text == 2 { t.push_str("é😀") } return t }
        let max = if self.cfg.long > 0 && self.cfg.long < BULK && self.rng.chance(10) { 35 + self.cfg.long as usize } else { 34 };
        let n = match self.rng.below(10) { 0 => 1, 1 => 2, 2 => max, _ => 1 + self.rng.below(20) };
        if (name.contains("Dt") || name.contains("Tm") || name.contains("Yr")) && self.rng.chance(50) { return self.stamp() }
        if self.cfg.text < 9 && self.rng.chance(12) { return self.rng.pick(USUAL).to_string() }
        let mut out = String::new();
        match self.cfg.text {
            0 => out = self.ascii(n),
            // as short, as long and as foreign as can be
            9 => { let r = &mut self.rng; let u = *r.pick(&["é", "日", "😀", "ß", "\u{a0}", "\u{2028}", "n\u{303}", "-", "0", "Z", "/", ":", "."]); return match r.below(10) { 0 => String::new(), 1 => " ".into(), 2 => u.into(), 3 => u.repeat(2 + r.below(3)), 4 => u.repeat(9 + r.below(140)), 5 => format!("{}{u}", "A".repeat(1 + r.below(45))), 6 => format!("{u}{}", "7".repeat(1 + r.below(45))), 7 => format!("{}{u}{}", "A".repeat(r.below(12)), "b".repeat(r.below(12))), 8 => "9".repeat(1 + r.below(400)), _ => { let mut t = self.stamp(); let k = self.rng.below(t.len()); t.insert_str(k, u); t } } }
            1 => { while out.chars().count() < n { if self.rng.chance(35) { let x = *self.rng.pick(SPECIALS); out.push_str(x) } else { let k = 1 + self.rng.below(3); let a = self.ascii(k); out.push_str(&a) } if self.rng.chance(10) { out.push(' ') } } }
            2 => { while out.chars().count() < n { if self.rng.chance(50) { let x = *self.rng.pick(UNI); out.push_str(x) } else { let k = 1 + self.rng.below(3); let a = self.ascii(k); out.push_str(&a) } } }
            _ => { while out.chars().count() < n { match self.rng.below(6) { 0 => { let x = *self.rng.pick(ADV); out.push_str(x) } 1 => { let x = *self.rng.pick(SPECIALS); out.push_str(x) } 2 => { let x = *self.rng.pick(UNI); out.push_str(x) } 3 => out.push_str("  "), 4 => { let x = *self.rng.pick(&["\n", "\t", "\r\n", " "]); out.push_str(x) } _ => { let a = self.ascii(2); out.push_str(&a) } } } }
        }
        let t = out.trim_matches(|c: char| c.is_whitespace());
        if t.is_empty() { "x".into() } else { t.to_string() }
    }
}

// ---------------------------------------------------------------- field-level findings
pub type Finding = (u64, String, String);
/// What breaks its rule in `v` (of type `t`): all findings, and those not below an optional field.
fn find(t: usize, v: &Value, path: &str, must: bool, all: &mut Vec<Finding>, req: &mut Vec<Finding>) {
    let s = schema(); let Def::Struct(fs) = &s.defs[t] else { return };
    for r in &s.rules[t] {
        let f = &fs[r.fi];
        let items: Vec<&Value> = match v.get(&f.name) { None | Some(Value::Null) => continue, Some(Value::Array(a)) => a.iter().collect(), Some(x) => vec![x] };
        let p = if path.is_empty() { f.name.clone() } else { format!("{path}.{}", f.name) };
        let must = must && !f.opt;
        for x in items {
            let mut hit = |code: u64| { let e = (code, f.name.clone(), p.clone()); if must { req.push(e.clone()) } all.push(e) };
            match (r.kind, f.ty) {
                (RuleKind::Nested, Ty::Ref(c)) => find(c, x, &p, must, all, req),
                (RuleKind::Len(a, b), _) => { let n = x.as_str().unwrap_or("").chars().count(); if a.is_some_and(|a| n < a) { hit(1001) } if b.is_some_and(|b| n > b) { hit(1002) } }
                (RuleKind::Pat(i), _) => if !s.patterns[i].matches(x.as_str().unwrap_or("").trim()) { hit(1005) },
                _ => {}
            }
        }
    }
}
/// Reference findings of a message: (all, those not below an optional field), sorted.
pub fn findings(m: &Value) -> (Vec<Finding>, Vec<Finding>) {
    let s = schema(); let (mut a, mut q) = (vec![], vec![]);
    find(s.header, &m["AppHdr"], "AppHdr", true, &mut a, &mut q);
    if let Some((k, d)) = m["Document"].as_object().and_then(|o| o.iter().next()) && let Some(i) = s.by_elem.get(k) { find(s.docs[*i].root, d, "", true, &mut a, &mut q) }
    a.sort(); q.sort(); (a, q)
}

// ---------------------------------------------------------------- comparison
pub fn trim_text(s: &str) -> &str { s.trim_matches(|c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r') }
/// first difference between two canonical values; numbers by value, text without outer white space
pub fn diff(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x { match y.get(k) { None => return Some(format!("{path}/{k} missing (was {})", short(v))), Some(w) => if let Some(d) = diff(v, w, &format!("{path}/{k}")) { return Some(d) } } }
            for (k, v) in y { if !x.contains_key(k) { return Some(format!("{path}/{k} added ({})", short(v))) } }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() { return Some(format!("{path}: {} items became {}", x.len(), y.len())) }
            for (i, (v, w)) in x.iter().zip(y).enumerate() { if let Some(d) = diff(v, w, &format!("{path}[{i}]")) { return Some(d) } }
            None
        }
        (Value::Number(x), Value::Number(y)) => if x.as_f64() == y.as_f64() { None } else { Some(format!("{path}: {x} became {y}")) },
        (Value::String(x), Value::String(y)) => if trim_text(x) == trim_text(y) { None } else { Some(format!("{path}: {} became {}", short(a), short(b))) },
        _ => if a == b { None } else { Some(format!("{path}: {} became {}", short(a), short(b))) },
    }
}
pub fn short(v: &Value) -> String { let s = v.to_string(); if s.chars().count() > 120 { s.chars().take(120).collect::<String>() + "…" } else { s } }
/// content of a parsed/stored message: header and document only (namespace declarations are not content)
pub fn content(v: &Value) -> Value {
    let mut m = Map::new();
    for k in ["AppHdr", "Document"] { if let Some(x) = v.get(k) { m.insert(k.into(), x.clone()); } }
    Value::Object(m)
}

// ---------------------------------------------------------------- XML encoding
#[derive(Clone, Copy, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Layout {
    /// 0 compact, 1 newline, 2 indented, 3 CRLF indented
    pub ws: u8,
    /// namespace declarations: bit0 Envelope, bit1 AppHdr, bit2 Document
    pub ns: u8,
    /// XML declaration: 0 none, 1 double quotes, 2 single quotes + standalone
    pub decl: u8,
    /// 0 none, 1 comments between elements, 2 processing instructions
    pub comment: u8,
    /// escape style: 0 minimal, 1 numeric references, 2 CDATA when useful
    pub esc: u8,
    /// root element: 0 Envelope, 1 other name, 2 none (sibling AppHdr and Document)
    pub root: u8,
    /// single quotes around attributes
    pub sq: u8,
    /// white space inside tags
    pub tagws: u8,
    pub trailing_nl: u8,
    /// before everything else: 0 nothing, 1 a line end, 2 spaces (XML: only without declaration)
    #[serde(default)]
    pub lead: u8,
}
struct Enc<'a> { out: String, l: &'a Layout, rng: Rng }
pub fn encode_envelope(m: &Value, l: &Layout, seed: u64) -> String {
    let s = schema();
    let mut e = Enc { out: String::new(), l, rng: Rng::derive(seed, 5) };
    e.decl();
    let (de, body) = m["Document"].as_object().unwrap().iter().next().unwrap();
    let doc = &s.docs[s.by_elem[de]];
    let rootname = match l.root { 0 => Some("Envelope"), 1 => Some("BusMsgEnvlp"), _ => None };
    let mut d = 0;
    if let Some(r) = rootname { e.open(r, if l.ns & 1 != 0 { vec![("xmlns", "urn:swift:xsd:envelope".to_string()), ("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance".into())] } else { vec![] }, 0); d = 1; }
    e.ind(d);
    e.elem_struct("AppHdr", s.header, &m["AppHdr"], d, if l.ns & 2 != 0 { vec![("xmlns", "urn:iso:std:iso:20022:tech:xsd:head.001.001.02".to_string())] } else { vec![] });
    e.ind(d);
    e.open("Document", if l.ns & 4 != 0 { vec![("xmlns", format!("urn:iso:std:iso:20022:tech:xsd:{}", doc.full))] } else { vec![] }, d);
    e.ind_plain(d + 1);
    e.elem_struct(&doc.elem, doc.root, body, d + 1, vec![]);
    e.ind(d);
    e.close("Document");
    if let Some(r) = rootname { e.ind(0); e.close(r); }
    if l.trailing_nl != 0 { e.out.push('\n'); }
    e.out
}
pub fn encode_document(m: &Value, l: &Layout, seed: u64) -> String {
    let s = schema();
    let mut e = Enc { out: String::new(), l, rng: Rng::derive(seed, 5) };
    e.decl();
    let (de, body) = m["Document"].as_object().unwrap().iter().next().unwrap();
    let doc = &s.docs[s.by_elem[de]];
    e.open("Document", if l.ns & 4 != 0 { vec![("xmlns", format!("urn:iso:std:iso:20022:tech:xsd:{}", doc.full))] } else { vec![] }, 0);
    e.ind_plain(1);
    e.elem_struct(&doc.elem, doc.root, body, 1, vec![]);
    e.ind(0);
    e.close("Document");
    if l.trailing_nl != 0 { e.out.push('\n'); }
    e.out
}
/// A definition on its own, under the element name its type is written with.
pub fn encode_loose(m: &Value, l: &Layout, seed: u64) -> String {
    let (k, body) = m["Document"].as_object().unwrap().iter().next().unwrap();
    let doc = &schema().docs[schema().by_elem[k]];
    let mut e = Enc { out: String::new(), l, rng: Rng::derive(seed, 5) };
    e.decl();
    e.elem_struct(root_name(doc), doc.root, body, 0, if l.ns & 4 != 0 { vec![("xmlns", "urn:iso:std:iso:20022:tech:xsd:x.001.001.01".to_string())] } else { vec![] });
    if l.trailing_nl != 0 { e.out.push('\n'); }
    e.out
}
fn root_name(d: &Doc) -> &str { if d.elem.starts_with("bah_") { "AppHdr" } else { &d.rust } }
/// The same message as text, from what was sent: XML or JSON.
pub fn decode_loose(t: &str, doc: usize, xml: bool) -> Result<Value, String> {
    let d = &schema().docs[doc];
    let v = if xml {
        let tops = parse_xml(t)?;
        if tops.len() != 1 || tops[0].name != root_name(d) { return Err(format!("root {:?} instead of {}", tops.iter().map(|t| &t.name).collect::<Vec<_>>(), root_name(d))) }
        wire_struct(&tops[0], d.root)?;
        dec_struct(&tops[0], d.root, true)?
    } else { nj(&serde_json::from_str(t).map_err(|e: serde_json::Error| e.to_string())?, Ty::Ref(d.root), &d.rust, true)? };
    Ok(loose(d, v))
}
pub fn norm_loose(v: &Value, doc: usize) -> Result<Value, String> { let d = &schema().docs[doc]; Ok(loose(d, nj(v, Ty::Ref(d.root), &d.rust, true)?)) }
fn loose(d: &Doc, v: Value) -> Value { let mut m = Map::new(); m.insert(d.elem.clone(), v); let mut o = Map::new(); o.insert("Document".into(), Value::Object(m)); Value::Object(o) }
impl<'a> Enc<'a> {
    fn decl(&mut self) { if self.l.decl == 0 && self.l.lead > 0 { self.out.push_str(if self.l.lead == 1 { "\n" } else { "  \t" }) } match self.l.decl { 0 => {} 1 => { self.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"); if self.l.ws > 0 { self.out.push('\n') } } _ => self.out.push_str("<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n") } }
    fn ind_plain(&mut self, d: usize) { match self.l.ws { 0 => {} 1 => self.out.push('\n'), 2 => { self.out.push('\n'); for _ in 0..d { self.out.push_str("  ") } } _ => { self.out.push_str("\r\n"); for _ in 0..d { self.out.push('\t') } } } }
    fn ind(&mut self, d: usize) {
        self.ind_plain(d);
        if self.l.comment > 0 && d > 0 && self.rng.chance(15) {
            self.out.push_str(if self.l.comment == 1 { "<!-- note -->" } else { "<?gw route?>" });
            self.ind_plain(d);
        }
    }
    fn open(&mut self, n: &str, attrs: Vec<(&str, String)>, _d: usize) {
        self.out.push('<'); self.out.push_str(n);
        for (k, v) in attrs {
            let q = if self.l.sq == 1 { '\'' } else { '"' };
            self.out.push(' '); self.out.push_str(k); self.out.push('='); self.out.push(q);
            for c in v.chars() { match c { '&' => self.out.push_str("&amp;"), '<' => self.out.push_str("&lt;"), '"' => self.out.push_str("&quot;"), '\'' => self.out.push_str("&apos;"), '\t' | '\n' | '\r' => self.out.push_str(&format!("&#{};", c as u32)), c => self.out.push(c) } }
            self.out.push(q);
        }
        if self.l.tagws == 1 { self.out.push(' ') }
        self.out.push('>');
    }
    fn close(&mut self, n: &str) { self.out.push_str("</"); self.out.push_str(n); self.out.push('>'); }
    fn text(&mut self, t: &str) {
        if self.l.esc == 2 && !t.contains("]]>") && !t.contains('\r') && !t.is_empty() && self.rng.chance(40) { self.out.push_str("<![CDATA["); self.out.push_str(t); self.out.push_str("]]>"); return; }
        for c in t.chars() {
            match c {
                '&' => self.out.push_str("&amp;"), '<' => self.out.push_str("&lt;"), '>' => self.out.push_str("&gt;"),
                '\r' => self.out.push_str("&#13;"),
                c if self.l.esc == 1 && !c.is_ascii_alphanumeric() && c != ' ' && c != '\n' && c != '\t' && self.rng.chance(50) => { if self.rng.chance(50) { self.out.push_str(&format!("&#{};", c as u32)) } else { self.out.push_str(&format!("&#x{:X};", c as u32)) } }
                c => self.out.push(c),
            }
        }
    }
    /// numbers and booleans have more than one spelling
    fn spell(&mut self, v: &Value) -> String {
        let t = scalar(v);
        if self.l.esc == 0 { return t }
        match v { Value::Number(_) => match self.rng.below(5) { 0 if t.contains('.') => t + "0", 0 => t + ".00", 1 if !t.starts_with('-') => format!("0{t}"), _ => t }, Value::Bool(b) if self.rng.chance(30) => if *b { "1" } else { "0" }.into(), _ => t }
    }
    fn elem_struct(&mut self, n: &str, t: usize, v: &Value, d: usize, mut attrs: Vec<(&str, String)>) {
        let Def::Struct(fs) = &schema().defs[t] else { unreachable!() };
        for f in fs { if let Some(a) = f.name.strip_prefix('@') && let Some(x) = v.get(&f.name) { attrs.push((a, x.as_str().unwrap().to_string())) } }
        let has_kids = fs.iter().any(|f| !f.name.starts_with('@') && v.get(&f.name).is_some());
        if !has_kids && self.rng.chance(50) && attrs.is_empty() { self.out.push('<'); self.out.push_str(n); self.out.push_str("/>"); return; }
        self.open(n, attrs, d);
        let mut nested = false;
        for f in fs {
            if f.name.starts_with('@') { continue; }
            let Some(x) = v.get(&f.name) else { continue };
            if f.name == "$value" { let t = self.spell(x); self.text(&t); continue; }
            let items: Vec<&Value> = if f.vec { x.as_array().unwrap().iter().collect() } else { vec![x] };
            for it in items {
                self.ind(d + 1); nested = true;
                match f.ty {
                    Ty::Ref(r) if matches!(schema().defs[r], Def::Struct(_)) => self.elem_struct(&f.name, r, it, d + 1, vec![]),
                    _ => { self.open(&f.name, vec![], d + 1); let t = self.spell(it); self.text(&t); self.close(&f.name) }
                }
            }
        }
        if nested { self.ind(d); }
        self.close(n);
    }
}
fn scalar(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Bool(b) => b.to_string(), Value::Number(n) => n.as_f64().unwrap().to_string(), _ => unreachable!() } }

// ---------------------------------------------------------------- JSON encoding
/// JSON text of a message: ws as for XML, sq: members in any order, tagws: white space around punctuation, esc: \u escapes
pub fn encode_json(m: &Value, l: &Layout, seed: u64) -> String {
    if *l == Layout::default() { return m.to_string() }
    fn string(t: &str, l: &Layout, r: &mut Rng, o: &mut String) {
        if l.esc == 0 { o.push_str(&Value::String(t.into()).to_string()); return }
        o.push('"');
        for c in t.chars() { if c < ' ' || c == '"' || c == '\\' || (!c.is_ascii_alphanumeric() && r.chance(40)) { if l.esc == 2 && c == '/' { o.push_str("\\/"); continue } let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&if r.chance(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") }) } } else { o.push(c) } }
        o.push('"');
    }
    fn nl(l: &Layout, d: usize, o: &mut String) { match l.ws { 0 => {} 1 => o.push('\n'), 2 => { o.push('\n'); for _ in 0..d { o.push_str("  ") } } _ => { o.push_str("\r\n"); for _ in 0..d { o.push('\t') } } } }
    fn go(v: &Value, l: &Layout, r: &mut Rng, d: usize, o: &mut String) {
        let gap = |o: &mut String, r: &mut Rng| if l.tagws == 1 && r.chance(30) { o.push_str(*r.pick(&[" ", "\t", "\n ", "   "])) };
        match v {
            Value::Object(m) => {
                let mut k: Vec<&String> = m.keys().collect();
                if l.sq == 1 { for i in (1..k.len()).rev() { k.swap(i, r.below(i + 1)) } }
                o.push('{');
                for (i, k) in k.iter().enumerate() { if i > 0 { o.push(',') } nl(l, d + 1, o); gap(o, r); o.push('"'); o.push_str(k); o.push('"'); gap(o, r); o.push(':'); if l.ws > 1 { o.push(' ') } gap(o, r); go(&m[*k], l, r, d + 1, o); gap(o, r) }
                nl(l, d, o); o.push('}');
            }
            Value::Array(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } nl(l, d + 1, o); gap(o, r); go(x, l, r, d + 1, o) } nl(l, d, o); o.push(']') }
            Value::String(t) => string(t, l, r, o),
            Value::Number(x) if (l.tagws == 1 || l.esc > 0) && x.as_f64().is_some_and(|x| x.fract() == 0.0 && x.abs() < 1e15) => { let x = x.as_f64().unwrap() as i64; o.push_str(&match r.below(3) { 0 => format!("{x}.00"), 1 if x % 100 == 0 && x != 0 => format!("{}e2", x / 100), _ => x.to_string() }) }
            x => o.push_str(&x.to_string()),
        }
    }
    let mut r = Rng::derive(seed, 6); let mut o = String::new();
    match l.lead { 0 => {} 1 => o.push('\n'), _ => o.push_str(" \t ") }
    go(m, l, &mut r, 0, &mut o);
    if l.trailing_nl != 0 { o.push('\n') }
    o
}

// ---------------------------------------------------------------- where things are in an encoded message
/// One part of an encoded message: the field it belongs to and its bytes; `inner` is its content.
#[derive(Clone, Copy, Debug)]
pub struct Span { pub field: usize, pub at: (usize, usize), pub inner: (usize, usize) }
fn named(t: Option<usize>, n: &str) -> Option<(usize, Option<usize>)> {
    let Def::Struct(fs) = &schema().defs[t?] else { return None };
    let f = fs.iter().find(|f| f.name == n)?;
    Some((f.id, match f.ty { Ty::Ref(r) if matches!(schema().defs[r], Def::Struct(_)) => Some(r), _ => None }))
}
pub fn spans_xml(s: &str) -> Vec<Span> {
    let sc = schema(); let b = s.as_bytes(); let mut i = 0; let mut out: Vec<Span> = vec![];
    // (type, index of its span, is the Document element)
    let mut st: Vec<(Option<usize>, usize, bool)> = vec![];
    while i < b.len() {
        if b[i] != b'<' { i += 1; continue }
        let t = &s[i..];
        let skip = |e: &str| t.find(e).map_or(b.len(), |k| i + k + e.len());
        if t.starts_with("<!--") { i = skip("-->"); continue }
        if t.starts_with("<![CDATA[") { i = skip("]]>"); continue }
        if t.starts_with("<?") { i = skip("?>"); continue }
        let end = skip(">");
        if t.starts_with("</") { if let Some((_, k, _)) = st.pop() && k < out.len() { out[k].inner.1 = i; out[k].at.1 = end } i = end; continue }
        let empty = s[..end].ends_with("/>");
        let tag = &s[i + 1..end - 1]; let name = tag.split(|c: char| c == ' ' || c == '/').next().unwrap();
        let up = st.last().copied().unwrap_or((None, usize::MAX, false));
        let (field, ty) = if up.2 { (None, sc.by_elem.get(name).map(|i| sc.docs[*i].root)) } else if name == "AppHdr" && up.0.is_none() { (None, Some(sc.header)) } else { match named(up.0, name) { Some((f, t)) => (Some(f), t), None => (None, None) } };
        let k = match field { Some(f) => { out.push(Span { field: f, at: (i, end), inner: (end, end) }); out.len() - 1 } None => usize::MAX };
        if let (Some(ty), Some(a)) = (ty, tag.find(" Ccy=")) && let Some((f, _)) = named(Some(ty), "@Ccy") { let q = tag.as_bytes()[a + 5]; let e = a + 6 + tag[a + 6..].bytes().position(|c| c == q).unwrap_or(0); out.push(Span { field: f, at: (i + 1 + a, i + 1 + e + 1), inner: (i + 1 + a + 6, i + 1 + e) }) }
        if !empty { st.push((ty, k, name == "Document" && up.0.is_none())) }
        i = end;
    }
    out
}
pub fn spans_json(s: &str) -> Vec<Span> {
    struct J<'a> { s: &'a str, b: &'a [u8], i: usize, out: Vec<Span> }
    impl J<'_> {
        fn ws(&mut self) { while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() { self.i += 1 } }
        fn string(&mut self) -> (usize, usize) { let a = self.i + 1; self.i += 1; while self.b[self.i] != b'"' { self.i += if self.b[self.i] == b'\\' { 2 } else { 1 } } self.i += 1; (a, self.i - 1) }
        fn val(&mut self, t: Option<usize>, top: u8, field: Option<(usize, usize)>) {
            self.ws();
            match self.b[self.i] {
                b'{' => { self.i += 1; let mut before = self.i; let mut first = true; loop {
                    self.ws(); if self.b[self.i] == b'}' { self.i += 1; break }
                    let a = self.i; let k = self.string(); let name = &self.s[k.0..k.1]; self.ws(); self.i += 1; self.ws();
                    let (f, ty, top2) = if top == 1 { match name { "AppHdr" => (None, Some(schema().header), 0), "Document" => (None, None, 2), _ => (None, None, 0) } } else if top == 2 { (None, schema().by_elem.get(name).map(|i| schema().docs[*i].root), 0) } else { match named(t, name) { Some((f, t)) => (Some(f), t, 0), None => (None, None, 0) } };
                    let v = self.i; self.val(ty, top2, f.map(|f| (f, a))); let ve = self.i; self.ws();
                    let comma = self.b[self.i] == b',';
                    if let Some(f) = f { let at = if comma { (a, self.i + 1) } else if first { (a, ve) } else { (before, ve) }; self.out.push(Span { field: f, at, inner: (v, ve) }) }
                    before = self.i; if comma { self.i += 1 } first = false;
                } }
                b'[' => { self.i += 1; loop { self.ws(); match self.b[self.i] { b']' => { self.i += 1; break } b',' => self.i += 1, _ => self.val(t, 0, field) } } }
                b'"' => { self.string(); }
                _ => while self.i < self.b.len() && !b",]} \t\r\n".contains(&self.b[self.i]) { self.i += 1 },
            }
        }
    }
    if serde_json::from_str::<Value>(s).is_err() { return vec![] }
    let mut j = J { s, b: s.as_bytes(), i: 0, out: vec![] }; j.val(None, 1, None); j.out
}

// ---------------------------------------------------------------- XML decoding (strict well-formedness)
#[derive(Debug, Clone)]
pub struct Node { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Node>, pub text: String }
/// A complete XML text: any number of top-level elements (the caller decides how many are allowed), nothing else but
/// white space, comments, PIs and an XML declaration at the very start.
pub fn parse_xml(s: &str) -> Result<Vec<Node>, String> {
    if let Some(c) = s.chars().find(|c| !legal(*c)) { return Err(format!("character U+{:04X}", c as u32)) }
    let mut p = Px { b: s.as_bytes(), s, i: 0 };
    let mut tops = vec![];
    if s.starts_with('\u{feff}') { p.i = 3; }
    if s[p.i..].starts_with("<?xml") { p.skip_until("?>")?; }
    loop {
        p.ws();
        if p.i >= p.b.len() { break; }
        if p.at("<!--") { p.comment()?; continue; }
        if p.at("<?") { if p.at("<?xml ") { return Err("declaration not at start".into()) } p.skip_until("?>")?; continue; }
        if p.at("<!") { return Err("doctype/cdata at top level".into()) }
        if p.at("<") { tops.push(p.elem(0)?); continue; }
        return Err(format!("text outside root at {}", p.i));
    }
    Ok(tops)
}
/// characters XML 1.0 allows
pub fn legal(c: char) -> bool { matches!(c, '\t' | '\n' | '\r' | ' '..='\u{fffd}' | '\u{10000}'..) }
struct Px<'a> { b: &'a [u8], s: &'a str, i: usize }
impl<'a> Px<'a> {
    fn at(&self, t: &str) -> bool { self.b[self.i..].starts_with(t.as_bytes()) }
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') { self.i += 1 } }
    fn skip_until(&mut self, e: &str) -> Result<(), String> { match self.s[self.i..].find(e) { Some(k) => { self.i += k + e.len(); Ok(()) } None => Err(format!("unterminated {e}")) } }
    fn comment(&mut self) -> Result<(), String> { self.i += 4; self.skip_until("-->") }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'_' | b':' | b'-' | b'.') || self.b[self.i] >= 0x80) { self.i += 1 }
        if st == self.i || matches!(self.b[st], b'-' | b'.' | b'0'..=b'9') { return Err(format!("bad name at {st}")) }
        Ok(self.s[st..self.i].to_string())
    }
    fn unescape(t: &str) -> Result<String, String> {
        let mut o = String::new(); let mut r = t;
        while let Some(k) = r.find('&') {
            o.push_str(&r[..k]); r = &r[k + 1..];
            let e = r.find(';').ok_or("unterminated entity")?;
            let n = &r[..e]; r = &r[e + 1..];
            match n { "amp" => o.push('&'), "lt" => o.push('<'), "gt" => o.push('>'), "quot" => o.push('"'), "apos" => o.push('\''),
                _ => { let c = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).map_err(|_| "bad ref")? } else if let Some(d) = n.strip_prefix('#') { d.parse::<u32>().map_err(|_| "bad ref")? } else { return Err(format!("unknown entity {n}")) };
                    o.push(char::from_u32(c).filter(|c| legal(*c)).ok_or("bad char")?) } }
        }
        o.push_str(r); Ok(o)
    }
    fn elem(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 400 { return Err("too deep".into()) }
        self.i += 1;
        let name = self.name()?;
        let mut n = Node { name, attrs: vec![], kids: vec![], text: String::new() };
        loop {
            let before = self.i; self.ws();
            if self.i >= self.b.len() { return Err("eof in tag".into()) }
            if self.at("/>") { self.i += 2; return Ok(n) }
            if self.at(">") { self.i += 1; break; }
            if before == self.i { return Err("junk in tag".into()) }
            let k = self.name()?; self.ws();
            if !self.at("=") { return Err("attr without value".into()) }
            self.i += 1; self.ws();
            if self.i >= self.b.len() { return Err("eof in tag".into()) }
            let q = self.b[self.i]; if q != b'"' && q != b'\'' { return Err("unquoted attr".into()) }
            self.i += 1; let st = self.i;
            while self.i < self.b.len() && self.b[self.i] != q { if self.b[self.i] == b'<' { return Err("< in attribute".into()) } self.i += 1 }
            if self.i >= self.b.len() { return Err("eof in attr".into()) }
            // as written, a tab or a line end in an attribute means a space
            let v = Self::unescape(&self.s[st..self.i].replace("\r\n", " ").replace(['\t', '\n', '\r'], " "))?; self.i += 1;
            if n.attrs.iter().any(|(x, _)| *x == k) { return Err("duplicate attr".into()) }
            n.attrs.push((k, v));
        }
        loop {
            if self.i >= self.b.len() { return Err(format!("eof inside <{}>", n.name)) }
            if self.at("</") { self.i += 2; let e = self.name()?; self.ws(); if !self.at(">") { return Err("bad end tag".into()) } self.i += 1; if e != n.name { return Err(format!("</{e}> closes <{}>", n.name)) } return Ok(n) }
            if self.at("<!--") { self.comment()?; continue }
            if self.at("<![CDATA[") { self.i += 9; let st = self.i; self.skip_until("]]>")?; n.text.push_str(&self.s[st..self.i - 3]); continue }
            if self.at("<?") { self.skip_until("?>")?; continue }
            if self.at("<!") { return Err("doctype".into()) }
            if self.at("<") { let k = self.elem(depth + 1)?; n.kids.push(k); continue }
            let st = self.i; while self.i < self.b.len() && self.b[self.i] != b'<' { self.i += 1 }
            let t = Self::unescape(&self.s[st..self.i])?; n.text.push_str(&t);
        }
    }
}
fn local(n: &str) -> &str { n.rsplit(':').next().unwrap() }
fn dec_struct(n: &Node, t: usize, strict: bool) -> Result<Value, String> {
    let Def::Struct(fs) = &schema().defs[t] else { unreachable!() };
    let mut m = Map::new();
    if strict { for k in &n.kids { if !fs.iter().any(|f| f.name == k.name) { return Err(format!("unknown element {} in {}", k.name, n.name)) } } }
    for f in fs {
        if let Some(a) = f.name.strip_prefix('@') {
            if let Some((_, v)) = n.attrs.iter().find(|(k, _)| k == a) { m.insert(f.name.clone(), Value::String(v.clone())); } else if !f.opt { return Err(format!("{}: attribute {a} missing", n.name)) }
            continue;
        }
        if f.name == "$value" { m.insert(f.name.clone(), dec_scalar(&n.text, f.ty, &n.name)?); continue; }
        let ks: Vec<&Node> = n.kids.iter().filter(|k| local(&k.name) == f.name).collect();
        if ks.is_empty() { if !f.opt { return Err(format!("{}: {} missing", n.name, f.name)) } continue; }
        if !f.vec && ks.len() > 1 { return Err(format!("{}: {} repeated", n.name, f.name)) }
        let mut vs = vec![];
        for k in ks { vs.push(match f.ty { Ty::Ref(r) if matches!(schema().defs[r], Def::Struct(_)) => dec_struct(k, r, strict)?, ty => dec_scalar(&k.text, ty, &k.name)? }) }
        m.insert(f.name.clone(), if f.vec { Value::Array(vs) } else { vs.pop().unwrap() });
    }
    Ok(Value::Object(m))
}
fn dec_scalar(t: &str, ty: Ty, n: &str) -> Result<Value, String> {
    let tt = trim_text(t);
    match ty {
        Ty::Str => Ok(Value::String(tt.to_string())),
        // other spellings of the same truth value may be understood as well
        Ty::Bool => match tt { "true" | "1" => Ok(true.into()), "false" | "0" => Ok(false.into()), "True" | "TRUE" | "t" | "Yes" | "YES" | "yes" | "y" => Ok(true.into()), "False" | "FALSE" | "f" | "No" | "NO" | "no" | "n" => Ok(false.into()), _ => Err(format!("{n}: bad bool")) },
        Ty::F64 => tt.parse::<f64>().ok().filter(|x| x.is_finite()).map(|x| serde_json::json!(x)).ok_or(format!("{n}: bad number {tt}")),
        Ty::Ref(r) => { let Def::Enum(c) = &schema().defs[r] else { unreachable!() }; if c.iter().any(|x| x == tt) { Ok(Value::String(tt.into())) } else { Err(format!("{n}: bad code {tt}")) } }
    }
}
/// What an envelope payload carries: exactly one AppHdr and one Document, either inside one root element or side by side.
pub fn decode_envelope(s: &str, strict: bool) -> Result<Value, String> {
    let tops = parse_xml(s)?;
    let kids: Vec<&Node> = if tops.len() == 1 && tops[0].name != "AppHdr" && tops[0].name != "Document" { tops[0].kids.iter().collect() } else { tops.iter().collect() };
    let h: Vec<&&Node> = kids.iter().filter(|k| k.name == "AppHdr").collect();
    let d: Vec<&&Node> = kids.iter().filter(|k| k.name == "Document").collect();
    if h.len() != 1 || d.len() != 1 { return Err(format!("{} AppHdr, {} Document", h.len(), d.len())) }
    if strict && kids.len() != 2 { return Err("extra elements in envelope".into()) }
    let hdr = dec_struct(h[0], schema().header, strict)?;
    let mut m = Map::new(); m.insert("AppHdr".into(), hdr); m.insert("Document".into(), dec_doc(d[0], strict)?);
    Ok(Value::Object(m))
}
fn dec_doc(d: &Node, strict: bool) -> Result<Value, String> {
    if d.kids.len() != 1 { return Err(format!("Document has {} children", d.kids.len())) }
    if !trim_text(&d.text).is_empty() { return Err("text in Document".into()) }
    let s = schema();
    let i = *s.by_elem.get(&d.kids[0].name).ok_or_else(|| format!("unknown document element {}", d.kids[0].name))?;
    let mut dm = Map::new(); dm.insert(d.kids[0].name.clone(), dec_struct(&d.kids[0], s.docs[i].root, strict)?);
    Ok(Value::Object(dm))
}
/// What every message sent as XML has to be: one complete document in the shape and order the definitions give, without
/// anything that a reader would alter or refuse.
pub fn wire(s: &str) -> Result<(), String> {
    let decl = s.strip_prefix("<?xml").and_then(|t| t.find("?>").map(|k| t[..k].to_ascii_lowercase())).ok_or("no XML declaration")?;
    if decl.contains("encoding") && !decl.replace(['\'', ' '], "\"").contains("encoding=\"utf-8\"") { return Err(format!("declared as {decl}")) }
    if s.contains('\r') { return Err("a bare carriage return, which readers turn into a line feed".into()) }
    let tops = parse_xml(s)?;
    if tops.len() != 1 || tops[0].name != "Envelope" { return Err(format!("roots {:?}", tops.iter().map(|t| &t.name).collect::<Vec<_>>())) }
    let e = &tops[0];
    if e.kids.iter().map(|k| k.name.as_str()).collect::<Vec<_>>() != ["AppHdr", "Document"] { return Err(format!("Envelope holds {:?}", e.kids.iter().map(|t| &t.name).collect::<Vec<_>>())) }
    if !trim_text(&e.text).is_empty() || !trim_text(&e.kids[1].text).is_empty() || e.kids[1].kids.len() != 1 { return Err("text or several elements in Envelope or Document".into()) }
    let sc = schema(); let d = &e.kids[1].kids[0];
    wire_struct(&e.kids[0], sc.header)?;
    wire_struct(d, sc.docs[*sc.by_elem.get(&d.name).ok_or("unknown document")?].root)
}
fn wire_struct(n: &Node, t: usize) -> Result<(), String> {
    let Def::Struct(fs) = &schema().defs[t] else { unreachable!() };
    for (a, _) in &n.attrs { if a != "xmlns" && !a.starts_with("xmlns:") && !fs.iter().any(|f| f.name.strip_prefix('@') == Some(a)) { return Err(format!("attribute {a} on {}", n.name)) } }
    if !fs.iter().any(|f| f.name == "$value") && !trim_text(&n.text).is_empty() { return Err(format!("text in {}", n.name)) }
    let mut at = 0;
    for k in &n.kids {
        let i = fs.iter().position(|f| f.name == k.name).ok_or_else(|| format!("{} in {}", k.name, n.name))?;
        if i < at { return Err(format!("{} after {} in {}", k.name, fs[at].name, n.name)) } at = i;
        match fs[i].ty { Ty::Ref(r) if matches!(schema().defs[r], Def::Struct(_)) => wire_struct(k, r)?, _ => if !k.kids.is_empty() || k.attrs.iter().any(|a| !a.0.starts_with("xmlns")) { return Err(format!("{} is no plain value", k.name)) } }
    }
    Ok(())
}
/// Document without header: on its own, or in some wrapper that is not an MX envelope.
pub fn decode_document(s: &str) -> Result<Value, String> {
    if has_envelope(s) == Some(true) { return Err("an envelope".into()) }
    decode_document_in(s)
}
fn walk<'a>(n: &'a Node, f: &mut dyn FnMut(&'a Node) -> bool) { if f(n) { for k in &n.kids { walk(k, f) } } }
/// The document of any well-formed message: Document-only, enveloped, or the bare document element.
pub fn decode_document_in(s: &str) -> Result<Value, String> {
    let tops = parse_xml(s)?;
    let mut d = vec![]; let mut h = 0;
    for t in &tops { walk(t, &mut |n| { if n.name == "Document" { d.push(n) } if n.name == "AppHdr" { h += 1 } n.name != "Document" && n.name != "AppHdr" }) }
    if d.len() != 1 || h > 1 || tops.len() > 1 + h { return Err(format!("{} AppHdr, {} Document, {} roots", h, d.len(), tops.len())) }
    let mut m = Map::new(); m.insert("Document".into(), dec_doc(d[0], false)?);
    Ok(Value::Object(m))
}
/// None: not well-formed.
pub fn has_envelope(s: &str) -> Option<bool> {
    let tops = parse_xml(s).ok()?; let mut y = false;
    for t in &tops { walk(t, &mut |n| { y |= n.name == "AppHdr" || n.name == "Envelope"; true }) }
    Some(y)
}

/// JSON form brought to the canonical content: unknown members dropped (or refused), null optionals absent, types checked.
/// JSON in which a member that is there twice is worth nothing a message could hold.
pub fn json_once(t: &str) -> Result<Value, String> {
    use serde::de::*;
    struct J(Value); struct V;
    impl<'de> Deserialize<'de> for J { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> { d.deserialize_any(V) } }
    impl<'de> Visitor<'de> for V {
        type Value = J;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("JSON") }
        fn visit_unit<E>(self) -> Result<J, E> { Ok(J(Value::Null)) }
        fn visit_bool<E>(self, x: bool) -> Result<J, E> { Ok(J(x.into())) }
        fn visit_u64<E>(self, x: u64) -> Result<J, E> { Ok(J(x.into())) }
        fn visit_i64<E>(self, x: i64) -> Result<J, E> { Ok(J(x.into())) }
        fn visit_f64<E>(self, x: f64) -> Result<J, E> { Ok(J(x.into())) }
        fn visit_str<E>(self, x: &str) -> Result<J, E> { Ok(J(x.into())) }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> { let mut v = vec![]; while let Some(J(x)) = a.next_element()? { v.push(x) } Ok(J(v.into())) }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> { let mut m = Map::new(); while let Some((k, J(x))) = a.next_entry::<String, J>()? { let x = if m.contains_key(&k) { serde_json::json!([[]]) } else { x }; m.insert(k, x); } Ok(J(m.into())) }
    }
    serde_json::from_str::<J>(t).map(|j| j.0).map_err(|e| e.to_string())
}
pub fn norm_json(v: &Value, strict: bool) -> Result<Value, String> {
    let s = schema();
    let o = v.as_object().ok_or("not an object")?;
    if strict { for k in o.keys() { if !["AppHdr", "Document", "@xmlns", "@xmlns:xsi"].contains(&k.as_str()) { return Err(format!("unknown member {k}")) } } }
    let mut m = Map::new();
    m.insert("AppHdr".into(), nj(o.get("AppHdr").ok_or("AppHdr missing")?, Ty::Ref(s.header), "AppHdr", strict)?);
    m.insert("Document".into(), norm_doc(o.get("Document").ok_or("Document missing")?, strict)?);
    Ok(Value::Object(m))
}
pub fn norm_doc(v: &Value, strict: bool) -> Result<Value, String> {
    let s = schema();
    let d = v.as_object().ok_or("Document not an object")?;
    if d.len() != 1 { return Err(format!("Document has {} members", d.len())) }
    let (k, b) = d.iter().next().unwrap();
    let i = *s.by_elem.get(k).ok_or_else(|| format!("unknown document {k}"))?;
    let mut dm = Map::new(); dm.insert(k.clone(), nj(b, Ty::Ref(s.docs[i].root), k, strict)?);
    Ok(Value::Object(dm))
}
fn nj(v: &Value, ty: Ty, n: &str, strict: bool) -> Result<Value, String> {
    match ty {
        Ty::Str => v.as_str().map(|s| Value::String(s.into())).ok_or(format!("{n}: not text")),
        Ty::Bool => v.as_bool().map(Value::Bool).ok_or(format!("{n}: not boolean")),
        Ty::F64 => v.as_f64().map(|x| serde_json::json!(x)).ok_or(format!("{n}: not a number")),
        Ty::Ref(r) => match &schema().defs[r] {
            Def::Enum(c) => { let t = v.as_str().ok_or(format!("{n}: not text"))?; if c.iter().any(|x| x == t) { Ok(Value::String(t.into())) } else { Err(format!("{n}: bad code {t}")) } }
            Def::Struct(fs) => {
                let o = v.as_object().ok_or(format!("{n}: not an object"))?;
                if strict { for k in o.keys() { if !fs.iter().any(|f| f.name == *k) { return Err(format!("{n}: unknown member {k}")) } } }
                let mut m = Map::new();
                for f in fs {
                    let Some(x) = o.get(&f.name).filter(|x| !(f.opt && x.is_null())) else { if !f.opt { return Err(format!("{n}: {} missing", f.name)) } continue };
                    if f.vec { let a = x.as_array().ok_or(format!("{}: not an array", f.name))?; let mut b = vec![]; for y in a { b.push(nj(y, f.ty, &f.name, strict)?) } m.insert(f.name.clone(), Value::Array(b)); }
                    else { m.insert(f.name.clone(), nj(x, f.ty, &f.name, strict)?); }
                }
                Ok(Value::Object(m))
            }
        },
    }
}
