//! The message definitions and headers that MxMessage does not carry, used the way their README examples use them:
//! serde with quick-xml and serde_json, and `Validate`.  In a crate of its own because it takes a while to build.
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use mx_message::{document, header};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};

fn one(cfg: &ParserConfig, f: &dyn Fn(&ParserConfig, &mut ErrorCollector)) -> Value {
    let mut c = ErrorCollector::new();
    f(cfg, &mut c);
    let (h, n) = (c.has_errors(), c.error_count());
    let e: Vec<Value> = c.errors().into_iter().map(|e| json!([e.code, e.field, e.path])).collect();
    json!({"e": e, "has": h, "n": n})
}
fn report(m: Value, f: &dyn Fn(&ParserConfig, &mut ErrorCollector)) -> Value {
    json!({"m": m, "default": one(&ParserConfig::default(), f), "fast": one(&ParserConfig::fail_fast(), f), "lenient": one(&ParserConfig::lenient(), f), "again": one(&ParserConfig::default(), f)})
}
fn run<T: Serialize + DeserializeOwned + Validate>(f: &str, s: &str) -> Result<Value, String> {
    let xml = match f { "findings" | "value" => !s.trim_start().starts_with('{'), _ => f.starts_with("xml") };
    let t: T = if xml { quick_xml::de::from_str(s).map_err(|e| e.to_string())? } else { serde_json::from_str(s).map_err(|e| e.to_string())? };
    Ok(match f {
        "findings" => report(serde_json::to_value(&t).map_err(|e| e.to_string())?, &|cfg, c| t.validate("", cfg, c)),
        "value" => serde_json::to_value(&t).map_err(|e| e.to_string())?,
        _ if f.ends_with("_xml") => Value::String(quick_xml::se::to_string(&t).map_err(|e| e.to_string())?),
        _ => Value::String(serde_json::to_string_pretty(&t).map_err(|e| e.to_string())?),
    })
}
macro_rules! table { ($($n:ident: $t:path,)*) => {
    /// One hop (`xml_xml`, `xml_json`, `json_xml`, `json_json`), the value read, or the findings, for the definition `module`.
    pub fn call(module: &str, f: &str, s: &str) -> Result<Value, String> { match module { $(stringify!($n) => run::<$t>(f, s),)* _ => Err(format!("no module {module}")) } }
} }
table! {
    camt_105_001_02_mc: document::camt_105_001_02_mc::ChargesPaymentNotificationV02,
    camt_106_001_02_mc: document::camt_106_001_02_mc::ChargesPaymentRequestV02,
    pacs_008_001_08_stp: document::pacs_008_001_08_stp::FIToFICustomerCreditTransferV08,
    pacs_009_001_08_adv: document::pacs_009_001_08_adv::FinancialInstitutionCreditTransferV08,
    pacs_009_001_08_cov: document::pacs_009_001_08_cov::FinancialInstitutionCreditTransferV08,
    pacs_010_001_03_mc: document::pacs_010_001_03_mc::FinancialInstitutionDirectDebitV03,
    bah_admi_024_001_01: header::bah_admi_024_001_01::BusinessApplicationHeaderV02,
    bah_camt_025_001_08: header::bah_camt_025_001_08::BusinessApplicationHeaderV02,
    bah_camt_029_001: header::bah_camt_029_001::BusinessApplicationHeaderV02,
    bah_camt_052_001_08: header::bah_camt_052_001_08::BusinessApplicationHeaderV02,
    bah_camt_053_001_08: header::bah_camt_053_001_08::BusinessApplicationHeaderV02,
    bah_camt_054_001: header::bah_camt_054_001::BusinessApplicationHeaderV02,
    bah_camt_055_001_08: header::bah_camt_055_001_08::BusinessApplicationHeaderV02,
    bah_camt_056_001_08: header::bah_camt_056_001_08::BusinessApplicationHeaderV02,
    bah_camt_057_001_06: header::bah_camt_057_001_06::BusinessApplicationHeaderV02,
    bah_camt_058_001_08: header::bah_camt_058_001_08::BusinessApplicationHeaderV02,
    bah_camt_060_001_05: header::bah_camt_060_001_05::BusinessApplicationHeaderV02,
    bah_camt_105_001_02: header::bah_camt_105_001_02::BusinessApplicationHeaderV02,
    bah_camt_105_001_02_mc: header::bah_camt_105_001_02_mc::BusinessApplicationHeaderV02,
    bah_camt_106_001_02: header::bah_camt_106_001_02::BusinessApplicationHeaderV02,
    bah_camt_106_001_02_mc: header::bah_camt_106_001_02_mc::BusinessApplicationHeaderV02,
    bah_camt_107_001_01: header::bah_camt_107_001_01::BusinessApplicationHeaderV02,
    bah_camt_108_001_01: header::bah_camt_108_001_01::BusinessApplicationHeaderV02,
    bah_camt_109_001_01: header::bah_camt_109_001_01::BusinessApplicationHeaderV02,
    bah_pacs_002_001_10: header::bah_pacs_002_001_10::BusinessApplicationHeaderV02,
    bah_pacs_003_001_08: header::bah_pacs_003_001_08::BusinessApplicationHeaderV02,
    bah_pacs_004_001_09: header::bah_pacs_004_001_09::BusinessApplicationHeaderV02,
    bah_pacs_008_001_08_stp: header::bah_pacs_008_001_08_stp::BusinessApplicationHeaderV02,
    bah_pacs_009_001_08: header::bah_pacs_009_001_08::BusinessApplicationHeaderV02,
    bah_pacs_009_001_08_adv: header::bah_pacs_009_001_08_adv::BusinessApplicationHeaderV02,
    bah_pacs_009_001_08_cov: header::bah_pacs_009_001_08_cov::BusinessApplicationHeaderV02,
    bah_pacs_010_001_03: header::bah_pacs_010_001_03::BusinessApplicationHeaderV02,
    bah_pacs_010_001_03_mc: header::bah_pacs_010_001_03_mc::BusinessApplicationHeaderV02,
    bah_pain_001_001_09: header::bah_pain_001_001_09::BusinessApplicationHeaderV02,
    bah_pain_002_001_10: header::bah_pain_002_001_10::BusinessApplicationHeaderV02,
    bah_pain_008_001_08: header::bah_pain_008_001_08::BusinessApplicationHeaderV02,
}
