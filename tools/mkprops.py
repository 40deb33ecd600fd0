#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=observe,hook_needed=None)))
PL=["src/plugin/parse.rs","src/plugin/publish.rs","src/plugin/validate.rs","src/plugin/generate.rs","src/plugin/common.rs"]
ENV=["src/mx_envelope.rs","src/xml.rs"]
p("C01","Concurrent and past work never influences a message's result",
  "Every message processed through a shared engine, shared step handlers or the library's functions gets exactly the outcome (data, metadata, errors, audit changes, returned values) it gets when it is processed alone in a fresh process, whatever other messages of any type were processed before it or are being processed at the same time on any threads. This covers parsing, publishing, validating, message-type detection, JSON conversion and field-level validation.",
  ["schedules","histories"],"all interleavings of worker threads at allocation, trace, lock and await granularity, all assignments of tasks to threads, all histories of earlier messages of all 25 types, good and bad",
  "The tests process one message at a time on a single-threaded runtime; no test runs two messages concurrently or compares a result with the same call in a fresh process.",
  PL+ENV+["src/message_registry.rs","src/validation.rs"],
  [("handlers are stateless unit structs; all state lives in the message passed by &mut","src/plugin/*.rs"),("no statics besides const tables","src/message_registry.rs")],
  ["dataflow Message after Engine::process_message","return values of MxMessage::{from_xml,to_xml,from_json,to_json}, peek_*, Validate::validate"])
p("C02","A refused or abandoned step leaves no trace",
  "When a parse, publish, validate or generate step reports an error, the message's data, metadata and payload are exactly what they were before that step and the failure is recorded exactly once. When processing is cancelled between or inside steps, the message holds the effects of a whole number of completed steps. Neither affects how this message (retried) or any other message is processed afterwards.",
  ["fault_sequences","crash_points","histories"],"all faulty payloads and missing or ill-typed fields at each step, all await points at which processing is cancelled, all retry sequences",
  "No test drives a handler down its error path and inspects the message afterwards, cancels a run, or retries after a failure.",
  PL,[("all fallible work happens before the first write to message data","src/plugin/parse.rs parse_xml_to_json; src/plugin/publish.rs execute; src/plugin/validate.rs execute; src/plugin/generate.rs execute")],
  ["Message.context, Message.payload, Message.errors, Message.audit_trail before and after the step"])
p("C03","A faulty channel never yields a message nobody sent",
  "Whatever payload a receiver accepts (XML envelope, Document-only XML, or JSON), its bytes are one complete, well-formed message and the accepted content is exactly the content those bytes carry. A payload that lost its tail, lost, repeated or swapped fragments, was partly sent and then sent again, or holds several messages run together is either refused or is itself one complete message: never a mix of two messages, a prefix taken for the whole, or one message with another silently dropped. An undamaged message is always accepted, with its exact content.",
  ["fault_sequences","inputs"],"all truncation points, all duplications, losses, reorderings and splices of fragments of streams of messages of all 25 types, torn-then-retried transmissions at every cut point",
  "The tests only feed complete messages produced by the library itself; no payload is ever truncated, duplicated, spliced or retried.",
  ENV+["src/plugin/parse.rs","src/plugin/common.rs"],
  [("section extraction and document type detection","src/mx_envelope.rs extract_section, detect_document_type"),("Document-only extraction","src/xml.rs xml_to_json_via_document"),("quick-xml end-tag checking, serde_json trailing-data check","dependencies")],
  ["parse_mx result and MxMessage::{from_xml,from_json} result for each delivered payload"])
p("C04","Delivered bytes never crash or wedge a node",
  "No delivered payload or sequence of payloads (corrupted, truncated, spliced, with non-ASCII text at any position, empty, very deep, flooded with repeated markup or entirely arbitrary) makes any parsing, type-detection, validating or publishing entry point panic, abort, overflow a worker thread's 2 MiB stack or fail to return, or take time out of all proportion to the payload's length; it returns a result or an error. After any such sequence, intact messages of every type are again accepted and handled correctly.",
  ["fault_sequences","inputs","histories"],"all byte-level and fragment-level faults on messages of all types and on workflow data, all histories of poisonous deliveries, all schedules of the threads handling them",
  "The tests contain no malformed payloads for the envelope, Document-only or workflow paths apart from two or three trivial ones, and never send a good message after a bad one.",
  ENV+PL,[("string-slicing extraction helpers","src/mx_envelope.rs extract_section/extract_attribute/detect_document_type; src/plugin/common.rs extract_message_type_from_xml; src/xml.rs xml_to_json_via_document"),("boxed enum variants to keep stack frames small","src/mx_envelope.rs Document")],
  ["child process exit status, panics, simulated step budget","verdict on the intact message that follows"])
p("C05","Forwarding a message across hops conserves its content",
  "A message of any supported type that is forwarded through any number of nodes, each turning XML into JSON and back and any of them persisting it, crashing, restarting from what was durable or handling it again, arrives with every header and document element, attribute and repeated item present exactly as sent: same values, same order, same multiplicity, nothing added, and with the same MX element names. Amounts, numbers and booleans are compared by value and text without leading and trailing white space; namespace declarations are not content.",
  ["histories","fault_sequences","inputs"],"all 25 message types, every optional element, choice, code and repetition, all hop sequences over the XML and JSON forms, all crash/restart and redelivery histories",
  "The scenario tests cover 20 of the 25 types with ten random samples of one fixed shape per scenario, one hop, and never compare the application header.",
  ENV+["src/document/*.rs","src/header/*.rs","src/plugin/parse.rs","src/plugin/publish.rs"],
  [("serde renames and optional-field handling of the generated structs","src/document/*.rs, src/header/bah_pacs_008_001_08.rs"),("root element renaming","src/mx_envelope.rs serialize_with_rename/to_xml"),("per-type dispatch","src/mx_envelope.rs deserialize_document; src/xml.rs xml_to_json_via_document")],
  ["XML emitted at each hop decoded by an independent decoder","JSON stored at each hop"])
p("C06","Validation verdict agrees with parsing, everywhere and every time",
  "For any delivered payload, validation reports it valid exactly when parsing that payload succeeds, and its error list is non-empty exactly when it is reported invalid. The verdict is the same on every node, on every redelivery and however the payload reaches the step (payload, plain data field, nested message field), and every undamaged message of every supported type, with envelope or Document-only, is valid.",
  ["fault_sequences","histories","configurations"],"all delivered payloads (intact and faulty) of all types, all redelivery histories, all source-field configurations, all schedules",
  "The tests call validation on self-produced valid messages only and never compare its verdict with that of parsing on damaged or Document-only payloads.",
  ["src/plugin/validate.rs","src/plugin/parse.rs","src/plugin/common.rs","src/xml.rs","src/mx_envelope.rs"],
  [("both steps call the same envelope parser","src/plugin/validate.rs validate_xml; src/plugin/parse.rs parse_xml_to_json"),("Document-only branch","src/xml.rs from_mx_xml_envelope_str, xml_to_json_via_document")],
  ["validation result object and step result for the same payload"])
p("C07","Timestamps are the UTC instant of the validation; nothing else uses the clock",
  "Every validation result and validation metadata entry is stamped with the wall-clock instant of that very validation, as an RFC 3339 UTC timestamp, under any clock skew, forward or backward jump, stall between steps and local time zone setting. Apart from these timestamps, no parse, publish or validate result depends on what the clocks read.",
  ["schedules","fault_sequences","configurations"],"all wall-clock values from 1970 to 2200, all skews and jumps between steps, all interleavings of concurrent validations, all TZ settings",
  "The tests run against the real clock and never look at a timestamp.",
  ["src/plugin/validate.rs"],[("chrono::Utc::now().to_rfc3339() at the time of the call","src/plugin/validate.rs execute, validate_xml")],
  ["data.<target>.timestamp and metadata.validation.timestamp against the simulated clock's readings during the step"])
p("C08","Generation works for every random sequence and is determined by it",
  "For every test scenario listed in the shipped scenario indexes and every sequence of random numbers, generation succeeds, leaves the scenario payload untouched and yields a message that publishes, validates and parses back to the same content, header included. The generated message is fully determined by the scenario, the random numbers and the clock; parse, publish and validate results do not depend on randomness at all.",
  ["inputs","histories","schedules"],"all shipped scenarios, all entropy streams (including all-zero, all-one and repeating ones), all orders and interleavings of generations",
  "The scenario test draws ten samples per scenario from real entropy, so it is neither repeatable nor able to reach rare draws, and it ignores the header.",
  ["src/plugin/generate.rs","test_scenarios/**/*.json","src/plugin/publish.rs","src/plugin/parse.rs"],
  [("DataGenerator over message payload","src/plugin/generate.rs execute")],
  ["generated data, published XML, validation verdict and parsed data under simulated entropy"])
p("C09","The audit trail replays to the actual data",
  "Starting from a message's initial data and applying, in order, the changes the parse, publish, validate and generate steps record in its audit trail yields exactly the message's final data, and every recorded previous value is the value that was really there. This holds for repeated steps writing the same field, failed steps, redeliveries and messages persisted and resumed elsewhere.",
  ["histories","fault_sequences","crash_points"],"all workflows over the four steps, all overwrite and retry histories, all failures and crash/resume points",
  "The tests never read the changes a step returns or the audit trail.",
  PL,[("Change{path, old_value, new_value} built by each handler","src/plugin/*.rs execute")],
  ["Message.audit_trail replayed against Message.data()"])
p("C10","Crash and resume gives the uninterrupted result",
  "If a node crashes at any instant while it processes a message and the message is resumed from its last durable checkpoint by a fresh process, on the same or another node, the final data and metadata equal those of an uninterrupted run, validation timestamps aside. Steps are idempotent: running a step again on the same input field leaves the same data.",
  ["crash_points","fault_sequences","histories"],"all crash instants, all checkpoint placements and losses of un-synced checkpoints, repeated crashes, redelivery of already-processed messages",
  "No test serialises a half-processed message, resumes it in another process, or runs a step twice.",
  PL+ENV,[("steps read only payload/data fields and overwrite their own target","src/plugin/*.rs"),("no process-global state","src/")],
  ["Message restored from the simulated disk and run to completion"])
p("C11","Routing by peeked type agrees with the parsed message",
  "Whenever a delivered XML or JSON payload is accepted by parsing, the message type peeked from the same payload without parsing is the one its header names, the type recorded in the parse metadata is that of the document actually present, and both agree for every payload whose header names its document; this also holds for redelivered, wrapped (namespaced, indented, commented) and concurrently handled payloads. Every undamaged message can be routed. Peeking at any payload returns a type or an error and never changes later results.",
  ["fault_sequences","inputs","schedules"],"all 25 types, all fault kinds on their encodings, all layout variations a gateway introduces, all schedules",
  "The tests peek at a few literal strings and never compare the peeked type with the parsed message.",
  ["src/mx_envelope.rs","src/message_registry.rs","src/plugin/common.rs","src/plugin/parse.rs"],
  [("regex on MsgDefIdr","src/mx_envelope.rs peek_message_type_from_xml"),("registry normalisation","src/message_registry.rs"),("first key under Document","src/plugin/common.rs extract_message_type")],
  ["peek results against parsed header, metadata.<target>.message_type and document key"])
p("C12","Every step's effect is visible to whatever runs next",
  "After a parse, publish, validate or generate step returns success, anything evaluated against the message next (workflow and task conditions, mappings, further steps, the shared context snapshot) sees exactly the data and metadata the step wrote, no matter what was evaluated before the step or how often the step is repeated or retried after failures.",
  ["histories","schedules","configurations"],"all sequences of steps and condition evaluations on one message, direct handler composition as well as engine workflows, all retry histories and interleavings with other messages",
  "The tests run one fixed step sequence through the engine without conditions and never take a context snapshot before a step.",
  PL,[("invalidate_context_cache() after the writes","src/plugin/*.rs")],
  ["Message::get_context_arc() and condition outcomes after each step"])
p("C13","Interrupting a maintenance tool never damages source files",
  "If the in-place source and scenario rewriting tools are killed, or hit an I/O error, a full disk or a power loss, at any point, every file they manage is afterwards either its complete old or its complete new content (same data, file mode kept), no type definition has vanished from all of them, no other file is changed, and running the tool again gives the same files as one uninterrupted run, whatever order directories list their entries in.",
  ["crash_points","fault_sequences"],"all process-kill points before, inside and after file-system operations, torn and short writes, ENOSPC/EIO/EINTR on any operation, loss of un-synced data and renames at a power loss, all directory listing orders and hash seeds",
  "The tools have no tests at all.",
  ["apply-box-wrapping.py","generate-common.py","test_scenarios/json_semi_beautifier.py"],
  [("whole content is computed before it is written","apply-box-wrapping.py apply_boxing; json_semi_beautifier.py main"),("mod.rs is complete before duplicate types are removed elsewhere","generate-common.py main, write_types_to_file, remove_duplicates_from_files")],
  ["directory tree after crash, and after re-running the tool"])
p("C18","What a node sends is one well-formed message in canonical form",
  "Every XML message a node sends - published by a step or converted by a function, after any reception, relay, crash, restart or repetition and on any thread - is one complete well-formed XML document: declaration, Envelope, one AppHdr, one Document, elements in the order of the message definition and nothing else, with no character that XML forbids or that readers alter. Content that XML cannot hold is refused instead. It carries exactly the content that was received, and equal content is sent as equal bytes, whatever layout, element or member order, escaping and form it was received in, so that forwarding a sent message any number of times changes nothing in its bytes.",
  ["inputs","histories","schedules","crash_points"],"all message types and contents including every Unicode character, all layouts and orders of reception, all relay routes and crashes, all interleavings",
  "The tests look for a few substrings in what is sent and compare no two outputs.",
  ["src/mx_envelope.rs","src/plugin/publish.rs","src/document/*.rs","src/header/bah_pacs_008_001_08.rs"],
  [("envelope put together around the serialised parts","src/mx_envelope.rs to_xml, serialize_with_rename"),("field order and names of the generated types","src/document/*.rs, src/header/bah_pacs_008_001_08.rs")],
  ["bytes returned by to_xml and stored by publish_mx"])
p("C19","Definitions and headers outside the envelope are carried and checked alike",
  "The message definitions and business application headers that MxMessage does not carry (the STP, COV, ADV and MC variants in src/document and the header of every message type in src/header) keep, at every node that reads, writes or validates them on their own with the library's types, every element, attribute, code, list item and value over any number of XML and JSON hops, crashes and restarts, written in the order of the definition; and field-level validation reports for them exactly the broken length and pattern rules (code, field name, path), the same at every node, in any order or interleaving with other validations, one of them when failing fast, and when lenient all that lie below no optional field.",
  ["inputs","histories","schedules","crash_points"],"all 6 stand-alone document types and 30 headers, every field, every code, every rule at, within and beyond its limits, all routes over XML and JSON nodes with crashes, all orders and interleavings of validations",
  "No test touches these types beyond compiling them.",
  ["src/document/camt_105_001_02_mc.rs","src/document/camt_106_001_02_mc.rs","src/document/pacs_008_001_08_stp.rs","src/document/pacs_009_001_08_adv.rs","src/document/pacs_009_001_08_cov.rs","src/document/pacs_010_001_03_mc.rs","src/header/*.rs","src/validation.rs","src/parse_result.rs"],
  [("serde attributes and field order of the generated types","src/document/*_{mc,stp,adv,cov}.rs, src/header/bah_*.rs"),("generated Validate implementations","the same files")],
  ["quick_xml/serde_json text of the types, and findings of Validate::validate"])
p("C17","A long-running node does not fill up with the messages it has handled",
  "However many messages a node handles - accepted, refused, unroutable, abandoned half-way, of any type, each with identifiers of its own - the memory it holds afterwards does not keep growing, and neither does the work a further message takes.",
  ["histories","inputs","fault_sequences"],"all sequences of operations repeated any number of times on messages that differ in identifiers, types, elements and faults",
  "The tests handle a few messages per process and never look at what is left behind.",
  PL+["src/mx_envelope.rs","src/xml.rs","src/message_registry.rs","src/validation.rs"],
  [("compiled patterns and static tables are the only state kept between messages","src/validation.rs, src/message_registry.rs")],
  ["bytes allocated and work done per round of messages"])
p("C14","Damaged fields are found and named, by every node alike",
  "When a field breaks its length or pattern rule - written so by its sender or altered on the way - field-level validation at every node that receives the message reports exactly the broken rules (code, field name, path) and nothing about the fields that keep theirs. The report is the same after any number of re-encodings, crashes and restarts on the way, and in any order or interleaving with other validations; fail-fast validation reports one of these findings exactly when there is one, and lenient validation reports a subset that includes every finding not below an optional field.",
  ["inputs","histories","schedules","crash_points","fault_sequences"],"all message types, values at, within and beyond every rule, all alterations of texts in transit, all routes over XML and JSON nodes with crashes, all configurations, orders and interleavings",
  "The tests check a handful of fields of a few types, once each, at one node.",
  ["src/document/*.rs","src/validation.rs","src/parse_result.rs","src/error.rs"],
  [("generated Validate implementations","src/document/*.rs"),("rule helpers","src/validation.rs validate_length, validate_pattern, validate_required"),("collection of findings","src/parse_result.rs ErrorCollector, ParserConfig")],
  ["findings reported by Document::validate under each configuration"])
p("C15","Registry mappings are mutually consistent",
  "Short form, full form, element name and namespace of each message type map onto one another consistently for every registered type and fall back as documented for all others.",
  ["inputs"],"all type names","The tests sample three of 25 types.",
  ["src/message_registry.rs"],[("static table","src/message_registry.rs MESSAGE_REGISTRY")],["registry lookup functions"])
p("C16","The validation step enforces field-level constraints",
  "The workflow validation step reports a structurally well-formed message invalid when a field violates its length, pattern or code constraint, as the README's description of validation suggests.",
  ["inputs"],"all messages with one constraint violated","No test feeds a constraint-violating message to the workflow step.",
  ["src/plugin/validate.rs","README.md"],[("typed deserialisation only; field rules are not invoked","src/plugin/validate.rs validate_xml")],["validation result"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P),"properties")
