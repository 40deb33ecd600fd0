//! mxsim: deterministic simulation with fault injection for MXMessage.  See DESIGN.md.
mod checks; mod driver; mod exec; mod model; mod rng; mod sys; mod world;
use serde_json::{Value, json};

/// Accepts every span and event, so that the library's instrumentation really runs, and is itself a scheduling point.
struct Sub;
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { sys::point(); tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) { struct V; impl tracing::field::Visit for V { fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) { let _ = format!("{v:?}"); } } e.record(&mut V); sys::point(); }
    fn enter(&self, _: &tracing::span::Id) { sys::point() }
    fn exit(&self, _: &tracing::span::Id) { sys::point() }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // addresses are the same in every process, if the system lets us
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("MXSIM_NOASLR").is_none() && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("MXSIM_NOASLR", "1").exec();
        }
    }
    model::use_schema("");
    world::load_scenarios(&std::env::var("MXSIM_REPO").unwrap_or("/repo".into()));
    std::panic::set_hook(Box::new(|i| world::record_panic(i.to_string().chars().take(400).collect())));
    let _ = tracing::subscriber::set_global_default(Sub);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("bytes") => bytes(&a[2]),
        Some("show") => { let i = a[3].parse().unwrap(); let p = checks::plan(&a[2], seed(), i, &tier()); println!("{}", serde_json::to_string_pretty(&p).unwrap()); let mut ex = driver::Ex::new(); let v = checks::check(&p, &mut ex); if let Some(v) = v { println!("VIOL {} {}", v.sig, v.msg) } if a.len() > 4 { for o in ex.run(&p) { println!("{}", serde_json::to_string_pretty(&o).unwrap()) } } 0 }
        Some("determinism") => determinism(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(40)),
        _ => { eprintln!("usage: mxsim check <property> | replay <file> | show <property> <index> | determinism [runs]"); 2 }
    };
    std::process::exit(code);
}
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn tier() -> String { std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or("quick".into()) }

fn check(prop: &str) -> i32 {
    let t0 = std::time::Instant::now();
    model::use_schema(prop);
    let (seed, tier) = (seed(), tier());
    let mut b = checks::budget(prop, &tier);
    if let Some(n) = std::env::var("MXSIM_RUNS").ok().and_then(|s| s.parse().ok()) { b.runs = n }
    if let Some(n) = std::env::var("MXSIM_SECS").ok().and_then(|s| s.parse().ok()) { b.secs = n }
    // listed findings are shown to be still there, each by its own input
    let known: Vec<driver::Known> = driver::known_findings().into_iter().filter(|k| k.prop == prop).collect();
    let (st, found, trouble) = driver::search(prop, seed, &tier, &b);
    let mut ex = driver::Ex::new(); ex.quiet = true;
    for k in &known { if checks::probe_known(&k.sig, &mut ex) { println!("KNOWN-FINDING: property={prop} {}", k.text) } }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, seed, &tier, &st, found.is_some() as u64, wall, &known);
    if let Some(f) = found {
        println!("violation: {} — {}", f.sig, f.msg);
        let m = driver::minimise(&f, if tier == "quick" { 25 } else { 90 });
        let path = driver::write_replay(&m);
        let mut ex = driver::Ex::new(); ex.quiet = true;
        match checks::check(&m.plan, &mut ex) { Some(v) if v.sig == m.sig => println!("minimised: {}", v.msg), o => println!("replay of the minimised file gave {:?}", o.map(|v| v.sig)) }
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(t) = trouble { eprintln!("check could not finish: {t}"); return 3 }
    if st.plans == 0 { eprintln!("nothing ran"); return 3 }
    println!("ok {prop}: {} runs, {} simulated processes, {} scheduling points, {:.0} s", st.plans, st.epochs, st.steps, wall);
    0
}
fn evidence(prop: &str, seed: u64, tier: &str, st: &driver::Stats, viol: u64, wall: f64, known: &[driver::Known]) {
    let s = model::schema();
    let mut cov = json!({
        "evaluations": st.plans, "distinct_nontrivial": st.cases.len(), "rule": checks::rule(prop), "samples": st.samples,
        "runs_per_hour": (st.plans as f64 / wall * 3600.0) as u64, "simulated_processes": st.epochs, "library_calls": st.library_calls,
        "simulated_seconds": st.sim_ns as f64 / 1e9, "scheduling_points": st.steps, "preemptions": st.switches,
        "distinct_interleavings": st.schedules.len(), "interleaving_measure": "hash of all scheduling decisions, context switches and clock readings of one simulated process",
        "faults_injected": st.faults, "outcomes": st.outcomes,
        "clock_readings": st.wall_reads, "entropy_bytes": st.entropy_bytes, "blocking_waits": st.futex_waits, "timeouts_fired": st.timeouts, "peak_library_heap_bytes": st.peak_bytes,
        "message_types": st.docs.len(),
        "real_components": ["mx-message (all of src/)", "dataflow-rs engine", "datalogic-rs", "datafake-rs", "quick-xml", "serde_json", "regex", "chrono", "uuid", "Rust std synchronisation and thread-locals"],
        "stubs": ["thread scheduler", "futexes", "clocks", "OS entropy", "async executor and timers", "channel between sender and receiver", "disk with checkpoints", "tracing subscriber", "sim_yield/sim_probe/sim_checkpoint workflow steps"],
        "known_findings_met": st.known,
    });
    if !st.fields.is_empty() { cov["schema_fields_exercised"] = json!(format!("{} of {}", st.fields.len(), s.nfields)); cov["codes_drawn"] = json!(st.codes); }
    let e: Value = json!({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
        "assumptions": ["preemption happens only at heap operations, futex/yield calls, clock and entropy reads, tracing events and step boundaries", "the schema snapshot in sim/schema.json is the reference for element names, order, multiplicity and codes", if prop == "C14" { "the field rules in sim/rules.json (taken from the sources when the check was written) are the reference for lengths, patterns and nesting".to_string() } else { "the reference encoder, decoder and data model in sim/src/model.rs".to_string() }, format!("{} known findings listed", known.len())]});
    let dir = format!("{}/evidence", checks::home());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}
fn bytes(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    for (i, b) in checks::payload_bytes(&serde_json::from_value(v["plan"].clone()).unwrap()).iter().enumerate() { println!("--- delivery {i}\n{b}"); }
    0
}
fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let v: Value = serde_json::from_str(&t).unwrap();
    let p: world::Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let mut ex = driver::Ex::new();
    match checks::check(&p, &mut ex) {
        Some(x) => { println!("{}: {}", x.sig, x.msg); println!("VIOLATION property={} replay={path}", p.prop); if Some(x.sig.as_str()) == v["violation"].as_str() { 1 } else { println!("(file records {})", v["violation"]); 1 } }
        None => { println!("no violation"); 0 }
    }
}
/// Every property's plans run twice must give identical logs, schedules and clocks.
fn determinism(n: u64) -> i32 {
    let mut bad = 0; let mut tot = 0;
    for prop in checks::PROPS {
        for i in 0..n {
            let p = checks::plan(prop, seed(), i, &tier());
            if p != checks::plan(prop, seed(), i, &tier()) { println!("{prop} {i}: plan differs"); bad += 1; }
            let mut ex = driver::Ex::new();
            let (a, b) = (ex.run(&p), ex.run(&p));
            tot += 1;
            let (x, y) = (serde_json::to_string(&a).unwrap(), serde_json::to_string(&b).unwrap());
            if x != y { println!("{prop} {i}: runs differ ({} / {} points)", a[0].steps, b[0].steps); bad += 1; }
            // and with the schedule written out
            let mut q = p.clone();
            while q.sched.len() < a.len() { let s = q.sched.last().cloned().unwrap_or_default(); q.sched.push(s) }
            for (s, o) in q.sched.iter_mut().zip(&a) { s.decisions = Some(o.decisions.clone()) }
            let c = ex.run(&q);
            if serde_json::to_string(&c).unwrap() != x { println!("{prop} {i}: replay of the written-out schedule differs"); bad += 1; }
        }
    }
    println!("determinism: {tot} plans, each run three times, {bad} differences");
    (bad > 0) as i32
}
