//! Processes: master -> managers (one per CPU, run no library code) -> one child per simulated process lifetime.
use crate::checks::{self, Viol};
use crate::rng::hash_bytes;
use crate::world::{self, Disk, EpochOut, Fault, Op, Plan};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Found { pub plan: Plan, pub sig: String, pub msg: String }

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub plans: u64, pub epochs: u64, pub steps: u64, pub switches: u64, pub sim_ns: u64, pub library_calls: u64,
    pub wall_reads: u64, pub entropy_bytes: u64, pub futex_waits: u64, pub timeouts: u64, pub peak_bytes: i64,
    pub faults: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub schedules: BTreeSet<u64>,
    pub cases: BTreeSet<u64>,
    pub fields: BTreeSet<usize>, pub codes: u64, pub docs: BTreeSet<usize>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.plans += o.plans; self.epochs += o.epochs; self.steps += o.steps; self.switches += o.switches; self.sim_ns += o.sim_ns; self.library_calls += o.library_calls;
        self.wall_reads += o.wall_reads; self.entropy_bytes += o.entropy_bytes; self.futex_waits += o.futex_waits; self.timeouts += o.timeouts; self.peak_bytes = self.peak_bytes.max(o.peak_bytes);
        for (k, v) in o.faults { *self.faults.entry(k).or_default() += v }
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_default() += v }
        for (k, v) in o.known { *self.known.entry(k).or_default() += v }
        self.schedules.extend(o.schedules); self.cases.extend(o.cases); self.fields.extend(o.fields); self.docs.extend(o.docs); self.codes += o.codes;
        if self.samples.len() < 4 { self.samples.extend(o.samples.into_iter().take(1)) }
    }
    pub fn fault(&mut self, k: &str, n: u64) { if n > 0 { *self.faults.entry(k.into()).or_default() += n } }
    pub fn outcome(&mut self, k: &str) { *self.outcomes.entry(k.into()).or_default() += 1 }
}
pub fn count_plan(p: &Plan, st: &mut Stats) {
    let f = |fs: &[Fault], st: &mut Stats| for x in fs { st.fault(match x { Fault::Trunc { .. } => "truncated", Fault::Lose { .. } => "fragment_lost", Fault::Repeat { .. } => "fragment_duplicated", Fault::Swap { .. } => "fragments_reordered", Fault::Flip { .. } => "byte_corrupted", Fault::Insert { .. } => "bytes_inserted", Fault::Junk { .. } => "payload_replaced", Fault::Deep { .. } => "deep_nesting", Fault::Bulk { .. } => "flooded", Fault::Edit { .. } => "text_changed" }, 1) };
    for d in &p.delivs { for q in &d.parts { f(&q.faults, st) } f(&d.faults, st); if d.parts.len() > 1 { st.fault("payloads_run_together", 1) } }
    for t in &p.tasks { for o in &t.ops { match o { Op::Clock { .. } => st.fault("clock_jump", 1), Op::Sleep { .. } => st.fault("stall", 1), Op::Flow { cancel, again, .. } => { st.fault("cancellation", (*cancel > 0) as u64); st.fault("redelivery", *again as u64) } _ => {} } } }
    if p.entropy.mode != 0 { st.fault("degenerate_entropy", 1) }
    if !p.clock.tz.is_empty() && p.clock.tz != "UTC" { st.fault("foreign_time_zone", 1) }
}

/// Executes plans; owned by one manager (or by the replayer/minimiser).
pub struct Ex { pub st: Stats, pub shared: *mut u8, pub main_dec: Vec<Vec<(u64, u32)>>, pub trouble: Option<String>, pub quiet: bool }
impl Ex {
    pub fn new() -> Ex {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
        Ex { st: Stats::default(), shared: p, main_dec: vec![], trouble: None, quiet: false }
    }
    /// The run under test: every epoch of the plan; its schedule is what a replay file records.
    pub fn main(&mut self, p: &Plan) -> Vec<EpochOut> {
        let o = self.run(p);
        self.main_dec = o.iter().map(|e| e.decisions.clone()).collect();
        if !self.quiet {
            self.st.plans += 1;
            count_plan(p, &mut self.st);
            let mut h = 0xcbf29ce484222325;
            for e in &o { h = hash_bytes(h, &e.hash.to_le_bytes()); self.st.schedules.insert(e.hash); self.st.fault("preemption", e.switches) }
            let mut q = p.clone(); q.idx = 0;
            h = hash_bytes(h, &serde_json::to_vec(&q).unwrap());
            self.st.cases.insert(h);
            if self.st.samples.is_empty() && self.st.plans > 3 { self.st.samples.push(checks::describe(p, &o)) }
        }
        o
    }
    /// A reference run (alone, uninterrupted, other clock ...).
    pub fn run(&mut self, p: &Plan) -> Vec<EpochOut> {
        let mut disk = Disk::default(); let mut outs = vec![];
        for e in 0..20 {
            let o = self.epoch(p, e, &disk);
            disk = o.disk.clone();
            let crash = o.end == "crash";
            if crash && !self.quiet { self.st.fault("process_crash", 1); }
            outs.push(o);
            if !crash { break }
        }
        if !self.quiet { let d = &outs.last().unwrap().disk; self.st.fault("unsynced_write_lost", d.lost as u64); self.st.fault("torn_write", d.torn as u64); }
        outs
    }
    fn epoch(&mut self, p: &Plan, e: usize, disk: &Disk) -> EpochOut {
        let mut o = self.fork(p, e, disk);
        if o.end == "silent" { // killed by nobody, said nothing: try once more before calling it trouble
            o = self.fork(p, e, disk);
            if o.end == "silent" && self.trouble.is_none() { self.trouble = Some(format!("child gave no answer: {}", o.at)) }
        }
        if !self.quiet {
            let s = &mut self.st;
            s.epochs += 1; s.steps += o.steps; s.switches += o.switches; s.sim_ns += o.now.saturating_sub(e as u64 * 3_600_000_000_000); s.wall_reads += o.reads.len() as u64; s.entropy_bytes += o.ent_bytes; s.futex_waits += o.futex_waits; s.timeouts += o.timeouts; s.peak_bytes = s.peak_bytes.max(o.peak);
            s.library_calls += o.calls;
        }
        o
    }
    fn fork(&mut self, p: &Plan, e: usize, disk: &Disk) -> EpochOut {
        let mut fds = [0i32; 2];
        unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0); *self.shared = 0; }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR); libc::dup2(n, 2); libc::dup2(n, 1);
                let lim = libc::rlimit { rlim_cur: p.x["cpu"].as_u64().unwrap_or(20), rlim_max: p.x["cpu"].as_u64().unwrap_or(20) + 5 }; libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 }; libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &lim);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                world::AT = self.shared;
            }
            world::child(p, e, disk.clone(), fds[1]);
        }
        unsafe { libc::close(fds[1]); }
        let mut buf = vec![]; let mut chunk = vec![0u8; 1 << 16];
        let t0 = Instant::now(); let mut killed = false;
        loop {
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut pf, 1, 1000) };
            if r > 0 { let n = unsafe { libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len()) }; if n <= 0 { break } buf.extend_from_slice(&chunk[..n as usize]); }
            if t0.elapsed() > Duration::from_secs(120) && !killed { killed = true; unsafe { libc::kill(pid, libc::SIGKILL); } }
        }
        unsafe { libc::close(fds[0]); }
        let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0); }
        if let Ok(o) = serde_json::from_slice::<EpochOut>(&buf) { return o }
        let at = unsafe { let mut v = vec![]; let mut i = 0; while i < 1000 && *self.shared.add(i) != 0 { v.push(*self.shared.add(i)); i += 1 } String::from_utf8_lossy(&v).into_owned() };
        let end = if killed { "silent".to_string() } else if libc::WIFSIGNALED(st) { match libc::WTERMSIG(st) { libc::SIGXCPU => "hang".into(), libc::SIGKILL => "silent".into(), s => format!("abort:{s}") } } else { format!("exit:{}", libc::WEXITSTATUS(st)) };
        EpochOut { end, at, ..Default::default() }
    }
}

#[derive(Serialize, Deserialize)]
enum Note { Found(Box<Found>), Stats(Box<Stats>), Trouble(String) }

pub struct Known { pub prop: String, pub sig: String, pub text: String }
pub fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", checks::home())) {
        for l in t.lines() { if let Some(r) = l.strip_prefix("known: property=") { let mut i = r.splitn(3, ' '); let (p, s, t) = (i.next().unwrap_or(""), i.next().unwrap_or(""), i.next().unwrap_or("")); v.push(Known { prop: p.into(), sig: s.trim_start_matches("sig=").into(), text: t.into() }) } }
    }
    v
}

pub struct Budget { pub runs: u64, pub secs: u64 }
fn cpus() -> Vec<usize> {
    unsafe { let mut s: libc::cpu_set_t = std::mem::zeroed(); libc::sched_getaffinity(0, std::mem::size_of_val(&s), &mut s); let v: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &s)).collect(); if v.is_empty() { vec![0] } else { v } }
}
fn manager(prop: &str, seed: u64, tier: &str, k: u64, w: u64, cpu: usize, b: &Budget, fd: i32) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let mut s: libc::cpu_set_t = std::mem::zeroed(); libc::CPU_SET(cpu, &mut s); libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
    let t0 = Instant::now();
    let mut ex = Ex::new();
    let known = known_findings();
    let say = |n: &Note| { let mut b = serde_json::to_vec(n).unwrap(); b.push(b'\n'); let mut o = 0; while o < b.len() { let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) }; if n <= 0 { break } o += n as usize } };
    let mut i = k;
    let only = std::env::var("MXSIM_ONLY").ok().and_then(|s| { let (m, r) = s.split_once(':')?; Some((m.parse::<u64>().ok()?, r.parse::<u64>().ok()?)) });
    while i < b.runs && t0.elapsed().as_secs() < b.secs {
        if only.is_some_and(|(m, r)| i % m != r) { i += w; continue }
        let p = checks::plan(prop, seed, i, tier);
        if let Some(v) = checks::check(&p, &mut ex) {
            if known.iter().any(|q| q.prop == prop && q.sig == v.sig) { *ex.st.known.entry(v.sig.clone()).or_default() += 1 }
            else {
                let mut q = p.clone();
                let decs = ex.main_dec.clone();
                // the schedule becomes part of the file
                while q.sched.len() < decs.len() { let s = q.sched.last().cloned().unwrap_or_default(); q.sched.push(s) }
                for (s, d) in q.sched.iter_mut().zip(decs) { s.decisions = Some(d) }
                ex.quiet = true;
                let plan = if checks::check(&q, &mut ex).is_some_and(|x| x.sig == v.sig) { q } else { p };
                say(&Note::Found(Box::new(Found { plan, sig: v.sig, msg: v.msg })));
                break;
            }
        }
        if let Some(t) = &ex.trouble { say(&Note::Trouble(t.clone())); break }
        i += w;
    }
    say(&Note::Stats(Box::new(ex.st)));
    unsafe { libc::_exit(0) }
}
/// Runs the whole search; the first violation found stops it.
pub fn search(prop: &str, seed: u64, tier: &str, b: &Budget) -> (Stats, Option<Found>, Option<String>) {
    let c = cpus();
    let w = std::env::var("MXSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(c.len().min(8)) as u64;
    let mut kids = vec![];
    for k in 0..w {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()); }
        let pid = unsafe { libc::fork() };
        if pid == 0 { unsafe { libc::close(fds[0]); } manager(prop, seed, tier, k, w, c[k as usize % c.len()], b, fds[1]); }
        unsafe { libc::close(fds[1]); }
        kids.push((pid, fds[0], Vec::<u8>::new(), true));
    }
    let mut st = Stats::default(); let mut found: Option<Found> = None; let mut trouble = None;
    while kids.iter().any(|k| k.3) {
        let mut pf: Vec<libc::pollfd> = kids.iter().filter(|k| k.3).map(|k| libc::pollfd { fd: k.1, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000); }
        for f in pf.iter().filter(|f| f.revents != 0) {
            let k = kids.iter_mut().find(|k| k.1 == f.fd && k.3).unwrap();
            let mut chunk = vec![0u8; 1 << 16];
            let n = unsafe { libc::read(k.1, chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if n <= 0 {
                k.3 = false; unsafe { libc::close(k.1); let mut s = 0; libc::waitpid(k.0, &mut s, 0); if s != 0 && found.is_none() { trouble = Some(format!("manager ended with status {s}")) } }
                continue;
            }
            k.2.extend_from_slice(&chunk[..n as usize]);
            while let Some(p) = k.2.iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = k.2.drain(..=p).collect();
                match serde_json::from_slice::<Note>(&line) {
                    Ok(Note::Found(f)) => if found.is_none() { found = Some(*f) },
                    Ok(Note::Stats(s)) => st.merge(*s),
                    Ok(Note::Trouble(t)) => trouble = Some(t),
                    Err(e) => trouble = Some(format!("bad note: {e}")),
                }
            }
        }
        if found.is_some() { for k in kids.iter().filter(|k| k.3) { unsafe { libc::kill(k.0, libc::SIGTERM); } } }
    }
    (st, found, trouble)
}

// ------------------------------------------------------------------ minimisation
pub fn minimise(f: &Found, secs: u64) -> Found {
    let mut ex = Ex::new(); ex.quiet = true;
    let t0 = Instant::now();
    let mut best = f.clone();
    let left = || t0.elapsed() < Duration::from_secs(secs);
    let mut attempt = |best: &mut Found, p: Plan| -> bool {
        if p == best.plan || !left() { return false }
        match checks::check(&p, &mut ex) { Some(Viol { sig, msg }) if sig == best.sig => {
            let mut p = p;
            let d = ex.main_dec.clone();
            for (i, s) in p.sched.iter_mut().enumerate() { if s.decisions.is_some() { s.decisions = Some(d.get(i).cloned().unwrap_or_default()) } }
            *best = Found { plan: p, sig, msg }; true }
            _ => false }
    };
    for _round in 0..3 {
        let start = best.plan.clone();
        // whole tasks, then operations, then steps
        let mut t = best.plan.tasks.len();
        while t > 0 { t -= 1; if best.plan.tasks.len() > 1 && t < best.plan.tasks.len() { let mut p = best.plan.clone(); p.tasks[t].ops.clear(); if !best.plan.tasks[t].ops.is_empty() { attempt(&mut best, p); } } }
        for t in 0..best.plan.tasks.len() {
            let mut n = best.plan.tasks[t].ops.len() / 2;
            while n >= 1 {
                let mut i = 0;
                while i < best.plan.tasks[t].ops.len() { let mut p = best.plan.clone(); let e = (i + n).min(p.tasks[t].ops.len()); p.tasks[t].ops.drain(i..e); if !attempt(&mut best, p) { i += n } if !left() { break } }
                n /= 2;
            }
            for i in 0..best.plan.tasks[t].ops.len() {
                if let Op::Steps { steps, .. } = &best.plan.tasks[t].ops[i] { let mut j = steps.len(); while j > 0 { j -= 1; let mut p = best.plan.clone(); if let Op::Steps { steps, .. } = &mut p.tasks[t].ops[i] && j < steps.len() { steps.remove(j); } attempt(&mut best, p); } }
                if let Op::Relay { hops, .. } = &best.plan.tasks[t].ops[i] { let mut j = hops.len(); while j > 2 { j -= 1; let mut p = best.plan.clone(); if let Op::Relay { hops, .. } = &mut p.tasks[t].ops[i] && j < hops.len() { hops.remove(j); } attempt(&mut best, p); } }
            }
        }
        if best.plan.x["fixed_flows"] != true { for fl in 0..best.plan.flows.len() { for w in (0..best.plan.flows[fl].workflows.len()).rev() { let mut j = best.plan.flows[fl].workflows[w].len(); while j > 0 { j -= 1; let mut p = best.plan.clone(); if j < p.flows[fl].workflows[w].len() { p.flows[fl].workflows[w].remove(j); attempt(&mut best, p); } } } } }
        // faults
        for d in 0..best.plan.delivs.len() {
            let mut j = best.plan.delivs[d].faults.len(); while j > 0 { j -= 1; let mut p = best.plan.clone(); p.delivs[d].faults.remove(j); attempt(&mut best, p); }
            let mut k = best.plan.delivs[d].parts.len();
            while k > 0 { k -= 1;
                let mut j = best.plan.delivs[d].parts[k].faults.len(); while j > 0 { j -= 1; let mut p = best.plan.clone(); p.delivs[d].parts[k].faults.remove(j); attempt(&mut best, p); }
                let mut p = best.plan.clone(); p.delivs[d].parts[k].layout = Default::default(); attempt(&mut best, p);
                if best.plan.delivs[d].parts.len() > 1 { let mut p = best.plan.clone(); p.delivs[d].parts.remove(k); attempt(&mut best, p); }
            }
        }
        if !best.plan.crashes.is_empty() { let mut p = best.plan.clone(); p.crashes.pop(); attempt(&mut best, p); let mut p = best.plan.clone(); p.crashes.clear(); attempt(&mut best, p); }
        // schedule
        let mut p = best.plan.clone(); if p.threads > 1 { p.threads = 1; for s in &mut p.sched { s.decisions = Some(vec![]) } attempt(&mut best, p); }
        for e in 0..best.plan.sched.len() {
            let mut p = best.plan.clone(); p.sched[e].decisions = Some(vec![]); attempt(&mut best, p);
            if let Some(d) = best.plan.sched[e].decisions.clone() && d.len() < 4000 {
                let mut n = d.len() / 2;
                while n >= 1 { let mut i = 0; while i < best.plan.sched[e].decisions.as_ref().map_or(0, |d| d.len()) { let mut p = best.plan.clone(); if let Some(d) = &mut p.sched[e].decisions { let x = (i + n).min(d.len()); d.drain(i..x); } if !attempt(&mut best, p) { i += n } if !left() { break } } n /= 2; }
            }
        }
        // environment and messages
        let mut p = best.plan.clone(); p.clock.tz = String::new(); attempt(&mut best, p);
        let mut p = best.plan.clone(); p.entropy.mode = 0; attempt(&mut best, p);
        for m in 0..best.plan.msgs.len() {
            for f in [|g: &mut crate::model::GenCfg| g.density = 0, |g: &mut crate::model::GenCfg| g.text = 0, |g: &mut crate::model::GenCfg| g.rep = 1, |g: &mut crate::model::GenCfg| g.long = 0, |g: &mut crate::model::GenCfg| g.budget = 60, |g: &mut crate::model::GenCfg| g.target = usize::MAX] { let mut p = best.plan.clone(); f(&mut p.msgs[m].g); attempt(&mut best, p); }
        }
        if best.plan == start || !left() { break }
    }
    best
}
pub fn write_replay(f: &Found) -> String {
    let dir = format!("{}/replays", checks::home());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:016x}.json", f.plan.prop, hash_bytes(0xcbf29ce484222325, serde_json::to_string(f).unwrap().as_bytes()));
    std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": f.plan.prop, "violation": f.sig, "message": f.msg, "seed": f.plan.x.get("seed"), "index": f.plan.idx, "plan": f.plan})).unwrap()).unwrap();
    path
}
