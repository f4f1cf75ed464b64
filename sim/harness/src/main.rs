//! Deterministic simulation of the whole minter canister.  One plan is one execution.
mod chain;
mod image;
mod judge;
mod legacy;
mod ledger;
mod model;
mod plan;
mod replica;
mod rpc;
mod types;
mod util;
mod watch;
mod world;

use plan::{generate, profile_for, Plan};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const LIVENESS: [&str; 5] = ["P02", "P03", "P06", "P08", "P09"];
/// Seconds of processor time one simulated run may take; a message that loops for ever ends here (the platform's instruction limit).
const RUN_LIMIT_S: u32 = 30;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn flag(name: &str) -> bool {
    std::env::args().any(|x| x == name)
}

/// The canister prints to descriptor 1; results go to a private copy of it.
fn own_stdout() -> std::fs::File {
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    }
}

/// Tells of a violation at once, in case the run never ends.
pub fn early(prop: &str, msg: &str, at_s: u64) {
    unsafe {
        if EARLY {
            let m = json!({"early": [prop, msg, at_s]}).to_string() + "\n";
            libc::write(OUT_FD, m.as_ptr() as *const _, m.len());
        }
    }
}
/// The property a run is about; a run ends when it is violated.
pub fn target() -> &'static str {
    static T: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    T.get_or_init(|| match arg("--prop") {
        Some(p) => p,
        None => arg("--plan").and_then(|f| read_plan(&f).0.get("property").and_then(|x| x.as_str().map(|s| s.to_string()))).unwrap_or_default(),
    })
    .as_str()
}
static mut EARLY: bool = false;
static mut OUT_FD: i32 = -1;
extern "C" fn on_signal(s: i32) {
    unsafe {
        let m: &[u8] = if s == libc::SIGPROF { b"{\"dead\":\"a message never ended\"}\n" } else { b"{\"dead\":\"the canister crashed\"}\n" };
        libc::write(OUT_FD, m.as_ptr() as *const _, m.len());
        libc::_exit(7);
    }
}
fn guard_signals(fd: i32) {
    unsafe {
        OUT_FD = fd;
        let size = 1 << 16;
        let stack = libc::stack_t { ss_sp: libc::malloc(size), ss_flags: 0, ss_size: size };
        libc::sigaltstack(&stack, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as extern "C" fn(i32) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        std::panic::set_hook(Box::new(|i| {
            let m = json!({"dead": format!("the simulated peers cannot follow the minter: {}", i).replace('\n', " "), "any": true}).to_string() + "\n";
            libc::write(OUT_FD, m.as_ptr() as *const _, m.len());
            libc::_exit(7);
        }));
        for s in [libc::SIGPROF, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}
/// Ends the process after that many seconds of processor time (0: never).
fn cpu_limit(s: u32) {
    let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let it = libc::itimerval { it_interval: z, it_value: libc::timeval { tv_sec: s as i64, tv_usec: 0 } };
    unsafe { setitimer(2,  &it, std::ptr::null_mut()) };
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    util::hs(base, prop, i) % 1_000_000_000_000
}
fn plan_of(base: u64, prop: &str, i: u64) -> Plan {
    let profile = if i % 2 == 0 { profile_for(prop) } else { "general" };
    let mut p = generate(seed_of(base, prop, i), profile);
    if matches!(prop, "P09" | "P20" | "P21") && i < legacy::fixtures().len() as u64 {
        p.legacy = Some(i);
    }
    p
}

fn one(rep: &mut replica::Replica, p: &Plan, verbose: bool) -> (Vec<world::Violation>, world::Stats, BTreeSet<u64>) {
    cpu_limit(RUN_LIMIT_S);
    let mut r = world::run(rep, p, verbose);
    // Something that goes wrong with upgrades, and does not with plain restarts in their place, was lost in an upgrade.
    if target() == "P09" && !r.0.is_empty() && !r.0.iter().any(|v| v.prop == "P09") && r.1.upgrades > 0 {
        let with = |op: plan::Op| {
            let mut q = p.clone();
            for a in q.acts.iter_mut().filter(|a| matches!(a.op, plan::Op::Upgrade { .. })) {
                a.op = op.clone();
            }
            q
        };
        let bare = world::run(rep, &with(plan::Op::Upgrade { spec: 0 }), false).0;
        let none = world::run(rep, &with(plan::Op::Restart), false).0;
        if let Some(x) = bare.iter().find(|x| !none.iter().any(|y| y.prop == x.prop)) {
            r.0.push(world::Violation { prop: "P09", msg: format!("only if the minter is upgraded: {}", x.msg), at_s: x.at_s });
        }
    }
    cpu_limit(0);
    r
}

fn load() -> replica::Replica {
    std::env::set_var("RUST_BACKTRACE", "0");
    replica::Replica::load(&arg("--lib").expect("--lib"))
}

fn worker() {
    let mut out = own_stdout();
    let prop = arg("--prop").unwrap_or_default();
    let base = num("--seed", 1);
    let (k, n, runs) = (num("--k", 0), num("--n", 1), num("--runs", 10));
    let until = Instant::now() + Duration::from_secs(num("--time", 1_000_000));
    let twice = num("--twice", 0);
    use std::os::fd::AsRawFd;
    guard_signals(out.as_raw_fd());
    let mut rep = load();
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    unsafe { EARLY = true };
    let mut i = k;
    while i < runs && Instant::now() < until {
        let p = plan_of(base, &prop, i);
        let _ = writeln!(out, "{}", json!({"start": i}));
        let (v, st, edges) = one(&mut rep, &p, false);
        let mut same = Value::Null;
        if i < twice {
            let (v2, st2, _) = one(&mut rep, &p, false);
            same = json!(st.trace_hash == st2.trace_hash && v.len() == v2.len());
        }
        let new: Vec<u64> = edges.iter().filter(|e| !seen.contains(*e)).cloned().collect();
        seen.extend(new.iter());
        let r = json!({
            "i": i, "seed": p.seed, "hash": st.trace_hash, "same": same,
            "v": v.iter().map(|v| json!([v.prop, v.msg, v.at_s])).collect::<Vec<_>>(),
            "edges": new,
            "sim_s": st.sim_s, "messages": st.messages, "settled": st.settled,
            "n": [st.events, st.deposits, st.mints, st.withdrawals, st.finalized, st.reimbursed, st.replaced, st.upgrades, st.refused, st.reorgs, st.traps, st.genuine_traps],
            "faults": st.faults, "checks": st.checks,
        });
        let _ = writeln!(out, "{}", r);
        i += n;
    }
    let _ = writeln!(out, "{}", json!({"done": k}));
    let _ = out.flush();
    unsafe { libc::_exit(0) };
}

/// Shrinks a failing plan: drops actions, fault windows and tokens while the same property still fails.
fn minimise() {
    let mut out = own_stdout();
    use std::os::fd::AsRawFd;
    guard_signals(out.as_raw_fd());
    let prop = arg("--prop").unwrap();
    let until = Instant::now() + Duration::from_secs(num("--time", 30));
    let mut p = if let Some(f) = arg("--plan") { read_plan(&f).1 } else { plan_of(num("--seed", 1), &prop, num("--i", 0)) };
    let mut rep = load();
    let mut tries = 0u64;
    let mut fails = |p: &Plan| -> Option<(String, u64, u64)> {
        tries += 1;
        let (v, st, _) = one(&mut rep, p, false);
        v.into_iter().find(|v| v.prop == prop).map(|v| (v.msg, v.at_s, st.trace_hash))
    };
    let Some(mut best) = fails(&p) else {
        let _ = writeln!(out, "{}", json!({"lost": true}));
        unsafe { libc::_exit(0) };
    };
    let before = (p.acts.len(), p.faults.len());
    'outer: loop {
        let mut shrunk = false;
        for what in 0..2 {
            let len = |p: &Plan| if what == 0 { p.faults.len() } else { p.acts.len() };
            let mut chunk = len(&p).div_ceil(2).max(1);
            loop {
                let mut at = 0;
                while at < len(&p) {
                    if Instant::now() > until {
                        break 'outer;
                    }
                    let mut q = p.clone();
                    let hi = (at + chunk).min(len(&p));
                    if what == 0 {
                        q.faults.drain(at..hi);
                    } else {
                        q.acts.drain(at..hi);
                    }
                    match fails(&q) {
                        Some(m) => {
                            best = m;
                            p = q;
                            shrunk = true;
                        }
                        None => at += chunk,
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        if !p.cfg.bad_inits.is_empty() {
            let mut q = p.clone();
            q.cfg.bad_inits.clear();
            if let Some(m) = fails(&q) {
                best = m;
                p = q;
            }
        }
        if !shrunk {
            break;
        }
    }
    let again = fails(&p);
    let doc = json!({
        "property": prop, "violation": best.0, "at_simulated_second": best.1, "trace_hash": best.2,
        "reproduced": again.as_ref() == Some(&best),
        "shrunk_from": {"actions": before.0, "fault_windows": before.1}, "runs_to_shrink": tries,
        "plan": p,
    });
    let _ = writeln!(out, "{}", doc);
    let _ = out.flush();
    unsafe { libc::_exit(0) };
}

fn read_plan(f: &str) -> (Value, Plan) {
    let s = std::fs::read_to_string(f).expect("replay file");
    let v: Value = serde_json::from_str(&s).expect("json");
    let p = v.get("plan").cloned().unwrap_or(v.clone());
    (v, serde_json::from_value(p).expect("plan"))
}

fn replay() {
    let mut out = own_stdout();
    let (doc, p) = read_plan(&arg("--plan").expect("--plan"));
    let mut rep = load();
    let (v, st, _) = one(&mut rep, &p, !flag("--quiet"));
    for x in &v {
        let _ = writeln!(out, "{} at {} s: {}", x.prop, x.at_s, x.msg);
    }
    let want = doc.get("property").and_then(|x| x.as_str()).unwrap_or("");
    let hit = v.iter().any(|x| x.prop == want);
    let exact = doc.get("trace_hash").and_then(|x| x.as_u64()) == Some(st.trace_hash);
    let _ = writeln!(out, "{} ({}); trace {}{}", if hit { "reproduced" } else { "not reproduced" }, want, st.trace_hash, if exact { " identical to the recorded one" } else { "" });
    let _ = out.flush();
    unsafe { libc::_exit(if hit || (want.is_empty() && !v.is_empty()) { 1 } else { 0 }) };
}

fn explore() {
    let mut out = own_stdout();
    let mut rep = load();
    let prop = arg("--prop").unwrap_or("P00".into());
    let p = match arg("--raw") {
        Some(s) => generate(s.parse().unwrap(), &arg("--profile").unwrap_or("general".into())),
        None => plan_of(num("--seed", 1), &prop, num("--i", 0)),
    };
    let t = Instant::now();
    let (v, st, e) = one(&mut rep, &p, flag("--verbose"));
    let _ = writeln!(out, "{} {:?}\n{:?}\nedges {} wall {:?}", watch::describe(&p), p.cfg, st, e.len(), t.elapsed());
    for x in &v {
        let _ = writeln!(out, "{} at {} s: {}", x.prop, x.at_s, x.msg);
    }
    let _ = out.flush();
    unsafe { libc::_exit(0) };
}

struct Known {
    prop: String,
    pattern: String,
    text: String,
}
fn known(prop: &str) -> Vec<Known> {
    let Some(f) = arg("--known") else { return vec![] };
    let s = std::fs::read_to_string(f).unwrap_or_default();
    // "known: property=P01 match=<text> :: <what fails>"
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, l) = l.split_once(" match=")?;
            let (m, t) = l.split_once(" :: ")?;
            (p == prop).then(|| Known { prop: p.into(), pattern: m.into(), text: t.into() })
        })
        .collect()
}

fn check() -> i32 {
    let start = Instant::now();
    let prop = arg("--prop").expect("--prop");
    let tier = arg("--tier").unwrap_or("quick".into());
    let base = num("--seed", 1);
    let workers = num("--workers", 8);
    let runs = num("--runs", 400);
    let time = num("--time", 40);
    let lib = arg("--lib").unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut children = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<(u64, String)>();
    for k in 0..workers {
        let mut c = Command::new(&exe)
            .args(["worker", "--prop", &prop, "--seed", &base.to_string(), "--k", &k.to_string(), "--n", &workers.to_string()])
            .args(["--runs", &runs.to_string(), "--time", &time.to_string(), "--lib", &lib, "--twice", &workers.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                let _ = tx.send((k, l));
            }
            let _ = tx.send((k, "{\"eof\":true}".into()));
        });
        children.push(c);
    }
    drop(tx);
    let known = known(&prop);
    let mut bad: Option<(u64, String)> = None;
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut started: BTreeMap<u64, u64> = BTreeMap::new();
    let mut early: BTreeMap<u64, String> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut totals = [0u64; 12];
    let (mut n, mut sim, mut msgs, mut evals, mut settled, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut edges: BTreeSet<u64> = BTreeSet::new();
    let mut per_seed: Vec<Value> = vec![];
    let (mut det, mut det_bad) = (0u64, 0u64);
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut dead: Option<(u64, String, bool)> = None;
    let mut done = 0;
    let mut alive = workers;
    let mut stopping: Option<Instant> = None;
    while alive > 0 {
        let msg = match stopping {
            None => rx.recv().ok(),
            Some(t) => rx.recv_timeout(t.saturating_duration_since(Instant::now())).ok(),
        };
        let Some((k, l)) = msg else { break };
        let v: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
        if v.get("eof").is_some() {
            alive -= 1;
            continue;
        }
        if v.get("done").is_some() {
            done += 1;
            continue;
        }
        if let Some(i) = v.get("start").and_then(|x| x.as_u64()) {
            started.insert(k, i);
            early.remove(&k);
            continue;
        }
        if let Some(x) = v.get("early") {
            if x[0] == json!(prop) {
                early.insert(k, x[1].as_str().unwrap_or("").to_string());
            }
            continue;
        }
        if let Some(m) = v.get("dead").and_then(|x| x.as_str()) {
            let i = started.get(&k).cloned().unwrap_or(0);
            if dead.as_ref().map_or(true, |d| i < d.0) {
                dead = Some((i, m.to_string(), v.get("any").is_some()));
            }
            if let Some(e) = early.get(&k) {
                if !known.iter().any(|f| e.contains(&f.pattern)) && bad.as_ref().map_or(true, |b| i < b.0) {
                    bad = Some((i, e.clone()));
                }
            }
            continue;
        }
        let Some(i) = v.get("i").and_then(|x| x.as_u64()) else { continue };
        n += 1;
        sim += v["sim_s"].as_u64().unwrap_or(0);
        msgs += v["messages"].as_u64().unwrap_or(0);
        settled += v["settled"].as_bool().unwrap_or(false) as u64;
        let e = v["checks"].get(&prop).and_then(|x| x.as_u64()).unwrap_or(0);
        evals += e;
        if traces.insert(v["hash"].as_u64().unwrap_or(0)) && e > 0 {
            nontrivial += 1;
        }
        for x in v["edges"].as_array().into_iter().flatten() {
            edges.insert(x.as_u64().unwrap_or(0));
        }
        for (j, t) in totals.iter_mut().enumerate() {
            *t += v["n"][j].as_u64().unwrap_or(0);
        }
        for (f, c) in v["faults"].as_object().into_iter().flatten() {
            *faults.entry(f.clone()).or_default() += c.as_u64().unwrap_or(0);
        }
        match v["same"].as_bool() {
            Some(true) => det += 1,
            Some(false) => {
                det += 1;
                det_bad += 1;
            }
            None => {}
        }
        if per_seed.len() < 12 {
            per_seed.push(json!({"run": i, "seed": v["seed"], "simulated_s": v["sim_s"], "messages": v["messages"], "oracle_evaluations": e}));
        }
        for x in v["v"].as_array().into_iter().flatten() {
            let (p, m) = (x[0].as_str().unwrap_or(""), x[1].as_str().unwrap_or(""));
            if p != prop {
                *others.entry(p.to_string()).or_default() += 1;
                continue;
            }
            if let Some(kf) = known.iter().find(|k| k.prop == p && m.contains(&k.pattern)) {
                *known_hit.entry(kf.text.clone()).or_default() += 1;
                continue;
            }
            if bad.as_ref().map_or(true, |b| i < b.0) {
                bad = Some((i, m.to_string()));
            }
            if stopping.is_none() {
                stopping = Some(Instant::now() + Duration::from_millis(300));
            }
        }
    }
    for c in children.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let sim_wall = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = Value::Null;
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k.text);
    }
    let dir = arg("--replay-dir").unwrap_or("/tmp".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop, tier);
    if let Some((i, m)) = &bad {
        let doc = Command::new(&exe)
            .args(["minimise", "--prop", &prop, "--seed", &base.to_string(), "--i", &i.to_string(), "--lib", &lib, "--time", &num("--shrink", 40).to_string()])
            .stderr(Stdio::null())
            .output()
            .ok()
            .and_then(|o| String::from_utf8(o.stdout).ok())
            .and_then(|s| s.lines().rev().find_map(|l| serde_json::from_str::<Value>(l).ok().filter(|v| v.get("plan").is_some())));
        let doc = doc.unwrap_or_else(|| json!({"property": prop, "violation": m, "plan": plan_of(base, &prop, *i)}));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("violation (run {}, seed {}): {}", i, seed_of(base, &prop, *i), doc["violation"].as_str().unwrap_or(m));
        violation = doc["violation"].clone();
        code = 1;
    } else if let Some((i, m, any)) = &dead {
        if *any || LIVENESS.contains(&prop.as_str()) {
            let doc = json!({"property": prop, "violation": m, "plan": plan_of(base, &prop, *i)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            println!("violation (run {}): {}", i, m);
            violation = json!(m);
            code = 1;
        }
    }
    if code == 1 {
        println!("VIOLATION property={} replay={}", prop, path);
    } else if n == 0 || (done == 0 && dead.is_none()) {
        println!("no run completed");
        code = 2;
    }
    let names = ["log_entries", "deposits", "mints", "withdrawals", "finalised", "reimbursed", "fee_bumps", "upgrades", "refused_upgrades", "reorgs", "traps", "traps_not_injected"];
    let totals: BTreeMap<&str, u64> = names.iter().cloned().zip(totals).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "wall_s": start.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": "one evaluation = one judgement of this property's oracle inside a simulated run; a run is counted as distinct and non-trivial when its full event trace hash is new and it judged this property at least once",
            "samples": per_seed,
            "simulated_runs": n,
            "seeds_per_hour": (n as f64 / sim_wall * 3600.0) as u64,
            "simulated_seconds": sim,
            "messages_executed": msgs,
            "runs_settled": settled,
            "distinct_traces": traces.len(),
            "distinct_transitions": edges.len(),
            "transition_measure": "pairs (previous message label x in-flight calls x trapped, next message or log entry)",
            "faults_injected": faults,
            "activity": totals,
            "determinism": {"runs_executed_twice": det, "differing": det_bad},
            "other_properties_violated": others,
            "known_findings_met": known_hit,
            "violation": violation,
            "dead": dead.map(|d| d.1),
        },
        "components": {
            "real": "minter/src (whole canister incl. main.rs) and evm_rpc_client/src, compiled natively from /repo's working tree",
            "stub": "IC system API and scheduler, ic-cdk call/timer glue, stable memory, EVM RPC canister and providers, EVM chain, ICRC ledgers, management canister (real secp256k1), ledger suite manager"
        }
    });
    if let Some(o) = arg("--out") {
        let _ = std::fs::write(&o, serde_json::to_string_pretty(&ev).unwrap() + "\n");
    }
    println!("{} {}: {} runs, {} evaluations, {} distinct traces, {} transitions, {} simulated hours, {:.1} s", prop, tier, n, evals, traces.len(), edges.len(), sim / 3600, start.elapsed().as_secs_f64());
    if det_bad > 0 {
        println!("warning: {} of {} repeated runs differed", det_bad, det);
    }
    code
}

/// Runs seeds of every property in turn until something fails.
fn hunt() {
    let mut out = own_stdout();
    use std::os::fd::AsRawFd;
    guard_signals(out.as_raw_fd());
    let mut rep = load();
    let base = num("--seed", 1);
    for i in 0..num("--runs", 300) {
        let prop = format!("P{:02}", 1 + i % 21);
        let p = plan_of(base, &prop, i / 21);
        let (v, _, _) = one(&mut rep, &p, false);
        if let Some(f) = v.iter().min_by_key(|x| x.at_s) {
            let all: Vec<&str> = v.iter().map(|x| x.prop).collect();
            let _ = writeln!(out, "KILLED run {} [{}] {}", i, all.join(","), f.msg.chars().take(300).collect::<String>());
            unsafe { libc::_exit(0) };
        }
    }
    let _ = writeln!(out, "SURVIVED");
    unsafe { libc::_exit(0) };
}

/// Runs seeds for every property at once and lists what fails.
fn survey() -> i32 {
    let exe = std::env::current_exe().unwrap();
    let lib = arg("--lib").unwrap();
    let props: Vec<String> = match arg("--props") {
        Some(p) => p.split(',').map(|s| s.to_string()).collect(),
        None => (1..=21).map(|i| format!("P{:02}", i)).collect(),
    };
    let runs = num("--runs", 20);
    let base = num("--seed", 1);
    let jobs: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(props.iter().rev().cloned().collect());
    let out = std::sync::Mutex::new(());
    std::thread::scope(|s| {
        for _ in 0..num("--workers", 8) {
            s.spawn(|| loop {
                let Some(p) = jobs.lock().unwrap().pop() else { break };
                let o = Command::new(&exe).args(["worker", "--prop", &p, "--seed", &base.to_string(), "--runs", &runs.to_string(), "--lib", &lib]).stderr(Stdio::null()).output().unwrap();
                let _g = out.lock().unwrap();
                let mut start = 0;
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    let v: Value = serde_json::from_str(l).unwrap_or(Value::Null);
                    if let Some(i) = v.get("start").and_then(|x| x.as_u64()) {
                        start = i;
                    }
                    if v.get("dead").is_some() {
                        println!("{} i={} DEAD {}", p, start, v["dead"]);
                    }
                    let all: Vec<String> = v["v"].as_array().into_iter().flatten().map(|x| x[0].as_str().unwrap().to_string()).collect();
                    if let Some(x) = v["v"].as_array().and_then(|a| a.iter().min_by_key(|x| x[2].as_u64())) {
                        println!("{} i={} [{}] {} s: {}", p, v["i"], all.join(","), x[2], x[1].as_str().unwrap_or(""));
                    }
                    if v.get("i").is_some() && v["settled"] == json!(false) && all.is_empty() {
                        println!("{} i={} not settled", p, v["i"]);
                    }
                }
            });
        }
    });
    0
}

fn main() {
    let code = match std::env::args().nth(1).as_deref() {
        Some("check") => check(),
        Some("worker") => {
            worker();
            0
        }
        Some("minimise") => {
            minimise();
            0
        }
        Some("replay") => {
            replay();
            0
        }
        Some("explore") => {
            explore();
            0
        }
        Some("survey") => survey(),
        Some("probe") => {
            let _ = unsafe { image::Image::load(&arg("--lib").expect("--lib")) };
            0
        }
        Some("record") => {
            let mut out = own_stdout();
            let mut rep = load();
            let v = legacy::record(&mut rep, (0..4000).map(|i| {
                let mut p = generate(seed_of(77, "record", i), ["upgrades", "withdrawals", "general"][(i % 3) as usize]);
                if i % 2 == 0 {
                    p.quiet_s = 0;
                }
                p
            }));
            let _ = writeln!(out, "{}", serde_json::to_string(&v).unwrap());
            let _ = out.flush();
            unsafe { libc::_exit(0) }
        }
        Some("hunt") => {
            hunt();
            0
        }
        _ => {
            eprintln!("usage: minter_sim check|replay|minimise|explore|survey ...");
            2
        }
    };
    std::process::exit(code);
}
