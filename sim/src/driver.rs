//! Search over seeds with worker processes, minimisation, replay files and evidence.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::props::{self, Case, Ctx, Stats, Verdict};
use crate::run::scratch_root;
use crate::scenario::*;

/// a case that does not come back for that long (it usually takes milliseconds) hangs
const HANG_S: u64 = 100;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    /// search seed and number of the case that failed first
    pub search_seed: u64,
    pub case_number: u64,
    /// None: the case itself is not known in more detail (e.g. the process died)
    pub case: Option<Case>,
    pub expected: String,
    pub minimised: String,
    pub trace: Vec<String>,
}

fn case_seed(seed: u64, idx: u64) -> u64 {
    seed.wrapping_mul(0x1_0000_0001).wrapping_add(idx)
}

/// class of a violation: numbers removed, so that minimising does not drift to another problem
fn class_of(v: &str) -> String {
    let mut s = String::new();
    for c in v.chars() {
        if c.is_ascii_digit() {
            if !s.ends_with('#') {
                s.push('#');
            }
        } else {
            s.push(c);
        }
    }
    s.chars().take(60).collect()
}

pub fn worker(prop: &str, seed: u64, k: u64, n: u64, secs: f64, from: u64) {
    let start = Instant::now();
    heartbeat();
    let mut ctx = Ctx::default();
    let out = std::io::stdout();
    let mut idx = from + k;
    let mut last_flush = Instant::now();
    let mut done_one = false;
    while !done_one || start.elapsed().as_secs_f64() < secs {
        done_one = true;
        {
            let mut o = out.lock();
            writeln!(o, "B {idx}").ok();
            o.flush().ok();
        }
        ctx.key = 0;
        ctx.decisions.clear();
        let case = props::generate(prop, case_seed(seed, idx), &mut ctx);
        ctx.key = 0;
        let v = props::check(&case, &mut ctx);
        ctx.stats.cases += 1;
        match v {
            Verdict::Ok(nontrivial) => {
                if nontrivial {
                    ctx.stats.nontrivial += 1;
                    let h = ctx.key;
                    ctx.stats.nontrivial_keys.insert(h ^ case_seed(seed, idx).rotate_left(32));
                    if ctx.stats.samples.is_empty() {
                        ctx.stats.samples.push(serde_json::to_string(&case).unwrap());
                    }
                }
                if (idx / n) % 40 == 7 {
                    props::self_check(&case, &mut ctx);
                }
            }
            Verdict::Skip(r) => *ctx.stats.skipped.entry(r.to_string()).or_default() += 1,
            Verdict::Bad(m) => {
                let mut o = out.lock();
                writeln!(o, "V {}", json!({"idx": idx, "message": m})).ok();
                o.flush().ok();
                break;
            }
        }
        if last_flush.elapsed().as_secs_f64() > 1.0 {
            let mut o = out.lock();
            writeln!(o, "S {}", serde_json::to_string(&std::mem::take(&mut ctx.stats)).unwrap()).ok();
            o.flush().ok();
            last_flush = Instant::now();
        }
        idx += n;
    }
    let mut o = out.lock();
    writeln!(o, "S {}", serde_json::to_string(&ctx.stats).unwrap()).ok();
    writeln!(o, "E").ok();
    o.flush().ok();
    drop(o);
    let _ = std::fs::remove_dir(scratch_root());
}

enum Ev {
    Line(usize, String),
    End(usize),
}

fn spawn_worker(prop: &str, seed: u64, k: u64, n: u64, secs: f64, from: u64, scratch: &str) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop, &seed.to_string(), &k.to_string(), &n.to_string(), &secs.to_string(), &from.to_string()])
        .env("S2SIM_SCRATCH", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker")
}

/// run `one` in a process of its own; Ok(verdict text) or Err(why there is none)
fn in_process(args: &[&str], secs: u64) -> Result<String, String> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("S2SIM_SCRATCH", format!("{}-c", scratch_root()))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("process");
    let out = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                return;
            }
        }
    });
    let start = Instant::now();
    let mut verdict = None;
    loop {
        // every line is a sign of life
        match rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(l) => {
                if let Some(v) = l.strip_prefix("VERDICT ") {
                    verdict = Some(v.to_string());
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let st = c.wait();
                return verdict.ok_or_else(|| format!("the process died ({:?})", st.map(|s| s.to_string())));
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = c.kill();
                let _ = c.wait();
                return Err(format!("no step within {secs} s: the code does not return"));
            }
        }
        if start.elapsed().as_secs() > 300 {
            let _ = c.kill();
            let _ = c.wait();
            return Ok("not reproduced: too slow".into());
        }
    }
}

/// A line "H" now and then, as long as the simulation makes steps. (System calls only: the thread
/// must not meet the seams.)
fn heartbeat() {
    std::thread::spawn(|| {
        let mut last = 0;
        loop {
            let t = libc::timespec { tv_sec: 3, tv_nsec: 0 };
            unsafe { libc::syscall(libc::SYS_nanosleep, &t, 0) };
            let now = actix_rt::sim::PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                unsafe { libc::syscall(libc::SYS_write, 1, b"H\n".as_ptr(), 2) };
            }
            last = now;
        }
    });
}

pub fn one(prop: &str, seed: u64, idx: u64) {
    heartbeat();
    let mut ctx = Ctx::default();
    // cases to execute before
    for b in std::env::var("S2SIM_BEFORE").unwrap_or_default().split_whitespace() {
        let case = props::generate(prop, case_seed(seed, b.parse().unwrap()), &mut ctx);
        let _ = props::check(&case, &mut ctx);
    }
    if std::env::var("S2SIM_RUNS").is_ok() {
        eprintln!("case {idx}");
    }
    let case = props::generate(prop, case_seed(seed, idx), &mut ctx);
    if std::env::var("S2SIM_RUNS").is_ok() {
        eprintln!("{}", serde_json::to_string(&case).unwrap());
    }
    println!("VERDICT {:?}", props::check(&case, &mut ctx));
}

fn bad(case: &Case) -> Option<(String, BTreeMap<usize, Vec<u32>>)> {
    let mut ctx = Ctx::default();
    match props::check(case, &mut ctx) {
        Verdict::Bad(m) => Some((m, ctx.decisions)),
        _ => None,
    }
}

/// Smaller case with the same kind of violation.
fn minimise(case: &Case, message: &str, secs: f64) -> (Case, String, String) {
    let start = Instant::now();
    let class = class_of(message);
    let mut cur = case.clone();
    let mut msg = message.to_string();
    let mut tried = 0u32;
    let mut kept = 0u32;
    let attempt = |cand: Case, cur: &mut Case, msg: &mut String, tried: &mut u32, kept: &mut u32| -> bool {
        if cand == *cur || start.elapsed().as_secs_f64() > secs {
            return false;
        }
        *tried += 1;
        match bad(&cand) {
            Some((m, _)) if class_of(&m) == class => {
                *cur = cand;
                *msg = m;
                *kept += 1;
                true
            }
            _ => false,
        }
    };
    macro_rules! try_it {
        ($f:expr) => {{
            let mut c = cur.clone();
            #[allow(clippy::redundant_closure_call)]
            ($f)(&mut c);
            attempt(c, &mut cur, &mut msg, &mut tried, &mut kept)
        }};
    }
    // one schedule is enough
    for i in (0..cur.scheds.len()).rev() {
        if cur.scheds.len() > 1 {
            try_it!(|c: &mut Case| {
                let s = c.scheds[i].clone();
                c.scheds = vec![s];
            });
        }
    }
    loop {
        let before = kept;
        for i in (0..cur.more.len()).rev() {
            try_it!(|c: &mut Case| {
                c.more.remove(i);
            });
        }
        for s in 0..cur.scheds.len() {
            try_it!(|c: &mut Case| c.scheds[s].seed = None);
            for f in (0..cur.scheds[s].faults.len()).rev() {
                try_it!(|c: &mut Case| {
                    c.scheds[s].faults.remove(f);
                });
            }
            for f in (0..cur.scheds[s].disk.len()).rev() {
                try_it!(|c: &mut Case| {
                    c.scheds[s].disk.remove(f);
                });
            }
            try_it!(|c: &mut Case| c.scheds[s].fragment = false);
            try_it!(|c: &mut Case| c.scheds[s].window = 0);
            try_it!(|c: &mut Case| c.scheds[s].delays.clear());
            try_it!(|c: &mut Case| c.scheds[s].hash_seed = 0);
        }
        if !matches!(cur.prop.as_str(), "C09" | "C10" | "C11" | "C18") || cur.scheds.iter().all(|s| s.faults.is_empty() && s.disk.is_empty()) {
            if let Mode::Cluster(n) = cur.sc.mode {
                if n > 2 {
                    try_it!(|c: &mut Case| c.sc.mode = Mode::Cluster(n - 1));
                }
            }
            for d in [2usize, 4, 10] {
                let min = cur.sc.nodes() * (cur.sc.params.pattern + cur.sc.params.query + 3);
                let rows = cur.sc.data.rows - cur.sc.data.rows / d;
                if rows >= min {
                    try_it!(|c: &mut Case| c.sc.data.rows = rows);
                }
            }
            if cur.sc.data.cols > 1 {
                try_it!(|c: &mut Case| c.sc.data.cols -= 1);
            }
            if cur.sc.params.threads > 1 {
                try_it!(|c: &mut Case| c.sc.params.threads = 1);
                try_it!(|c: &mut Case| c.sc.params.threads = 2);
                try_it!(|c: &mut Case| c.sc.params.threads /= 2);
            }
            try_it!(|c: &mut Case| c.sc.stale = false);
            try_it!(|c: &mut Case| c.sc.no_path = 0);
            try_it!(|c: &mut Case| c.parallel = false);
            try_it!(|c: &mut Case| c.same_path = false);
            try_it!(|c: &mut Case| c.sc.params.self_correction = false);
            try_it!(|c: &mut Case| c.sc.params.explainability = c.prop == "C14");
        }
        if kept == before || start.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    // explicit choices, as few as possible that are not the canonical one
    let mut choices = 0;
    for s in 0..cur.scheds.len() {
        if cur.scheds[s].seed.is_none() {
            continue;
        }
        let Some((_, dec)) = bad(&cur) else { break };
        let Some(d) = dec.get(&s).cloned() else { continue };
        if !try_it!(|c: &mut Case| c.scheds[s].decisions = Some(d.clone())) {
            continue;
        }
        // shortest prefix
        let (mut lo, mut hi) = (0usize, d.len());
        while lo < hi && start.elapsed().as_secs_f64() < secs * 1.5 {
            let mid = (lo + hi) / 2;
            let mut c = cur.clone();
            c.scheds[s].decisions = Some(d[..mid].to_vec());
            tried += 1;
            match bad(&c) {
                Some((m, _)) if class_of(&m) == class => {
                    hi = mid;
                    cur = c;
                    msg = m;
                    kept += 1;
                }
                _ => lo = mid + 1,
            }
        }
        // blocks of canonical choices
        let mut block = cur.scheds[s].decisions.as_ref().map_or(0, |d| d.len()) / 2;
        while block >= 4 && start.elapsed().as_secs_f64() < secs * 2.0 {
            let len = cur.scheds[s].decisions.as_ref().unwrap().len();
            let mut at = 0;
            while at < len && start.elapsed().as_secs_f64() < secs * 2.0 {
                let mut c = cur.clone();
                let dd = c.scheds[s].decisions.as_mut().unwrap();
                let end = (at + block).min(len);
                if dd[at..end].iter().any(|x| *x != 0) {
                    dd[at..end].iter_mut().for_each(|x| *x = 0);
                    tried += 1;
                    match bad(&c) {
                        Some((m, _)) if class_of(&m) == class => {
                            cur = c;
                            msg = m;
                            kept += 1;
                        }
                        _ => {}
                    }
                }
                at += block;
            }
            block /= 2;
        }
        choices += cur.scheds[s].decisions.as_ref().map_or(0, |d| d.iter().filter(|x| **x != 0).count());
    }
    let how = format!(
        "{kept} of {tried} reductions kept; {} schedule(s), {choices} choice(s) other than the canonical one",
        cur.scheds.len()
    );
    (cur, msg, how)
}

fn replay_trace(case: &Case) -> Vec<String> {
    let mut v = vec![];
    if let Some(s) = case.scheds.first() {
        if case.more.is_empty() {
            let r = case.sc.exec_with(s, |c| c.sim.record_trace = true);
            let n = r.report.trace.len();
            v = r.report.trace;
            if n > 600 {
                let tail = v.split_off(n - 300);
                v.truncate(300);
                v.push(format!("... {} more ...", n - 600));
                v.extend(tail);
            }
        }
    }
    v
}

pub fn minimise_cmd(prop: &str, seed: u64, idx: u64, secs: f64, path: &str) {
    heartbeat();
    let mut ctx = Ctx::default();
    let case = props::generate(prop, case_seed(seed, idx), &mut ctx);
    let v = props::check(&case, &mut ctx);
    if let Verdict::Bad(m) = v {
        let (c, msg, how) = minimise(&case, &m, secs);
        let rep = Replay {
            property: prop.into(),
            violation: msg.clone(),
            search_seed: seed,
            case_number: idx,
            trace: replay_trace(&c),
            case: Some(c),
            expected: msg.clone(),
            minimised: how,
        };
        std::fs::write(path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("VERDICT {msg}");
    } else {
        println!("VERDICT not reproduced: {v:?}");
    }
}

/// exit 0: the replay reproduces the violation
pub fn replay(path: &str) -> i32 {
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let v = match &rep.case {
        Some(c) => {
            let mut ctx = Ctx::default();
            if std::env::var("S2SIM_TRACE").is_ok() {
                for l in replay_trace(c) {
                    println!("{l}");
                }
            }
            props::check(c, &mut ctx)
        }
        None => match in_process(&["one", &rep.property, &rep.search_seed.to_string(), &rep.case_number.to_string()], HANG_S) {
            Ok(v) => {
                println!("VERDICT {v}");
                return if v.starts_with("Bad") { 1 } else { 0 };
            }
            Err(e) => Verdict::Bad(e),
        },
    };
    println!("VERDICT {v:?}");
    match v {
        Verdict::Bad(m) => {
            println!("{}", if m == rep.expected { "same violation as recorded" } else { "another violation than recorded" });
            println!("VIOLATION property={} replay={path}", rep.property);
            1
        }
        _ => {
            println!("no violation: the recorded one was: {}", rep.expected);
            0
        }
    }
}

struct Found {
    idx: u64,
    message: String,
    died: bool,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub secs: f64,
    pub workers: u64,
    pub evidence: String,
    pub replay_dir: String,
}

pub fn check(o: &Opts) -> i32 {
    let start = Instant::now();
    let scratch = format!("/tmp/s2sim-{}", std::process::id());
    std::env::set_var("S2SIM_SCRATCH", &scratch);
    let n = o.workers;
    let (tx, rx) = mpsc::channel::<Ev>();
    let mut kids: Vec<Option<Child>> = vec![];
    let mut current: Vec<Option<u64>> = vec![None; n as usize];
    let mut seen: Vec<Instant> = vec![Instant::now(); n as usize];
    let mut finished = vec![false; n as usize];
    for k in 0..n {
        let mut c = spawn_worker(&o.prop, o.seed, k, n, o.secs, 0, &format!("{scratch}/w{k}"));
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(Ev::Line(k as usize, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Ev::End(k as usize));
        });
        kids.push(Some(c));
    }
    let mut stats = Stats::default();
    let mut found: Vec<Found> = vec![];
    let mut open = n as usize;
    let mut stop_at: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ev::Line(k, l)) => {
                seen[k] = Instant::now();
                if let Some(x) = l.strip_prefix("B ") {
                    current[k] = x.parse().ok();
                } else if let Some(x) = l.strip_prefix("S ") {
                    if let Ok(s) = serde_json::from_str::<Stats>(x) {
                        stats.merge(s);
                    }
                } else if let Some(x) = l.strip_prefix("V ") {
                    let v: Value = serde_json::from_str(x).unwrap();
                    found.push(Found { idx: v["idx"].as_u64().unwrap(), message: v["message"].as_str().unwrap().into(), died: false });
                    stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                } else if l == "E" {
                    finished[k] = true;
                }
            }
            Ok(Ev::End(k)) => {
                open -= 1;
                if let Some(mut c) = kids[k].take() {
                    let st = c.wait();
                    if !finished[k] && stop_at.is_none() {
                        if let Some(idx) = current[k] {
                            found.push(Found { idx, message: format!("the process died: {:?}", st.map(|s| s.to_string())), died: true });
                            stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for k in 0..n as usize {
            let hang = !finished[k] && kids[k].is_some() && seen[k].elapsed().as_secs() > HANG_S;
            let stop = stop_at.map_or(false, |t| Instant::now() > t);
            if hang || stop {
                if let Some(c) = kids[k].as_mut() {
                    if hang && !stop {
                        if let Some(idx) = current[k] {
                            found.push(Found { idx, message: format!("no step within {HANG_S} s: the code does not return"), died: true });
                            stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                        }
                    }
                    let _ = c.kill();
                }
            } else if start.elapsed().as_secs_f64() > o.secs + 150.0 {
                // still making steps: too slow to be judged
                if let Some(c) = kids[k].as_mut() {
                    finished[k] = true;
                    let _ = c.kill();
                }
            }
        }
    }
    let search_s = start.elapsed().as_secs_f64();
    let _ = std::fs::remove_dir_all(&scratch);

    // every violation is reproduced in a fresh process before it counts
    std::fs::create_dir_all(&o.replay_dir).ok();
    let mut violation: Option<(String, String)> = None;
    let mut unreproduced = vec![];
    for f in &found {
        let path = format!("{}/{}-{}-{}.json", o.replay_dir, o.prop, o.seed, f.idx);
        if f.died {
            let again = in_process(&["one", &o.prop, &o.seed.to_string(), &f.idx.to_string()], HANG_S);
            let msg = match again {
                Err(e) => Some(e),
                Ok(v) if v.starts_with("Bad") => Some(v),
                Ok(_) => None,
            };
            if let Some(msg) = msg {
                let rep = Replay {
                    property: o.prop.clone(),
                    violation: msg.clone(),
                    search_seed: o.seed,
                    case_number: f.idx,
                    case: None,
                    expected: msg.clone(),
                    minimised: "not minimised: the process does not survive the case".into(),
                    trace: vec![],
                };
                std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
                violation = Some((msg, path));
                break;
            }
        } else {
            let r = in_process(
                &["minimise", &o.prop, &o.seed.to_string(), &f.idx.to_string(), if o.tier == "quick" { "25" } else { "60" }, &path],
                240,
            );
            match r {
                Ok(v) if !v.starts_with("not reproduced") => {
                    violation = Some((v, path));
                    break;
                }
                Err(_) => {
                    // minimising ran into a hang: report the case as it is
                    let again = in_process(&["one", &o.prop, &o.seed.to_string(), &f.idx.to_string()], HANG_S);
                    if !matches!(&again, Ok(v) if !v.starts_with("Bad")) {
                        let rep = Replay {
                            property: o.prop.clone(),
                            violation: f.message.clone(),
                            search_seed: o.seed,
                            case_number: f.idx,
                            case: None,
                            expected: f.message.clone(),
                            minimised: "not minimised".into(),
                            trace: vec![],
                        };
                        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
                        violation = Some((f.message.clone(), path));
                        break;
                    }
                }
                Ok(_) => {}
            }
        }
        unreproduced.push(format!("case {}: {}", f.idx, f.message));
    }
    let _ = std::fs::remove_dir_all(format!("{scratch}-c"));

    let wall = start.elapsed().as_secs_f64();
    let per_hour = |x: u64| (x as f64 / search_s.max(0.001) * 3600.0).round() as u64;
    let mut samples: Vec<Value> = stats.samples.iter().take(2).filter_map(|s| serde_json::from_str(s).ok()).collect();
    if samples.is_empty() {
        samples.push(json!({"seed": o.seed, "case": 0}));
    }
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violation.is_some() as u32,
        "assumptions": ASSUMPTIONS,
        "coverage": {
            "evaluations": stats.cases,
            "distinct_nontrivial": stats.nontrivial_keys.len(),
            "rule": rule(&o.prop),
            "samples": samples,
            "simulated_runs": stats.runs,
            "runs_per_hour": per_hour(stats.runs),
            "seeds_per_hour": per_hour(stats.cases),
            "scheduler_steps": stats.steps,
            "longest_run_steps": stats.max_steps_run,
            "simulated_seconds": stats.sim_ns as f64 / 1e9,
            "actor_messages": stats.messages,
            "remote_messages": stats.wire_messages,
            "network_bytes": stats.wire_bytes,
            "distinct_interleavings": stats.orders.len(),
            "interleaving_measure": "distinct hashes of the sequence (node, actor, message type) in which messages were handled during a run",
            "faults_injected": stats.faults,
            "scheduler_policies": stats.policies,
            "cases_not_judged": stats.skipped,
            "determinism_self_checks": stats.self_checks,
            "determinism_self_check_failures": stats.self_check_failures,
            "unreproduced_failures": unreproduced,
            "real_code": ["s2gpp (all of src except main and the python binding)", "actix actors, contexts, mailboxes", "actix-telepathy cluster, gossip, codec, remote addresses", "actix-broker", "csv, ndarray, ndarray-linalg/OpenBLAS"],
            "simulated": ["actix-rt (event loops, arbiters, timers, TCP)", "threads of SyncArbiter", "getrandom", "open/read/write/close of the files of a run (fault injection in front of a scratch directory)"],
        }
    });
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&o.evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases ({} judged and non-trivial), {} runs, {} distinct interleavings, {:.0} s simulated, {:.1} s",
        o.prop,
        stats.cases,
        stats.nontrivial,
        stats.runs,
        stats.orders.len(),
        stats.sim_ns as f64 / 1e9,
        wall
    );
    if !stats.skipped.is_empty() {
        println!("  not judged: {:?}", stats.skipped);
    }
    println!("  faults: {:?}", stats.faults);
    if stats.self_check_failures > 0 {
        println!("  WARNING: {} of {} determinism self checks failed", stats.self_check_failures, stats.self_checks);
    }
    for u in &unreproduced {
        println!("  not reproduced, not counted: {u}");
    }
    match violation {
        Some((m, path)) => {
            println!("  {m}");
            println!("VIOLATION property={} replay={path}", o.prop);
            1
        }
        None => {
            if stats.cases == 0 {
                println!("  no case was evaluated");
                return 2;
            }
            0
        }
    }
}

const ASSUMPTIONS: [&str; 4] = [
    "the simulated runtime orders tasks of an event loop like tokio's LocalSet (FIFO, remote wake-ups later); threads and the network interleave freely",
    "a TCP connection delivers bytes in order, without loss or duplication, until it is reset",
    "one OS thread runs everything: data races inside safe Rust code are excluded by the compiler, OpenBLAS runs single threaded",
    "scores are compared with the reference model only where its result does not depend on single precision rounding",
];

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "random input, parameters and 4 random schedules (policy, hash keys) per case, compared with the canonical schedule; non-trivial: more than one worker thread",
        "C02" => "random input and parameters, up to 40 threads, down to the shortest input, 2 random schedules; non-trivial: more than one worker thread",
        "C03" => "random input and parameters, one random schedule; non-trivial: the reference model is stable against rounding noise, so the scores were compared with it",
        "C04" => "random input and 2..25 threads against 1 thread; non-trivial: the input is stable against rounding noise, so the scores were compared",
        "C05" => "random input, in process, file or cluster, one random schedule; non-trivial: a score is defined (graph with edges, no constant score)",
        "C06" => "random cluster of 2..12 nodes, 3 random schedules with start delays, fragmentation, small windows, stalls and healed partitions; all are non-trivial",
        "C07" => "as C06 with 4 schedules, compared bit by bit with the canonical schedule; all are non-trivial",
        "C08" => "random cluster of 2..12 nodes and 2 random schedules against one process with one thread; non-trivial: the input is stable against rounding noise, so the scores were compared",
        "C09" => "random cluster, 4 schedules with one or two process crashes (a third of them with a restart) or connection resets at random steps; non-trivial: a fault happened while the cluster ran",
        "C10" => "random run that writes files, 3 schedules with one disk fault each at a random write or open; non-trivial: a fault happened",
        "C11" => "random run that reads a file, 3 schedules with one disk fault each at a random read or open; non-trivial: a fault happened",
        "C12" => "random table in a random CSV dialect and column range against the array or the plain file; non-trivial: read from a file that differs",
        "C17" => "random run (one process or cluster) with a command line in random form against the same parameters given in memory; all are non-trivial",
        "C18" => "random run in process, from a file or as a cluster, some without a path for the score, among files of others and results of earlier runs, 3 schedules, half with a disk fault or a crash; non-trivial: a schedule ended in success, so everything on disk was judged",
        "C13" => "2..4 random calls in one process, one after another (to files of their own or the same ones) or at the same time, each compared with the same call in a process of its own; all are non-trivial",
        "C14" => "random input with explainability, 2 random schedules; non-trivial: contributions were compared with the reference model",
        "C16" => "random run that reads a file with one defect (text, empty cell, missing or surplus field or both, no UTF-8, number with two points, NaN, infinite, empty range or range beyond the table) at a random row, 2 random schedules; all are non-trivial",
        "C15" => "random input with self-correction, local or cluster, preferring inputs near the decision; non-trivial: stable, and corrected or at least a third of the transitions clockwise",
        _ => "",
    }
}

/// Show what model, one process and the recorded mode say about the input of a replay file.
pub fn dump(path: &str) {
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let case = rep.case.expect("case");
    let sc = &case.sc;
    let m = crate::model::rough_model(&sc.data.make(), &sc.model_params());
    let mut single = sc.clone();
    single.params.threads = 1;
    single.mode = Mode::Fit;
    let get = |sc: &crate::scenario::Scenario, s: &crate::scenario::Sched| props::completed(sc, &sc.exec(s)).map(|o| o.scores[0].clone());
    let a = get(&single, &crate::scenario::Sched::canonical());
    let b = get(sc, case.scheds.first().unwrap_or(&crate::scenario::Sched::canonical()));
    match &m {
        Ok(m) => println!("model: corrected {} valid {} invalid {} edges {} missing {} ratio {}", m.corrected, m.valid, m.invalid, m.n_edges, m.missing, m.ratio),
        Err(e) => println!("model: {e:?}"),
    }
    for i in 0..sc.n_scores() {
        let f = |x: &Result<Vec<f32>, String>| x.as_ref().ok().and_then(|v| v.get(i).copied()).unwrap_or(f32::NAN);
        let mm = m.as_ref().ok().map_or(f64::NAN, |m| m.scores[i]);
        println!("{i} model {mm:.5} one {:.5} this {:.5}", f(&a), f(&b));
    }
    if let Err(e) = a { println!("one: {e}") }
    if let Err(e) = b { println!("this: {e}") }
}
