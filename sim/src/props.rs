//! The properties: for each one how cases are made (`generate`) and how one case is judged (`check`).
use std::collections::{BTreeMap, HashSet};

use actix_rt::sim::NodeState;
use actix_rt::Rng;
use serde::{Deserialize, Serialize};

use crate::model::{self, ModelError, ModelOut};
use crate::run::*;
use crate::scenario::*;
use crate::seam::DiskFault;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub sc: Scenario,
    /// further calls in the same process
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub more: Vec<Scenario>,
    pub scheds: Vec<Sched>,
    /// these calls are made at the same time
    #[serde(default)]
    pub parallel: bool,
    /// they write to the same files
    #[serde(default)]
    pub same_path: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// holds; whether the case could have shown a violation by the rule of the property
    Ok(bool),
    /// the property says nothing about this case
    Skip(&'static str),
    Bad(String),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub cases: u64,
    pub nontrivial: u64,
    pub skipped: BTreeMap<String, u64>,
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub messages: u64,
    pub wire_messages: u64,
    pub wire_bytes: u64,
    pub faults: BTreeMap<String, u64>,
    pub policies: BTreeMap<String, u64>,
    /// hashes of the order in which messages were handled
    pub orders: HashSet<u64>,
    pub self_checks: u64,
    pub self_check_failures: u64,
    pub nontrivial_keys: HashSet<u64>,
    pub samples: Vec<String>,
    pub max_steps_run: u64,
    pub notes: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_default() += v;
        }
        self.runs += o.runs;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.messages += o.messages;
        self.wire_messages += o.wire_messages;
        self.wire_bytes += o.wire_bytes;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.policies {
            *self.policies.entry(k).or_default() += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v;
        }
        self.orders.extend(o.orders);
        self.nontrivial_keys.extend(o.nontrivial_keys);
        self.self_checks += o.self_checks;
        self.self_check_failures += o.self_check_failures;
        self.samples.extend(o.samples);
        self.max_steps_run = self.max_steps_run.max(o.max_steps_run);
    }
}

#[derive(Default)]
pub struct Ctx {
    pub stats: Stats,
    /// choices of the last run of every schedule of the case, by position
    pub decisions: BTreeMap<usize, Vec<u32>>,
    pub key: u64,
}

impl Ctx {
    pub fn record(&mut self, sched: &Sched, r: &RunResult) {
        if std::env::var("S2SIM_RUNTRACE").is_ok() {
            for l in &r.report.trace {
                eprintln!("{l}");
            }
        }
        if std::env::var("S2SIM_RUNS").is_ok() {
            eprintln!("run {:016x} steps {} bytes {} first {:?}", r.report.trace_hash, r.report.steps, r.report.bytes, r.report.wire.iter().take(12).map(|w| (w.step, w.node, &w.identifier, &w.destination)).collect::<Vec<_>>());
        }
        let s = &mut self.stats;
        s.runs += 1;
        s.steps += r.report.steps;
        s.max_steps_run = s.max_steps_run.max(r.report.steps);
        s.sim_ns += r.report.sim_ns;
        s.messages += r.report.messages;
        s.wire_messages += r.report.wire_messages;
        s.wire_bytes += r.report.bytes;
        for (k, v) in &r.report.fault_counts {
            *s.faults.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &r.disk.hit {
            *s.faults.entry(k.to_string()).or_default() += v;
        }
        if sched.fragment {
            *s.faults.entry("tcp_fragmentation(runs)".into()).or_default() += 1;
        }
        if sched.window > 0 {
            *s.faults.entry("small_tcp_window(runs)".into()).or_default() += 1;
        }
        if sched.delays.iter().any(|d| *d > 0) {
            *s.faults.entry("delayed_start(runs)".into()).or_default() += 1;
        }
        if sched.hash_seed != 0 {
            *s.faults.entry("other_hash_keys(runs)".into()).or_default() += 1;
        }
        let policy = if sched.decisions.is_some() {
            "replay".to_string()
        } else if sched.seed.is_none() {
            "canonical".to_string()
        } else {
            format!("{:?}", POLICIES[sched.policy as usize % POLICIES.len()])
        };
        *s.policies.entry(policy).or_default() += 1;
        s.orders.insert(r.report.order_hash);
        self.key = self.key.rotate_left(7) ^ r.report.order_hash;
    }
    pub fn exec(&mut self, sc: &Scenario, sched: &Sched) -> RunResult {
        let r = sc.exec(sched);
        self.record(sched, &r);
        r
    }
    /// run the i-th schedule of a case
    fn exec_i(&mut self, case: &Case, sc: &Scenario, i: usize) -> RunResult {
        let sched = &case.scheds[i];
        let r = sc.exec_with(sched, |c| c.sim.record_wire = !sched.faults.is_empty());
        self.record(sched, &r);
        self.decisions.insert(i, r.report.decisions.clone());
        r
    }
}

pub struct Output {
    /// score of every process as written or returned
    pub scores: Vec<Vec<f32>>,
    pub contributions: Option<Vec<u8>>,
}

/// Did the run end the way a run without lasting faults has to end?
pub fn completed(sc: &Scenario, r: &RunResult) -> Result<Output, String> {
    if let Some(f) = &r.failure {
        return Err(format!("the call did not return a result: {f}"));
    }
    if let Some(f) = &r.error {
        return Err(format!("the call returned an error: {f}"));
    }
    if let Some((n, m)) = r.node_panics().first() {
        return Err(format!("node {n} panicked: {m}"));
    }
    if let Some(s) = &r.stop {
        return Err(format!("{s:?}: not all processes end; still waiting: {}", r.waiting.join(", ")));
    }
    if r.disk.livelock {
        return Err("endless loop on a failing file".into());
    }
    let scores = match sc.mode {
        Mode::Fit => match r.values.first() {
            Some(Some(v)) => vec![v.clone()],
            _ => return Err("the call returned no score".into()),
        },
        _ => {
            if let Mode::Cluster(_) = sc.mode {
                for (i, s) in r.report.nodes.iter().enumerate() {
                    if *s != Some(NodeState::Exited(0)) {
                        return Err(format!("node {i} ended as {s:?}"));
                    }
                }
            }
            let mut v = vec![];
            for i in 0..sc.nodes() {
                match r.files.get(&format!("score{i}.csv")) {
                    None => return Err(format!("node {i} wrote no score file")),
                    Some(b) => match parse_scores(b) {
                        Some(x) => v.push(x),
                        None => return Err(format!("score file of node {i} is not a list of numbers")),
                    },
                }
            }
            v
        }
    };
    let contributions = if sc.params.explainability {
        match r.files.get("contributions.csv") {
            Some(b) => Some(b.clone()),
            None => return Err("no contribution file".into()),
        }
    } else {
        None
    };
    Ok(Output { scores, contributions })
}

fn first_difference(a: &[f32], b: &[f32], tol: f32) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} instead of {} scores", b.len(), a.len()));
    }
    let bad = |i: &usize| !(a[*i].to_bits() == b[*i].to_bits() || (a[*i].is_nan() && b[*i].is_nan()) || (a[*i] - b[*i]).abs() <= tol);
    let n = (0..a.len()).filter(bad).count();
    (0..a.len()).find(bad).map(|i| {
        let m = (0..a.len()).map(|i| (a[i] - b[i]).abs()).fold(0f32, f32::max);
        format!("{n} of {} scores differ (by up to {m}), first at {i}: {} instead of {}", a.len(), b[i], a[i])
    })
}

const LEVEL: f64 = 3.0;

/// Scores are sums in single precision; normalisation enlarges their rounding errors.
fn tolerance(m: &ModelOut) -> f32 {
    (1e-5 * m.ratio as f32).max(1e-4)
}

fn stable(sc: &Scenario) -> Result<ModelOut, ModelError> {
    model::stable_model(&sc.data.make(), &sc.model_params(), LEVEL, 3, sc.data.seed)
}

/// A mismatch counts only if the expected result holds against a lot more rounding noise.
fn still_stable(sc: &Scenario) -> bool {
    model::stable_model(&sc.data.make(), &sc.model_params(), 8.0 * LEVEL, 24, sc.data.seed ^ 0x55).is_ok()
}

fn skip_reason(e: ModelError) -> Verdict {
    Verdict::Skip(match e {
        ModelError::Degenerate(x) => x,
        ModelError::Unstable(x) => x,
    })
}

/// input without any edge or with a constant score, for which no score is defined
pub fn degenerate(sc: &Scenario) -> bool {
    match model::rough_model(&sc.data.make(), &sc.model_params()) {
        Ok(m) => {
            let mut v: Vec<i64> = m.scores.iter().map(|x| (x * 1e4) as i64).collect();
            v.sort_unstable();
            v.dedup();
            m.n_edges < 40 || v.len() < 8
        }
        Err(_) => true,
    }
}

fn random_csv(r: &mut Rng) -> Csv {
    let mut csv = Csv {
        crlf: r.below(3) == 0,
        blank_every: if r.below(3) == 0 { 1 + r.below(40) as usize } else { 0 },
        final_newline: r.below(3) != 0,
        spaces: r.below(3) == 0,
        before: r.below(3) as usize,
        after: r.below(3) as usize,
        text: r.below(2) == 0,
        quoted: r.below(4) == 0,
        negative_end: r.below(2) == 0,
        numbers: if r.below(2) == 0 { r.below(5) as u8 } else { 0 },
        multiline: if r.below(4) == 0 { 1 + r.below(3) as u8 } else { 0 },
        cr: r.below(8) == 0,
        defect: None,
    };
    if csv.quoted || csv.multiline > 0 {
        csv.spaces = false;
    }
    csv
}

fn random_cluster(r: &mut Rng) -> Mode {
    Mode::Cluster(match r.below(6) {
        0 => [5, 5, 5, 6, 6, 7, 8, 9, 11, 12][r.below(10) as usize],
        1 => 4,
        2 | 3 => 3,
        _ => 2,
    } as usize)
}

fn pick_stable(r: &mut Rng, mode: Mode, f: &mut dyn FnMut(&mut Rng, &mut Scenario)) -> Scenario {
    // cheap first look, the check itself decides
    let mut last = None;
    for _ in 0..8 {
        let mut sc = Scenario::random(r, mode);
        f(r, &mut sc);
        let ok = model::model(&sc.data.make(), &sc.model_params(), 0.0, 0).is_ok();
        last = Some(sc);
        if ok {
            break;
        }
    }
    last.unwrap()
}

fn add_transient(r: &mut Rng, sc: &Scenario, s: &mut Sched, ctx: &mut Ctx) {
    let probe = sc.exec_with(s, |c| c.sim.record_wire = true);
    ctx.record(s, &probe);
    let formed = formation(&probe).unwrap_or(0);
    s.add_transient(r, sc.nodes(), formed + 1, probe.report.steps);
}

pub const ALL: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18",
];

pub fn generate(prop: &str, seed: u64, ctx: &mut Ctx) -> Case {
    let mut r = Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xC0FFEE);
    for _ in 0..3 {
        r.next();
    }
    let r = &mut r;
    let mut more = vec![];
    let mut scheds = vec![];
    let (mut parallel, mut same_path) = (false, false);
    let sc = match prop {
        "C01" => {
            let mode = if r.below(4) == 0 { Mode::File } else { Mode::Fit };
            let mut sc = Scenario::random(r, mode);
            if r.below(8) != 0 {
                sc.params.threads = sc.params.threads.max(2 + r.below(4) as usize);
            }
            sc.params.explainability = r.below(4) == 0;
            for _ in 0..4 {
                scheds.push(Sched::random(r, 1));
            }
            sc
        }
        "C02" => {
            let mode = if r.below(3) == 0 { Mode::File } else { Mode::Fit };
            let mut sc = Scenario::random(r, mode);
            sc.params.threads = match r.below(5) {
                0 => 1,
                1 => 17 + r.below(24),
                2 => 6 + r.below(12),
                _ => 1 + r.below(6),
            } as usize;
            if r.below(3) == 0 {
                // as short as possible
                sc.data.rows = sc.params.pattern + sc.params.query + r.below(4) as usize;
            }
            sc.params.explainability = r.below(5) == 0;
            for _ in 0..2 {
                scheds.push(Sched::random(r, 1));
            }
            sc
        }
        "C03" => {
            scheds.push(Sched::random(r, 1));
            pick_stable(r, Mode::Fit, &mut |_, _| {})
        }
        "C04" => {
            scheds.push(Sched::canonical());
            scheds.push(Sched::random(r, 1));
            pick_stable(r, Mode::Fit, &mut |r, sc| {
                sc.params.threads = if r.below(3) == 0 { 6 + r.below(20) } else { 2 + r.below(6) } as usize;
            })
        }
        "C05" => {
            let mode = match r.below(4) {
                0 => random_cluster(r),
                1 => Mode::File,
                _ => Mode::Fit,
            };
            let sc = Scenario::random(r, mode);
            scheds.push(Sched::random(r, sc.nodes()));
            sc
        }
        "C06" => {
            let mode = random_cluster(r);
            let sc = Scenario::random(r, mode);
            for _ in 0..3 {
                let mut s = Sched::random(r, sc.nodes());
                if r.below(2) == 0 {
                    add_transient(r, &sc, &mut s, ctx);
                }
                scheds.push(s);
            }
            sc
        }
        "C07" => {
            let mode = random_cluster(r);
            let mut sc = Scenario::random(r, mode);
            if r.below(2) == 0 {
                sc.params.threads = 2 + r.below(3) as usize;
            }
            for i in 0..4 {
                let mut s = Sched::random(r, sc.nodes());
                if i > 1 {
                    add_transient(r, &sc, &mut s, ctx);
                }
                scheds.push(s);
            }
            sc
        }
        "C08" => {
            let mode = random_cluster(r);
            let sc = pick_stable(r, mode, &mut |_, _| {});
            for _ in 0..2 {
                scheds.push(Sched::random(r, sc.nodes()));
            }
            sc
        }
        "C09" => {
            let mode = random_cluster(r);
            let mut sc = Scenario::random(r, mode);
            sc.data.rows = sc.data.rows.min(sc.nodes() * (sc.params.query + sc.params.pattern + 3) + 60);
            let n = sc.nodes();
            for _ in 0..4 {
                let mut s = Sched::random(r, n);
                s.window = 0;
                let probe = {
                    let mut s2 = s.clone();
                    s2.delays = s.delays.clone();
                    let res = sc.exec_with(&s2, |c| c.sim.record_wire = true);
                    ctx.record(&s2, &res);
                    res
                };
                let formed = formation(&probe).unwrap_or(0);
                let total = probe.report.steps;
                let k = if r.below(5) == 0 { 2 } else { 1 };
                for _ in 0..k {
                    let at = match r.below(8) {
                        0 => r.below(formed + 1),
                        // the end of the run: writing and leaving
                        1 | 2 => total - r.below((total - formed) / 8 + 2).min(total),
                        _ => formed + 1 + r.below((total - formed).max(1)),
                    };
                    let f = match r.below(4) {
                        0 => {
                            let a = r.below(n as u64) as usize;
                            FaultSpec::Reset { a, b: (a + 1 + r.below(n as u64 - 1) as usize) % n }
                        }
                        1 => FaultSpec::Crash { node: 0, lossy: r.below(2) == 0 },
                        _ => FaultSpec::Crash { node: r.below(n as u64) as usize, lossy: r.below(2) == 0 },
                    };
                    if let FaultSpec::Crash { node, .. } = f {
                        // some come back
                        if r.below(3) == 0 {
                            let later = if r.below(4) == 0 { 2000 } else { 200 };
                            s.faults.push((at + 1 + r.below(later), FaultSpec::Restart { node }));
                        }
                    }
                    s.faults.push((at, f));
                }
                s.faults.sort_by_key(|f| f.0);
                scheds.push(s);
            }
            sc
        }
        "C10" | "C11" => {
            let mode = if r.below(4) == 0 { random_cluster(r) } else { Mode::File };
            let mut sc = Scenario::random(r, mode);
            if mode == Mode::File {
                sc.data.cols = sc.data.cols.min(3);
                if r.below(2) == 0 {
                    // more than one buffer of output
                    sc.data.rows = 1000 + r.below(1500) as usize;
                    sc.params.rate = sc.params.rate.min(40);
                }
                sc.params.explainability = prop == "C10" && r.below(2) == 0;
            }
            let probe = ctx.exec(&sc, &Sched::canonical());
            for _ in 0..3 {
                let mut s = Sched::random(r, sc.nodes());
                let d = if prop == "C10" {
                    let at = r.below(probe.disk.writes.max(1));
                    // renaming is not done by the present code; one that writes a temporary file does it
                    match r.below(if probe.disk.renames > 0 { 10 } else { 8 }) {
                        8 | 9 => DiskFault::RenameError { errno: [libc::ENOSPC, libc::EACCES, libc::EIO][r.below(3) as usize] },
                        0 | 1 => DiskFault::NoSpace { at, partial: if r.below(2) == 0 { 0 } else { 1 + r.below(8000) as usize } },
                        2 => DiskFault::WriteError { at },
                        3 => DiskFault::ShortWrite { at, bytes: 1 + r.below(5000) as usize },
                        4 => DiskFault::WriteInterrupted { at },
                        5 | 6 => DiskFault::CrashAtWrite { at, partial: r.below(9000) as usize },
                        _ => {
                            // an output file, the first two open calls are for the input
                            let at = 2 + r.below(probe.disk.opens.saturating_sub(2).max(1));
                            DiskFault::OpenError { at, errno: [libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS][r.below(4) as usize] }
                        }
                    }
                } else {
                    let at = r.below(probe.disk.reads.max(1));
                    match r.below(7) {
                        0 | 1 => DiskFault::ReadError { at, persistent: false },
                        2 => DiskFault::ReadError { at, persistent: true },
                        3 => DiskFault::ShortReads { bytes: 1 + r.below(700) as usize },
                        4 => DiskFault::ReadInterrupted { at },
                        5 => DiskFault::OpenError { at: r.below(2), errno: [libc::ENOENT, libc::EACCES, libc::EMFILE][r.below(3) as usize] },
                        _ => DiskFault::ShortReads { bytes: 1 + r.below(4) as usize },
                    }
                };
                s.disk.push(d);
                scheds.push(s);
            }
            sc
        }
        "C12" => {
            let mode = if r.below(3) == 0 { random_cluster(r) } else { Mode::File };
            let mut sc = Scenario::random(r, mode);
            sc.csv = random_csv(r);
            scheds.push(Sched::random(r, sc.nodes()));
            sc
        }
        "C18" => {
            let mode = match r.below(4) { 0 => Mode::Fit, 1 | 2 => Mode::File, _ => random_cluster(r) };
            let mut sc = Scenario::random(r, mode);
            sc.bystanders = true;
            sc.data.rows = sc.data.rows.min(400 + sc.nodes() * (sc.params.pattern + sc.params.query + 3));
            sc.params.explainability = sc.nodes() == 1 && r.below(2) == 0;
            sc.csv = random_csv(r);
            if r.below(3) == 0 {
                sc.no_path = r.below(1 << sc.nodes()) as u16;
            }
            let probe = ctx.exec(&sc, &Sched::canonical());
            for _ in 0..3 {
                let mut s = Sched::random(r, sc.nodes());
                let at = r.below(probe.disk.writes.max(1));
                match r.below(8) {
                    0 => s.disk.push(DiskFault::NoSpace { at, partial: 0 }),
                    1 => s.disk.push(DiskFault::WriteError { at }),
                    2 => s.disk.push(DiskFault::ShortReads { bytes: 1 + r.below(700) as usize }),
                    3 => s.disk.push(DiskFault::ReadError { at: r.below(probe.disk.reads.max(1)), persistent: true }),
                    4 if sc.nodes() > 1 => {
                        let node = r.below(sc.nodes() as u64) as usize;
                        s.faults.push((r.below(probe.report.steps.max(1)), FaultSpec::Crash { node, lossy: r.below(2) == 0 }));
                    }
                    _ => {}
                }
                scheds.push(s);
            }
            sc
        }
        "C13" => {
            let one = |r: &mut Rng| {
                let mode = if r.below(3) == 0 { Mode::File } else { Mode::Fit };
                let mut sc = Scenario::random(r, mode);
                sc.data.rows = sc.data.rows.min(250 + sc.params.pattern + sc.params.query);
                sc.params.explainability = r.below(4) == 0;
                sc
            };
            let first = one(r);
            for _ in 0..1 + r.below(3) {
                let mut x = one(r);
                match r.below(4) {
                    0 => x = first.clone(),
                    1 => {
                        x.data = first.data.clone();
                        let need = x.params.pattern + x.params.query + 4;
                        x.data.rows = x.data.rows.max(need);
                    }
                    _ => {}
                }
                more.push(x);
            }
            scheds.push(Sched::random(r, 1 + more.len()));
            match r.below(4) {
                0 | 1 => parallel = true,
                2 => same_path = true,
                _ => {}
            }
            first
        }
        "C14" => {
            let mode = if r.below(3) == 0 { Mode::File } else { Mode::Fit };
            let sc = pick_stable(r, mode, &mut |r, sc| {
                sc.params.explainability = true;
                sc.data.cols = 1 + r.below(4) as usize;
            });
            for _ in 0..2 {
                scheds.push(Sched::random(r, 1));
            }
            sc
        }
        "C15" => {
            let mode = if r.below(2) == 0 { random_cluster(r) } else { Mode::Fit };
            // prefer inputs near the point where the decision changes
            let mut best: Option<(f64, Scenario)> = None;
            for _ in 0..6 {
                let mut sc = Scenario::random(r, mode);
                sc.params.self_correction = true;
                if let Ok(m) = model::rough_model(&sc.data.make(), &sc.model_params()) {
                    let d = (m.valid as f64 - m.invalid as f64).abs();
                    let w = if m.corrected { d * 0.5 } else { d };
                    if best.as_ref().map_or(true, |b| w < b.0) && model::model(&sc.data.make(), &sc.model_params(), 0.0, 0).is_ok() {
                        best = Some((w, sc));
                    }
                }
            }
            let sc = best.map(|b| b.1).unwrap_or_else(|| {
                let mut sc = Scenario::random(r, mode);
                sc.params.self_correction = true;
                sc
            });
            scheds.push(Sched::random(r, sc.nodes()));
            sc
        }
        "C17" => {
            let mode = if r.below(3) == 0 { random_cluster(r) } else { Mode::File };
            let mut sc = Scenario::random(r, mode);
            sc.csv = random_csv(r);
            sc.params.explainability = mode == Mode::File && r.below(3) == 0;
            // the defaults
            if r.below(3) == 0 {
                sc.params.pattern = 50;
                sc.params.latent = if r.below(2) == 0 { 16 } else { sc.params.latent.min(47) };
                sc.params.query = if r.below(2) == 0 { 75 } else { sc.params.query.max(50) };
                let need = sc.nodes() * (sc.params.query + sc.params.pattern + 3) + 50;
                sc.data.rows = sc.data.rows.max(need);
            }
            if r.below(4) == 0 {
                sc.params.rate = 100;
            }
            if r.below(4) == 0 {
                sc.params.threads = 8;
            }
            sc.cli = Some(r.next() >> 8);
            scheds.push(Sched::random(r, sc.nodes()));
            sc
        }
        "C16" => {
            let mode = if r.below(2) == 0 { random_cluster(r) } else { Mode::File };
            let mut sc = Scenario::random(r, mode);
            if r.below(2) == 0 {
                sc.csv = random_csv(r);
            }
            use DefectKind::*;
            let kinds: &[DefectKind] = if sc.data.cols + sc.csv.before + sc.csv.after == 1 {
                // (a row that lacks its only value is an empty line)
                &[Text, FieldTooMuch, NoUtf8, TwoPoints, NotFinite, Range]
            } else {
                &[Text, EmptyCell, FieldMissing, FieldTooMuch, NoUtf8, TwoPoints, NotFinite, TwoRows, Range]
            };
            let row = match r.below(4) {
                0 => r.below(3) as usize,
                1 => sc.data.rows - 1 - r.below(3) as usize,
                _ => r.below(sc.data.rows as u64) as usize,
            };
            let kind = kinds[r.below(kinds.len() as u64) as usize];
            // (the embedding does not use the last row)
            let row = if matches!(kind, NotFinite | TwoRows) { row.min(sc.data.rows - 2) } else { row };
            sc.csv.defect = Some(Defect { kind, row, variant: r.below(96) as usize });
            for _ in 0..2 {
                scheds.push(Sched::random(r, sc.nodes()));
            }
            sc
        }
        _ => panic!("unknown property {prop}"),
    };
    Case { prop: prop.to_string(), sc, more, scheds, parallel, same_path }
}

/// Step at which the cluster has formed: the first message of s2gpp itself (not of actix-telepathy's connector).
fn formation(r: &RunResult) -> Option<u64> {
    r.report.wire.iter().find(|w| !w.destination.ends_with("/gossip")).map(|w| w.step)
}

/// The main node has to be there before the others start: no stall of it before the cluster has formed.
fn main_stalled_early(s: &Sched, r: &RunResult) -> bool {
    let formed = formation(r).unwrap_or(u64::MAX);
    s.faults.iter().any(|(at, f)| *at <= formed && matches!(f, FaultSpec::Stall { node: 0, .. }))
}

fn check_same(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    if sc.params.explainability && degenerate(sc) {
        return Verdict::Skip("degenerate");
    }
    let base = match completed(sc, &ctx.exec(sc, &Sched::canonical())) {
        Ok(x) => x,
        Err(e) => return Verdict::Bad(format!("canonical schedule: {e}")),
    };
    for (i, s) in base.scores.iter().enumerate() {
        if let Some(d) = first_difference(&base.scores[0], s, 0.0) {
            return Verdict::Bad(format!("score of node {i} differs from the one of the main node: {d}"));
        }
    }
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        if main_stalled_early(&case.scheds[i], &r) {
            continue;
        }
        match completed(sc, &r) {
            Err(e) => return Verdict::Bad(format!("schedule {i}: {e}")),
            Ok(o) => {
                for (n, s) in o.scores.iter().enumerate() {
                    if let Some(d) = first_difference(&base.scores[0], s, 0.0) {
                        return Verdict::Bad(format!("schedule {i}, node {n}: {d}, compared with the canonical schedule"));
                    }
                }
                if o.contributions != base.contributions {
                    return Verdict::Bad(format!("schedule {i}: the contribution file depends on the schedule"));
                }
            }
        }
    }
    Verdict::Ok(sc.params.threads > 1 || sc.nodes() > 1)
}

fn check_live(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    if sc.params.explainability && degenerate(sc) {
        return Verdict::Skip("degenerate");
    }
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        if main_stalled_early(&case.scheds[i], &r) {
            continue;
        }
        match completed(sc, &r) {
            Err(e) => return Verdict::Bad(format!("schedule {i}: {e}")),
            Ok(o) => {
                for s in &o.scores {
                    if s.len() != sc.n_scores() {
                        return Verdict::Bad(format!("schedule {i}: {} scores instead of {}", s.len(), sc.n_scores()));
                    }
                }
                if r.values.len() > 1 {
                    return Verdict::Bad("more than one result".into());
                }
            }
        }
    }
    Verdict::Ok(sc.params.threads > 1 || sc.nodes() > 1)
}

fn compare_model(o: &Output, m: &ModelOut) -> Option<String> {
    for (n, s) in o.scores.iter().enumerate() {
        let expected: Vec<f32> = m.scores.iter().map(|x| *x as f32).collect();
        if let Some(d) = first_difference(&expected, s, tolerance(m)) {
            return Some(format!("node {n}: {d}, compared with the reference model"));
        }
    }
    None
}

fn check_model(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let m = match stable(sc) {
        Ok(m) => m,
        Err(e) => return skip_reason(e),
    };
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let bad = match completed(sc, &r) {
            Err(e) => Some(e),
            Ok(o) => compare_model(&o, &m),
        };
        if let Some(b) = bad {
            if !still_stable(sc) {
                return Verdict::Skip("unstable at second look");
            }
            return Verdict::Bad(format!("schedule {i}: {b}"));
        }
    }
    Verdict::Ok(case.prop != "C15" || m.corrected || m.invalid * 2 > m.valid)
}

fn check_pair(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let m = match stable(sc) {
        Ok(m) => m,
        Err(e) => return skip_reason(e),
    };
    let mut single = sc.clone();
    single.params.threads = 1;
    single.mode = Mode::Fit;
    let base = match completed(&single, &ctx.exec(&single, &Sched::canonical())) {
        Ok(o) => o,
        Err(e) => return Verdict::Bad(format!("one process, one thread: {e}")),
    };
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let bad = match completed(sc, &r) {
            Err(e) => Some(e),
            Ok(o) => o.scores.iter().enumerate().find_map(|(n, s)| {
                first_difference(&base.scores[0], s, tolerance(&m)).map(|d| format!("node {n}: {d}, compared with one process and one thread"))
            }),
        };
        if let Some(b) = bad {
            if !still_stable(sc) {
                return Verdict::Skip("unstable at second look");
            }
            return Verdict::Bad(format!("schedule {i}: {b}"));
        }
    }
    Verdict::Ok(true)
}

fn check_shape(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let deg = degenerate(sc);
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let o = match completed(sc, &r) {
            Err(e) => return Verdict::Bad(format!("schedule {i}: {e}")),
            Ok(o) => o,
        };
        for (n, s) in o.scores.iter().enumerate() {
            if s.len() != sc.n_scores() {
                return Verdict::Bad(format!("node {n}: {} scores instead of {}", s.len(), sc.n_scores()));
            }
            if deg {
                continue;
            }
            if let Some(k) = s.iter().position(|x| !x.is_finite()) {
                if s.iter().all(|x| x.is_nan()) && (stable(sc).is_err() || !still_stable(sc)) {
                    // constant after all, in the precision of the code
                    return Verdict::Skip("constant or not, at the limit of the precision");
                }
                return Verdict::Bad(format!("node {n}: score {k} is {}", s[k]));
            }
            let min = s.iter().cloned().fold(f32::INFINITY, f32::min);
            let max = s.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
            if min != 0.0 || max != 1.0 {
                return Verdict::Bad(format!("node {n}: scores from {min} to {max} instead of 0 to 1"));
            }
        }
    }
    Verdict::Ok(!deg)
}

fn check_crash(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let mut fresh = sc.clone();
    fresh.stale = false;
    let base = ctx.exec(&fresh, &Sched::canonical());
    if let Err(e) = completed(&fresh, &base) {
        return Verdict::Bad(format!("without faults: {e}"));
    }
    let old = if sc.stale { Some(sc.stale_content()) } else { None };
    let right = base.files["score0.csv"].clone();
    let mut hit = false;
    for i in 0..case.scheds.len() {
        let s = &case.scheds[i];
        // when did the cluster start to work?
        let mut probe_s = s.clone();
        probe_s.faults.clear();
        let probe = sc.exec_with(&probe_s, |c| c.sim.record_wire = true);
        let formed = formation(&probe).unwrap_or(0);
        // After the loss of a connection between two live nodes, actix-telepathy tries to reconnect for
        // ever and is declined for ever. So, only what the processes report and leave behind counts then.
        let reset = s.faults.iter().any(|f| matches!(f.1, FaultSpec::Reset { .. }));
        // The same holds for a process that is started again before the others noticed its end.
        let restart = s.faults.iter().any(|f| matches!(f.1, FaultSpec::Restart { .. }));
        let r = sc.exec_with(s, |c| {
            c.sim.max_steps = probe.report.steps + if reset || restart { 5000 } else { 60_000 };
        });
        ctx.record(s, &r);
        ctx.decisions.insert(i, r.report.decisions.clone());
        let fired: u64 = r.report.fault_counts.values().sum();
        hit |= fired > 0;
        let after_formation = s.faults.iter().all(|f| f.0 > formed + 50);
        if r.disk.livelock {
            return Verdict::Bad(format!("schedule {i}: endless loop on a file"));
        }
        if after_formation && !reset && !restart {
            if let Some(stop) = &r.stop {
                return Verdict::Bad(format!(
                    "schedule {i}: {stop:?}: a process does not end after the loss of another one; states {:?}; waiting: {}",
                    r.report.nodes,
                    r.waiting.join(", ")
                ));
            }
        }
        if fired == 0 {
            if let Err(e) = completed(sc, &r) {
                return Verdict::Bad(format!("schedule {i}: no fault happened, but {e}"));
            }
        }
        for (n, state) in r.report.nodes.iter().enumerate() {
            let n = r.report.restarts.iter().find(|x| x.0 == n).map_or(n, |x| x.1);
            let file = r.files.get(&format!("score{n}.csv"));
            if let Some(f) = file {
                if !right.starts_with(f) && Some(f) != old.as_ref() {
                    return Verdict::Bad(format!("schedule {i}: node {n} ({state:?}) left a wrong score file"));
                }
            }
            if n == 0 && *state == Some(NodeState::Exited(0)) && file != Some(&right) {
                return Verdict::Bad(format!(
                    "schedule {i}: the main node reports success but its score file has {} of {} bytes",
                    file.map_or(0, |f| f.len()),
                    right.len()
                ));
            }
        }
    }
    Verdict::Ok(hit)
}

fn check_disk(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    if sc.params.explainability && degenerate(sc) {
        return Verdict::Skip("degenerate");
    }
    let mut fresh = sc.clone();
    fresh.stale = false;
    let base = ctx.exec(&fresh, &Sched::canonical());
    if let Err(e) = completed(&fresh, &base) {
        return Verdict::Bad(format!("without faults: {e}"));
    }
    let old = if sc.stale { Some(sc.stale_content()) } else { None };
    let mut hit = false;
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        if r.disk.livelock {
            return Verdict::Bad(format!("schedule {i}: endless loop on a failing file"));
        }
        let fired = !r.disk.hit.is_empty();
        hit |= fired;
        let harmless = case.scheds[i].disk.iter().all(|d| {
            matches!(d, DiskFault::ShortWrite { .. } | DiskFault::WriteInterrupted { .. } | DiskFault::ShortReads { .. })
        });
        let done = completed(sc, &r);
        if harmless || !fired {
            if let Err(e) = &done {
                return Verdict::Bad(format!("schedule {i}: a fault the file API hides leads to: {e}"));
            }
        }
        match r.stop {
            None | Some(actix_rt::sim::StopReason::NodeGone(_)) => {}
            Some(s) => return Verdict::Bad(format!("schedule {i}: {s:?}: a process does not end after a file error; waiting: {}", r.waiting.join(", "))),
        }
        // whatever reached the disk is the beginning of the right content
        for (name, content) in &r.files {
            if let Some(right) = base.files.get(name) {
                if !right.starts_with(content) && Some(content) != old.as_ref() {
                    return Verdict::Bad(format!("schedule {i}: {name} has wrong content"));
                }
            }
        }
        // success means that everything is there
        let success = match sc.mode {
            Mode::Cluster(_) => r.report.nodes[0] == Some(NodeState::Exited(0)),
            _ => r.failure.is_none() && r.error.is_none() && r.stop.is_none() && r.values.len() == 1,
        };
        if success {
            for name in ["score0.csv", "contributions.csv"] {
                if base.files.get(name) != r.files.get(name) {
                    return Verdict::Bad(format!(
                        "schedule {i}: success is reported but {name} has {:?} of {:?} bytes",
                        r.files.get(name).map(|f| f.len()),
                        base.files.get(name).map(|f| f.len())
                    ));
                }
            }
        }
        if let Mode::Cluster(_) = sc.mode {
            for (n, st) in r.report.nodes.iter().enumerate().skip(1) {
                let name = format!("score{n}.csv");
                if success && *st == Some(NodeState::Exited(0)) && base.files.get(&name) != r.files.get(&name) {
                    return Verdict::Bad(format!("schedule {i}: the cluster reports success but {name} is not complete"));
                }
            }
        }
    }
    Verdict::Ok(hit)
}

/// A file that is not a table of numbers: every process ends, none with a result.
fn check_defect(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let mut good = sc.clone();
    let Some(d) = good.csv.defect.take() else { return Verdict::Skip("no defect") };
    if d.row >= sc.data.rows || (d.kind == DefectKind::NotFinite && d.row + 1 == sc.data.rows) {
        return Verdict::Skip("no defect");
    }
    if d.kind != DefectKind::Range && good.csv.write(&sc.data.make()) == sc.csv.write(&sc.data.make()) {
        return Verdict::Skip("no defect");
    }
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let success = match sc.mode {
            Mode::Cluster(_) => r.report.nodes[0] == Some(NodeState::Exited(0)),
            _ => r.failure.is_none() && r.error.is_none() && r.stop.is_none(),
        };
        if success {
            return Verdict::Bad(format!("schedule {i}: success is reported for a file with {:?} in row {}", d.kind, d.row));
        }
        match &r.stop {
            None | Some(actix_rt::sim::StopReason::NodeGone(_)) => {}
            Some(s) => {
                return Verdict::Bad(format!("schedule {i}: {s:?}: a process does not end with such a file; states {:?}; waiting: {}", r.report.nodes, r.waiting.join(", ")))
            }
        }
        for (name, content) in &r.files {
            if !sc.stale || *content != sc.stale_content() {
                return Verdict::Bad(format!("schedule {i}: {name} is written in spite of {:?} in row {}", d.kind, d.row));
            }
        }
    }
    Verdict::Ok(true)
}

fn check_file(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let mut base_sc = sc.clone();
    base_sc.csv = Csv::plain();
    if sc.mode == Mode::File {
        base_sc.mode = Mode::Fit;
    }
    let base = match completed(&base_sc, &ctx.exec(&base_sc, &Sched::canonical())) {
        Ok(o) => o,
        Err(e) => return Verdict::Bad(format!("array or plain file: {e}")),
    };
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        match completed(sc, &r) {
            Err(e) => return Verdict::Bad(format!("schedule {i}: {e}")),
            Ok(o) => {
                for s in &o.scores {
                    if let Some(d) = first_difference(&base.scores[0], s, 0.0) {
                        return Verdict::Bad(format!("schedule {i}: {d}, compared with the same numbers without the formatting"));
                    }
                }
            }
        }
    }
    Verdict::Ok(sc.mode == Mode::File || sc.csv != Csv::plain())
}

fn check_cli(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    if sc.params.explainability && degenerate(sc) {
        return Verdict::Skip("degenerate");
    }
    let mut lib = sc.clone();
    lib.cli = None;
    lib.stale = false;
    let base = match completed(&lib, &ctx.exec(&lib, &Sched::canonical())) {
        Ok(o) => o,
        Err(e) => return Verdict::Bad(format!("parameters given in memory: {e}")),
    };
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let o = match completed(sc, &r) {
            Ok(o) => o,
            Err(e) => return Verdict::Bad(format!("schedule {i}: command line: {e}")),
        };
        for (k, s) in o.scores.iter().enumerate() {
            if let Some(d) = first_difference(&base.scores[0], s, 0.0) {
                return Verdict::Bad(format!("schedule {i}: node {k}: {d}, compared with the same parameters given in memory"));
            }
        }
        if o.contributions != base.contributions {
            return Verdict::Bad(format!("schedule {i}: contribution file differs from the one with the same parameters given in memory"));
        }
    }
    Verdict::Ok(true)
}

fn check_seq(case: &Case, ctx: &mut Ctx) -> Verdict {
    let all: Vec<&Scenario> = std::iter::once(&case.sc).chain(case.more.iter()).collect();
    if all.iter().any(|s| s.params.explainability && degenerate(s)) {
        return Verdict::Skip("degenerate");
    }
    let out = |k: usize| if case.same_path { 10 } else { k + 10 };
    let mut alone = vec![];
    for sc in &all {
        match completed(sc, &ctx.exec(sc, &Sched::canonical())) {
            Ok(o) => alone.push(o),
            Err(e) => return Verdict::Bad(format!("alone: {e}")),
        }
    }
    for i in 0..case.scheds.len() {
        let dir = run_dir();
        let mut inputs = vec![];
        let mut items = vec![];
        for (k, sc) in all.iter().enumerate() {
            let tag = format!("{}", k + 10);
            if sc.mode == Mode::File {
                inputs.push((format!("in{tag}.csv"), sc.csv.write(&sc.data.make())));
            }
            let mut it = sc.item(&dir, &tag);
            it.params.anomaly_contribution_output_path = format!("{dir}/contributions{}.csv", out(k));
            if it.params.score_output_path.is_some() {
                it.params.score_output_path = Some(format!("{dir}/score{}.csv", out(k)));
            }
            items.push(it);
        }
        let job = if case.parallel { Job::Parallel(items) } else { Job::Seq(items) };
        let r = run(job, case.scheds[i].config(), dir, inputs);
        ctx.record(&case.scheds[i], &r);
        ctx.decisions.insert(i, r.report.decisions.clone());
        if case.parallel {
            *ctx.stats.notes.entry("cases with calls at the same time".into()).or_default() += 1;
            for (k, s) in r.report.nodes.iter().enumerate() {
                if *s != Some(NodeState::Exited(0)) {
                    return Verdict::Bad(format!("call {} of {} at the same time: {s:?} {:?} {}", k + 1, all.len(), r.stop, r.waiting.join(", ")));
                }
            }
        }
        if let Some(f) = r.failure.as_ref().or(r.error.as_ref()) {
            return Verdict::Bad(format!("call {} of {}: {f}", r.values.len() + 1, all.len()));
        }
        for (k, sc) in all.iter().enumerate() {
            let got = match sc.mode {
                Mode::Fit => r.values[k].clone(),
                _ if case.same_path && all[k + 1..].iter().any(|s| s.mode == Mode::File) => continue,
                _ => r.files.get(&format!("score{}.csv", out(k))).and_then(|b| parse_scores(b)),
            };
            let Some(got) = got else {
                return Verdict::Bad(format!("call {} of {} gave no score", k + 1, all.len()));
            };
            if let Some(d) = first_difference(&alone[k].scores[0], &got, 0.0) {
                return Verdict::Bad(format!("call {} of {}: {d}, compared with the same call in a fresh process", k + 1, all.len()));
            }
            if case.same_path && all[k + 1..].iter().any(|s| s.params.explainability) {
                continue;
            }
            if sc.params.explainability && r.files.get(&format!("contributions{}.csv", out(k))) != alone[k].contributions.as_ref() {
                return Verdict::Bad(format!("call {} of {}: contribution file differs from the one of a fresh process", k + 1, all.len()));
            }
        }
    }
    Verdict::Ok(true)
}

/// What is on disk besides the results.
fn check_traces(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    let mut judged = false;
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        if let Some(n) = r.changed.first() {
            return Verdict::Bad(format!("schedule {i}: the run changed {n}"));
        }
        let told = |name: &str| match name.strip_prefix("score").and_then(|x| x.strip_suffix(".csv")) {
            Some(k) => sc.mode != Mode::Fit && k.parse::<usize>().map_or(false, |k| k < sc.nodes() && sc.no_path >> k & 1 == 0),
            None => name == "contributions.csv" && sc.params.explainability,
        };
        // what nobody told the run to write
        let was_there = |name: &str| sc.stale && (name == "contributions.csv" || sc.mode != Mode::Fit && name.starts_with("score"));
        for (name, content) in r.files.iter().filter(|f| !told(f.0) && was_there(f.0)) {
            if *content != sc.stale_content() {
                return Verdict::Bad(format!("schedule {i}: {name} was changed and is not among the outputs"));
            }
        }
        if sc.stale && !sc.params.explainability && !r.files.contains_key("contributions.csv") {
            return Verdict::Bad(format!("schedule {i}: contributions.csv of an earlier run is gone"));
        }
        if (0..sc.nodes()).any(|k| sc.stale && sc.mode != Mode::Fit && sc.no_path >> k & 1 == 1 && !r.files.contains_key(&format!("score{k}.csv"))) {
            return Verdict::Bad(format!("schedule {i}: a score file of an earlier run is gone"));
        }
        let ok = r.failure.is_none() && r.error.is_none() && r.stop.is_none() && match sc.mode {
            Mode::Cluster(_) => r.report.nodes.iter().all(|s| *s == Some(NodeState::Exited(0))),
            _ => r.node_panics().is_empty(),
        };
        if !ok {
            continue;
        }
        judged = true;
        if let Some(n) = r.files.keys().find(|n| !told(n) && !was_there(n) && *n != "by.csv") {
            return Verdict::Bad(format!("schedule {i}: the run left {n}, which is not among the outputs"));
        }
        if let Some(n) = r.disk.elsewhere.first() {
            return Verdict::Bad(format!("schedule {i}: the run wrote {n}, which is not among the outputs"));
        }
        for k in 0..sc.nodes() {
            let n = format!("score{k}.csv");
            if told(&n) && r.files.get(&n).map_or(true, |b| sc.stale && *b == sc.stale_content()) {
                return Verdict::Bad(format!("schedule {i}: success without {n}"));
            }
        }
        if sc.params.explainability && r.files.get("contributions.csv").map_or(true, |b| sc.stale && *b == sc.stale_content()) {
            return Verdict::Bad(format!("schedule {i}: success without contributions.csv"));
        }
    }
    Verdict::Ok(judged)
}

fn check_explain(case: &Case, ctx: &mut Ctx) -> Verdict {
    let sc = &case.sc;
    if degenerate(sc) {
        return Verdict::Skip("degenerate");
    }
    let mut plain = sc.clone();
    plain.params.explainability = false;
    let base = match completed(&plain, &ctx.exec(&plain, &Sched::canonical())) {
        Ok(o) => o,
        Err(e) => return Verdict::Bad(format!("without explainability: {e}")),
    };
    let m = stable(sc).ok();
    let mut first: Option<Vec<u8>> = None;
    for i in 0..case.scheds.len() {
        let r = ctx.exec_i(case, sc, i);
        let o = match completed(sc, &r) {
            Ok(o) => o,
            Err(e) => return Verdict::Bad(format!("schedule {i}: {e}")),
        };
        if let Some(d) = first_difference(&base.scores[0], &o.scores[0], 0.0) {
            return Verdict::Bad(format!("schedule {i}: explainability changes the score: {d}"));
        }
        let file = o.contributions.unwrap();
        let Some(rows) = parse_rows(&file) else {
            return Verdict::Bad("the contribution file is not a table of numbers".into());
        };
        if rows.len() != sc.n_scores() {
            return Verdict::Bad(format!("{} rows of contributions for {} scores", rows.len(), sc.n_scores()));
        }
        if let Some(k) = rows.iter().position(|x| x.len() != sc.data.cols || x.iter().any(|y| !y.is_finite() || y.abs() > 1.0)) {
            return Verdict::Bad(format!("contributions of score {k} are {:?}", rows[k]));
        }
        match &first {
            None => first = Some(file),
            Some(f) if *f != file => return Verdict::Bad(format!("schedule {i}: the contribution file depends on the schedule")),
            _ => {}
        }
        if let Some(m) = &m {
            if let Some(b) = compare_contributions(m, &rows) {
                if still_stable(sc) {
                    return Verdict::Bad(format!("schedule {i}: {b}"));
                }
            }
        }
    }
    Verdict::Ok(m.is_some())
}

/// Contributions are given relative to a median per dimension, which is taken up to 1/80.
fn compare_contributions(m: &ModelOut, rows: &[Vec<f32>]) -> Option<String> {
    let mut expected = m.contributions.clone();
    let mut last: Option<Vec<f64>> = None;
    for c in expected.iter_mut() {
        if c.iter().sum::<f64>() < 1e-9 {
            if let Some(l) = &last {
                *c = l.clone();
            }
        } else {
            last = Some(c.clone());
        }
    }
    let d = rows[0].len();
    for k in 0..d {
        let mut sorted: Vec<f64> = expected.iter().map(|x| x[k]).collect();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let median = sorted[sorted.len() / 2];
        let mut shift: Option<f64> = None;
        for (i, row) in rows.iter().enumerate() {
            // rows that sum up to zero stand for the one before
            let sum: f64 = row.iter().map(|x| *x as f64).sum();
            let same_as_before = i > 0 && *row == rows[i - 1];
            if sum.abs() < 1e-5 || same_as_before {
                continue;
            }
            let diff = expected[i][k] - row[k] as f64;
            match shift {
                None => {
                    if (diff - median).abs() > 0.013 {
                        return Some(format!("contribution of dimension {k} to score {i} is {} relative to the median, expected {}", row[k], expected[i][k] - median));
                    }
                    shift = Some(diff);
                }
                Some(s) => {
                    if (diff - s).abs() > 1e-4 {
                        return Some(format!("contribution of dimension {k} to score {i} is {}, expected {}", row[k], expected[i][k] - s));
                    }
                }
            }
        }
    }
    None
}

pub fn check(case: &Case, ctx: &mut Ctx) -> Verdict {
    crate::run::OWN_PROCESS.store(case.prop == "C13", std::sync::atomic::Ordering::Relaxed);
    match case.prop.as_str() {
        "C01" | "C07" => check_same(case, ctx),
        "C02" | "C06" => check_live(case, ctx),
        "C03" | "C15" => check_model(case, ctx),
        "C04" | "C08" => check_pair(case, ctx),
        "C05" => check_shape(case, ctx),
        "C09" => check_crash(case, ctx),
        "C10" | "C11" => check_disk(case, ctx),
        "C12" => check_file(case, ctx),
        "C13" => check_seq(case, ctx),
        "C14" => check_explain(case, ctx),
        "C16" => check_defect(case, ctx),
        "C17" => check_cli(case, ctx),
        "C18" => check_traces(case, ctx),
        p => panic!("unknown property {p}"),
    }
}

/// Executing the same schedule twice gives the same execution.
pub fn self_check(case: &Case, ctx: &mut Ctx) {
    let exec = |s: &Sched| case.sc.exec_with(s, |c| c.sim.max_steps = 40_000);
    if let Some(s) = case.scheds.last() {
        let a = exec(s);
        let mut again = s.clone();
        again.decisions = Some(a.report.decisions.clone());
        let b = exec(&again);
        let c = exec(s);
        ctx.stats.self_checks += 1;
        if a.report.trace_hash != b.report.trace_hash || a.report.trace_hash != c.report.trace_hash || a.files != c.files || a.files != b.files {
            ctx.stats.self_check_failures += 1;
        }
    }
}
