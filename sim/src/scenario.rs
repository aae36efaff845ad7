//! What one simulated experiment consists of: input, parameters, schedule and faults. A scenario is
//! plain data (it is what a replay file contains) and is executed by real s2gpp code in the simulator.
use actix_rt::sim::{Config, Fault, Policy};
use actix_rt::Rng;
use ndarray::Array2;
use s2gpp::{Parameters, Role};
use serde::{Deserialize, Serialize};

use crate::model::ModelParams;
use crate::run::*;
use crate::seam::DiskFault;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Data {
    pub kind: u8,
    pub seed: u64,
    pub rows: usize,
    pub cols: usize,
}

/// How the input file is written.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Csv {
    pub crlf: bool,
    /// an empty line after every n-th row (0: none)
    pub blank_every: usize,
    pub final_newline: bool,
    pub spaces: bool,
    /// columns that are not part of the series, before and after it
    pub before: usize,
    pub after: usize,
    /// these columns hold text
    pub text: bool,
    /// quote the numbers
    pub quoted: bool,
    /// give the end of the range as negative number
    pub negative_end: bool,
    /// how numbers are written: 0 shortest, 1 exponent, 2 with sign, 3 all digits, 4 one after the other
    #[serde(default, skip_serializing_if = "zero")]
    pub numbers: u8,
    /// text cells and the header span lines: 1 the text, 2 the header, 3 both (quoted)
    #[serde(default, skip_serializing_if = "zero")]
    pub multiline: u8,
    /// a carriage return alone ends a line
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub cr: bool,
    /// something in the file that cannot be read as a table of numbers
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub defect: Option<Defect>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Defect {
    pub kind: DefectKind,
    pub row: usize,
    /// which text, number or range
    #[serde(default)]
    pub variant: usize,
}

fn zero(x: &u8) -> bool {
    *x == 0
}

/// Values that no one would take for a number.
const TEXTS: [&str; 39] = [
    "none", "N/A", "?", "-", "\"1,5\"", "0x1F", "1e", "1 2", "--1", "1.0f", "1_000", "true", "e5", ".", "1;2", "'3'",
    "na", "NA", "n/a", "null", "NULL", "nil", "None", "n.a.", "missing", "-.", "+", "+-1", "1f", "1%", "$1", "1e+",
    "1d5", "1..2", "(1)", "#N/A", "false", "unknown", "abc",
];
/// Numbers that cannot be part of a series.
const NOT_FINITE: [&str; 6] = ["NaN", "nan", "inf", "-inf", "1e39", "-infinity"];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DefectKind {
    Text,
    EmptyCell,
    FieldMissing,
    FieldTooMuch,
    NoUtf8,
    TwoPoints,
    /// neither text nor finite
    NotFinite,
    /// a row with a field less and a row with a field more
    TwoRows,
    /// the column range ends after the last column or is empty
    Range,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Params {
    pub pattern: usize,
    pub latent: usize,
    pub rate: usize,
    pub query: usize,
    pub threads: usize,
    pub self_correction: bool,
    pub explainability: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// `s2gpp(params, Some(array))`
    Fit,
    /// `s2gpp(params, None)` of one process
    File,
    /// one process per cluster node
    Cluster(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultSpec {
    Crash { node: usize, lossy: bool },
    Restart { node: usize },
    Reset { a: usize, b: usize },
    Partition { a: usize, b: usize, steps: u64 },
    Stall { node: usize, ms: u64 },
}

impl FaultSpec {
    pub fn fault(&self) -> Fault {
        match *self {
            FaultSpec::Crash { node, lossy } => Fault::Crash { node, lossy },
            FaultSpec::Restart { node } => Fault::Restart { node },
            FaultSpec::Reset { a, b } => Fault::Reset { a, b },
            FaultSpec::Partition { a, b, steps } => Fault::Partition { a, b, steps },
            FaultSpec::Stall { node, ms } => Fault::Stall { node, ms },
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sched {
    /// None: the canonical schedule (always the first choice)
    pub seed: Option<u64>,
    pub policy: u8,
    pub hash_seed: u64,
    pub fragment: bool,
    /// bytes, 0: unlimited
    pub window: usize,
    pub delays: Vec<u64>,
    pub faults: Vec<(u64, FaultSpec)>,
    pub disk: Vec<DiskFault>,
    /// recorded choices to follow, the first choice afterwards
    pub decisions: Option<Vec<u32>>,
}

pub const POLICIES: [Policy; 5] = [Policy::Uniform, Policy::Prio, Policy::Slow, Policy::Sticky, Policy::Fair];

impl Sched {
    pub fn canonical() -> Self {
        Sched::default()
    }
    pub fn config(&self) -> RunCfg {
        let canonical = self.seed.is_none() || self.decisions.is_some();
        RunCfg {
            sim: Config {
                seed: self.seed.unwrap_or(0),
                policy: POLICIES[self.policy as usize % POLICIES.len()],
                replay: self.decisions.clone().unwrap_or_default(),
                replay_only: canonical,
                fragment: self.fragment,
                window: if self.window == 0 { usize::MAX } else { self.window },
                faults: self.faults.iter().map(|(s, f)| (*s, f.fault())).collect(),
                max_steps: std::env::var("S2SIM_MAXSTEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(1_000_000),
                record_trace: std::env::var("S2SIM_RUNTRACE").is_ok(),
                ..Default::default()
            },
            hash_seed: self.hash_seed,
            disk_faults: self.disk.clone(),
            start_delay_ms: self.delays.clone(),
        }
    }
    /// a random schedule (no faults)
    pub fn random(r: &mut Rng, nodes: usize) -> Self {
        Sched {
            seed: Some(r.next()),
            policy: [0, 0, 1, 1, 2, 2, 3, 3, 4][r.below(9) as usize],
            hash_seed: r.next(),
            fragment: nodes > 1 && r.below(3) == 0,
            window: if nodes > 1 && r.below(5) == 0 { 64 << r.below(8) } else { 0 },
            delays: (0..nodes)
                .map(|i| if i == 0 { 0 } else { [0, r.below(30), r.below(2000)][r.below(3) as usize] })
                .collect(),
            ..Default::default()
        }
    }
    /// network and node faults that pass again
    pub fn add_transient(&mut self, r: &mut Rng, nodes: usize, formed: u64, steps: u64) {
        for _ in 0..1 + r.below(3) {
            let mut at = r.below(steps.max(1));
            let f = if r.below(2) == 0 {
                let node = r.below(nodes as u64) as usize;
                if node == 0 && at <= formed {
                    at = formed + 1 + r.below(steps.saturating_sub(formed).max(1));
                }
                FaultSpec::Stall { node, ms: 1 + r.below(3000) }
            } else {
                let a = r.below(nodes as u64) as usize;
                let b = (a + 1 + r.below(nodes as u64 - 1) as usize) % nodes;
                FaultSpec::Partition { a, b, steps: 1 + r.below(steps / 2 + 10) }
            };
            self.faults.push((at, f));
        }
        self.faults.sort_by_key(|f| f.0);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub data: Data,
    pub csv: Csv,
    pub params: Params,
    pub mode: Mode,
    /// the output files exist already, with other and longer content
    #[serde(default)]
    pub stale: bool,
    /// the processes get their parameters as a command line, written in the style of this seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cli: Option<u64>,
    /// seed of the addresses of the nodes (None: 10.0.0.x:8000)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hosts: Option<u64>,
    /// nodes (bits) that are told no path for the score
    #[serde(default, skip_serializing_if = "zero16")]
    pub no_path: u16,
    /// the files of others lie in the same directory
    #[serde(default)]
    pub bystanders: bool,
}

fn zero16(x: &u16) -> bool {
    *x == 0
}

/// A seeded flat part: from, length
fn flat_part(kind: u8, rows: usize, r: &mut Rng) -> Option<(usize, usize)> {
    let len = rows / 8 + r.below((rows / 2).max(1) as u64) as usize;
    match kind {
        // almost everything, so that whole parts of the series of a cluster have no transition
        11 => {
            let len = rows * 5 / 8 + r.below((rows * 5 / 16).max(1) as u64) as usize;
            Some((r.below((rows - len) as u64 + 1) as usize, len))
        }
        8 => Some((rows - len, len)),
        9 => Some((0, len)),
        10 => Some((r.below((rows - len) as u64 + 1) as usize, len)),
        _ => None,
    }
}

impl Data {
    pub fn make(&self) -> Array2<f32> {
        let mut r = Rng::new(self.seed);
        let (rows, cols) = (self.rows, self.cols);
        let mut a = Array2::<f32>::zeros((rows, cols));
        let base_period = 9.0 + r.f64() * 22.0;
        for c in 0..cols {
            let per = if r.below(2) == 0 { base_period } else { 9.0 + r.f64() * 22.0 };
            // few different points per period: transitions jump over the segments of whole nodes
            let per = if self.kind == 12 { (base_period / 3.0).floor().max(3.0) } else { per };
            let ph = r.f64() * 6.283;
            let amp = 0.5 + r.f64();
            let sign = if r.below(2) == 0 { 1.0 } else { -1.0 };
            let noise = match self.kind {
                3 | 12 => 0.004,
                2 => 0.12,
                _ => 0.03 + 0.05 * r.f64(),
            };
            let (scale, offset) = if self.kind == 4 {
                let s = 10f64.powf(r.f64() * 6.0 - 3.0);
                (s, s * (r.f64() * 20.0 - 10.0))
            } else {
                (1.0, 0.0)
            };
            let harmonic = 0.1 + 0.4 * r.f64();
            let (mut y1, mut y2) = (r.normal(), r.normal());
            let phi = 2.0 * 0.985 * (6.283 / per).cos();
            let mut hold = 0usize;
            let mut held = 0.0;
            let mut col: Vec<f64> = (0..rows)
                .map(|i| {
                    let t = i as f64 / per * std::f64::consts::TAU + ph;
                    let clean = match self.kind {
                        1 => {
                            let y = phi * y1 - 0.97 * y2 + 0.3 * r.normal();
                            y2 = y1;
                            y1 = y;
                            0.5 * y
                        }
                        2 => {
                            let f = (t / std::f64::consts::TAU).fract();
                            if c % 2 == 0 { t.sin().signum() * 0.8 + 0.3 * f } else { 2.0 * f - 1.0 }
                        }
                        6 => amp * t.sin() + 1.5 * i as f64 / rows as f64,
                        _ => amp * t.sin() + harmonic * (2.0 * t + 0.7).cos(),
                    };
                    let mut y = clean + noise * r.normal();
                    if self.kind == 5 {
                        if hold > 0 {
                            hold -= 1;
                            y = held + 0.002 * r.normal();
                        } else if r.below(60) == 0 {
                            hold = 15 + r.below(60) as usize;
                            held = y;
                        }
                    }
                    sign * (y * scale + offset)
                })
                .collect();
            // something unusual in the middle
            if self.kind != 5 && r.below(3) != 0 && rows > 60 && (self.kind != 12 || self.seed % 2 == 0) {
                let st = rows / 4 + r.below((rows / 2) as u64) as usize;
                let len = (rows / 20).max(3);
                for x in col.iter_mut().skip(st).take(len) {
                    *x = sign * ((0.4 * amp * r.normal()) * scale + offset);
                }
            }
            if self.kind == 7 {
                col.reverse();
            }
            for (i, x) in col.into_iter().enumerate() {
                a[[i, c]] = x as f32;
            }
        }
        if let Some((from, len)) = flat_part(self.kind, rows, &mut r) {
            for i in from..from + len {
                for c in 0..cols {
                    a[[i, c]] = a[[from, c]];
                }
            }
        }
        a
    }
}

impl Csv {
    pub fn plain() -> Self {
        Csv { final_newline: true, ..Default::default() }
    }
    pub fn write(&self, a: &Array2<f32>) -> Vec<u8> {
        let nl = if self.cr {
            "\r"
        } else if self.crlf {
            "\r\n"
        } else {
            "\n"
        };
        let number = |x: f32, n: usize| match if self.numbers == 4 { n % 4 } else { self.numbers as usize } {
            1 => format!("{x:e}"),
            2 => format!("{x:+}"),
            3 => format!("{x:.150}"),
            _ => format!("{x}"),
        };
        let sep = if self.spaces { " , " } else { "," };
        let other = |i: usize, k: usize| match self.text {
            true if self.multiline & 1 != 0 && i % 3 == 1 => format!("\"t{i}, ä{nl}{nl}{k}\""),
            true if self.multiline & 1 != 0 => format!("\"t\"\"{i}{nl},{k}\""),
            true => format!("t{i}-{k}"),
            false => format!("{}", i * 7 + k),
        };
        let mut lines: Vec<String> = vec![];
        let mut head: Vec<String> = (0..self.before).map(|k| format!("i{k}")).collect();
        head.extend((0..a.ncols()).map(|c| format!("c{c}")));
        head.extend((0..self.after).map(|k| format!("label{k}")));
        if self.multiline & 2 != 0 {
            head.iter_mut().for_each(|h| *h = format!("\"{h}{nl}[m, s]\""));
        }
        lines.push(head.join(sep));
        for (i, row) in a.rows().into_iter().enumerate() {
            let mut f: Vec<String> = (0..self.before).map(|k| other(i, k)).collect();
            f.extend(row.iter().enumerate().map(|(k, x)| {
                let x = number(*x, i + k);
                if self.quoted {
                    format!("\"{x}\"")
                } else {
                    x
                }
            }));
            f.extend((0..self.after).map(|k| other(i, k + 50)));
            if let Some(d) = self.defect.filter(|d| d.row == i) {
                // in one of the selected columns
                let c = self.before + (i * 5 + 1) % a.ncols();
                match d.kind {
                    DefectKind::Text => f[c] = TEXTS[d.variant % TEXTS.len()].into(),
                    DefectKind::NotFinite => f[c] = NOT_FINITE[d.variant % NOT_FINITE.len()].into(),
                    DefectKind::TwoRows => {
                        f.pop();
                    }
                    DefectKind::EmptyCell => f[c] = String::new(),
                    DefectKind::FieldMissing => {
                        f.pop();
                    }
                    DefectKind::FieldTooMuch => f.push("0.5".into()),
                    DefectKind::NoUtf8 => f[c] = "\u{1}".into(),
                    DefectKind::TwoPoints => f[c] = "0.1.2".into(),
                    DefectKind::Range => {}
                }
            }
            if self.defect.map_or(false, |d| d.kind == DefectKind::TwoRows && d.row + 1 == i) {
                f.push("0.5".into());
            }
            lines.push(f.join(sep));
            if self.blank_every > 0 && i % self.blank_every == 0 {
                lines.push(String::new());
            }
        }
        let mut s = lines.join(nl);
        if self.final_newline {
            s.push_str(nl);
        }
        let mut b = s.into_bytes();
        if self.defect.map_or(false, |d| d.kind == DefectKind::NoUtf8) {
            b.iter_mut().filter(|x| **x == 1).for_each(|x| *x = 0xff);
        }
        b
    }
    fn range(&self, cols: usize) -> (usize, isize) {
        if let Some(d) = self.defect.filter(|d| d.kind == DefectKind::Range) {
            let all = self.before + cols + self.after;
            match d.variant % 6 {
                0 => (self.before, (all + 1) as isize),
                1 => (all, 0),
                2 => (all + 1, 0),
                3 => (self.before, -(all as isize) - 1),
                4 => (self.before + 1, (self.before + 1) as isize),
                _ => (self.before + 1, self.before.max(1) as isize),
            }
        } else if self.after == 0 {
            (self.before, 0)
        } else if self.negative_end {
            (self.before, -(self.after as isize))
        } else {
            (self.before, (self.before + cols) as isize)
        }
    }
}

impl Scenario {
    pub fn model_params(&self) -> ModelParams {
        ModelParams {
            pattern: self.params.pattern,
            latent: self.params.latent,
            rate: self.params.rate,
            query: self.params.query,
            self_correction: self.params.self_correction,
        }
    }
    pub fn n_scores(&self) -> usize {
        self.data.rows - (self.params.pattern - 1) - 1 - (self.params.query - 1)
    }
    pub fn nodes(&self) -> usize {
        match self.mode {
            Mode::Cluster(n) => n,
            _ => 1,
        }
    }
    fn s2gpp_params(&self, dir: &str) -> Parameters {
        let mut p = Parameters::default();
        p.pattern_length = self.params.pattern;
        p.latent = self.params.latent;
        p.rate = self.params.rate;
        p.query_length = self.params.query;
        p.n_threads = self.params.threads;
        p.self_correction = self.params.self_correction;
        p.explainability = self.params.explainability;
        p.anomaly_contribution_output_path = format!("{dir}/contributions.csv");
        p
    }
    pub fn item(&self, dir: &str, tag: &str) -> SeqItem {
        let mut p = self.s2gpp_params(dir);
        match self.mode {
            Mode::Fit => SeqItem { params: p, data: Some(self.data.make()), argv: None },
            _ => {
                let (from, to) = self.csv.range(self.data.cols);
                p.column_start = from;
                p.column_end = to;
                p.role = Role::Main { data_path: Some(format!("{dir}/in{tag}.csv")) };
                p.score_output_path = Some(format!("{dir}/score{}.csv", if tag.is_empty() { "0" } else { tag }));
                if self.no_path & 1 != 0 {
                    p.score_output_path = None;
                }
                SeqItem { params: p, data: None, argv: None }
            }
        }
    }
    /// what the output files hold before the run
    pub fn stale_content(&self) -> Vec<u8> {
        "7.25,7.5\n".repeat(self.n_scores() * 4 + 3).into_bytes()
    }
    fn before(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![];
        if self.mode != Mode::Fit {
            v.push(("in.csv".into(), self.csv.write(&self.data.make())));
            if self.stale {
                v.extend((0..self.nodes()).map(|i| (format!("score{i}.csv"), self.stale_content())));
            }
        }
        if self.bystanders {
            v.push(("by.csv".into(), self.stale_content()));
        }
        if self.stale && (self.params.explainability || self.bystanders) {
            v.push(("contributions.csv".into(), self.stale_content()));
        }
        v
    }
    pub fn job(&self, dir: &str) -> (Job, Vec<(String, Vec<u8>)>) {
        let (mut job, inputs) = self.plain_job(dir);
        if let Some(style) = self.cli {
            match &mut job {
                Job::Seq(v) => v.iter_mut().for_each(|i| i.argv = Some(argv(&i.params, style))),
                Job::Cluster(v) => {
                    for (k, i) in v.iter_mut().enumerate() {
                        i.argv = Some(argv(&i.params, style.wrapping_add(k as u64 * 977)));
                    }
                }
                Job::Parallel(_) => {}
            }
        }
        (job, inputs)
    }
    fn plain_job(&self, dir: &str) -> (Job, Vec<(String, Vec<u8>)>) {
        match self.mode {
            Mode::Fit | Mode::File => (Job::Seq(vec![self.item(dir, "")]), self.before()),
            Mode::Cluster(n) => {
                let mut p = self.s2gpp_params(dir);
                let (from, to) = self.csv.range(self.data.cols);
                p.column_start = from;
                p.column_end = to;
                let mut list = cluster_params(&p, n, dir, "in.csv", self.hosts);
                for (i, p) in list.iter_mut().enumerate() {
                    if self.no_path >> i & 1 != 0 {
                        p.score_output_path = None;
                    }
                }
                (Job::Cluster(list.into_iter().map(|params| SeqItem { params, data: None, argv: None }).collect()), self.before())
            }
        }
    }
    pub fn exec(&self, sched: &Sched) -> RunResult {
        self.exec_with(sched, |_| {})
    }
    pub fn exec_with(&self, sched: &Sched, f: impl FnOnce(&mut RunCfg)) -> RunResult {
        let dir = run_dir();
        let (job, inputs) = self.job(&dir);
        let mut cfg = sched.config();
        f(&mut cfg);
        if let Ok(t) = std::env::var("S2SIM_RUNTRACES") {
            cfg.sim.record_trace = true;
            let r = run(job, cfg, dir, inputs);
            std::fs::write(format!("{t}{:016x}", r.report.trace_hash), r.report.trace.join("\n")).unwrap();
            return r;
        }
        run(job, cfg, dir, inputs)
    }

    /// The widest domain the properties are stated for.
    pub fn random(r: &mut Rng, mode: Mode) -> Self {
        let pattern = match r.below(4) {
            0 => 6 + r.below(6),
            1 => 20 + r.below(16),
            _ => 9 + r.below(14),
        } as usize;
        let latent = (1 + r.below((pattern as u64 / 3).max(1))) as usize;
        let latent = latent.min(pattern - 3);
        let nodes = match mode {
            Mode::Cluster(n) => n,
            _ => 1,
        };
        let rate = match r.below(4) {
            0 => 8 + r.below(12),
            1 => 60 + r.below(60),
            _ => 16 + r.below(40),
        } as usize;
        let rate = rate.max(2 * nodes);
        let query = pattern + match r.below(3) { 0 => r.below(4), 1 => r.below(15), _ => r.below(40) } as usize;
        let min_rows = nodes * (query + pattern + 3);
        let rows = min_rows + match r.below(5) { 0 => r.below(20), 1 => 300 + r.below(300), _ => r.below(250) } as usize;
        let cols = match r.below(4) { 0 => 1, 1 => 2 + r.below(5), _ => 1 + r.below(3) } as usize;
        let threads = match r.below(6) { 0 => 1, 1 => 5 + r.below(12), _ => 1 + r.below(5) } as usize;
        let (pattern, latent, rate, query, rows) = if r.below(40) == 0 {
            // about the default parameters
            let pattern = 40 + r.below(25) as usize;
            let query = pattern + r.below(40) as usize;
            let rows = nodes * (query + pattern + 3) + 400 + r.below(900) as usize;
            (pattern, 8 + r.below(12) as usize, 80 + r.below(50) as usize, query, rows)
        } else {
            (pattern, latent, rate, query, rows)
        };
        let (mut pattern, mut latent, mut rate, mut query, mut rows, mut cols, mut threads) =
            (pattern, latent, rate, query, rows, cols, threads);
        if r.below(8) == 0 || std::env::var("S2SIM_WIDE").is_ok() {
            // far from the usual values
            let k = std::env::var("S2SIM_WIDE").ok().and_then(|x| x.parse().ok());
            match k.unwrap_or_else(|| r.below(7)) {
                0 => query = 2 + r.below(pattern as u64) as usize,
                1 => rate = (3 + r.below(6) as usize).max(nodes),
                2 => latent = 1 + r.below(pattern as u64 - 3) as usize,
                3 => rows += 1000 + r.below(if nodes > 1 { 2000 } else { 6000 }) as usize,
                4 => cols = 6 + r.below(9) as usize,
                5 => threads = 17 + r.below(48) as usize,
                _ => {
                    pattern = 60 + r.below(80) as usize;
                    latent = 1 + r.below(pattern as u64 - 3) as usize;
                    query = 10 + r.below(150) as usize;
                    rate = 100 + r.below(200) as usize;
                    rows = nodes * (query + pattern + 3) + r.below(600) as usize;
                }
            }
        }
        Scenario {
            data: Data { kind: [0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12][r.below(16) as usize], seed: r.next() >> 8, rows, cols },
            csv: Csv::plain(),
            params: Params {
                pattern,
                latent,
                rate,
                query,
                threads,
                self_correction: r.below(2) == 0,
                explainability: false,
            },
            mode,
            stale: r.below(3) == 0,
            cli: None,
            hosts: (nodes > 1 && r.below(2) == 0).then(|| r.next() >> 8),
            no_path: 0,
            bystanders: false,
        }
    }
}

/// A command line that stands for these parameters: options in any order and form, some of those that
/// have their documented default left out.
fn argv(p: &Parameters, style: u64) -> Vec<String> {
    let mut r = Rng::new(style);
    // (long, short, value, documented default)
    let mut opts: Vec<(&str, Option<&str>, String, &str)> = vec![
        ("local-host", Some("l"), p.local_host.to_string(), "127.0.0.1:8000"),
        ("pattern-length", Some("p"), p.pattern_length.to_string(), "50"),
        ("latent", None, p.latent.to_string(), "16"),
        ("rate", None, p.rate.to_string(), "100"),
        ("threads", Some("t"), p.n_threads.to_string(), "8"),
        ("cluster-nodes", Some("n"), p.n_cluster_nodes.to_string(), "1"),
        ("query-length", Some("q"), p.query_length.to_string(), "75"),
        ("column-start-idx", None, p.column_start.to_string(), "0"),
        ("column-end-idx", None, p.column_end.to_string(), "0"),
        ("clustering", None, "kde".into(), "kde"),
        ("anomaly-contribution-output-path", Some("a"), p.anomaly_contribution_output_path.clone(), "anomaly-contribution.csv"),
    ];
    if let Some(s) = &p.score_output_path {
        opts.push(("score-output-path", None, s.clone(), ""));
    }
    for (flag, on) in [("explainability", p.explainability), ("self-correction", p.self_correction)] {
        if on {
            opts.push((flag, None, String::new(), "off"));
        }
    }
    let (name, arg, short, value) = match &p.role {
        Role::Main { data_path } => ("main", "data-path", "d", data_path.clone().unwrap_or_default()),
        Role::Sub { mainhost } => ("sub", "mainhost", "h", mainhost.to_string()),
    };
    let mut out = vec!["s2gpp".to_string()];
    let mut form = |r: &mut Rng, long: &str, short: Option<&str>, value: String| {
        if value.is_empty() {
            return vec![format!("--{long}")];
        }
        match (r.below(3), short) {
            (0, Some(s)) if !value.starts_with('-') => vec![format!("-{s}"), value],
            (1, _) if !value.starts_with('-') => vec![format!("--{long}"), value],
            _ => vec![format!("--{long}={value}")],
        }
    };
    while !opts.is_empty() {
        let (long, short, value, default) = opts.swap_remove(r.below(opts.len() as u64) as usize);
        if value == default && r.below(3) != 0 {
            continue;
        }
        out.extend(form(&mut r, long, short, value));
    }
    out.push(name.into());
    out.extend(form(&mut r, arg, Some(short), value));
    out
}

/// parse a score file; None if a line is not a number
pub fn parse_scores(b: &[u8]) -> Option<Vec<f32>> {
    String::from_utf8_lossy(b).lines().map(|l| l.trim().parse::<f32>().ok()).collect()
}

pub fn parse_rows(b: &[u8]) -> Option<Vec<Vec<f32>>> {
    String::from_utf8_lossy(b)
        .lines()
        .map(|l| l.split(',').map(|x| x.trim().parse::<f32>().ok()).collect())
        .collect()
}
