//! Running real s2gpp code inside the simulator.
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

use actix_rt::sim::{self, Config, NodeState, Report, SimAbort, StopReason};
use ndarray::Array2;
use s2gpp::{Parameters, Role};
use serde::{Deserialize, Serialize};

use crate::seam::{self, DiskFault, DiskReport};

static SYS_BASE: AtomicUsize = AtomicUsize::new(0);

/// formats every message and drops it
struct NullLog;

impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

pub fn install_panic_hook() {
    let _ = log::set_logger(&NullLog);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<SimAbort>() {
            return;
        } else {
            "<panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if sim::is_installed() || std::thread::current().name() == Some("simrun") {
            sim::PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} @ {loc}")));
        } else {
            eprintln!("panic: {msg} @ {loc}");
        }
    }));
}

/// Everything one run needs besides its input.
#[derive(Clone, Debug)]
pub struct RunCfg {
    pub sim: Config,
    pub hash_seed: u64,
    pub disk_faults: Vec<DiskFault>,
    /// simulated start delay per node, milliseconds
    pub start_delay_ms: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct RunResult {
    /// what the completed calls of a `Job::Seq` returned
    pub values: Vec<Option<Vec<f32>>>,
    /// text of Err(..) if the call returned one
    pub error: Option<String>,
    /// panic text / reason why the call did not return
    pub failure: Option<String>,
    pub stop: Option<StopReason>,
    pub report: Report,
    pub disk: DiskReport,
    /// contents of the files the simulated processes were told to write, by name
    pub files: std::collections::BTreeMap<String, Vec<u8>>,
    pub waiting: Vec<String>,
    /// inputs and files of others that are not what they were
    pub changed: Vec<String>,
}

impl RunResult {
    pub fn node_panics(&self) -> Vec<(usize, String)> {
        self.report
            .nodes
            .iter()
            .enumerate()
            .filter_map(|(i, s)| match s {
                Some(NodeState::Panicked(m)) => Some((i, m.clone())),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct SeqItem {
    pub params: Parameters,
    pub data: Option<Array2<f32>>,
    /// command line to take the parameters from
    pub argv: Option<Vec<String>>,
}

impl SeqItem {
    /// take the parameters from the command line
    fn parse(&mut self) -> anyhow::Result<()> {
        if let Some(a) = &self.argv {
            self.params = <Parameters as structopt::StructOpt>::from_iter_safe(a)
                .map_err(|e| anyhow::anyhow!("the command line {a:?} is refused: {}", e.message))?;
        }
        Ok(())
    }
    /// what `main` or a caller of the library does
    fn call(self) -> anyhow::Result<Option<Vec<f32>>> {
        Ok(s2gpp::s2gpp(self.params, self.data)?.map(|a| a.to_vec()))
    }
}

/// a scratch directory of its own for the next run
pub fn run_dir() -> String {
    static N: AtomicUsize = AtomicUsize::new(0);
    format!("{}/{}-{}", scratch_root(), std::process::id(), N.fetch_add(1, Ordering::SeqCst))
}

#[derive(Clone, Debug)]
pub enum Job {
    /// calls of `s2gpp(params, data)` one after another in the same process
    Seq(Vec<SeqItem>),
    /// one process per entry
    Cluster(Vec<SeqItem>),
    /// calls at the same time in threads of one process
    Parallel(Vec<SeqItem>),
}

fn in_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .name("simrun".into())
        .stack_size(64 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .map_err(|p| sim::payload_text(&p))
        .expect("simulation thread died")
}

pub fn scratch_root() -> String {
    std::env::var("S2SIM_SCRATCH").unwrap_or_else(|_| "/tmp/s2sim".into())
}

static WARM: std::sync::Once = std::sync::Once::new();

/// Every run in a process of its own, which comes from one that has not executed anything of the
/// repository.
pub static OWN_PROCESS: AtomicBool = AtomicBool::new(false);

/// what comes back from such a process
#[derive(Serialize, Deserialize, Default)]
struct Slim {
    values: Vec<Option<Vec<f32>>>,
    error: Option<String>,
    failure: Option<String>,
    stop: Option<(u8, Option<(u8, i32, String)>)>,
    waiting: Vec<String>,
    files: std::collections::BTreeMap<String, Vec<u8>>,
    nodes: Vec<Option<(u8, i32, String)>>,
    decisions: Vec<u32>,
    trace: Vec<String>,
    numbers: Vec<u64>,
}

fn pack_state(s: &NodeState) -> (u8, i32, String) {
    match s {
        NodeState::Running => (0, 0, String::new()),
        NodeState::Exited(c) => (1, *c, String::new()),
        NodeState::Crashed => (2, 0, String::new()),
        NodeState::Panicked(m) => (3, 0, m.clone()),
    }
}

fn unpack_state(s: (u8, i32, String)) -> NodeState {
    match s.0 {
        0 => NodeState::Running,
        1 => NodeState::Exited(s.1),
        2 => NodeState::Crashed,
        _ => NodeState::Panicked(s.2),
    }
}

impl Slim {
    fn pack(r: RunResult) -> Slim {
        let p = &r.report;
        Slim {
            numbers: vec![p.steps, p.sim_ns, p.trace_hash, p.messages, p.wire_messages, p.bytes, p.order_hash, p.max_enabled as u64],
            nodes: p.nodes.iter().map(|n| n.as_ref().map(pack_state)).collect(),
            stop: r.stop.as_ref().map(|s| match s {
                StopReason::Deadlock => (0, None),
                StopReason::StepLimit => (1, None),
                StopReason::NodeGone(s) => (2, Some(pack_state(s))),
            }),
            values: r.values,
            error: r.error,
            failure: r.failure,
            waiting: r.waiting,
            files: r.files,
            decisions: r.report.decisions,
            trace: r.report.trace,
        }
    }

    fn unpack(self) -> RunResult {
        let n = self.numbers;
        RunResult {
            values: self.values,
            error: self.error,
            failure: self.failure,
            stop: self.stop.map(|s| match s {
                (0, _) => StopReason::Deadlock,
                (1, _) => StopReason::StepLimit,
                (_, s) => StopReason::NodeGone(unpack_state(s.unwrap())),
            }),
            report: Report {
                steps: n[0],
                sim_ns: n[1],
                trace_hash: n[2],
                messages: n[3],
                wire_messages: n[4],
                bytes: n[5],
                order_hash: n[6],
                max_enabled: n[7] as usize,
                nodes: self.nodes.into_iter().map(|s| s.map(unpack_state)).collect(),
                decisions: self.decisions,
                trace: self.trace,
                ..Report::default()
            },
            disk: DiskReport::default(),
            files: self.files,
            waiting: self.waiting,
            changed: vec![],
        }
    }
}

/// In a copy of this process. (The other thread that a worker has makes system calls only.)
fn run_apart(job: Job, cfg: RunCfg, dir: String, inputs: Vec<(String, Vec<u8>)>) -> RunResult {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::syscall(libc::SYS_close, fd[0]);
            let b = flexbuffers::to_vec(Slim::pack(run_now(job, cfg, dir, inputs))).unwrap();
            let mut at = 0;
            while at < b.len() {
                let n = libc::syscall(libc::SYS_write, fd[1], b.as_ptr().add(at), b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::syscall(libc::SYS_exit_group, if at == b.len() { 0 } else { 1 });
        }
        libc::syscall(libc::SYS_close, fd[1]);
        let mut b = vec![];
        let mut part = vec![0u8; 1 << 16];
        loop {
            let n = libc::syscall(libc::SYS_read, fd[0], part.as_mut_ptr(), part.len());
            if n <= 0 {
                break;
            }
            b.extend_from_slice(&part[..n as usize]);
        }
        libc::syscall(libc::SYS_close, fd[0]);
        let mut status = 0i32;
        libc::waitpid(pid, &mut status, 0);
        sim::PROGRESS.fetch_add(1, Ordering::Relaxed);
        if status != 0 {
            // as if it had happened here
            libc::abort();
        }
        flexbuffers::from_slice::<Slim>(&b).expect("result of a run").unpack()
    }
}

/// Run a job in a fresh thread (so that thread-local hash keys come from the seed).
pub fn run(job: Job, cfg: RunCfg, dir: String, inputs: Vec<(String, Vec<u8>)>) -> RunResult {
    if OWN_PROCESS.load(Ordering::Relaxed) {
        return run_apart(job, cfg, dir, inputs);
    }
    // What is initialised once per process (global tables take hash keys) must not make a difference.
    WARM.call_once(|| {
        for mode in [crate::scenario::Mode::Fit, crate::scenario::Mode::File, crate::scenario::Mode::Cluster(2)] {
            let mut r = actix_rt::Rng::new(7);
            let mut sc = crate::scenario::Scenario::random(&mut r, mode);
            sc.params.explainability = mode == crate::scenario::Mode::File;
            let dir = run_dir();
            let (job, inputs) = sc.job(&dir);
            run_now(job, crate::scenario::Sched::canonical().config(), dir, inputs);
        }
    });
    run_now(job, cfg, dir, inputs)
}

fn run_now(job: Job, cfg: RunCfg, dir: String, inputs: Vec<(String, Vec<u8>)>) -> RunResult {
    in_thread(move || {
        std::fs::create_dir_all(&dir).unwrap();
        for (n, c) in &inputs {
            std::fs::write(format!("{dir}/{n}"), c).unwrap();
        }
        let n_sys = 16 + match &job {
            Job::Seq(v) => v.len(),
            Job::Cluster(v) | Job::Parallel(v) => v.len(),
        };
        let base = SYS_BASE.fetch_add(n_sys, Ordering::SeqCst);
        sim::set_system_id_base(base);
        seam::seed_hashing(cfg.hash_seed);
        // some runs are made with all log messages switched on
        log::set_max_level(if cfg.hash_seed % 4 == 3 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        seam::install_disk(&dir, cfg.disk_faults.clone());
        sim::install(cfg.sim.clone());
        let mut res = RunResult {
            values: vec![],
            error: None,
            failure: None,
            stop: None,
            report: Report::default(),
            disk: DiskReport::default(),
            files: Default::default(),
            waiting: vec![],
            changed: vec![],
        };
        let mut job = job;
        let list = match &mut job {
            Job::Seq(v) | Job::Cluster(v) | Job::Parallel(v) => v,
        };
        for item in list.iter_mut() {
            if let Err(e) = item.parse() {
                res.error = Some(format!("{e:#}"));
            }
        }
        if res.error.is_some() {
            list.clear();
        }
        match job {
            Job::Seq(list) => {
                for item in list {
                    let r = catch_unwind(AssertUnwindSafe(|| item.call()));
                    match r {
                        Ok(Ok(v)) => res.values.push(v),
                        Ok(Err(e)) => {
                            res.error = Some(format!("{e:#}"));
                            break;
                        }
                        Err(p) => {
                            note_failure(&mut res, p);
                            break;
                        }
                    }
                }
            }
            Job::Parallel(list) => {
                let got = std::rc::Rc::new(std::cell::RefCell::new(vec![None; list.len()]));
                for (i, item) in list.into_iter().enumerate() {
                    let got = got.clone();
                    let node = actix_rt::process::spawn(move || match item.call() {
                        Ok(v) => {
                            got.borrow_mut()[i] = v;
                            0
                        }
                        Err(_) => 101,
                    });
                    let d = cfg.start_delay_ms.get(i).copied().unwrap_or(0);
                    if d > 0 {
                        sim::delay_node(node, d);
                    }
                }
                res.stop = sim::run_all();
                if res.stop.is_some() {
                    res.waiting = sim::waiting_tasks();
                }
                res.values = got.borrow().clone();
            }
            Job::Cluster(list) => {
                let again = list.clone();
                sim::set_respawn(move |i| {
                    let item = again[i].clone();
                    let host = item.params.local_host;
                    let node = actix_rt::process::spawn(move || match item.call() {
                        Ok(_) => 0,
                        Err(_) => 101,
                    });
                    sim::set_node_ip(node, host);
                    node
                });
                for (i, item) in list.into_iter().enumerate() {
                    let host = item.params.local_host;
                    let node = actix_rt::process::spawn(move || match item.call() {
                        Ok(_) => 0,
                        Err(_) => 101,
                    });
                    sim::set_node_ip(node, host);
                    let d = cfg.start_delay_ms.get(i).copied().unwrap_or(0);
                    if d > 0 {
                        sim::delay_node(node, d);
                    }
                }
                res.stop = sim::run_all();
                if res.stop.is_some() {
                    res.waiting = sim::waiting_tasks();
                }
            }
        }
        res.report = sim::uninstall();
        res.disk = seam::uninstall_disk();
        for (n, c) in &inputs {
            if (n.starts_with("in") || n.starts_with("by")) && std::fs::read(format!("{dir}/{n}")).ok().as_ref() != Some(c) {
                res.changed.push(n.clone());
            }
        }
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                if !name.starts_with("in") || !inputs.iter().any(|i| i.0 == name) {
                    if let Ok(c) = std::fs::read(e.path()) {
                        res.files.insert(name, c);
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        res
    })
}

fn note_failure(res: &mut RunResult, p: Box<dyn std::any::Any + Send>) {
    match p.downcast::<SimAbort>() {
        Ok(a) => {
            res.stop = Some(a.0.clone());
            res.waiting = sim::waiting_tasks();
            res.failure = Some(match a.0 {
                StopReason::Deadlock => "nothing can run any more and the call has not returned".into(),
                StopReason::StepLimit => "step limit reached".into(),
                StopReason::NodeGone(s) => format!("{s:?}"),
            });
        }
        Err(p) if p.is::<sim::NodeExit>() => res.failure = Some("exit called".into()),
        Err(p) => {
            let m = sim::PANIC_MSG
                .with(|m| m.borrow_mut().take())
                .unwrap_or_else(|| sim::payload_text(&p));
            res.failure = Some(format!("panic: {m}"));
        }
    }
}

/// The addresses of n nodes: one per host, all on one host or mixed, in no particular order.
pub fn hosts(n: usize, style: Option<u64>) -> Vec<SocketAddr> {
    let Some(style) = style else {
        return (0..n).map(|i| format!("10.0.0.{}:8000", i + 1).parse().unwrap()).collect();
    };
    let mut r = actix_rt::Rng::new(style);
    let kind = r.below(4);
    let mut v: Vec<SocketAddr> = vec![];
    while v.len() < n {
        // (the ports of outgoing connections begin at 40000)
        let (port, ip) = (1024 + r.below(31000), r.below(250) + 2);
        let a = match kind {
            0 => format!("127.0.0.1:{port}"),
            1 => format!("10.0.{}.{ip}:8000", r.below(3)),
            2 => format!("192.168.1.{}:{}", r.below(3) + 9, port),
            _ => format!("[fd00::{:x}]:{}", r.below(4) + 1, port),
        };
        let a = a.parse().unwrap();
        if !v.contains(&a) {
            v.push(a);
        }
    }
    v
}

/// Parameters of the n processes of a cluster.
pub fn cluster_params(base: &Parameters, n: usize, dir: &str, data: &str, style: Option<u64>) -> Vec<Parameters> {
    let hosts = hosts(n, style);
    (0..n)
        .map(|i| {
            let mut p = base.clone();
            p.n_cluster_nodes = n;
            p.local_host = hosts[i];
            p.role = if i == 0 {
                Role::Main {
                    data_path: Some(format!("{dir}/{data}")),
                }
            } else {
                Role::Sub { mainhost: hosts[0] }
            };
            p.score_output_path = Some(format!("{dir}/score{i}.csv"));
            p
        })
        .collect()
}
