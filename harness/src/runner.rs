//! Seeds -> runs. Worker processes fork one child per simulated process life; the parent
//! distributes seeds, confirms and minimises violations, and writes evidence and replay files.
use crate::sim::{self, Cfg, Fault, Switch, Trace, fs::Image, rng::Rng};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Phase {
    pub cfg: Cfg,
    pub image: Image,
    pub env: Vec<(String, String)>,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub carry: Value,
}
impl Phase {
    pub fn new(cfg: Cfg) -> Phase {
        Phase { cfg, image: Default::default(), env: vec![], args: vec![], stdin: vec![], carry: Value::Null }
    }
}

/// What one simulated process life produced.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub status: String,
    #[serde(default)]
    pub msg: String,
    #[serde(default)]
    pub extra: Value,
    #[serde(default)]
    pub stats: Value,
    #[serde(default)]
    pub trace: Trace,
    #[serde(default)]
    pub stderr: String,
    #[serde(default)]
    pub history: Vec<Value>,
    #[serde(default)]
    pub stdout: Option<sim::fs::Node>,
}
impl Out {
    pub fn stdout_bytes(&self) -> Vec<u8> {
        self.stdout.as_ref().and_then(sim::fs::bytes_of).unwrap_or_default()
    }
    pub fn image(&self) -> Image {
        serde_json::from_value(self.extra["image"].clone()).unwrap_or_default()
    }
    /// the simulator itself gave up: nothing can be concluded
    pub fn gave_up(&self) -> bool {
        matches!(self.status.as_str(), "timeout" | "budget" | "oom" | "inconclusive" | "fatal")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Verdict {
    /// held; the flag says whether the run was non-trivial by the scenario's rule
    Held(bool),
    Violation { key: String, detail: String },
    Inconclusive(String),
}
pub fn violation(key: &str, detail: impl Into<String>) -> Verdict {
    Verdict::Violation { key: key.into(), detail: detail.into() }
}

pub enum Next {
    Run(Box<Phase>),
    Done(Verdict),
}

pub trait Scenario: Sync + Send {
    fn property(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stub(&self) -> &'static [&'static str];
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value;
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next;
    fn body(&self, w: &Value, phase: usize, carry: &Value) -> Value;
    fn shrink(&self, w: &Value) -> Vec<Value> {
        shrink_array(w, "ops")
    }
    /// runs in the quick / thorough tier, and the wall-clock cap in seconds
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (4000, 75),
            Tier::Thorough => (4_000_000, 1500),
        }
    }
    /// fixed workloads that are run first (regressions, known findings)
    fn fixed(&self) -> Vec<Value> {
        vec![]
    }
    fn describe(&self, w: &Value) -> Value {
        w.clone()
    }
}

pub fn shrink_array(w: &Value, key: &str) -> Vec<Value> {
    let Some(a) = w[key].as_array() else { return vec![] };
    let mut out = vec![];
    let n = a.len();
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < n {
            let mut b = a.clone();
            b.drain(i..(i + chunk).min(n));
            if !b.is_empty() || n == 1 {
                let mut v = w.clone();
                v[key] = Value::Array(b);
                out.push(v);
            }
            i += chunk;
        }
        chunk /= 2;
    }
    out
}

/// Random scheduling and latency profile shared by the scenarios.
pub fn draw_cfg(seed: u64, phase: u64) -> Cfg {
    let mut r = Rng::stream(seed, 100 + phase);
    let mut c = Cfg::new(sim::rng::mix(seed.wrapping_add(phase.wrapping_mul(0x1357_9bdf))));
    c.policy = r.pct(30) as u8;
    c.preempt_gap = *r.pick(&[0, 0, 30, 200, 1000, 5000, 50_000]);
    c.sync_ppm = *r.pick(&[10_000, 50_000, 100_000, 300_000, 700_000]);
    c.timer_ppm = *r.pick(&[0, 0, 0, 500, 5000]);
    c.cpus = *r.pick(&[1, 2, 2, 3, 4, 4]);
    c.lat_ns = *r.pick(&[10_000, 200_000, 5_000_000, 100_000_000]);
    c.jitter_ns = c.lat_ns * *r.pick(&[0, 1, 4]);
    c.max_time_ns = 6 * 3600 * 1_000_000_000;
    c
}
/// Default schedule, no faults: the reference execution.
pub fn calm_cfg() -> Cfg {
    let mut c = Cfg::new(7);
    c.sync_ppm = 0;
    c.cpus = 1;
    c.lat_ns = 10_000;
    c.jitter_ns = 0;
    c
}
pub fn rate(class: &str, kind: &str, ppm: u64) -> sim::Rate {
    sim::Rate { class: class.into(), kind: kind.into(), ppm }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub workload: Option<Value>,
    pub traces: Option<Vec<Trace>>,
    pub want: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunOut {
    pub verdict: Verdict,
    pub hash: String,
    pub phases: usize,
    pub sim_ns: u64,
    pub points: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub statuses: Vec<String>,
    pub workload: Option<Value>,
    pub traces: Option<Vec<Trace>>,
    pub outs: Option<Vec<Out>>,
}

// ------------------------------------------------------------------ worker
static mut ARGV: *mut *const libc::c_char = std::ptr::null_mut();
static mut ARGC: i32 = 0;
extern "C" fn grab_args(argc: i32, argv: *mut *const libc::c_char, _e: *const *const libc::c_char) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}
#[used]
#[unsafe(link_section = ".init_array")]
static GRAB: extern "C" fn(i32, *mut *const libc::c_char, *const *const libc::c_char) = grab_args;

/// Make `std::env::args` in this (forked) process return `args`.
fn set_args(args: &[String]) {
    unsafe {
        assert!(args.len() < ARGC as usize, "too many arguments");
        for (i, a) in args.iter().enumerate() {
            let c = std::ffi::CString::new(a.as_str()).unwrap();
            *ARGV.add(i) = c.into_raw();
        }
        for i in args.len()..ARGC as usize {
            *ARGV.add(i) = std::ptr::null();
        }
    }
}

fn fork_phase(sc: &'static dyn Scenario, w: &Value, i: usize, p: Phase, wall: u64) -> Out {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Out { status: "fatal".into(), msg: "pipe".into(), ..Default::default() };
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            for (k, v) in &p.env {
                std::env::set_var(k, v);
            }
            if !p.args.is_empty() {
                set_args(&p.args);
            }
            let w = w.clone();
            let carry = p.carry;
            let stdin = p.stdin;
            sim::start(
                p.cfg,
                fds[1],
                p.image,
                Box::new(move || {
                    {
                        let _g = sim::Guard::new();
                        sim::sim().fs.stdin = stdin;
                    }
                    sim::interpose::bind_console();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.body(&w, i, &carry)));
                    match r {
                        Ok(v) => sim::end_with("ok", "", v),
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            sim::end_with("panic", &m, Value::Null)
                        },
                    }
                }),
            );
        }
        libc::close(fds[1]);
        if pid < 0 {
            libc::close(fds[0]);
            return Out { status: "fatal".into(), msg: "fork".into(), ..Default::default() };
        }
        let t0 = Instant::now();
        let mut buf = Vec::new();
        let mut timed_out = false;
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            let left = Duration::from_secs(wall).saturating_sub(t0.elapsed());
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, left.as_millis() as i32);
            if r <= 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(fds[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if timed_out {
            return Out { status: "timeout".into(), ..Default::default() };
        }
        match serde_json::from_slice::<Out>(&buf) {
            Ok(o) => o,
            Err(e) => {
                if libc::WIFSIGNALED(st) {
                    Out { status: "signal".into(), msg: format!("signal {}", libc::WTERMSIG(st)), ..Default::default() }
                } else {
                    Out { status: "fatal".into(), msg: format!("no result: {e}, wait status {st}, {} bytes", buf.len()), ..Default::default() }
                }
            },
        }
    }
}

pub fn run_job(sc: &'static dyn Scenario, job: &Job) -> RunOut {
    let w = match &job.workload {
        Some(w) => w.clone(),
        None => sc.generate(&mut Rng::stream(job.seed, 77), job.tier),
    };
    let mut outs: Vec<Out> = vec![];
    let verdict = loop {
        match sc.next(&w, job.seed, &outs) {
            Next::Done(v) => break v,
            Next::Run(mut p) => {
                if let Some(t) = &job.traces {
                    p.cfg.replay = Some(t.get(outs.len()).cloned().unwrap_or_default());
                }
                let i = outs.len();
                outs.push(fork_phase(sc, &w, i, *p, 40));
            },
        }
    };
    let mut ro = RunOut {
        verdict,
        hash: String::new(),
        phases: outs.len(),
        sim_ns: 0,
        points: 0,
        switches: 0,
        faults: Default::default(),
        probes: Default::default(),
        statuses: outs.iter().map(|o| o.status.clone()).collect(),
        workload: None,
        traces: None,
        outs: None,
    };
    let mut h = 0u64;
    for o in &outs {
        ro.sim_ns += o.stats["sim_ns"].as_u64().unwrap_or(0);
        ro.points += o.stats["points"].as_u64().unwrap_or(0);
        ro.switches += o.stats["switches"].as_u64().unwrap_or(0);
        for (src, dst) in [("faults", &mut ro.faults), ("probes", &mut ro.probes)] {
            if let Some(m) = o.stats[src].as_object() {
                for (k, v) in m {
                    *dst.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
            }
        }
        for k in o.history.iter().filter_map(|h| h["fault"].as_str()) {
            *ro.faults.entry(k.to_string()).or_insert(0) += 1;
        }
        let x = u64::from_str_radix(o.stats["hash"].as_str().unwrap_or("0"), 16).unwrap_or(0);
        h = sim::rng::mix(h ^ x ^ fnv(o.status.as_bytes()));
    }
    h ^= fnv(w.to_string().as_bytes());
    ro.hash = format!("{h:016x}");
    if job.want || matches!(ro.verdict, Verdict::Violation { .. }) {
        ro.workload = Some(w);
        ro.traces = Some(outs.iter().map(|o| o.trace.clone()).collect());
    }
    if job.want {
        ro.outs = Some(outs);
    }
    ro
}
fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

pub fn worker_main(find: fn(&str) -> Option<&'static dyn Scenario>) -> ! {
    let _ = std::env::set_current_dir("/");
    // std's global stdin/stdout objects stay untouched: simulated programs own them
    use std::os::fd::FromRawFd;
    let (inp, mut out) = unsafe { (std::fs::File::from_raw_fd(libc::dup(0)), std::fs::File::from_raw_fd(libc::dup(1))) };
    let mut lock = BufReader::new(inp);
    let mut line = String::new();
    loop {
        line.clear();
        match lock.read_line(&mut line) {
            Ok(0) | Err(_) => std::process::exit(0),
            _ => {},
        }
        let job: Job = serde_json::from_str(&line).expect("job");
        let sc = find(&job.prop).expect("property");
        let r = run_job(sc, &job);
        let mut b = serde_json::to_vec(&r).unwrap();
        b.push(b'\n');
        if out.write_all(&b).and_then(|_| out.flush()).is_err() {
            std::process::exit(0);
        }
    }
}

pub struct Worker {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Worker {
    pub fn spawn() -> Worker {
        unsafe { libc::personality(0x0040000) };
        let mut c = Command::new("/proc/self/exe");
        c.arg("worker");
        for i in 0..80 {
            c.arg(format!("pad{i:03}"));
        }
        c.env_clear();
        c.env("PATH", "/usr/bin:/bin").env("HOME", "/sim/home").env("LANG", "C");
        // one root certificate is enough: the hundreds of the system cost more than the rest of a run
        c.env("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/roots.pem"));
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("spawn worker");
        Worker { inp: child.stdin.take().unwrap(), out: BufReader::new(child.stdout.take().unwrap()), child }
    }
    pub fn run(&mut self, job: &Job) -> RunOut {
        let mut b = serde_json::to_vec(job).unwrap();
        b.push(b'\n');
        self.inp.write_all(&b).expect("worker gone");
        let mut l = String::new();
        self.out.read_line(&mut l).expect("worker gone");
        serde_json::from_str(&l).unwrap_or_else(|e| panic!("bad worker reply: {e}: {}", &l[..l.len().min(400)]))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub struct Pool {
    ws: Vec<Worker>,
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        Pool { ws: (0..n).map(|_| Worker::spawn()).collect() }
    }
    pub fn map(&mut self, jobs: &[Job]) -> Vec<RunOut> {
        let next = AtomicU64::new(0);
        let res: Vec<Mutex<Option<RunOut>>> = jobs.iter().map(|_| Mutex::new(None)).collect();
        std::thread::scope(|s| {
            for w in self.ws.iter_mut() {
                let (next, res) = (&next, &res);
                s.spawn(move || {
                    loop {
                        let i = next.fetch_add(1, SeqCst) as usize;
                        if i >= jobs.len() {
                            break;
                        }
                        *res[i].lock().unwrap() = Some(w.run(&jobs[i]));
                    }
                });
            }
        });
        res.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
    }
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug, Deserialize)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
pub fn known(verif: &str, prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{verif}/known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).unwrap_or_default();
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter_map(|x| serde_json::from_value::<Known>(x).ok())
        .filter(|k| k.property == prop)
        .collect()
}

// ------------------------------------------------------------------ minimisation
fn same(v: &Verdict, key: &str) -> bool {
    matches!(v, Verdict::Violation { key: k, .. } if k == key)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub key: String,
    pub detail: String,
    pub seed: u64,
    pub tier: Tier,
    pub workload: Value,
    /// None: replay by seed
    pub traces: Option<Vec<Trace>>,
    pub hash: String,
    pub note: String,
}
fn minimise(pool: &mut Pool, sc: &'static dyn Scenario, job: &Job, first: &RunOut, key: &str, secs: u64) -> Replay {
    let t0 = Instant::now();
    let out_of_time = |t0: &Instant| t0.elapsed().as_secs() > secs;
    let mut w = first.workload.clone().unwrap();
    let mut seed = job.seed;
    let mut tr = first.traces.clone().unwrap();
    let (n_sw0, n_f0) = (tr.iter().map(|t| t.switches.len()).sum::<usize>(), tr.iter().map(|t| t.faults.len()).sum::<usize>());
    // 1. shrink the workload, re-searching schedules under the same and a few derived seeds
    'outer: loop {
        if t0.elapsed().as_secs() > secs / 2 {
            break;
        }
        let cands = sc.shrink(&w);
        for chunk in cands.chunks(8) {
            if t0.elapsed().as_secs() > secs / 2 {
                break 'outer;
            }
            let mut jobs = vec![];
            for c in chunk {
                for k in 0..3u64 {
                    jobs.push(Job { prop: job.prop.clone(), seed: if k == 0 { seed } else { sim::rng::mix(seed + k) >> 1 }, tier: job.tier, workload: Some(c.clone()), traces: None, want: false });
                }
            }
            let res = pool.map(&jobs);
            if let Some(i) = res.iter().position(|r| same(&r.verdict, key)) {
                w = jobs[i].workload.clone().unwrap();
                seed = jobs[i].seed;
                tr = res[i].traces.clone().unwrap();
                continue 'outer;
            }
        }
        break;
    }
    let mk = |tr: &Vec<Trace>| Job { prop: job.prop.clone(), seed, tier: job.tier, workload: Some(w.clone()), traces: Some(tr.clone()), want: true };
    let r = pool.map(&[mk(&tr)]).remove(0);
    if !same(&r.verdict, key) {
        // trace replay is not faithful (e.g. trace cap): fall back to the seed
        let j = Job { prop: job.prop.clone(), seed, tier: job.tier, workload: Some(w.clone()), traces: None, want: true };
        let r = pool.map(&[j]).remove(0);
        let ok = same(&r.verdict, key);
        let detail = if let Verdict::Violation { detail, .. } = &r.verdict { detail.clone() } else { String::new() };
        return Replay { property: job.prop.clone(), key: key.into(), detail, seed, tier: job.tier, workload: w, traces: None, hash: r.hash, note: if ok { "replayed by seed".into() } else { "NOT REPRODUCED".into() } };
    }
    // 2. ddmin over faults and switches of all phases
    #[derive(Clone)]
    enum It {
        S(usize, Switch),
        F(usize, Fault),
    }
    let flat = |tr: &Vec<Trace>| -> Vec<It> {
        let mut v = vec![];
        for (i, t) in tr.iter().enumerate() {
            v.extend(t.faults.iter().map(|f| It::F(i, f.clone())));
            v.extend(t.switches.iter().map(|s| It::S(i, *s)));
        }
        v
    };
    let build = |v: &[It], n: usize| -> Vec<Trace> {
        let mut t = vec![Trace::default(); n];
        for x in v {
            match x {
                It::S(i, s) => t[*i].switches.push(*s),
                It::F(i, f) => t[*i].faults.push(f.clone()),
            }
        }
        t
    };
    let np = tr.len();
    let mut items = flat(&tr);
    let mut chunk = items.len();
    while chunk >= 1 && !out_of_time(&t0) && !items.is_empty() {
        let mut progress = false;
        let mut i = 0;
        while i < items.len() && !out_of_time(&t0) {
            // try 8 removals in parallel, take the first that still fails
            let mut jobs = vec![];
            let mut starts = vec![];
            let mut k = i;
            while jobs.len() < 8 && k < items.len() {
                let mut c = items.clone();
                c.drain(k..(k + chunk).min(items.len()));
                jobs.push(Job { want: false, ..mk(&build(&c, np)) });
                starts.push(k);
                k += chunk;
            }
            let res = pool.map(&jobs);
            if let Some(j) = res.iter().position(|r| same(&r.verdict, key)) {
                items.drain(starts[j]..(starts[j] + chunk).min(items.len()));
                i = starts[j];
                progress = true;
            } else {
                i = k;
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        chunk = if chunk == 1 { 1 } else { chunk / 2 };
        if chunk == 1 && items.len() > 400 && out_of_time(&t0) {
            break;
        }
    }
    let tr = build(&items, np);
    let r = pool.map(&[mk(&tr)]).remove(0);
    let r2 = pool.map(&[mk(&tr)]).remove(0);
    let detail = if let Verdict::Violation { detail, .. } = &r.verdict { detail.clone() } else { String::new() };
    let note = format!(
        "minimised from {n_sw0} schedule deviations and {n_f0} faults to {} and {}; replayed twice, hashes {} {}",
        tr.iter().map(|t| t.switches.len()).sum::<usize>(),
        tr.iter().map(|t| t.faults.len()).sum::<usize>(),
        r.hash,
        if r.hash == r2.hash { "equal" } else { "DIFFER" }
    );
    Replay { property: job.prop.clone(), key: key.into(), detail, seed, tier: job.tier, workload: w, traces: Some(tr), hash: r.hash, note }
}

// ------------------------------------------------------------------ check
#[derive(Default)]
struct Agg {
    runs: u64,
    phases: u64,
    nontrivial: HashSet<String>,
    hashes: HashSet<String>,
    sim_ns: u128,
    points: u64,
    switches: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    statuses: BTreeMap<String, u64>,
    inconclusive: BTreeMap<String, u64>,
    known_hits: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, r: &RunOut) {
        self.runs += 1;
        self.phases += r.phases as u64;
        self.hashes.insert(r.hash.clone());
        self.sim_ns += r.sim_ns as u128;
        self.points += r.points;
        self.switches += r.switches;
        for (k, v) in &r.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for s in &r.statuses {
            *self.statuses.entry(s.clone()).or_insert(0) += 1;
        }
        match &r.verdict {
            Verdict::Held(true) => {
                self.nontrivial.insert(r.hash.clone());
            },
            Verdict::Inconclusive(m) => {
                let m = if m.len() > 160 { m.chars().take(160).collect() } else { m.clone() };
                if self.inconclusive.len() < 60 || self.inconclusive.contains_key(&m) {
                    *self.inconclusive.entry(m).or_insert(0) += 1;
                }
            },
            _ => {},
        }
    }
}

pub fn check(sc: &'static dyn Scenario, tier: Tier, base: u64, verif: &str, runs: Option<u64>, secs: Option<u64>) -> i32 {
    let prop = sc.property();
    let t0 = Instant::now();
    let (mut max_runs, mut cap) = sc.budget(tier);
    if let Some(r) = runs {
        max_runs = r;
    }
    if let Some(s) = secs {
        cap = s;
    }
    let nw = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8);
    let mut pool = Pool::new(nw);
    let kf = known(verif, prop);
    let agg = Mutex::new(Agg::default());
    let found: Mutex<Vec<(Job, RunOut)>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let fixed = sc.fixed();
    let nfixed = fixed.len() as u64;
    let next = AtomicU64::new(0);
    let seed_of = |i: u64| base.wrapping_mul(1_000_003).wrapping_add(i) & 0x7fff_ffff_ffff;
    let total = max_runs + nfixed;
    std::thread::scope(|s| {
        for w in pool.ws.iter_mut() {
            let (next, agg, found, stop, fixed, kf) = (&next, &agg, &found, &stop, &fixed, &kf);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= total || stop.load(SeqCst) || (i >= nfixed && t0.elapsed().as_secs() >= cap) {
                        break;
                    }
                    let workload = fixed.get(i as usize).cloned();
                    let job = Job { prop: prop.into(), seed: seed_of(i), tier, workload, traces: None, want: false };
                    let r = w.run(&job);
                    let mut a = agg.lock().unwrap();
                    a.add(&r);
                    if let Verdict::Violation { key, .. } = &r.verdict {
                        if kf.iter().any(|k| &k.key == key) {
                            *a.known_hits.entry(key.clone()).or_insert(0) += 1;
                        } else {
                            found.lock().unwrap().push((job, r));
                            stop.store(true, SeqCst);
                        }
                    }
                }
            });
        }
    });
    let explore_s = t0.elapsed().as_secs_f64();
    // determinism self-check: some seeds again, the hash of the whole run must be the same
    let mut det = (0u64, 0u64);
    let mut samples = vec![];
    if found.lock().unwrap().is_empty() {
        let n = if tier == Tier::Quick { 8 } else { 64 };
        let mk = |want: bool| -> Vec<Job> {
            (0..n).map(|i| Job { prop: prop.into(), seed: seed_of(nfixed + i), tier, workload: None, traces: None, want }).collect()
        };
        let a = pool.map(&mk(true));
        let b = pool.map(&mk(false));
        // and replay of the recorded traces must reproduce the hash, too
        let c: Vec<Job> = a
            .iter()
            .enumerate()
            .map(|(i, r)| Job { prop: prop.into(), seed: seed_of(nfixed + i as u64), tier, workload: r.workload.clone(), traces: r.traces.clone(), want: false })
            .collect();
        let c = pool.map(&c);
        for i in 0..a.len() {
            det.0 += 1;
            if a[i].hash != b[i].hash || (a[i].hash != c[i].hash && a[i].traces.as_ref().is_some_and(|t| t.iter().all(|t| t.switches.len() < 100_000))) {
                det.1 += 1;
                if std::env::var("DST_DEBUG").is_ok() {
                    eprintln!("nondeterministic seed {}: {} {} {}", seed_of(nfixed + i as u64), a[i].hash, b[i].hash, c[i].hash);
                }
            }
        }
        for r in a.iter().take(2) {
            samples.push(json!({
                "workload": r.workload.as_ref().map(|w| clip(&sc.describe(w))), "statuses": r.statuses, "hash": r.hash, "faults": r.faults,
                "schedule_deviations": r.traces.as_ref().map(|t| t.iter().map(|t| t.switches.len()).collect::<Vec<_>>()),
                "verdict": r.verdict,
            }));
        }
    }
    let mut violations = vec![];
    let mut unconfirmed = 0;
    let found = found.into_inner().unwrap();
    let mut seen = HashSet::new();
    for (job, r) in &found {
        let Verdict::Violation { key, detail } = &r.verdict else { continue };
        if !seen.insert(key.clone()) {
            continue;
        }
        // confirm under the same seed before anything else
        let again = pool.map(&[Job { want: true, ..job.clone() }]).remove(0);
        if !same(&again.verdict, key) {
            unconfirmed += 1;
            eprintln!("seed {} gave {key} once but not again ({:?}); not reported", job.seed, again.verdict);
            continue;
        }
        let rep = minimise(&mut pool, sc, job, &again, key, if tier == Tier::Quick { 60 } else { 240 });
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{:012x}.json", fnv(format!("{key}{}", rep.hash).as_bytes()) & 0xffff_ffff_ffff);
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap());
        println!("VIOLATION property={prop} replay={path}");
        println!("  seed={} key={key}", rep.seed);
        println!("  {}", first_chars(if rep.detail.is_empty() { detail } else { &rep.detail }, 1500));
        println!("  {}", rep.note);
        samples.push(json!({"violation": key, "replay": path, "detail": first_chars(&rep.detail, 600)}));
        violations.push(key.clone());
    }
    let a = agg.into_inner().unwrap();
    for k in &kf {
        if a.known_hits.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={prop} {}", k.what);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": base,
        "level": sc.level(),
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": sc.rule(),
            "samples": samples,
            "process_lives": a.phases,
            "runs_per_hour": (a.runs as f64 / explore_s * 3600.0) as u64,
            "simulated_seconds": (a.sim_ns as f64 / 1e9),
            "faults_injected": a.faults,
            "distinct_executions": a.hashes.len(),
            "distinct_measure": "hash over every context switch (point, thread), thread start/exit, fault, history event and process-life status",
            "preemption_points": a.points,
            "context_switches": a.switches,
            "probes": a.probes,
            "process_endings": a.statuses,
            "inconclusive": a.inconclusive,
            "known_finding_hits": a.known_hits,
            "determinism_checks": det.0,
            "determinism_mismatches": det.1,
            "unconfirmed": unconfirmed,
            "real_components": sc.real(),
            "stubbed_components": sc.stub(),
        },
        "wall_s": wall,
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop}: {} runs ({} lives), {} distinct, {} non-trivial, {} inconclusive, {:.0} s; determinism {}/{} mismatches",
        a.runs,
        a.phases,
        a.hashes.len(),
        a.nontrivial.len(),
        a.inconclusive.values().sum::<u64>(),
        wall,
        det.1,
        det.0
    );
    if !violations.is_empty() { 1 } else { 0 }
}
fn first_chars(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}
fn clip(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 3000 { v.clone() } else { json!(first_chars(&s, 3000)) }
}

pub fn replay(sc: &'static dyn Scenario, rep: &Replay) -> i32 {
    let mut pool = Pool::new(1);
    let job = Job { prop: rep.property.clone(), seed: rep.seed, tier: rep.tier, workload: Some(rep.workload.clone()), traces: rep.traces.clone(), want: true };
    let r = pool.map(&[job]).remove(0);
    let _ = sc;
    for (i, o) in r.outs.iter().flatten().enumerate() {
        println!("--- life {i}: {} {} sim {} ms", o.status, first_chars(&o.msg, 300), o.stats["sim_ns"].as_u64().unwrap_or(0) / 1_000_000);
        for h in &o.history {
            println!("  {}", first_chars(&h.to_string(), 400));
        }
        println!("  schedule {:?}\n  faults {:?}", o.trace.switches.iter().take(60).collect::<Vec<_>>(), o.trace.faults);
        if !o.stderr.is_empty() {
            println!("  stderr: {}", first_chars(&o.stderr, 1500));
        }
    }
    println!("verdict {:?} hash {} (recorded {})", r.verdict, r.hash, rep.hash);
    if same(&r.verdict, &rep.key) {
        println!("REPRODUCED property={} key={}", rep.property, rep.key);
        1
    } else {
        println!("not reproduced");
        0
    }
}

pub type Shared<T> = Arc<Mutex<T>>;
