//! Deterministic simulator: one process, real threads parked and released one at a time,
//! virtual clock, virtual entropy, virtual disk, virtual TCP, seeded faults.
pub mod alloc;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod raw;
pub mod rng;
pub mod sched;

use rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// One scheduling deviation: at preemption point `at`, run thread `to`
/// (`u32::MAX` means: let the clock run to the next timer although threads are runnable).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    pub at: u64,
    pub to: u32,
}
pub const TO_TIMER: u32 = u32::MAX;

/// One injected fault: the `n`-th operation of class `class`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub class: String,
    pub n: u64,
    pub kind: String,
    pub arg: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Trace {
    pub switches: Vec<Switch>,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rate {
    pub class: String,
    pub kind: String,
    /// probability per million operations of that class
    pub ppm: u64,
}

/// Operations `from .. from+len` of class `class` fail.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Planned {
    pub class: String,
    pub kind: String,
    pub from: u64,
    pub len: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub seed: u64,
    /// mean number of points between voluntary preemptions (0 = never)
    pub preempt_gap: u64,
    /// probability (ppm) of preemption at a synchronisation/IO point
    pub sync_ppm: u64,
    /// probability (ppm) at a switch that time runs on to the next timer first
    pub timer_ppm: u64,
    /// 0 uniform, 1 priorities (PCT-like)
    pub policy: u8,
    pub cpus: usize,
    pub rates: Vec<Rate>,
    /// faults placed at given operations
    #[serde(default)]
    pub plan: Vec<Planned>,
    pub max_faults: u64,
    pub max_points: u64,
    pub max_time_ns: u64,
    pub trace_cap: usize,
    /// seed of the entropy stream (what getrandom returns)
    pub entropy: u64,
    /// seed for network delays and chunking
    pub netseed: u64,
    /// base and jitter of network latency, ns
    pub lat_ns: u64,
    pub jitter_ns: u64,
    /// replay instead of drawing switches / faults
    pub replay: Option<Trace>,
    /// start of the realtime clock (s)
    pub epoch_s: u64,
}
impl Cfg {
    pub fn new(seed: u64) -> Cfg {
        Cfg {
            seed,
            preempt_gap: 0,
            sync_ppm: 100_000,
            timer_ppm: 0,
            policy: 0,
            cpus: 4,
            rates: vec![],
            plan: vec![],
            max_faults: 0,
            max_points: 400_000_000,
            max_time_ns: 24 * 3600 * 1_000_000_000,
            trace_cap: 200_000,
            entropy: rng::mix(seed ^ 0xE),
            netseed: rng::mix(seed ^ 0xF),
            lat_ns: 200_000,
            jitter_ns: 800_000,
            replay: None,
            epoch_s: 1_700_000_000,
        }
    }
}

pub struct Sim {
    pub cfg: Cfg,
    pub threads: Vec<&'static mut sched::Tcb>,
    pub now: u64,
    pub seq: u64,
    pub events: std::collections::BinaryHeap<std::cmp::Reverse<(u64, u64, u64)>>,
    pub event_data: BTreeMap<u64, net::NetEvent>,
    pub r_sched: Rng,
    pub r_fault: Rng,
    pub r_entropy: Rng,
    pub r_net: Rng,
    pub points: u64,
    pub next_preempt: u64,
    pub rep_map: BTreeMap<u64, (Option<u32>, bool)>,
    pub trace: Trace,
    pub hash: u64,
    pub switches: u64,
    pub low_prio: i64,
    pub fault_n: BTreeMap<&'static str, u64>,
    pub fault_hits: BTreeMap<String, u64>,
    pub faults_armed: bool,
    pub fault_total: u64,
    pub hard_faults: u64,
    pub probes: BTreeMap<String, u64>,
    pub fs: fs::Vfs,
    pub fds: BTreeMap<i32, net::FdObj>,
    pub net: net::Net,
    pub next_fd: i32,
    pub result_fd: i32,
    pub on_finish: Option<fn(&str)>,
    pub stderr: Vec<u8>,
    pub history: Vec<serde_json::Value>,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SIM: *mut Sim = std::ptr::null_mut();

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static IN: Cell<u32> = const { Cell::new(0) };
}

#[inline]
pub fn is_sim_thread() -> bool {
    CUR.with(|c| c.get() != 0)
}
#[inline]
pub fn cur() -> usize {
    CUR.with(|c| c.get()) - 1
}
pub fn set_cur(id: usize) {
    CUR.with(|c| c.set(id + 1));
}
#[inline]
pub fn in_sim() -> bool {
    IN.with(|c| c.get() != 0)
}
/// should this call be simulated?
#[inline]
pub fn live() -> bool {
    ACTIVE.load(Relaxed) && is_sim_thread() && !in_sim()
}
pub struct Guard(());
impl Guard {
    #[inline]
    pub fn new() -> Guard {
        IN.with(|c| c.set(c.get() + 1));
        Guard(())
    }
}
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        IN.with(|c| c.set(c.get() - 1));
    }
}
#[inline]
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

pub fn fatal(msg: &str) -> ! {
    raw::write_all(2, b"detsim fatal: ");
    raw::write_all(2, msg.as_bytes());
    raw::write_all(2, b"\n");
    raw::exit_now(97)
}
pub fn on_oom() {
    if ACTIVE.load(Relaxed) {
        let _g = Guard::new();
        // room for writing the result line
        alloc::LIMIT.store(usize::MAX >> 1, Relaxed);
        end("oom", "arena limit reached");
    }
}

/// Start the simulation in this (single-threaded) process and run `f` as simulated thread 0.
/// Never returns; the process ends through `end`.
pub fn start(cfg: Cfg, result_fd: i32, image: fs::Image, f: Box<dyn FnOnce() + Send>) -> ! {
    alloc::init();
    let seed = cfg.seed;
    let s = Sim {
        r_sched: Rng::stream(seed, 1),
        r_fault: Rng::stream(seed, 2),
        r_entropy: Rng::stream(cfg.entropy, 3),
        r_net: Rng::stream(cfg.netseed, 4),
        threads: Vec::new(),
        now: 1_000_000_000,
        seq: 0,
        events: Default::default(),
        event_data: Default::default(),
        points: 0,
        next_preempt: 0,
        rep_map: Default::default(),
        trace: Trace::default(),
        hash: 0xcbf29ce484222325,
        switches: 0,
        low_prio: 0,
        fault_n: Default::default(),
        fault_hits: Default::default(),
        faults_armed: true,
        fault_total: 0,
        hard_faults: 0,
        probes: Default::default(),
        fs: fs::Vfs::from_image(image),
        fds: Default::default(),
        net: Default::default(),
        next_fd: 5000,
        result_fd,
        on_finish: None,
        stderr: Vec::new(),
        history: Vec::new(),
        cfg,
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    sim().fs.on_crash = Some(|kind, image| end_with("crash", kind, serde_json::json!({ "image": image })));
    sched::init_preempt();
    ACTIVE.store(true, Relaxed);
    sched::spawn_first(f);
    // the original thread only waits; the process ends by exit_group
    loop {
        unsafe { raw::syscall6(libc::SYS_pause, 0, 0, 0, 0, 0, 0) };
    }
}

/// End the run from scenario code (or from inside the simulator): emits the result line.
pub fn end(status: &str, msg: &str) -> ! {
    end_with(status, msg, serde_json::Value::Null)
}

pub fn stats_json() -> serde_json::Value {
    let s = sim();
    serde_json::json!({
        "points": s.points, "switches": s.switches, "threads": s.threads.len(),
        "sim_ns": s.now - 1_000_000_000, "hash": format!("{:016x}", s.hash),
        "faults": s.fault_hits, "ops": s.fault_n, "probes": s.probes, "arena": alloc::used(),
        "fs_ops": s.fs.ops, "net_bytes": s.net.bytes,
    })
}

pub fn end_with(status: &str, msg: &str, extra: serde_json::Value) -> ! {
    let _g = Guard::new();
    let s = sim();
    let mut err = String::from_utf8_lossy(&s.stderr).to_string();
    if err.len() > 6000 {
        let mut i = err.len() - 6000;
        while !err.is_char_boundary(i) { i += 1; }
        err = err[i..].to_string();
    }
    let out = serde_json::json!({
        "status": status, "msg": msg, "extra": extra, "stats": stats_json(),
        "trace": s.trace, "stderr": err, "history": s.history,
        "stdout": fs::node_of(&s.fs.stdout),
    });
    let mut line = serde_json::to_vec(&out).unwrap_or_default();
    line.push(b'\n');
    raw::write_all(s.result_fd, &line);
    raw::exit_now(0)
}

pub fn probe(name: &str) {
    let _g = Guard::new();
    *sim().probes.entry(name.to_string()).or_insert(0) += 1;
}
pub fn arm_faults(on: bool) {
    sim().faults_armed = on;
}
pub fn note(v: u64) {
    let s = sim();
    s.hash = (s.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
}

/// Ask whether a fault hits this operation of class `class`.
pub fn fault(class: &'static str, kinds: &[&str]) -> Option<(String, u64)> {
    let s = sim();
    let n = s.fault_n.entry(class).or_insert(0);
    let idx = *n;
    *n += 1;
    let hit: Option<(String, u64)> = if let Some(rep) = &s.cfg.replay {
        rep.faults.iter().find(|f| f.class == class && f.n == idx).map(|f| (f.kind.clone(), f.arg))
    } else {
        if !s.faults_armed || s.fault_total >= s.cfg.max_faults {
            return None;
        }
        let mut h = s
            .cfg
            .plan
            .iter()
            .find(|p| p.class == class && kinds.contains(&p.kind.as_str()) && (p.from..p.from.saturating_add(p.len)).contains(&idx))
            .map(|p| p.kind.clone())
            .map(|k| (k, s.r_fault.next()));
        for r in &s.cfg.rates {
            if h.is_some() {
                break;
            }
            if r.class == class && kinds.contains(&r.kind.as_str()) && s.r_fault.chance(r.ppm) {
                h = Some((r.kind.clone(), s.r_fault.next()));
                break;
            }
        }
        h
    };
    let (kind, arg) = hit?;
    if !kinds.contains(&kind.as_str()) {
        return None;
    }
    s.fault_total += 1;
    *s.fault_hits.entry(format!("{class}:{kind}")).or_insert(0) += 1;
    s.trace.faults.push(Fault { class: class.to_string(), n: idx, kind: kind.clone(), arg });
    note(rng::mix(idx) ^ arg);
    if !matches!(kind.as_str(), "short" | "one" | "eintr" | "stall" | "delay" | "split") {
        s.hard_faults += 1;
        if s.hard_faults > 2000 {
            // the program repeats a failing operation for ever
            end("stuck", &format!("{class}:{kind} repeated without end"));
        }
    }
    Some((kind, arg))
}

/// Append to the recorded history (checked after the run; survives a simulated crash).
pub fn record(mut v: serde_json::Value) {
    let _g = Guard::new();
    let s = sim();
    if let Some(o) = v.as_object_mut() {
        s.seq += 1;
        o.insert("stamp".into(), s.seq.into());
        o.insert("t".into(), (s.now - 1_000_000_000).into());
    }
    note(s.seq);
    s.history.push(v);
}
/// Current simulated time since start, ns.
pub fn now_ns() -> u64 {
    sim().now - 1_000_000_000
}
/// Global event sequence stamp for histories.
pub fn stamp() -> u64 {
    let s = sim();
    s.seq += 1;
    s.seq
}
/// States of all threads, for diagnostics.
pub fn threads_json() -> serde_json::Value {
    let _g = Guard::new();
    let s = sim();
    serde_json::Value::Array(s.threads.iter().map(|t| format!("t{} {:?} {:?}", t.id, t.st, t.key).into()).collect())
}
