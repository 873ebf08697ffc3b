//! The thread scheduler: a baton that exactly one simulated thread holds.
use super::*;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Runnable,
    Blocked,
    Dead,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Key {
    None,
    Futex(usize, u32),
    Join(usize),
    Epoll(i32),
    Fd(i32),
    Sleep,
    Custom(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wake {
    Ready,
    Timeout,
}
pub struct Tcb {
    pub id: usize,
    pub st: St,
    pub key: Key,
    pub deadline: u64, // u64::MAX = none
    pub wake: Wake,
    pub baton: AtomicU32,
    pub prio: i64,
    pub real: AtomicUsize, // pthread_t
    pub start: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, usize)>,
    pub boxed: Option<Box<dyn FnOnce() + Send>>,
    pub detached: bool,
}

/// a stalled CPU never stalls for longer than this (watchdogs of the harness are far longer)
const STALL_MAX: u64 = 30_000_000_000;
const STACK_BASE: usize = 0x2000_0000_0000;
const STACK_SLOT: usize = 256 << 20;

type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;
type PthreadJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);

pub fn resolve() {
    unsafe {
        REAL_CREATE.store(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize, SeqCst);
        REAL_JOIN.store(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize, SeqCst);
    }
}
pub unsafe fn real_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    p: *mut libc::c_void,
) -> i32 {
    if REAL_CREATE.load(SeqCst) == 0 {
        resolve();
    }
    let g: PthreadCreate = unsafe { std::mem::transmute(REAL_CREATE.load(SeqCst)) };
    unsafe { g(t, a, f, p) }
}
pub unsafe fn real_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if REAL_JOIN.load(SeqCst) == 0 {
        resolve();
    }
    let g: PthreadJoin = unsafe { std::mem::transmute(REAL_JOIN.load(SeqCst)) };
    unsafe { g(t, r) }
}

pub fn init_preempt() {
    let s = sim();
    if let Some(rep) = &s.cfg.replay {
        for w in &rep.switches {
            let e = s.rep_map.entry(w.at).or_insert((None, false));
            if w.to == TO_TIMER { e.1 = true } else { e.0 = Some(w.to) }
        }
    }
    schedule_next_preempt(s);
}
fn schedule_next_preempt(s: &mut Sim) {
    if s.cfg.replay.is_some() {
        s.next_preempt = s.rep_map.range(s.points + 1..).next().map_or(u64::MAX, |x| *x.0);
    } else {
        let gap = s.cfg.preempt_gap;
        s.next_preempt = s.points.saturating_add(s.r_sched.gap(gap));
    }
}

fn new_tcb(s: &mut Sim) -> &'static mut Tcb {
    let id = s.threads.len();
    let prio = if s.cfg.replay.is_none() { (s.r_sched.next() >> 2) as i64 } else { 0 };
    let t = Box::leak(Box::new(Tcb {
        id,
        st: St::Runnable,
        key: Key::None,
        deadline: u64::MAX,
        wake: Wake::Ready,
        baton: AtomicU32::new(0),
        prio,
        real: AtomicUsize::new(0),
        start: None,
        boxed: None,
        detached: false,
    }));
    let p: *mut Tcb = t;
    unsafe {
        s.threads.push(&mut *p);
        &mut *p
    }
}

fn launch(t: &mut Tcb) -> i32 {
    unsafe {
        let base = STACK_BASE + t.id * STACK_SLOT;
        let size = STACK_SLOT - (1 << 20);
        let p = libc::mmap(
            base as *mut _,
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != base {
            return libc::EAGAIN;
        }
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstack(&mut attr, p, size);
        let mut th: libc::pthread_t = 0;
        let r = real_create(&mut th, &attr, tramp, t as *mut Tcb as *mut libc::c_void);
        t.real.store(th as usize, SeqCst);
        libc::pthread_attr_destroy(&mut attr);
        r
    }
}

unsafe extern "C" {
    fn __cxa_thread_atexit_impl(dtor: unsafe extern "C" fn(*mut u8), obj: *mut u8, dso: *mut u8) -> i32;
    static __dso_handle: u8;
}
unsafe extern "C" fn exit_dtor(p: *mut u8) {
    let t = unsafe { &mut *(p as *mut Tcb) };
    let _g = Guard::new();
    let s = sim();
    t.st = St::Dead;
    note(0xDEAD ^ t.id as u64);
    for i in 0..s.threads.len() {
        if s.threads[i].st == St::Blocked && s.threads[i].key == Key::Join(t.id) {
            wake(i, Wake::Ready);
        }
    }
    handoff(s);
}

extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = unsafe { &mut *(p as *mut Tcb) };
    wait_baton(t);
    set_cur(t.id);
    unsafe {
        __cxa_thread_atexit_impl(exit_dtor, p as *mut u8, &raw const __dso_handle as *mut u8);
    }
    if let Some(b) = t.boxed.take() {
        b();
        std::ptr::null_mut()
    } else {
        let (f, a) = t.start.take().unwrap();
        f(a as *mut libc::c_void)
    }
}

pub fn spawn_first(f: Box<dyn FnOnce() + Send>) {
    let s = sim();
    let t = new_tcb(s);
    t.boxed = Some(f);
    if launch(t) != 0 {
        fatal("cannot create the first thread");
    }
    t.baton.store(1, SeqCst);
    raw::futex_wake(t.baton.as_ptr(), 1);
}

fn wait_baton(t: &Tcb) {
    while t.baton.load(SeqCst) == 0 {
        raw::futex_wait(t.baton.as_ptr(), 0);
    }
    t.baton.store(0, SeqCst);
}

pub fn create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    let g = Guard::new();
    let s = sim();
    if s.threads.len() > 200 {
        return libc::EAGAIN;
    }
    let mut det: libc::c_int = 0;
    if !attr.is_null() {
        unsafe extern "C" {
            fn pthread_attr_getdetachstate(a: *const libc::pthread_attr_t, d: *mut libc::c_int) -> libc::c_int;
        }
        unsafe { pthread_attr_getdetachstate(attr, &mut det) };
    }
    let t = new_tcb(s);
    t.start = Some((f, arg as usize));
    t.detached = det != 0;
    let r = launch(t);
    if r != 0 {
        t.st = St::Dead;
        return r;
    }
    note(0xC0DE ^ t.id as u64);
    unsafe { *out = t.real.load(SeqCst) as libc::pthread_t };
    drop(g);
    sync_point();
    0
}

pub fn join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    {
        let _g = Guard::new();
        let s = sim();
        if let Some(id) = s.threads.iter().position(|t| t.real.load(SeqCst) == th as usize)
            && s.threads[id].st != St::Dead
        {
            block(Key::Join(id), u64::MAX);
        }
    }
    unsafe { real_join(th, ret) }
}

pub fn wake(i: usize, w: Wake) {
    let s = sim();
    let t = &mut s.threads[i];
    t.st = St::Runnable;
    t.key = Key::None;
    t.deadline = u64::MAX;
    t.wake = w;
}

/// wake all threads blocked on this key
pub fn wake_key(k: Key) {
    let s = sim();
    for i in 0..s.threads.len() {
        if s.threads[i].st == St::Blocked && s.threads[i].key == k {
            wake(i, Wake::Ready);
        }
    }
}

fn next_timer(s: &Sim) -> Option<u64> {
    let mut t = u64::MAX;
    for th in s.threads.iter() {
        if th.st == St::Blocked && th.deadline < t {
            t = th.deadline;
        }
    }
    if let Some(std::cmp::Reverse((at, _, _))) = s.events.peek() {
        t = t.min(*at);
    }
    if t == u64::MAX { None } else { Some(t) }
}
fn fire_due(s: &mut Sim) {
    loop {
        match s.events.peek() {
            Some(std::cmp::Reverse((at, _, _))) if *at <= s.now => {},
            _ => break,
        }
        let std::cmp::Reverse((_, _, id)) = s.events.pop().unwrap();
        if let Some(ev) = s.event_data.remove(&id) {
            net::fire(ev);
        }
    }
    for i in 0..s.threads.len() {
        if s.threads[i].st == St::Blocked && s.threads[i].deadline <= s.now {
            wake(i, Wake::Timeout);
        }
    }
}

fn runnable(s: &Sim, out: &mut [u32; 256]) -> usize {
    let mut n = 0;
    for t in s.threads.iter() {
        if t.st == St::Runnable {
            out[n] = t.id as u32;
            n += 1;
        }
    }
    n
}

#[derive(Clone, Copy, PartialEq)]
enum Why {
    /// voluntary preemption: by default the current thread goes on
    Preempt,
    /// sched_yield: by default the next runnable thread (cyclically) goes on
    Yield,
    /// the current thread cannot go on
    Block,
}

/// Choose the next thread; `me` is the current one (may be blocked or dead).
/// Every decision that differs from the default is recorded, so a trace is the sparse list of
/// deviations and replaying it needs no random draw.
fn choose(s: &mut Sim, me: usize, why: Why) -> usize {
    let mut buf = [0u32; 256];
    let rep = s.rep_map.get(&s.points).copied();
    let jump = if s.cfg.replay.is_some() {
        rep.is_some_and(|r| r.1)
    } else {
        s.cfg.timer_ppm > 0 && s.r_sched.chance(s.cfg.timer_ppm)
    };
    if jump
        && let Some(t) = next_timer(s)
        && t.saturating_sub(s.now) <= STALL_MAX
    {
        // let time run on although threads could run (slow CPU)
        if s.trace.switches.len() < s.cfg.trace_cap {
            s.trace.switches.push(Switch { at: s.points, to: TO_TIMER });
        }
        *s.fault_hits.entry("sched:stall-to-timer".into()).or_insert(0) += 1;
        s.now = s.now.max(t);
        fire_due(s);
    }
    loop {
        let n = runnable(s, &mut buf);
        if n == 0 {
            match next_timer(s) {
                Some(t) => {
                    s.now = s.now.max(t);
                    budget(s);
                    fire_due(s);
                    continue;
                },
                None => {
                    let mut d = String::new();
                    for t in s.threads.iter() {
                        if t.st == St::Blocked {
                            d.push_str(&format!("t{} {:?}; ", t.id, t.key));
                        }
                    }
                    end("deadlock", &d);
                },
            }
        }
        let run = &buf[..n];
        let dflt = if why == Why::Preempt && run.contains(&(me as u32)) {
            me
        } else {
            *run.iter().find(|x| (**x as usize) > me).unwrap_or(&run[0]) as usize
        };
        let pick = if s.cfg.replay.is_some() {
            match rep {
                Some((Some(t), _)) if run.contains(&t) => t as usize,
                _ => dflt,
            }
        } else if s.cfg.policy == 1 {
            *run.iter().max_by_key(|i| (s.threads[**i as usize].prio, **i)).unwrap() as usize
        } else {
            run[s.r_sched.below(n as u64) as usize] as usize
        };
        if pick != dflt && s.trace.switches.len() < s.cfg.trace_cap {
            s.trace.switches.push(Switch { at: s.points, to: pick as u32 });
        }
        return pick;
    }
}

fn give(s: &mut Sim, next: usize) {
    s.switches += 1;
    let p = s.points;
    note(p ^ ((next as u64) << 48));
    let t = &s.threads[next];
    t.baton.store(1, SeqCst);
    raw::futex_wake(t.baton.as_ptr(), 1);
}

/// give the baton away for good (thread exit)
fn handoff(s: &mut Sim) {
    s.points += 1;
    s.now += 300;
    fire_due(s);
    let me = cur();
    let next = choose(s, me, Why::Block);
    after_choice(s);
    give(s, next);
}
fn after_choice(s: &mut Sim) {
    if s.cfg.replay.is_some() || s.points >= s.next_preempt {
        schedule_next_preempt(s);
    }
}
fn switch_to(s: &mut Sim, me: usize, next: usize) {
    if next != me {
        give(s, next);
        let tp: *const Tcb = &*sim().threads[me];
        wait_baton(unsafe { &*tp });
    }
}

fn budget(s: &Sim) {
    if s.points > s.cfg.max_points {
        end("budget", "preemption point limit");
    }
    if s.now > s.cfg.max_time_ns {
        end("budget", "simulated time limit");
    }
}

/// Block the current thread on `key` until woken or until `deadline` (absolute sim ns).
pub fn block(key: Key, deadline: u64) -> Wake {
    let _g = Guard::new();
    let s = sim();
    let me = cur();
    s.points += 1;
    s.now += 300;
    budget(s);
    {
        let t = &mut s.threads[me];
        t.st = St::Blocked;
        t.key = key;
        t.deadline = deadline;
    }
    fire_due(s);
    let next = choose(s, me, Why::Block);
    after_choice(s);
    switch_to(s, me, next);
    sim().threads[me].wake
}

fn demote(s: &mut Sim, me: usize) {
    if s.cfg.policy == 1 && s.cfg.replay.is_none() {
        s.low_prio -= 1;
        let lp = s.low_prio;
        s.threads[me].prio = lp;
    }
}
fn preempt_now(s: &mut Sim, why: Why) {
    let me = cur();
    demote(s, me);
    let next = choose(s, me, why);
    after_choice(s);
    switch_to(s, me, next);
}

/// potential preemption at an allocation: cheap, costs no simulated time
#[inline]
pub fn alloc_point() {
    if !live() {
        return;
    }
    let s = sim();
    s.points += 1;
    if s.points < s.next_preempt {
        return;
    }
    slow_alloc_point();
}
#[cold]
fn slow_alloc_point() {
    let _g = Guard::new();
    let s = sim();
    budget(s);
    preempt_now(s, Why::Preempt);
}

/// potential preemption at a synchronisation or I/O operation
pub fn sync_point() {
    if !live() {
        return;
    }
    let _g = Guard::new();
    let s = sim();
    s.points += 1;
    s.now += 300;
    budget(s);
    fire_due(s);
    let go = if s.cfg.replay.is_some() {
        s.points >= s.next_preempt
    } else {
        let ppm = s.cfg.sync_ppm;
        s.points >= s.next_preempt || s.r_sched.chance(ppm)
    };
    if go {
        preempt_now(s, Why::Preempt);
    }
}

pub fn yield_now() {
    let _g = Guard::new();
    let s = sim();
    s.points += 1;
    s.now += 2000;
    budget(s);
    fire_due(s);
    preempt_now(s, Why::Yield);
}

pub fn sleep_ns(ns: u64) {
    let dl = sim().now.saturating_add(ns);
    block(Key::Sleep, dl);
}

// ---------------- futex ----------------
pub fn futex(addr: usize, op: i32, val: u32, timeout: *const libc::timespec, addr2: usize, val3: u32) -> isize {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sync_point();
            let _g = Guard::new();
            let cur_v = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur_v != val {
                raw::set_errno(libc::EAGAIN);
                return -1;
            }
            let s = sim();
            let dl = if timeout.is_null() {
                u64::MAX
            } else {
                let ts = unsafe { &*timeout };
                let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                if cmd == libc::FUTEX_WAIT {
                    s.now.saturating_add(ns)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    ns.saturating_sub(s.cfg.epoch_s * 1_000_000_000)
                } else {
                    ns
                }
            };
            let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { val3 };
            if block(Key::Futex(addr, bits), dl) == Wake::Timeout {
                raw::set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        },
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let n;
            {
                let _g = Guard::new();
                let bits = if cmd == libc::FUTEX_WAKE { u32::MAX } else { val3 };
                n = wake_futex(addr, val as usize, bits);
            }
            sync_point();
            n as isize
        },
        libc::FUTEX_REQUEUE | libc::FUTEX_CMP_REQUEUE => {
            let _g = Guard::new();
            if cmd == libc::FUTEX_CMP_REQUEUE {
                let cur_v = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
                if cur_v != val3 {
                    raw::set_errno(libc::EAGAIN);
                    return -1;
                }
            }
            let mut n = wake_futex(addr, val as usize, u32::MAX);
            let mut m = timeout as usize;
            let s = sim();
            for t in s.threads.iter_mut() {
                if m == 0 {
                    break;
                }
                if let Key::Futex(a, b) = t.key
                    && a == addr
                    && t.st == St::Blocked
                {
                    t.key = Key::Futex(addr2, b);
                    m -= 1;
                    n += 1;
                }
            }
            n as isize
        },
        _ => {
            raw::set_errno(libc::ENOSYS);
            -1
        },
    }
}
fn wake_futex(addr: usize, max: usize, bits: u32) -> usize {
    let s = sim();
    let mut n = 0;
    let len = s.threads.len();
    for i in 0..len {
        if n >= max {
            break;
        }
        if s.threads[i].st == St::Blocked
            && let Key::Futex(a, b) = s.threads[i].key
            && a == addr
            && b & bits != 0
        {
            wake(i, Wake::Ready);
            n += 1;
        }
    }
    n
}
