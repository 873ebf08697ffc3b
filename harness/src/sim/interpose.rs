//! libc symbols defined by this executable. std, tokio, mio, rayon, parking_lot and the rest
//! resolve to these; outside a simulation they are plain system calls.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(non_snake_case, non_upper_case_globals, unsafe_op_in_unsafe_fn)]
use super::net::{self, Obj, Sock};
use super::raw::{self, set_errno, sys};
use super::*;
use libc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = unsafe { dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) } as usize;
            P.store(p, Relaxed);
        }
        let f: $ty = unsafe { std::mem::transmute(p) };
        f
    }};
}

fn cstr(p: *const c_char) -> &'static str {
    if p.is_null() {
        return "";
    }
    unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap_or("")
}
fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}
/// live, and the path is on the simulated disk
fn simpath(p: *const c_char) -> Option<&'static str> {
    if !live() {
        return None;
    }
    let s = cstr(p);
    if !s.starts_with("/sim") {
        return None;
    }
    let _g = Guard::new();
    if fs::Vfs::is_sim(s) { Some(s) } else { None }
}
fn vfd(fd: c_int) -> bool {
    live() && net::is_virtual(fd)
}

// ---------------------------------------------------------------- entropy and time
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !live() {
        return unsafe { sys(SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) };
    }
    let _g = Guard::new();
    let s = sim();
    let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
    for c in b.chunks_mut(8) {
        let v = s.r_entropy.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    *s.probes.entry("entropy-draws".into()).or_insert(0) += 1;
    len as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if !live() {
        return unsafe { sys(SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as c_int };
    }
    let s = sim();
    s.now += 100;
    let mut t = s.now;
    if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        t += s.cfg.epoch_s * 1_000_000_000;
    }
    unsafe {
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        clock_gettime(CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        clock_gettime(CLOCK_REALTIME, &mut ts);
        if !t.is_null() {
            *t = ts.tv_sec;
        }
    }
    ts.tv_sec
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(rq: *const timespec, rm: *mut timespec) -> c_int {
    if !live() {
        return unsafe { sys(SYS_nanosleep, rq as usize, rm as usize, 0, 0, 0, 0) as c_int };
    }
    let ts = unsafe { &*rq };
    sched::sleep_ns(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, rq: *const timespec, rm: *mut timespec) -> c_int {
    if !live() {
        let r = unsafe { raw::syscall6(SYS_clock_nanosleep, clk as usize, flags as usize, rq as usize, rm as usize, 0, 0) };
        return -r as c_int;
    }
    let ts = unsafe { &*rq };
    let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
    if flags & TIMER_ABSTIME != 0 {
        let s = sim();
        let at = if clk == CLOCK_REALTIME { ns.saturating_sub(s.cfg.epoch_s * 1_000_000_000) } else { ns };
        sched::sleep_ns(at.saturating_sub(s.now));
    } else {
        sched::sleep_ns(ns);
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !live() {
        return unsafe { sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int };
    }
    sched::yield_now();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, size: size_t, set: *mut cpu_set_t) -> c_int {
    if !live() {
        let r = unsafe { sys(SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0) };
        if r < 0 {
            return -1;
        }
        let b = unsafe { std::slice::from_raw_parts_mut(set as *mut u8, size) };
        for x in &mut b[(r as usize).min(size)..] {
            *x = 0;
        }
        return 0;
    }
    let b = unsafe { std::slice::from_raw_parts_mut(set as *mut u8, size) };
    b.fill(0);
    for i in 0..sim().cfg.cpus {
        b[i / 8] |= 1 << (i % 8);
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if live() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) {
        return sim().cfg.cpus as c_long;
    }
    next!("sysconf", unsafe extern "C" fn(c_int) -> c_long)(name)
}

// ---------------------------------------------------------------- threads
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    a: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    p: *mut c_void,
) -> c_int {
    if !live() {
        return unsafe { sched::real_create(t, a, f, p) };
    }
    sched::create(t, a, f, p)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const pthread_attr_t, n: *mut size_t) -> c_int {
    if live() {
        // simulated stacks are caller-supplied mappings with an unmapped gap below
        unsafe { *n = 4096 };
        return 0;
    }
    next!("pthread_attr_getguardsize", unsafe extern "C" fn(*const pthread_attr_t, *mut size_t) -> c_int)(a, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettid() -> pid_t {
    if live() {
        return 1000 + cur() as pid_t;
    }
    unsafe { sys(SYS_gettid, 0, 0, 0, 0, 0, 0) as pid_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> pid_t {
    if live() {
        return 1000;
    }
    unsafe { sys(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if !live() {
        return unsafe { sched::real_join(t, r) };
    }
    sched::join(t, r)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if live() {
        match n {
            SYS_futex => return sched::futex(a, b as i32, c as u32, d as *const timespec, e, f as u32) as c_long,
            SYS_getrandom => return unsafe { getrandom(a as *mut c_void, b, c as c_uint) } as c_long,
            SYS_statx => return unsafe { statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) } as c_long,
            SYS_sched_yield => return unsafe { sched_yield() } as c_long,
            SYS_copy_file_range | SYS_splice | SYS_sendfile => return fail(EINVAL) as c_long,
            _ => {},
        }
    }
    unsafe { sys(n, a, b, c, d, e, f) as c_long }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if ACTIVE.load(Relaxed) && is_sim_thread() {
        let h = EXIT_HOOK.load(Relaxed);
        if h != 0 {
            let f: fn(i32) -> ! = unsafe { std::mem::transmute(h) };
            f(code);
        }
        end("exit", &format!("process exit {code}"));
    }
    next!("exit", unsafe extern "C" fn(c_int) -> !)(code)
}
pub static EXIT_HOOK: AtomicUsize = AtomicUsize::new(0);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn abort() -> ! {
    if ACTIVE.load(Relaxed) && is_sim_thread() {
        end("abort", "process aborted");
    }
    raw::exit_now(134)
}

// ---------------------------------------------------------------- files
fn io_fault(class: &'static str, kinds: &[&str], n: usize) -> Result<usize, i32> {
    // returns the (possibly shortened) length
    match fault(class, kinds) {
        None => Ok(n),
        Some((k, a)) => match k.as_str() {
            "short" => Ok(if n == 0 { 0 } else { 1 + (a % n as u64) as usize }),
            "one" => Ok(n.min(1)),
            "eintr" => Err(EINTR),
            "eio" => Err(EIO),
            "enospc" => Err(ENOSPC),
            "epipe" => Err(EPIPE),
            "emfile" => Err(EMFILE),
            "eacces" => Err(EACCES),
            "full" => {
                sim().fs.free = a % 256;
                Ok(n)
            },
            "stall" => {
                sched::sleep_ns(a % 60_000_000_000);
                Ok(n)
            },
            _ => Ok(n),
        },
    }
}

fn do_open(path: &str, flags: c_int, mode: c_uint) -> c_int {
    sched::sync_point();
    let _g = Guard::new();
    let s = sim();
    s.fs.ops += 1;
    let wr = flags & O_ACCMODE != O_RDONLY;
    let cls = if wr { "open_w" } else { "open_r" };
    if let Err(e) = io_fault(cls, &["eio", "emfile", "enospc", "eintr", "eacces", "stall"], 0) {
        return fail(e) as c_int;
    }
    if wr {
        fs::crash_point(|_| {});
    }
    match s.fs.open(path, flags, mode) {
        Err(e) => fail(e) as c_int,
        Ok((ino, true)) => {
            let o = net::new_ofd(Obj::Dir { ino }, false);
            net::install(o)
        },
        Ok((ino, false)) => {
            let acc = flags & O_ACCMODE;
            let o = net::new_ofd(
                Obj::File { ino, pos: 0, append: flags & O_APPEND != 0, rd: acc != O_WRONLY, wr: acc != O_RDONLY },
                false,
            );
            net::install(o)
        },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if live() {
        if let Some(s) = simpath(p) {
            return do_open(s, flags, mode);
        }
        let s = cstr(p);
        if s.starts_with("/proc/self/cgroup") || s.starts_with("/sys/fs/cgroup") || s == "/proc/self/mountinfo" {
            return fail(ENOENT) as c_int;
        }
    }
    unsafe { sys(SYS_openat, AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { open64(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(s) = simpath(p) {
        return do_open(s, flags, mode);
    }
    unsafe { sys(SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        return net::close_fd(fd);
    }
    unsafe { sys(SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int }
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>, peek: bool) -> isize {
    sched::sync_point();
    let _g = Guard::new();
    let s = sim();
    let Some(ofd) = net::ofd_of(fd) else { return fail(EBADF) };
    loop {
        let o = s.net.ofds.get_mut(&ofd).unwrap();
        let nonblock = o.nonblock;
        let timeo = o.rcvtimeo;
        match &mut o.obj {
            Obj::File { ino, pos, rd, .. } => {
                if !*rd {
                    return fail(EBADF);
                }
                let (ino, p0) = (*ino, at.unwrap_or(*pos));
                s.fs.ops += 1;
                let avail = (s.fs.inodes[&ino].data.len() as u64).saturating_sub(p0) as usize;
                let want = buf.len().min(avail);
                let n = match io_fault("read", &["short", "one", "eintr", "eio", "stall"], want) {
                    Ok(n) => n,
                    Err(e) => return fail(e),
                };
                let d = &s.fs.inodes[&ino].data;
                let p0 = p0 as usize;
                let n = n.min(d.len().saturating_sub(p0));
                buf[..n].copy_from_slice(&d[p0..p0 + n]);
                if at.is_none()
                    && let Obj::File { pos, .. } = &mut s.net.ofds.get_mut(&ofd).unwrap().obj
                {
                    *pos += n as u64;
                }
                return n as isize;
            },
            Obj::Stdin => {
                let avail = s.fs.stdin.len() - s.fs.stdin_pos;
                let want = buf.len().min(avail);
                let n = match io_fault("stdin", &["short", "one", "eintr", "eio", "stall"], want) {
                    Ok(n) => n,
                    Err(e) => return fail(e),
                };
                buf[..n].copy_from_slice(&s.fs.stdin[s.fs.stdin_pos..s.fs.stdin_pos + n]);
                s.fs.stdin_pos += n;
                return n as isize;
            },
            Obj::Event { count, sem } => {
                if *count > 0 {
                    let v = if *sem { 1 } else { *count };
                    *count -= v;
                    buf[..8].copy_from_slice(&v.to_ne_bytes());
                    return 8;
                }
            },
            Obj::Sock(Sock::Stream { cid, side }) => {
                let (cid, side) = (*cid, *side);
                match net::try_recv(cid, side, buf, peek) {
                    Ok(n) => return n as isize,
                    Err(EAGAIN) => {},
                    Err(e) => return fail(e),
                }
            },
            Obj::Sock(Sock::Failed(e)) => return fail(*e),
            Obj::Dir { .. } => return fail(EISDIR),
            _ => return fail(EINVAL),
        }
        if nonblock {
            return fail(EAGAIN);
        }
        let dl = if timeo > 0 { s.now + timeo } else { u64::MAX };
        if net::wait_ofd(ofd, dl) {
            return fail(EAGAIN);
        }
    }
}
fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> isize {
    sched::sync_point();
    let _g = Guard::new();
    let s = sim();
    let Some(ofd) = net::ofd_of(fd) else { return fail(EBADF) };
    loop {
        let o = s.net.ofds.get_mut(&ofd).unwrap();
        let nonblock = o.nonblock;
        match &mut o.obj {
            Obj::File { ino, pos, append, wr, .. } => {
                if !*wr {
                    return fail(EBADF);
                }
                let ino = *ino;
                let off = if *append { s.fs.inodes[&ino].data.len() as u64 } else { at.unwrap_or(*pos) };
                s.fs.ops += 1;
                let n = match io_fault("write", &["short", "one", "eintr", "eio", "enospc", "full", "stall"], buf.len()) {
                    Ok(n) => n,
                    Err(e) => return fail(e),
                };
                fs::crash_point(|a| {
                    let k = (a % (n as u64 + 1)) as usize;
                    if k > 0 {
                        let _ = sim().fs.write(ino, off, &buf[..k]);
                    }
                });
                match s.fs.write(ino, off, &buf[..n]) {
                    Ok(k) => {
                        if at.is_none()
                            && let Obj::File { pos, .. } = &mut s.net.ofds.get_mut(&ofd).unwrap().obj
                        {
                            *pos = off + k as u64;
                        }
                        return k as isize;
                    },
                    Err(e) => return fail(e),
                }
            },
            Obj::Stdout => {
                let n = match io_fault("stdout", &["short", "one", "eintr", "eio", "enospc", "epipe", "stall"], buf.len()) {
                    Ok(n) => n,
                    Err(e) => return fail(e),
                };
                s.fs.stdout.extend_from_slice(&buf[..n]);
                return n as isize;
            },
            Obj::Stderr => {
                s.stderr.extend_from_slice(buf);
                return buf.len() as isize;
            },
            Obj::Event { count, .. } => {
                let v = u64::from_ne_bytes(buf[..8].try_into().unwrap());
                *count = count.saturating_add(v);
                net::notify(ofd);
                return 8;
            },
            Obj::Sock(Sock::Stream { cid, side }) => {
                let (cid, side) = (*cid, *side);
                match net::try_send(cid, side, buf) {
                    Ok(n) => return n as isize,
                    Err(EAGAIN) => {},
                    Err(e) => return fail(e),
                }
            },
            Obj::Sock(Sock::Failed(e)) => return fail(*e),
            _ => return fail(EBADF),
        }
        if nonblock {
            return fail(EAGAIN);
        }
        net::wait_ofd(ofd, u64::MAX);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        return do_read(fd, unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }, None, false);
    }
    unsafe { sys(SYS_read, fd as usize, b as usize, n, 0, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        return do_write(fd, unsafe { std::slice::from_raw_parts(b as *const u8, n) }, None);
    }
    unsafe { sys(SYS_write, fd as usize, b as usize, n, 0, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if vfd(fd) {
        return do_read(fd, unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }, Some(off as u64), false);
    }
    unsafe { sys(SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if vfd(fd) {
        return do_write(fd, unsafe { std::slice::from_raw_parts(b as *const u8, n) }, Some(off as u64));
    }
    unsafe { sys(SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        // one descriptor operation: read into the first non-empty buffer
        for i in 0..n as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return do_read(fd, unsafe { std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len) }, None, false);
            }
        }
        return 0;
    }
    unsafe { sys(SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0) }
}
fn gather(iov: *const iovec, n: usize) -> Vec<u8> {
    let mut all = Vec::new();
    for i in 0..n {
        let v = unsafe { &*iov.add(i) };
        all.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
    }
    all
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        let all = {
            let _g = Guard::new();
            gather(iov, n as usize)
        };
        return do_write(fd, &all, None);
    }
    unsafe { sys(SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if vfd(fd) {
        let _g = Guard::new();
        let s = sim();
        let ofd = net::ofd_of(fd).unwrap();
        return match &mut s.net.ofds.get_mut(&ofd).unwrap().obj {
            Obj::File { ino, pos, .. } => {
                let len = s.fs.inodes[ino].data.len() as i64;
                let np = match wh {
                    SEEK_SET => off,
                    SEEK_CUR => *pos as i64 + off,
                    _ => len + off,
                };
                if np < 0 {
                    return fail(EINVAL) as off64_t;
                }
                *pos = np as u64;
                np
            },
            _ => fail(ESPIPE) as off64_t,
        };
    }
    unsafe { sys(SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as off64_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) {
        sched::sync_point();
        let _g = Guard::new();
        let s = sim();
        s.fs.ops += 1;
        if let Err(e) = io_fault("fsync", &["eio", "stall", "enospc"], 0) {
            return fail(e) as c_int;
        }
        fs::crash_point(|_| {});
        let ofd = net::ofd_of(fd).unwrap();
        match &s.net.ofds[&ofd].obj {
            Obj::File { ino, .. } | Obj::Dir { ino } => {
                let i = *ino;
                s.fs.fsync(i);
                *s.probes.entry("fsync".into()).or_insert(0) += 1;
                return 0;
            },
            _ => return fail(EINVAL) as c_int,
        }
    }
    unsafe { sys(SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) {
        return unsafe { fsync(fd) };
    }
    unsafe { sys(SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        let s = sim();
        let ofd = net::ofd_of(fd).unwrap();
        if let Obj::File { ino, .. } = &s.net.ofds[&ofd].obj {
            let i = *ino;
            fs::crash_point(|_| {});
            s.fs.truncate(i, len as u64);
            return 0;
        }
        return fail(EINVAL) as c_int;
    }
    unsafe { sys(SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int }
}
fn meta_op(class: &'static str, f: impl FnOnce(&mut fs::Vfs) -> Result<(), i32>) -> c_int {
    sched::sync_point();
    let _g = Guard::new();
    let s = sim();
    s.fs.ops += 1;
    if let Err(e) = io_fault(class, &["eio", "enospc", "eacces", "stall"], 0) {
        return fail(e) as c_int;
    }
    fs::crash_point(|_| {});
    match f(&mut s.fs) {
        Ok(()) => 0,
        Err(e) => fail(e) as c_int,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (simpath(a), simpath(b)) {
        (Some(x), Some(y)) => return meta_op("rename", |v| v.rename(x, y)),
        (None, None) => {},
        _ => return fail(EXDEV) as c_int,
    }
    unsafe { sys(SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(x) = simpath(a) {
        return meta_op("unlink", |v| v.unlink(x));
    }
    unsafe { sys(SYS_unlink, a as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    if let Some(x) = simpath(a) {
        return meta_op("unlink", |v| if fl & AT_REMOVEDIR != 0 { v.rmdir(x) } else { v.unlink(x) });
    }
    unsafe { sys(SYS_unlinkat, d as usize, a as usize, fl as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if let Some(x) = simpath(a) {
        return meta_op("rmdir", |v| v.rmdir(x));
    }
    unsafe { sys(SYS_rmdir, a as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if let Some(x) = simpath(a) {
        return meta_op("mkdir", |v| v.mkdir(x));
    }
    unsafe { sys(SYS_mkdir, a as usize, mode as usize, 0, 0, 0, 0) as c_int }
}
fn sim_stat(path: &str, st: &mut stat64) -> c_int {
    let _g = Guard::new();
    let s = sim();
    match s.fs.lookup(path) {
        Ok(i) => {
            s.fs.fill_stat(i, st);
            0
        },
        Err(e) => fail(e) as c_int,
    }
}
fn fd_stat(fd: c_int, st: &mut stat64) -> c_int {
    let _g = Guard::new();
    let s = sim();
    let ofd = net::ofd_of(fd).unwrap();
    match &s.net.ofds[&ofd].obj {
        Obj::File { ino, .. } | Obj::Dir { ino } => s.fs.fill_stat(*ino, st),
        Obj::Sock(_) => {
            *st = unsafe { std::mem::zeroed() };
            st.st_mode = S_IFSOCK | 0o600;
        },
        _ => {
            *st = unsafe { std::mem::zeroed() };
            st.st_mode = S_IFIFO | 0o600;
        },
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(x) = simpath(p) {
        return sim_stat(x, unsafe { &mut *st });
    }
    unsafe { sys(SYS_newfstatat, AT_FDCWD as usize, p as usize, st as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(x) = simpath(p) {
        return sim_stat(x, unsafe { &mut *st });
    }
    unsafe { sys(SYS_newfstatat, AT_FDCWD as usize, p as usize, st as usize, AT_SYMLINK_NOFOLLOW as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if vfd(fd) {
        return fd_stat(fd, unsafe { &mut *st });
    }
    unsafe { sys(SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    let r = if let Some(x) = simpath(p) {
        sim_stat(x, &mut st)
    } else if live() && fl & AT_EMPTY_PATH != 0 && cstr(p).is_empty() && net::is_virtual(d) {
        fd_stat(d, &mut st)
    } else {
        return unsafe { sys(SYS_statx, d as usize, p as usize, fl as usize, mask as usize, out as usize, 0) as c_int };
    };
    if r != 0 {
        return r;
    }
    unsafe {
        let o = &mut *out;
        *o = std::mem::zeroed();
        o.stx_mask = STATX_BASIC_STATS | STATX_BTIME;
        o.stx_blksize = 4096;
        o.stx_nlink = 1;
        o.stx_mode = st.st_mode as u16;
        o.stx_ino = st.st_ino;
        o.stx_size = st.st_size as u64;
        o.stx_blocks = st.st_blocks as u64;
        o.stx_mtime.tv_sec = st.st_mtime;
        o.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
        o.stx_atime = o.stx_mtime;
        o.stx_ctime = o.stx_mtime;
        o.stx_btime = o.stx_mtime;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let Some(x) = simpath(p) {
        let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
        return sim_stat(x, &mut st);
    }
    unsafe { sys(SYS_access, p as usize, m as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(x) = simpath(p) {
        let _g = Guard::new();
        if let Err(e) = sim().fs.lookup(x) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let mut comps: Vec<&str> = vec![];
        for c in x.split('/') {
            match c {
                "" | "." => {},
                ".." => {
                    comps.pop();
                },
                c => comps.push(c),
            }
        }
        let full = format!("/{}", comps.join("/"));
        unsafe {
            let m = if out.is_null() { malloc(full.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(full.as_ptr(), m as *mut u8, full.len());
            *m.add(full.len()) = 0;
            return m;
        }
    }
    next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if let Some(x) = simpath(p) {
        let _g = Guard::new();
        let s = sim();
        return match s.fs.lookup(x) {
            Ok(i) => {
                s.fs.inodes.get_mut(&i).unwrap().mode = m & 0o777;
                0
            },
            Err(e) => fail(e) as c_int,
        };
    }
    unsafe { sys(SYS_chmod, p as usize, m as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if vfd(fd) {
        return 0;
    }
    unsafe { sys(SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if vfd(fd) {
        return 0;
    }
    unsafe { sys(SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, e: size_t, f: c_uint) -> ssize_t {
    if vfd(a) || vfd(c) {
        return fail(EINVAL);
    }
    unsafe { sys(SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, e, f as usize) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut off64_t, d: size_t) -> ssize_t {
    if vfd(a) || vfd(b) {
        return fail(EINVAL);
    }
    unsafe { sys(SYS_sendfile, a as usize, b as usize, c as usize, d, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, e: size_t, f: c_uint) -> ssize_t {
    if vfd(a) || vfd(c) {
        return fail(EINVAL);
    }
    unsafe { sys(SYS_splice, a as usize, b as usize, c as usize, d as usize, e, f as usize) }
}

// directories
const DIRMAGIC: u64 = 0x51D1_51D1_0D0D_F00D;
struct SimDir {
    magic: u64,
    fd: c_int,
    ents: Vec<(String, u64, bool)>,
    pos: usize,
    buf: dirent64,
}
fn sim_dir(d: *mut DIR) -> Option<&'static mut SimDir> {
    if d.is_null() || !live() {
        return None;
    }
    let a = d as usize;
    if !(0x2a00_0000_0000..0x2b00_0000_0000).contains(&a) {
        return None;
    }
    let s = unsafe { &mut *(d as *mut SimDir) };
    if s.magic == DIRMAGIC { Some(s) } else { None }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if let Some(x) = simpath(p) {
        sched::sync_point();
        let _g = Guard::new();
        let s = sim();
        s.fs.ops += 1;
        if let Err(e) = io_fault("open_r", &["eio", "emfile"], 0) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        match s.fs.lookup(x) {
            Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            },
            Ok(i) => {
                let Some(d) = &s.fs.inodes[&i].dir else {
                    set_errno(ENOTDIR);
                    return std::ptr::null_mut();
                };
                let mut ents: Vec<(String, u64, bool)> = d.iter().map(|(n, i)| (n.clone(), *i, s.fs.inodes[i].dir.is_some())).collect();
                // directory order is not sorted on a real disk
                let mut r = Rng::stream(s.cfg.entropy, 0xD1 + i);
                r.shuffle(&mut ents);
                let o = net::new_ofd(Obj::Dir { ino: i }, false);
                let fd = net::install(o);
                return Box::into_raw(Box::new(SimDir { magic: DIRMAGIC, fd, ents, pos: 0, buf: unsafe { std::mem::zeroed() } })) as *mut DIR;
            },
        }
    }
    next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(p)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if let Some(s) = sim_dir(d) {
        if s.pos >= s.ents.len() {
            return std::ptr::null_mut();
        }
        let (n, i, isdir) = &s.ents[s.pos];
        s.pos += 1;
        s.buf.d_ino = *i;
        s.buf.d_off = s.pos as i64;
        s.buf.d_reclen = std::mem::size_of::<dirent64>() as u16;
        s.buf.d_type = if *isdir { DT_DIR } else { DT_REG };
        for (k, b) in n.bytes().take(254).enumerate() {
            s.buf.d_name[k] = b as c_char;
        }
        s.buf.d_name[n.len().min(254)] = 0;
        return &mut s.buf;
    }
    next!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64)(d)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if let Some(s) = sim_dir(d) {
        let _g = Guard::new();
        net::close_fd(s.fd);
        s.magic = 0;
        drop(unsafe { Box::from_raw(s as *mut SimDir) });
        return 0;
    }
    next!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if let Some(s) = sim_dir(d) {
        return s.fd;
    }
    next!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}

// ---------------------------------------------------------------- descriptors
#[unsafe(no_mangle)]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if vfd(fd) {
        set_errno(ENOTTY);
        return 0;
    }
    next!("isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, a: usize) -> c_int {
    if vfd(fd) {
        if req == FIONBIO {
            let v = unsafe { *(a as *const c_int) };
            let ofd = net::ofd_of(fd).unwrap();
            sim().net.ofds.get_mut(&ofd).unwrap().nonblock = v != 0;
            return 0;
        }
        if req == FIOCLEX {
            return 0;
        }
        return fail(ENOTTY) as c_int;
    }
    unsafe { sys(SYS_ioctl, fd as usize, req as usize, a, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, a: usize) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        let s = sim();
        let ofd = net::ofd_of(fd).unwrap();
        return match cmd {
            F_GETFD => FD_CLOEXEC,
            F_SETFD => 0,
            F_GETFL => O_RDWR | if s.net.ofds[&ofd].nonblock { O_NONBLOCK } else { 0 },
            F_SETFL => {
                s.net.ofds.get_mut(&ofd).unwrap().nonblock = a as c_int & O_NONBLOCK != 0;
                0
            },
            F_DUPFD | F_DUPFD_CLOEXEC => net::install(ofd),
            _ => 0,
        };
    }
    unsafe { sys(SYS_fcntl, fd as usize, cmd as usize, a, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, a: usize) -> c_int {
    unsafe { fcntl(fd, cmd, a) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        return net::install(net::ofd_of(fd).unwrap());
    }
    unsafe { sys(SYS_dup, fd as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if live() {
        let v = unsafe { std::slice::from_raw_parts_mut(fds, n as usize) };
        if v.iter().any(|p| net::is_virtual(p.fd)) {
            sched::sync_point();
            let _g = Guard::new();
            let s = sim();
            let dl = if timeout < 0 { u64::MAX } else { s.now + timeout as u64 * 1_000_000 };
            loop {
                let mut k = 0;
                let mut first = 0;
                for p in v.iter_mut() {
                    p.revents = 0;
                    if let Some(o) = net::ofd_of(p.fd) {
                        first = o;
                        let r = net::readiness(o) as i16;
                        p.revents = r & (p.events | POLLERR | POLLHUP);
                        if p.revents != 0 {
                            k += 1;
                        }
                    }
                }
                if k > 0 || timeout == 0 {
                    return k;
                }
                if net::wait_ofd(first, dl) {
                    return 0;
                }
            }
        }
    }
    unsafe { sys(SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if live() {
        let _g = Guard::new();
        let o = net::new_ofd(Obj::Event { count: init as u64, sem: flags & EFD_SEMAPHORE != 0 }, flags & EFD_NONBLOCK != 0);
        return net::install(o);
    }
    unsafe { sys(SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if live() {
        let _g = Guard::new();
        let o = net::new_ofd(Obj::Epoll { regs: Default::default() }, false);
        return net::install(o);
    }
    unsafe { sys(SYS_epoll_create1, flags as usize, 0, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if vfd(ep) {
        let _g = Guard::new();
        let s = sim();
        let eo = net::ofd_of(ep).unwrap();
        let Some(to) = net::ofd_of(fd) else { return fail(EBADF) as c_int };
        if matches!(s.net.ofds[&to].obj, Obj::File { .. } | Obj::Dir { .. } | Obj::Stdin | Obj::Stdout | Obj::Stderr) {
            return fail(EPERM) as c_int;
        }
        let Obj::Epoll { regs } = &mut s.net.ofds.get_mut(&eo).unwrap().obj else { return fail(EINVAL) as c_int };
        match op {
            EPOLL_CTL_ADD | EPOLL_CTL_MOD => {
                if op == EPOLL_CTL_ADD && regs.contains_key(&fd) {
                    return fail(EEXIST) as c_int;
                }
                let e = unsafe { &*ev };
                regs.insert(fd, net::Reg { ofd: to, events: e.events, data: e.u64, pending: true });
            },
            _ => {
                if regs.remove(&fd).is_none() {
                    return fail(ENOENT) as c_int;
                }
            },
        }
        sched::wake_key(sched::Key::Custom(eo));
        return 0;
    }
    unsafe { sys(SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if vfd(ep) {
        sched::sync_point();
        let _g = Guard::new();
        let s = sim();
        let eo = net::ofd_of(ep).unwrap();
        let dl = if timeout < 0 { u64::MAX } else { s.now + timeout as u64 * 1_000_000 };
        loop {
            let mut k = 0;
            let cand: Vec<(i32, u64, u32, u64)> = match &s.net.ofds[&eo].obj {
                Obj::Epoll { regs } => regs.iter().filter(|(_, r)| r.pending || r.events & EPOLLET as u32 == 0).map(|(f, r)| (*f, r.ofd, r.events, r.data)).collect(),
                _ => vec![],
            };
            for (f, o, events, data) in cand {
                if k >= max {
                    break;
                }
                let r = net::readiness(o) & (events | EPOLLERR as u32 | EPOLLHUP as u32);
                if let Obj::Epoll { regs } = &mut s.net.ofds.get_mut(&eo).unwrap().obj {
                    regs.get_mut(&f).unwrap().pending = false;
                }
                if r != 0 {
                    unsafe {
                        *evs.add(k as usize) = epoll_event { events: r, u64: data };
                    }
                    k += 1;
                }
            }
            if k > 0 || timeout == 0 || s.now >= dl {
                return k;
            }
            if net::wait_ofd(eo, dl) {
                return 0;
            }
        }
    }
    unsafe { sys(SYS_epoll_wait, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if live() {
        let _g = Guard::new();
        let (a, b) = net::socketpair();
        unsafe {
            *fds = net::install(a);
            *fds.add(1) = net::install(b);
        }
        let s = sim();
        for o in [a, b] {
            s.net.ofds.get_mut(&o).unwrap().nonblock = flags & O_NONBLOCK != 0;
        }
        return 0;
    }
    unsafe { sys(SYS_pipe2, fds as usize, flags as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socketpair(d: c_int, ty: c_int, pr: c_int, fds: *mut c_int) -> c_int {
    if live() {
        let _g = Guard::new();
        let (a, b) = net::socketpair();
        unsafe {
            *fds = net::install(a);
            *fds.add(1) = net::install(b);
        }
        let s = sim();
        for o in [a, b] {
            s.net.ofds.get_mut(&o).unwrap().nonblock = ty & SOCK_NONBLOCK != 0;
        }
        return 0;
    }
    unsafe { sys(SYS_socketpair, d as usize, ty as usize, pr as usize, fds as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socket(d: c_int, ty: c_int, pr: c_int) -> c_int {
    if live() {
        let _g = Guard::new();
        if d != AF_INET && d != AF_INET6 || ty & 0xf != SOCK_STREAM {
            return fail(EAFNOSUPPORT) as c_int;
        }
        let o = net::new_ofd(Obj::Sock(Sock::New), ty & SOCK_NONBLOCK != 0);
        return net::install(o);
    }
    unsafe { sys(SYS_socket, d as usize, ty as usize, pr as usize, 0, 0, 0) as c_int }
}
fn parse_addr(a: *const sockaddr) -> Option<(u32, u16)> {
    unsafe {
        match (*a).sa_family as c_int {
            AF_INET => {
                let s = &*(a as *const sockaddr_in);
                Some((u32::from_be(s.sin_addr.s_addr), u16::from_be(s.sin_port)))
            },
            _ => None,
        }
    }
}
fn put_addr(ip: u32, port: u16, a: *mut sockaddr, l: *mut socklen_t) {
    if a.is_null() {
        return;
    }
    unsafe {
        let s = &mut *(a as *mut sockaddr_in);
        s.sin_family = AF_INET as sa_family_t;
        s.sin_addr.s_addr = ip.to_be();
        s.sin_port = port.to_be();
        *l = std::mem::size_of::<sockaddr_in>() as socklen_t;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        let Some((_, p)) = parse_addr(a) else { return fail(EADDRNOTAVAIL) as c_int };
        let s = sim();
        let o = net::ofd_of(fd).unwrap();
        let p = if p == 0 { 30000 + o as u16 } else { p };
        if s.net.listeners.contains_key(&p) {
            return fail(EADDRINUSE) as c_int;
        }
        s.net.ofds.get_mut(&o).unwrap().obj = Obj::Sock(Sock::Bound([0; 28], p as usize));
        return 0;
    }
    unsafe { sys(SYS_bind, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        let s = sim();
        let o = net::ofd_of(fd).unwrap();
        let Obj::Sock(Sock::Bound(_, p)) = s.net.ofds[&o].obj else { return fail(EINVAL) as c_int };
        s.net.ofds.get_mut(&o).unwrap().obj = Obj::Sock(Sock::Listener(p as u16));
        s.net.listeners.insert(p as u16, net::Listener { ofd: o, backlog: Default::default() });
        return 0;
    }
    unsafe { sys(SYS_listen, fd as usize, n as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if vfd(fd) {
        sched::sync_point();
        let _g = Guard::new();
        let s = sim();
        let o = net::ofd_of(fd).unwrap();
        loop {
            let Obj::Sock(Sock::Listener(p)) = s.net.ofds[&o].obj else { return fail(EINVAL) as c_int };
            if let Some(cid) = s.net.listeners.get_mut(&p).and_then(|l| l.backlog.pop_front()) {
                let no = net::new_ofd(Obj::Sock(Sock::Stream { cid, side: 1 }), fl & SOCK_NONBLOCK != 0);
                let c = s.net.conns.get_mut(&cid).unwrap();
                c.half[1].ofd = no;
                put_addr(c.addr[0].0, c.addr[0].1, a, l);
                return net::install(no);
            }
            if s.net.ofds[&o].nonblock {
                return fail(EAGAIN) as c_int;
            }
            net::wait_ofd(o, u64::MAX);
        }
    }
    unsafe { sys(SYS_accept4, fd as usize, a as usize, l as usize, fl as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    unsafe { accept4(fd, a, l, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if vfd(fd) {
        sched::sync_point();
        let _g = Guard::new();
        let Some((ip, port)) = parse_addr(a) else { return fail(ENETUNREACH) as c_int };
        let o = net::ofd_of(fd).unwrap();
        if let Err(e) = net::connect(o, ip, port) {
            return fail(e) as c_int;
        }
        let s = sim();
        if s.net.ofds[&o].nonblock {
            return fail(EINPROGRESS) as c_int;
        }
        loop {
            match &s.net.ofds[&o].obj {
                Obj::Sock(Sock::Stream { cid, .. }) => {
                    if s.net.conns[cid].established {
                        return 0;
                    }
                },
                Obj::Sock(Sock::Failed(e)) => return fail(*e) as c_int,
                _ => return fail(EINVAL) as c_int,
            }
            net::wait_ofd(o, u64::MAX);
        }
    }
    unsafe { sys(SYS_connect, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if vfd(fd) {
        let s = sim();
        let o = net::ofd_of(fd).unwrap();
        let mut r = 0;
        if lv == SOL_SOCKET && name == SO_ERROR {
            if let Obj::Sock(Sock::Failed(e)) = &s.net.ofds[&o].obj {
                r = *e;
            }
        }
        unsafe {
            if !l.is_null() && *l >= 4 {
                *(v as *mut c_int) = r;
                *l = 4;
            }
        }
        return 0;
    }
    unsafe { sys(SYS_getsockopt, fd as usize, lv as usize, name as usize, v as usize, l as usize, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if vfd(fd) {
        if lv == SOL_SOCKET && name == SO_RCVTIMEO {
            let tv = unsafe { &*(v as *const timeval) };
            let o = net::ofd_of(fd).unwrap();
            sim().net.ofds.get_mut(&o).unwrap().rcvtimeo = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
        }
        return 0;
    }
    unsafe { sys(SYS_setsockopt, fd as usize, lv as usize, name as usize, v as usize, l as usize, 0) as c_int }
}
fn sockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, peer: bool) -> c_int {
    let _g = Guard::new();
    let s = sim();
    let o = net::ofd_of(fd).unwrap();
    match &s.net.ofds[&o].obj {
        Obj::Sock(Sock::Stream { cid, side }) => {
            let c = &s.net.conns[cid];
            if peer && !c.established {
                return fail(ENOTCONN) as c_int;
            }
            let (ip, p) = c.addr[if peer { 1 - *side } else { *side }];
            put_addr(ip, p, a, l);
            0
        },
        Obj::Sock(Sock::Listener(p)) if !peer => {
            put_addr(0x7f000001, *p, a, l);
            0
        },
        Obj::Sock(Sock::Bound(_, p)) if !peer => {
            put_addr(0x7f000001, *p as u16, a, l);
            0
        },
        _ => {
            if peer {
                return fail(ENOTCONN) as c_int;
            }
            put_addr(0, 0, a, l);
            0
        },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if vfd(fd) {
        return sockname(fd, a, l, false);
    }
    unsafe { sys(SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if vfd(fd) {
        return sockname(fd, a, l, true);
    }
    unsafe { sys(SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if vfd(fd) {
        let _g = Guard::new();
        return match net::shutdown(fd, how) {
            Ok(()) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    unsafe { sys(SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if vfd(fd) {
        return do_read(fd, unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }, None, fl & MSG_PEEK != 0);
    }
    unsafe { sys(SYS_recvfrom, fd as usize, b as usize, n, fl as usize, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if vfd(fd) {
        return do_read(fd, unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) }, None, fl & MSG_PEEK != 0);
    }
    unsafe { sys(SYS_recvfrom, fd as usize, b as usize, n, fl as usize, a as usize, l as usize) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if vfd(fd) {
        return do_write(fd, unsafe { std::slice::from_raw_parts(b as *const u8, n) }, None);
    }
    unsafe { sys(SYS_sendto, fd as usize, b as usize, n, fl as usize, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    if vfd(fd) {
        let all = {
            let _g = Guard::new();
            unsafe { gather((*m).msg_iov, (*m).msg_iovlen) }
        };
        return do_write(fd, &all, None);
    }
    unsafe { sys(SYS_sendmsg, fd as usize, m as usize, fl as usize, 0, 0, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getaddrinfo(n: *const c_char, sv: *const c_char, h: *const addrinfo, r: *mut *mut addrinfo) -> c_int {
    if live() {
        return EAI_NONAME;
    }
    next!("getaddrinfo", unsafe extern "C" fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int)(n, sv, h, r)
}

/// keeps every interposed symbol in the link
#[used]
static KEEP: [usize_fn; 1] = [keep];
#[allow(non_camel_case_types)]
type usize_fn = fn() -> usize;
fn keep() -> usize {
    getrandom as *const () as usize ^ syscall as *const () as usize ^ epoll_wait as *const () as usize
}

/// bind descriptors 0..2 to the simulated console
pub fn bind_console() {
    let _g = Guard::new();
    let a = net::new_ofd(Obj::Stdin, false);
    net::bind_std(0, a);
    let a = net::new_ofd(Obj::Stdout, false);
    net::bind_std(1, a);
    let a = net::new_ofd(Obj::Stderr, false);
    net::bind_std(2, a);
}
