//! Virtual file descriptors: files, eventfd, epoll, stream sockets. Stream data travels with
//! seeded latency and seeded segmentation; both ends are ordinary descriptors of this process.
use super::sched::{Key, Wake};
use super::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, VecDeque};

pub enum Sock {
    New,
    Bound([u8; 28], usize),
    Listener(u16),
    Stream { cid: u64, side: usize },
    Failed(i32),
}
pub enum Obj {
    File { ino: u64, pos: u64, append: bool, rd: bool, wr: bool },
    Dir { ino: u64 },
    Stdin,
    Stdout,
    Stderr,
    Event { count: u64, sem: bool },
    Epoll { regs: BTreeMap<i32, Reg> },
    Sock(Sock),
}
pub struct Reg {
    pub ofd: u64,
    pub events: u32,
    pub data: u64,
    pub pending: bool,
}
pub struct Ofd {
    pub obj: Obj,
    pub nonblock: bool,
    pub refs: usize,
    pub rcvtimeo: u64,
}
pub struct FdObj {
    pub ofd: u64,
}
#[derive(Default)]
pub struct Half {
    pub rx: VecDeque<u8>,
    pub eof: bool,
    pub rst: bool,
    pub tx_closed: bool,
    pub closed: bool,
    pub inflight: usize,
    pub last_at: u64,
    pub ofd: u64,
}
#[derive(Default)]
pub struct Conn {
    pub half: [Half; 2],
    pub established: bool,
    pub addr: [(u32, u16); 2],
    pub local: bool,
}
#[derive(Default)]
pub struct Net {
    pub conns: BTreeMap<u64, Conn>,
    pub listeners: BTreeMap<u16, Listener>,
    pub ofds: BTreeMap<u64, Ofd>,
    pub next_ofd: u64,
    pub next_cid: u64,
    pub next_port: u16,
    pub bytes: u64,
    pub connects: u64,
}
pub struct Listener {
    pub ofd: u64,
    pub backlog: VecDeque<u64>,
}
pub enum NetEvent {
    Deliver { cid: u64, to: usize, bytes: Vec<u8> },
    Fin { cid: u64, to: usize },
    Rst { cid: u64, to: usize },
    Established { cid: u64, port: u16 },
    Refused { ofd: u64 },
}
const WINDOW: usize = 256 * 1024;

pub fn post(at: u64, ev: NetEvent) {
    let s = sim();
    s.seq += 1;
    let id = s.seq;
    s.events.push(Reverse((at, id, id)));
    s.event_data.insert(id, ev);
}
pub fn fire(ev: NetEvent) {
    let s = sim();
    match ev {
        NetEvent::Deliver { cid, to, bytes } => {
            if let Some(c) = s.net.conns.get_mut(&cid) {
                let h = &mut c.half[to];
                h.inflight -= bytes.len();
                if !h.closed {
                    h.rx.extend(bytes.iter());
                }
                let o = h.ofd;
                note(rng::mix(bytes.len() as u64 ^ cid));
                notify(o);
            }
        },
        NetEvent::Fin { cid, to } => {
            if let Some(c) = s.net.conns.get_mut(&cid) {
                c.half[to].eof = true;
                let o = c.half[to].ofd;
                notify(o);
            }
        },
        NetEvent::Rst { cid, to } => {
            if let Some(c) = s.net.conns.get_mut(&cid) {
                c.half[to].rst = true;
                c.half[to].rx.clear();
                let o = c.half[to].ofd;
                notify(o);
            }
        },
        NetEvent::Established { cid, port } => {
            let ok = s.net.listeners.contains_key(&port);
            let client = s.net.conns.get(&cid).map_or(0, |c| c.half[0].ofd);
            if ok {
                s.net.conns.get_mut(&cid).unwrap().established = true;
                let l = s.net.listeners.get_mut(&port).unwrap();
                l.backlog.push_back(cid);
                let lo = l.ofd;
                notify(lo);
            } else if let Some(o) = s.net.ofds.get_mut(&client) {
                o.obj = Obj::Sock(Sock::Failed(libc::ECONNREFUSED));
            }
            notify(client);
        },
        NetEvent::Refused { ofd } => {
            if let Some(o) = s.net.ofds.get_mut(&ofd) {
                o.obj = Obj::Sock(Sock::Failed(libc::ECONNREFUSED));
            }
            notify(ofd);
        },
    }
}

pub fn notify(ofd: u64) {
    let s = sim();
    let mut eps: Vec<u64> = vec![];
    for (id, o) in s.net.ofds.iter_mut() {
        if let Obj::Epoll { regs } = &mut o.obj {
            let mut hit = false;
            for r in regs.values_mut() {
                if r.ofd == ofd {
                    r.pending = true;
                    hit = true;
                }
            }
            if hit {
                eps.push(*id);
            }
        }
    }
    for e in eps {
        sched::wake_key(Key::Custom(e));
    }
    sched::wake_key(Key::Custom(ofd));
}

pub fn readiness(ofd: u64) -> u32 {
    const IN: u32 = libc::EPOLLIN as u32;
    const OUT: u32 = libc::EPOLLOUT as u32;
    let s = sim();
    let Some(o) = s.net.ofds.get(&ofd) else { return 0 };
    match &o.obj {
        Obj::Event { count, .. } => (if *count > 0 { IN } else { 0 }) | OUT,
        Obj::Sock(Sock::Listener(p)) => {
            if s.net.listeners.get(p).is_some_and(|l| !l.backlog.is_empty()) { IN } else { 0 }
        },
        Obj::Sock(Sock::Stream { cid, side }) => {
            let c = &s.net.conns[cid];
            if !c.established {
                return 0;
            }
            let h = &c.half[*side];
            let p = &c.half[1 - *side];
            let mut r = 0;
            if !h.rx.is_empty() || h.eof || h.rst {
                r |= IN;
            }
            if h.rst || p.closed || p.rx.len() + p.inflight < WINDOW {
                r |= OUT;
            }
            if h.eof {
                r |= libc::EPOLLRDHUP as u32;
            }
            if h.eof && h.tx_closed {
                r |= libc::EPOLLHUP as u32;
            }
            if h.rst {
                r |= libc::EPOLLERR as u32 | libc::EPOLLHUP as u32;
            }
            r
        },
        Obj::Sock(Sock::Failed(_)) => IN | OUT | libc::EPOLLERR as u32 | libc::EPOLLHUP as u32,
        Obj::Sock(_) => libc::EPOLLHUP as u32 | OUT,
        Obj::Epoll { .. } => 0,
        _ => IN | OUT,
    }
}

pub fn new_ofd(obj: Obj, nonblock: bool) -> u64 {
    let s = sim();
    s.net.next_ofd += 1;
    let id = s.net.next_ofd;
    s.net.ofds.insert(id, Ofd { obj, nonblock, refs: 0, rcvtimeo: 0 });
    id
}
pub fn install(ofd: u64) -> i32 {
    let s = sim();
    let mut fd = 5000;
    while s.fds.contains_key(&fd) {
        fd += 1;
    }
    s.fds.insert(fd, FdObj { ofd });
    s.net.ofds.get_mut(&ofd).unwrap().refs += 1;
    fd
}
pub fn bind_std(fd: i32, ofd: u64) {
    let s = sim();
    if s.fds.contains_key(&fd) {
        close_fd(fd);
    }
    s.fds.insert(fd, FdObj { ofd });
    s.net.ofds.get_mut(&ofd).unwrap().refs += 1;
}
pub fn ofd_of(fd: i32) -> Option<u64> {
    sim().fds.get(&fd).map(|f| f.ofd)
}
pub fn is_virtual(fd: i32) -> bool {
    sim().fds.contains_key(&fd)
}
pub fn close_fd(fd: i32) -> i32 {
    let s = sim();
    let Some(f) = s.fds.remove(&fd) else { return -1 };
    // an fd number leaves every interest list when its description goes away
    let o = s.net.ofds.get_mut(&f.ofd).unwrap();
    o.refs -= 1;
    if o.refs > 0 {
        return 0;
    }
    let o = s.net.ofds.remove(&f.ofd).unwrap();
    for e in s.net.ofds.values_mut() {
        if let Obj::Epoll { regs } = &mut e.obj {
            regs.retain(|_, r| r.ofd != f.ofd);
        }
    }
    match o.obj {
        Obj::Sock(Sock::Stream { cid, side }) => close_half(cid, side),
        Obj::Sock(Sock::Listener(p)) => {
            if let Some(l) = s.net.listeners.remove(&p) {
                for cid in l.backlog {
                    post(s.now + 1000, NetEvent::Rst { cid, to: 0 });
                }
            }
        },
        _ => {},
    }
    0
}
fn fin_at(cid: u64, to: usize) -> u64 {
    let s = sim();
    let c = s.net.conns.get_mut(&cid).unwrap();
    let lat = if c.local { 1000 } else { s.cfg.lat_ns + s.r_net.below(s.cfg.jitter_ns + 1) };
    let at = (s.now + lat).max(c.half[to].last_at + 1);
    c.half[to].last_at = at;
    at
}
fn close_half(cid: u64, side: usize) {
    let s = sim();
    let Some(c) = s.net.conns.get_mut(&cid) else { return };
    let unread = !c.half[side].rx.is_empty();
    c.half[side].closed = true;
    c.half[side].rx.clear();
    let sent_fin = c.half[side].tx_closed;
    c.half[side].tx_closed = true;
    let at = fin_at(cid, 1 - side);
    if unread {
        post(at, NetEvent::Rst { cid, to: 1 - side });
    } else if !sent_fin {
        post(at, NetEvent::Fin { cid, to: 1 - side });
    }
}
/// the peer of this stream sees a connection reset
pub fn reset(fd: i32) {
    if let Some(ofd) = ofd_of(fd)
        && let Obj::Sock(Sock::Stream { cid, side }) = sim().net.ofds[&ofd].obj
    {
        let at = fin_at(cid, 1 - side);
        post(at, NetEvent::Rst { cid, to: 1 - side });
    }
}
pub fn shutdown(fd: i32, how: i32) -> Result<(), i32> {
    let s = sim();
    let ofd = ofd_of(fd).ok_or(libc::EBADF)?;
    match s.net.ofds[&ofd].obj {
        Obj::Sock(Sock::Stream { cid, side }) => {
            let c = s.net.conns.get_mut(&cid).unwrap();
            if !c.established {
                return Err(libc::ENOTCONN);
            }
            if (how == libc::SHUT_WR || how == libc::SHUT_RDWR) && !c.half[side].tx_closed {
                c.half[side].tx_closed = true;
                let at = fin_at(cid, 1 - side);
                post(at, NetEvent::Fin { cid, to: 1 - side });
            }
            Ok(())
        },
        _ => Err(libc::ENOTCONN),
    }
}

/// non-blocking attempts; Err(EAGAIN) when they would block
pub fn try_recv(cid: u64, side: usize, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
    let s = sim();
    let c = s.net.conns.get_mut(&cid).unwrap();
    let h = &mut c.half[side];
    if h.rst {
        return Err(libc::ECONNRESET);
    }
    if h.rx.is_empty() {
        if h.eof {
            return Ok(0);
        }
        return Err(libc::EAGAIN);
    }
    let n = h.rx.len().min(buf.len());
    for (i, b) in h.rx.iter().take(n).enumerate() {
        buf[i] = *b;
    }
    if !peek {
        let full = h.rx.len() + h.inflight >= WINDOW;
        h.rx.drain(..n);
        if full {
            let o = c.half[1 - side].ofd;
            notify(o);
        }
    }
    Ok(n)
}
pub fn try_send(cid: u64, side: usize, buf: &[u8]) -> Result<usize, i32> {
    let s = sim();
    let local;
    let n;
    {
        let c = s.net.conns.get_mut(&cid).unwrap();
        if c.half[side].rst {
            return Err(libc::ECONNRESET);
        }
        if c.half[side].tx_closed {
            return Err(libc::EPIPE);
        }
        if !c.established {
            return Err(libc::EAGAIN);
        }
        if c.half[1 - side].closed {
            c.half[side].rst = true;
            return Err(libc::EPIPE);
        }
        let p = &c.half[1 - side];
        let room = WINDOW.saturating_sub(p.rx.len() + p.inflight);
        if room == 0 {
            return Err(libc::EAGAIN);
        }
        n = room.min(buf.len());
        local = c.local;
    }
    let mut bytes = &buf[..n];
    s.net.bytes += n as u64;
    let (lat, jit) = if local { (500, 0) } else { (s.cfg.lat_ns, s.cfg.jitter_ns) };
    let mut extra = 0;
    let mut pieces = 1;
    let mut rst = false;
    if !local && let Some((k, arg)) = fault("net", &["delay", "split", "rst"]) {
        match k.as_str() {
            "delay" => extra = arg % 20_000_000_000,
            "split" => pieces = 2 + (arg % 5) as usize,
            _ => {
                rst = true;
                bytes = &bytes[..(arg % (n as u64 + 1)) as usize];
            },
        }
    }
    let mut at = s.now + lat + extra;
    let total = bytes.len();
    for k in 0..pieces {
        let take = if k + 1 == pieces { bytes.len() } else { (s.r_net.below(bytes.len() as u64 + 1)) as usize };
        let (a, b) = bytes.split_at(take);
        bytes = b;
        at += s.r_net.below(jit + 1);
        let c = s.net.conns.get_mut(&cid).unwrap();
        let h = &mut c.half[1 - side];
        at = at.max(h.last_at + 1);
        h.last_at = at;
        h.inflight += a.len();
        if !a.is_empty() {
            post(at, NetEvent::Deliver { cid, to: 1 - side, bytes: a.to_vec() });
        }
    }
    let _ = total;
    if rst {
        post(at + 1, NetEvent::Rst { cid, to: 1 - side });
        post(at + 1, NetEvent::Rst { cid, to: side });
    }
    Ok(n)
}

pub fn socketpair() -> (u64, u64) {
    let s = sim();
    s.net.next_cid += 1;
    let cid = s.net.next_cid;
    let a = new_ofd(Obj::Sock(Sock::Stream { cid, side: 0 }), false);
    let b = new_ofd(Obj::Sock(Sock::Stream { cid, side: 1 }), false);
    let mut c = Conn { established: true, local: true, ..Default::default() };
    c.half[0].ofd = a;
    c.half[1].ofd = b;
    s.net.conns.insert(cid, c);
    (a, b)
}

pub fn connect(ofd: u64, ip: u32, port: u16) -> Result<(), i32> {
    let s = sim();
    s.net.connects += 1;
    match s.net.ofds.get(&ofd).map(|o| &o.obj) {
        Some(Obj::Sock(Sock::New | Sock::Bound(..))) => {},
        Some(Obj::Sock(Sock::Stream { cid, .. })) => {
            return Err(if s.net.conns[cid].established { libc::EISCONN } else { libc::EALREADY });
        },
        _ => return Err(libc::ENOTSOCK),
    }
    let lat = s.cfg.lat_ns + s.r_net.below(s.cfg.jitter_ns + 1);
    let mut refused = false;
    if fault("connect", &["refuse"]).is_some() {
        refused = true;
    }
    s.net.next_cid += 1;
    let cid = s.net.next_cid;
    s.net.next_port = if s.net.next_port < 40000 { 40000 } else { s.net.next_port + 1 };
    let mut c = Conn { addr: [(0x7f000001, s.net.next_port), (ip, port)], ..Default::default() };
    c.half[0].ofd = ofd;
    s.net.conns.insert(cid, c);
    s.net.ofds.get_mut(&ofd).unwrap().obj = Obj::Sock(Sock::Stream { cid, side: 0 });
    if refused {
        post(s.now + lat, NetEvent::Refused { ofd });
    } else {
        post(s.now + 2 * lat, NetEvent::Established { cid, port });
    }
    Ok(())
}

/// wait until `ofd` may have changed state; true = timed out
pub fn wait_ofd(ofd: u64, deadline: u64) -> bool {
    sched::block(Key::Custom(ofd), deadline) == Wake::Timeout
}
