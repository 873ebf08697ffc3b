//! In-memory disk mounted at /sim. Volatile state (what the running process sees) and
//! durable state (what survives a power loss) are tracked separately:
//!  * file data becomes durable only by fsync of that file; after a power loss a file holds its
//!    last fsynced data plus an arbitrary prefix of the later writes (the last one possibly torn);
//!  * directory operations form one ordered journal; a power loss keeps a prefix of it that
//!    contains at least everything before the last fsync of anything;
//!  * a process kill loses nothing that a completed write(2) accepted.
use super::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    Dir,
    #[serde(rename = "t")]
    Text(String),
    #[serde(rename = "x")]
    Hex(String),
}
pub type Image = BTreeMap<String, Node>;

pub fn node_of(b: &[u8]) -> Node {
    match std::str::from_utf8(b) {
        Ok(s) => Node::Text(s.to_string()),
        Err(_) => Node::Hex(b.iter().map(|x| format!("{x:02x}")).collect()),
    }
}
pub fn bytes_of(n: &Node) -> Option<Vec<u8>> {
    match n {
        Node::Dir => None,
        Node::Text(s) => Some(s.clone().into_bytes()),
        Node::Hex(h) => Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()),
    }
}

#[derive(Clone, Debug)]
pub enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub dir: Option<BTreeMap<String, u64>>,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<Pend>,
    pub mtime: u64,
    pub mode: u32,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Link(u64, String, u64),
    Unlink(u64, String),
    Rename(u64, String, u64, String),
}
#[derive(Default)]
pub struct Vfs {
    pub inodes: BTreeMap<u64, Inode>,
    pub next_ino: u64,
    pub journal: Vec<Meta>,
    pub journal_durable: usize,
    pub base: BTreeMap<u64, Option<BTreeMap<String, u64>>>,
    pub ops: u64,
    pub mutations: u64,
    /// bytes the disk still accepts (u64::MAX: unlimited)
    pub free: u64,
    pub stdin: Vec<u8>,
    pub stdin_pos: usize,
    pub stdout: Vec<u8>,
    pub on_crash: Option<fn(&str, Image)>,
    /// log of mutating operations on paths, for oracles
    pub log: Vec<(u64, String)>,
}
pub const ROOT: u64 = 1;

fn newnode(dir: bool) -> Inode {
    Inode { dir: if dir { Some(BTreeMap::new()) } else { None }, data: vec![], durable: vec![], pending: vec![], mtime: 0, mode: if dir { 0o755 } else { 0o644 } }
}

impl Vfs {
    pub fn from_image(im: Image) -> Vfs {
        let mut v = Vfs { next_ino: 2, free: u64::MAX, ..Default::default() };
        v.inodes.insert(ROOT, newnode(true));
        for (p, n) in &im {
            let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty()).collect();
            let mut d = ROOT;
            for (i, c) in comps.iter().enumerate() {
                let last = i + 1 == comps.len();
                let ex = v.inodes[&d].dir.as_ref().unwrap().get(*c).copied();
                d = match ex {
                    Some(x) => x,
                    None => {
                        let isdir = !last || matches!(n, Node::Dir);
                        let id = v.next_ino;
                        v.next_ino += 1;
                        let mut nn = newnode(isdir);
                        if !isdir {
                            nn.data = bytes_of(n).unwrap();
                            nn.durable = nn.data.clone();
                        }
                        v.inodes.insert(id, nn);
                        v.inodes.get_mut(&d).unwrap().dir.as_mut().unwrap().insert(c.to_string(), id);
                        id
                    },
                };
            }
        }
        v.base = v.inodes.iter().map(|(k, i)| (*k, i.dir.clone())).collect();
        v
    }

    fn walk_dirs(dirs: &dyn Fn(u64) -> Option<BTreeMap<String, u64>>, ino: u64, path: &str, out: &mut Vec<(String, u64, bool)>) {
        match dirs(ino) {
            Some(d) => {
                if !path.is_empty() {
                    out.push((path.to_string(), ino, true));
                }
                for (n, c) in d {
                    Self::walk_dirs(dirs, c, &format!("{path}/{n}"), out);
                }
            },
            None => out.push((path.to_string(), ino, false)),
        }
    }
    pub fn volatile_image(&self) -> Image {
        let mut out = vec![];
        Self::walk_dirs(&|i| self.inodes.get(&i).and_then(|x| x.dir.clone()), ROOT, "", &mut out);
        out.into_iter().map(|(p, i, d)| (p, if d { Node::Dir } else { node_of(&self.inodes[&i].data) })).collect()
    }
    /// image after a power loss, drawn with `r`
    pub fn power_image(&self, r: &mut Rng) -> Image {
        let mut dirs: BTreeMap<u64, Option<BTreeMap<String, u64>>> = self.base.clone();
        let keep = r.range(self.journal_durable as u64, self.journal.len() as u64) as usize;
        for (i, n) in &self.inodes {
            if n.dir.is_some() {
                dirs.entry(*i).or_insert(Some(BTreeMap::new()));
            }
        }
        for m in &self.journal[..keep] {
            match m {
                Meta::Link(d, n, i) => {
                    if let Some(Some(x)) = dirs.get_mut(d) {
                        x.insert(n.clone(), *i);
                    }
                },
                Meta::Unlink(d, n) => {
                    if let Some(Some(x)) = dirs.get_mut(d) {
                        x.remove(n);
                    }
                },
                Meta::Rename(d, n, d2, n2) => {
                    let i = dirs.get_mut(d).and_then(|x| x.as_mut()).and_then(|x| x.remove(n));
                    if let (Some(i), Some(Some(x))) = (i, dirs.get_mut(d2)) {
                        x.insert(n2.clone(), i);
                    }
                },
            }
        }
        let mut out = vec![];
        Self::walk_dirs(&|i| dirs.get(&i).cloned().flatten(), ROOT, "", &mut out);
        let mut im = Image::new();
        for (p, i, d) in out {
            if d {
                im.insert(p, Node::Dir);
                continue;
            }
            let Some(n) = self.inodes.get(&i) else { continue };
            let mut data = n.durable.clone();
            let k = r.below(n.pending.len() as u64 + 1) as usize;
            for (j, pe) in n.pending[..k].iter().enumerate() {
                match pe {
                    Pend::Trunc(l) => data.resize(*l as usize, 0),
                    Pend::Write(off, b) => {
                        let mut b = b.clone();
                        if j + 1 == k && r.pct(50) {
                            let cut = r.below(b.len() as u64 + 1) as usize;
                            if r.pct(50) {
                                b.truncate(cut);
                            } else {
                                for x in &mut b[cut..] {
                                    *x = 0; // size reached the disk, the block did not
                                }
                            }
                        }
                        let end = *off as usize + b.len();
                        if data.len() < end {
                            data.resize(end, 0);
                        }
                        data[*off as usize..end].copy_from_slice(&b);
                    },
                }
            }
            im.insert(p, node_of(&data));
        }
        im
    }

    fn split(path: &str) -> Option<Vec<String>> {
        let rest = path.strip_prefix("/sim")?;
        if !(rest.is_empty() || rest.starts_with('/')) {
            return None;
        }
        let mut v: Vec<String> = vec![];
        for c in rest.split('/') {
            match c {
                "" | "." => {},
                ".." => {
                    v.pop();
                },
                c => v.push(c.to_string()),
            }
        }
        Some(v)
    }
    pub fn is_sim(path: &str) -> bool {
        Self::split(path).is_some()
    }
    pub fn lookup(&self, path: &str) -> Result<u64, i32> {
        let comps = Self::split(path).ok_or(libc::ENOENT)?;
        let mut d = ROOT;
        for c in comps {
            let dir = self.inodes[&d].dir.as_ref().ok_or(libc::ENOTDIR)?;
            d = *dir.get(&c).ok_or(libc::ENOENT)?;
        }
        Ok(d)
    }
    fn parent(&self, path: &str) -> Result<(u64, String), i32> {
        let mut comps = Self::split(path).ok_or(libc::ENOENT)?;
        let last = comps.pop().ok_or(libc::EISDIR)?;
        let mut d = ROOT;
        for c in comps {
            let dir = self.inodes[&d].dir.as_ref().ok_or(libc::ENOTDIR)?;
            d = *dir.get(&c).ok_or(libc::ENOENT)?;
        }
        if self.inodes[&d].dir.is_none() {
            return Err(libc::ENOTDIR);
        }
        Ok((d, last))
    }
    fn mutated(&mut self, what: String) {
        self.mutations += 1;
        let st = sim().seq;
        self.log.push((st, what));
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path).ok()?;
        let n = &self.inodes[&i];
        if n.dir.is_some() { None } else { Some(n.data.clone()) }
    }
    pub fn list(&self, path: &str) -> Vec<String> {
        match self.lookup(path) {
            Ok(i) => self.inodes[&i].dir.as_ref().map(|d| d.keys().cloned().collect()).unwrap_or_default(),
            Err(_) => vec![],
        }
    }
    /// scenario set-up: create a durable file (parents too)
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let mut im = self.volatile_image();
        let p = path.strip_prefix("/sim").unwrap_or(path).to_string();
        im.insert(p, node_of(data));
        let keep_in = std::mem::take(&mut self.stdin);
        let (oc, free) = (self.on_crash, self.free);
        *self = Vfs::from_image(im);
        self.stdin = keep_in;
        self.on_crash = oc;
        self.free = free;
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut im = self.volatile_image();
        let p = path.strip_prefix("/sim").unwrap_or(path).to_string();
        im.insert(p, Node::Dir);
        let keep_in = std::mem::take(&mut self.stdin);
        let (oc, free) = (self.on_crash, self.free);
        *self = Vfs::from_image(im);
        self.stdin = keep_in;
        self.on_crash = oc;
        self.free = free;
    }

    pub fn open(&mut self, path: &str, flags: i32, mode: u32) -> Result<(u64, bool), i32> {
        // returns (ino, is_dir)
        let acc = flags & libc::O_ACCMODE;
        match self.lookup(path) {
            Ok(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                let n = self.inodes.get_mut(&i).unwrap();
                if n.dir.is_some() {
                    if acc != libc::O_RDONLY {
                        return Err(libc::EISDIR);
                    }
                    return Ok((i, true));
                }
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if acc != libc::O_RDONLY && n.mode & 0o200 == 0 {
                    return Err(libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY && !n.data.is_empty() {
                    if self.free != u64::MAX {
                        self.free += n.data.len() as u64;
                    }
                    n.data.clear();
                    n.pending.push(Pend::Trunc(0));
                    self.mutated(format!("trunc {path}"));
                }
                Ok((i, false))
            },
            Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
                let (d, name) = self.parent(path)?;
                let id = self.next_ino;
                self.next_ino += 1;
                let mut n = newnode(false);
                n.mode = mode & 0o777;
                n.mtime = sim().now;
                self.inodes.insert(id, n);
                self.inodes.get_mut(&d).unwrap().dir.as_mut().unwrap().insert(name.clone(), id);
                self.journal.push(Meta::Link(d, name, id));
                self.mutated(format!("create {path}"));
                Ok((id, false))
            },
            Err(e) => Err(e),
        }
    }
    /// writes as much as the disk takes
    pub fn write(&mut self, ino: u64, off: u64, b: &[u8]) -> Result<usize, i32> {
        let n = self.inodes.get_mut(&ino).ok_or(libc::EBADF)?;
        let mut b = b;
        let grow = (off + b.len() as u64).saturating_sub(n.data.len() as u64);
        if grow > self.free {
            let can = b.len() as u64 - (grow - self.free);
            if can == 0 || self.free == 0 {
                return Err(libc::ENOSPC);
            }
            b = &b[..can as usize];
        }
        let end = off as usize + b.len();
        if n.data.len() < end {
            let g = end - n.data.len();
            if self.free != u64::MAX {
                self.free -= g as u64;
            }
            n.data.resize(end, 0);
        }
        n.data[off as usize..end].copy_from_slice(b);
        n.pending.push(Pend::Write(off, b.to_vec()));
        n.mtime = sim().now;
        self.mutated(format!("write #{ino} {}+{}", off, b.len()));
        Ok(b.len())
    }
    pub fn truncate(&mut self, ino: u64, len: u64) {
        let n = self.inodes.get_mut(&ino).unwrap();
        n.data.resize(len as usize, 0);
        n.pending.push(Pend::Trunc(len));
        self.mutated(format!("ftruncate #{ino} {len}"));
    }
    pub fn fsync(&mut self, ino: u64) {
        let n = self.inodes.get_mut(&ino).unwrap();
        n.durable = n.data.clone();
        n.pending.clear();
        self.journal_durable = self.journal.len();
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        let (da, na) = self.parent(a)?;
        let (db, nb) = self.parent(b)?;
        let i = *self.inodes[&da].dir.as_ref().unwrap().get(&na).ok_or(libc::ENOENT)?;
        if let Some(t) = self.inodes[&db].dir.as_ref().unwrap().get(&nb) {
            match (self.inodes[&i].dir.is_some(), self.inodes[t].dir.as_ref()) {
                (true, None) => return Err(libc::ENOTDIR),
                (false, Some(_)) => return Err(libc::EISDIR),
                (true, Some(d)) if !d.is_empty() => return Err(libc::ENOTEMPTY),
                _ => {},
            }
            if self.free != u64::MAX {
                let l = self.inodes[t].data.len() as u64;
                self.free += l;
            }
        }
        self.inodes.get_mut(&da).unwrap().dir.as_mut().unwrap().remove(&na);
        self.inodes.get_mut(&db).unwrap().dir.as_mut().unwrap().insert(nb.clone(), i);
        self.journal.push(Meta::Rename(da, na, db, nb));
        self.mutated(format!("rename {a} {b}"));
        Ok(())
    }
    pub fn unlink(&mut self, p: &str) -> Result<(), i32> {
        let (d, n) = self.parent(p)?;
        let i = *self.inodes[&d].dir.as_ref().unwrap().get(&n).ok_or(libc::ENOENT)?;
        if self.inodes[&i].dir.is_some() {
            return Err(libc::EISDIR);
        }
        if self.free != u64::MAX {
            let l = self.inodes[&i].data.len() as u64;
            self.free += l;
        }
        self.inodes.get_mut(&d).unwrap().dir.as_mut().unwrap().remove(&n);
        self.journal.push(Meta::Unlink(d, n));
        self.mutated(format!("unlink {p}"));
        Ok(())
    }
    pub fn rmdir(&mut self, p: &str) -> Result<(), i32> {
        let (d, n) = self.parent(p)?;
        let i = *self.inodes[&d].dir.as_ref().unwrap().get(&n).ok_or(libc::ENOENT)?;
        match &self.inodes[&i].dir {
            None => return Err(libc::ENOTDIR),
            Some(x) if !x.is_empty() => return Err(libc::ENOTEMPTY),
            _ => {},
        }
        self.inodes.get_mut(&d).unwrap().dir.as_mut().unwrap().remove(&n);
        self.journal.push(Meta::Unlink(d, n));
        self.mutated(format!("rmdir {p}"));
        Ok(())
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i32> {
        if self.lookup(p).is_ok() {
            return Err(libc::EEXIST);
        }
        let (d, n) = self.parent(p)?;
        let id = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(id, newnode(true));
        self.inodes.get_mut(&d).unwrap().dir.as_mut().unwrap().insert(n.clone(), id);
        self.journal.push(Meta::Link(d, n, id));
        self.mutated(format!("mkdir {p}"));
        Ok(())
    }
    pub fn fill_stat(&self, ino: u64, st: &mut libc::stat64) {
        let n = &self.inodes[&ino];
        *st = unsafe { std::mem::zeroed() };
        st.st_ino = ino;
        st.st_dev = 77;
        st.st_nlink = 1;
        st.st_blksize = 4096;
        st.st_size = n.data.len() as i64;
        st.st_blocks = (n.data.len() as i64 + 511) / 512;
        st.st_mode = if n.dir.is_some() { libc::S_IFDIR | n.mode } else { libc::S_IFREG | n.mode };
        let t = sim().cfg.epoch_s as i64 + (n.mtime / 1_000_000_000) as i64;
        st.st_mtime = t;
        st.st_atime = t;
        st.st_ctime = t;
        st.st_mtime_nsec = (n.mtime % 1_000_000_000) as i64;
    }
}

/// Called before every mutating operation. `partial` applies a prefix of the operation.
pub fn crash_point(partial: impl FnOnce(u64)) {
    let Some((kind, arg)) = super::fault("crash", &["kill", "power"]) else { return };
    partial(arg);
    let s = sim();
    let im = if kind == "kill" { s.fs.volatile_image() } else { s.fs.power_image(&mut Rng::new(arg)) };
    if let Some(f) = s.fs.on_crash {
        f(&kind, im);
    }
    end("inconclusive", "crash without a handler");
}
/// Crash right now (chosen by the scenario, e.g. at quiescence).
pub fn image_after(kind: &str, arg: u64) -> Image {
    let s = sim();
    if kind == "kill" { s.fs.volatile_image() } else { s.fs.power_image(&mut Rng::new(arg)) }
}
