//! The simulated operating system seen by the code under test: file system, descriptors,
//! clock, randomness, memory limits and thread scheduling, with fault injection.
use crate::journal::Journal;
use crate::rng::{mix, Rng};
use crate::vfs::{self, Mut, Node, Vfs};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering, AtomicU64};

// operation classes
pub const OPEN: u8 = 0;
pub const READ: u8 = 1;
pub const WRITE: u8 = 2;
pub const CLOSE: u8 = 3;
pub const STAT: u8 = 4;
pub const SEEK: u8 = 5;
pub const META: u8 = 6;
pub const SYNC: u8 = 7;
pub const CLOCK: u8 = 8;
pub const RNGC: u8 = 9;
pub const CWD: u8 = 10;
pub const OUT: u8 = 11;
pub const ERR: u8 = 12;
pub const MISC: u8 = 13;
pub const ANY: u8 = 14;
pub const CLS_NAMES: [&str; 15] = ["open", "read", "write", "close", "stat", "seek", "meta", "sync", "clock", "random", "cwd", "stdout", "stderr", "misc", "any"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FK {
    Errno(i32),
    /// transfer at most this many bytes
    Short(u32),
    /// an outside process atomically replaces (Some) or removes (None) a file before the call
    Edit(String, Option<Blob>),
    /// an outside process cuts the file to this length in place before the call
    Trunc(String, u32),
    /// the wall clock is stepped by this many nanoseconds before the call
    Jump(i64),
    KillBefore,
    KillAfter,
    /// a write puts this many bytes on disk and then the process dies
    KillMid(u32),
    /// stat reports a size that is off by this
    SizeLie(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub cls: u8,
    /// canonical path, or None for any
    pub path: Option<String>,
    /// index of the first matching call that is hit
    pub nth: u32,
    /// number of consecutive matching calls hit
    pub cnt: u32,
    pub kind: FK,
}

/// file contents in replay files: text when it is text, hex otherwise
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.contains('\0') => s.serialize_str(&format!("t:{}", t)),
            _ => { let mut h = String::from("x:"); for b in &self.0 { h.push_str(&format!("{:02x}", b)); } s.serialize_str(&h) }
        }
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Blob, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(t) = s.strip_prefix("t:") { return Ok(Blob(t.as_bytes().to_vec())); }
        let h = s[2..].as_bytes();
        Ok(Blob(h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sink { Ok, Pipe, /** accepts n bytes, then ENOSPC */ Full(u64), /** accepts n bytes, then EPIPE */ Closed(u64), Eio, BadFd, Again(u64) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RngMode { Seeded(u64), Const(u8), Counter, /** the same 16 bytes for every 16-byte block */ Repeat(u64), Low(u64) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Modes {
    /// 0: unlimited
    pub read_cap: u32,
    pub write_cap: u32,
    /// each read transfers a random part of what it could, by this seed (0: off)
    pub ragged: u64,
    /// every n-th read/write is interrupted first (0: off)
    pub eintr: u32,
    /// bytes the disk still accepts
    pub disk_free: Option<u64>,
    pub fd_limit: u32,
    pub size_lie: i64,
    pub out: Sink,
    pub err: Sink,
    pub tty: bool,
    /// with `tty`: 0 all streams, 1 only standard output, 2 only standard error are the terminal
    #[serde(skip_serializing_if = "zero8")]
    pub tty_of: u8,
    /// standard input: 0 empty, 1 text without end, 2 cannot be read, 3 nobody ever writes anything
    #[serde(skip_serializing_if = "zero8")]
    pub inp: u8,
    /// bytes of memory there are (0: any amount)
    #[serde(skip_serializing_if = "zero64")]
    pub heap: u64,
    /// fail the n-th allocation (1-based), and `alloc_cnt` following ones
    pub alloc_fail: u64,
    pub alloc_cnt: u64,
    /// every allocation of at least this many bytes fails
    pub alloc_max: u64,
    /// writes accept nothing for ever / reads are interrupted for ever are given as faults
    pub max_ops: u64,
}
fn zero8(n: &u8) -> bool { *n == 0 }
fn zero64(n: &u64) -> bool { *n == 0 }
impl Modes { pub fn term(&self, k: &FdKind) -> bool { self.tty && match k { FdKind::Out => self.tty_of != 2, FdKind::Err => self.tty_of != 1, FdKind::Stdin => self.tty_of == 0, _ => false } } }
impl Default for Modes {
    fn default() -> Modes {
        Modes { read_cap: 0, write_cap: 0, ragged: 0, eintr: 0, disk_free: None, fd_limit: 64, size_lie: 0, out: Sink::Ok, err: Sink::Ok, tty: false, tty_of: 0, inp: 0, heap: 0,
            alloc_fail: 0, alloc_cnt: 0, alloc_max: 0, max_ops: 400_000 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Clk { pub start: i64, /** max advance per call */ pub step: u64, pub seed: u64 }
impl Default for Clk { fn default() -> Clk { Clk { start: 1_700_000_000_000_000_000, step: 20_000, seed: 1 } } }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Plan { None, /** at a yield point switch with chance 1/period */ Seeded(u64, u32), /** (yield step, thread) */ List(Vec<(u64, u8)>) }

#[derive(Clone, Debug, PartialEq)]
pub enum FdKind { File(usize), Pipe(usize), Stdin, Out, Err, Dev(u8), Dir(String) }
#[derive(Clone, Debug)]
pub struct Fd { pub kind: FdKind, pub pos: u64, pub append: bool, pub r: bool, pub w: bool, pub path: String }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Run, Futex(usize), Join(u64), Done }
pub struct Th { pub st: St, pub word: Box<AtomicU32>, pub handle: u64 }

pub struct Sim {
    /// how much of each pipe has been read
    pub pipes: std::collections::BTreeMap<usize, usize>,
    pub vfs: Vfs, pub cwd: String, pub fds: Vec<Option<Fd>>,
    pub faults: Vec<(Fault, u32)>, pub m: Modes,
    pub now: i64, pub mono: i64, clk: Clk, clk_rng: Rng,
    pub rmode: RngMode, rr: Rng, rcount: u64,
    ragged: Rng, io_count: u32, pub out_n: u64, pub err_n: u64, pub used: u64,
    pub opno: u64, pub j: Journal,
    pub pid: i32, pub peers: Option<Peers>,
    pub th: Vec<Th>, pub multi: bool, pub step: u64, plan: Plan, plan_i: usize, prng: Rng,
}

/// what processes that run at the same time share: whose turn it is, which have ended, the steps so far
pub struct Board { pub turn: AtomicU32, pub done: AtomicU32, pub step: AtomicU64 }
/// the other processes, and the log of all changes to the one file system
pub struct Peers { pub me: u32, pub n: u32, pub board: &'static Board, pub log: Journal, pub off: usize, pub plan: Plan }

pub static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut ON: bool = false;
pub static mut ALLOCS: u64 = 0;
pub static mut LIVE: i64 = 0;
pub static mut ALLOC_FAIL: u64 = 0;
pub static mut ALLOC_CNT: u64 = 0;
pub static mut ALLOC_MAX: u64 = 0;
pub static mut HEAP: i64 = 0;
pub static mut PEAK: i64 = 0;
thread_local! {
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
    pub static TID: Cell<u32> = const { Cell::new(0) };
}
#[inline] pub fn on() -> bool { unsafe { ON && DEPTH.with(|d| d.get()) == 0 } }
/// marks code of the simulator itself: nothing it calls is simulated
pub struct Guard;
impl Guard { pub fn new() -> Guard { DEPTH.with(|d| d.set(d.get() + 1)); Guard } }
impl Drop for Guard { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)); } }
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
pub fn tid() -> usize { TID.with(|t| t.get()) as usize }

// what the modes did, as reported next to the numbered faults
pub const F_ALLOC: u32 = u32::MAX;
pub const F_EINTR: u32 = u32::MAX - 1;
pub const F_SREAD: u32 = u32::MAX - 2;
pub const F_SWRITE: u32 = u32::MAX - 3;
pub const F_DISK: u32 = u32::MAX - 4;
pub const F_SINK: u32 = u32::MAX - 5;
pub const F_FDS: u32 = u32::MAX - 6;
pub const F_LIE: u32 = u32::MAX - 7;
pub const F_NAMES: [&str; 8] = ["allocation refused", "interrupted call (mode)", "short read (mode)", "short write (mode)", "disk full", "output stream refused", "descriptor limit", "wrong file size (mode)"];
pub struct Act { pub errno: i32, pub short: Option<usize>, pub kill_after: bool, pub kill_mid: Option<usize>, pub lie: i64, pub fault: bool }

pub fn die(code: i32, note: &str) -> ! {
    let s = sim();
    s.j.note(note);
    s.j.allocs(unsafe { ALLOCS }, s.mono - 1_000_000_000, unsafe { PEAK });
    #[cfg(feature = "cov")] crate::exec::cov::dump();
    unsafe { crate::hooks::raw1(libc::SYS_exit_group, code as usize); }
    loop {}
}

impl Sim {
    pub fn new(vfs: Vfs, cwd: &str, faults: &[Fault], m: &Modes, clk: &Clk, rmode: &RngMode, plan: &Plan, j: Journal) -> Sim {
        let mut fds = vec![];
        for (k, n) in [(FdKind::Stdin, "<stdin>"), (FdKind::Out, "<stdout>"), (FdKind::Err, "<stderr>")] {
            fds.push(Some(Fd { kind: k, pos: 0, append: false, r: true, w: true, path: n.into() }));
        }
        let (rseed, pseed) = (match rmode { RngMode::Seeded(s) | RngMode::Repeat(s) | RngMode::Low(s) => *s, _ => 0 }, match plan { Plan::Seeded(s, _) => *s, _ => 0 });
        Sim { vfs, cwd: cwd.into(), fds, faults: faults.iter().map(|f| (f.clone(), 0)).collect(), m: m.clone(), now: clk.start, mono: 1_000_000_000,
            clk: clk.clone(), clk_rng: Rng::new(clk.seed), rmode: rmode.clone(), rr: Rng::new(rseed), rcount: 0, ragged: Rng::new(m.ragged), io_count: 0,
            out_n: 0, err_n: 0, used: 0, opno: 0, j, pid: 4242, peers: None, pipes: Default::default(), th: vec![Th { st: St::Run, word: Box::new(AtomicU32::new(0)), handle: 0 }], multi: false, step: 0,
            plan: plan.clone(), plan_i: 0, prng: Rng::new(pseed) }
    }
    pub fn apply(&mut self, m: Mut) {
        match &mut self.peers {
            Some(p) => { p.log.catch_up(); p.log.mutation(&m); p.off = p.log.len; }
            None => self.j.mutation(&m),
        }
        self.vfs.apply(&m);
    }
    /// another process may go on here, and change what this one finds
    fn process_point(&mut self) {
        let p = match &self.peers { Some(p) => p, None => return };
        let step = p.board.step.fetch_add(1, Ordering::SeqCst) + 1;
        let done = p.board.done.load(Ordering::SeqCst);
        let others: Vec<u32> = (0..p.n).filter(|i| *i != p.me && done & 1 << i == 0).collect();
        if others.is_empty() { return; }
        let to = match &p.plan {
            Plan::None => return,
            Plan::Seeded(s, k) => { let h = crate::rng::mix(s ^ crate::rng::mix(step)); if h % *k as u64 != 0 { return; } others[(h >> 40) as usize % others.len()] }
            Plan::List(l) => match l.iter().find(|x| x.0 == step) { Some(x) if others.contains(&(x.1 as u32)) => x.1 as u32, _ => return },
        };
        self.j.switch(step, to as u8);
        hand_over(p.board, to);
        self.await_turn();
    }
    pub fn await_turn(&mut self) {
        let Some(p) = &mut self.peers else { return };
        loop {
            let t = p.board.turn.load(Ordering::SeqCst);
            if t == p.me { break; }
            unsafe { crate::hooks::raw6(libc::SYS_futex, &p.board.turn as *const _ as usize, libc::FUTEX_WAIT as usize, t as usize, 0, 0, 0); }
        }
        p.log.catch_up();
        let (evs, off) = p.log.parse_from(p.off);
        p.off = off;
        for e in evs { if let crate::journal::Ev::Mut(m) = e { self.vfs.apply(&m); } }
    }

    /// start of every simulated call
    pub fn begin(&mut self, cls: u8, path: &str) -> Act {
        self.process_point();
        self.yield_point();
        self.opno += 1;
        if self.opno > self.m.max_ops { die(250, "step-cap"); }
        let dt = if self.clk.step > 0 { self.clk_rng.below(self.clk.step) as i64 + 1 } else { 0 };
        self.now += dt; self.mono += dt;
        let mut a = Act { errno: 0, short: None, kill_after: false, kill_mid: None, lie: 0, fault: false };
        if cls == STAT { a.lie = self.m.size_lie; if a.lie != 0 { self.j.fired(F_LIE); } }
        for i in 0..self.faults.len() {
            let (f, c) = &mut self.faults[i];
            if !(f.cls == cls || f.cls == ANY) { continue; }
            if let Some(p) = &f.path { if p != path { continue; } }
            let n = *c; *c = c.saturating_add(1);
            if n < f.nth || n - f.nth >= f.cnt { continue; }
            let kind = f.kind.clone();
            self.j.fired(i as u32);
            a.fault = true;
            match kind {
                FK::Errno(e) => a.errno = e,
                FK::Short(n) => a.short = Some(n as usize),
                FK::Edit(p, d) => {
                    let m = match d { Some(d) => Mut::Replace { path: p, data: d.0 }, None => Mut::Remove { path: p } };
                    self.apply(m);
                }
                FK::Trunc(p, n) => { if let Some(Node::File(i)) = self.vfs.nodes.get(&p) { let i = *i; if self.vfs.inodes[i].data.len() > n as usize { self.apply(Mut::Truncate { ino: i as u32, len: n as u64 }); } } }
                FK::Jump(d) => self.now += d,
                FK::KillBefore => { self.j.op(cls, tid() as u8, -1, true, path); die(251, "killed") }
                FK::KillAfter => a.kill_after = true,
                FK::KillMid(n) => a.kill_mid = Some(n as usize),
                FK::SizeLie(d) => a.lie = d,
            }
        }
        a
    }
    pub fn end(&mut self, cls: u8, path: &str, ret: i64, a: &Act) -> i64 {
        self.j.op(cls, tid() as u8, ret, a.fault, path);
        if a.kill_after { die(251, "killed"); }
        ret
    }

    pub fn abs(&self, path: &str, follow: bool) -> Result<String, i32> { self.vfs.resolve(&self.cwd, path, follow) }
    /// name used in the log and for matching faults: canonical if possible
    pub fn name(&self, path: &str, follow: bool) -> String { self.abs(path, follow).unwrap_or_else(|_| if path.starts_with('/') { path.into() } else { vfs::join(&self.cwd, path) }) }

    pub fn open(&mut self, path: &str, flags: i32, mode: u32) -> i64 {
        let nm = self.name(path, flags & libc::O_NOFOLLOW == 0);
        let a = self.begin(OPEN, &nm);
        let r = if a.errno != 0 { Err(a.errno) } else { self.do_open(path, flags, mode) };
        let r = match r { Ok(n) => n as i64, Err(e) => -(e as i64) };
        self.end(OPEN, &nm, r, &a)
    }
    fn do_open(&mut self, path: &str, flags: i32, mode: u32) -> Result<usize, i32> {
        let slot = (0..self.m.fd_limit as usize).find(|i| self.fds.get(*i).map(|f| f.is_none()).unwrap_or(true));
        let slot = match slot { Some(s) => s, None => { self.j.fired(F_FDS); return Err(libc::EMFILE) } };
        let acc = flags & libc::O_ACCMODE;
        let (r, w) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc == libc::O_WRONLY || acc == libc::O_RDWR);
        let full = self.abs(path, flags & libc::O_NOFOLLOW == 0)?;
        let kind = match self.vfs.nodes.get(&full).cloned() {
            Some(Node::Link(_)) => return Err(libc::ELOOP),
            Some(Node::Dir) => { if w || flags & libc::O_CREAT != 0 { return Err(libc::EISDIR); } FdKind::Dir(full.clone()) }
            Some(Node::File(i)) => {
                if flags & libc::O_DIRECTORY != 0 { return Err(libc::ENOTDIR); }
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return Err(libc::EEXIST); }
                let ino = &self.vfs.inodes[i];
                if ino.dev == vfs::DEV_OUT { FdKind::Out } else if ino.dev == vfs::DEV_PIPE { if r && ino.mode & 0o400 == 0 || w { return Err(libc::EACCES); } FdKind::Pipe(i) } else if ino.dev != 0 { FdKind::Dev(ino.dev) } else {
                    if r && ino.mode & 0o400 == 0 || w && ino.mode & 0o200 == 0 { return Err(libc::EACCES); }
                    if w && flags & libc::O_TRUNC != 0 && !ino.data.is_empty() {
                        if let Some(f) = self.m.disk_free.as_mut() { *f += ino.data.len() as u64; }
                        self.apply(Mut::Truncate { ino: i as u32, len: 0 });
                    }
                    FdKind::File(i)
                }
            }
            None => {
                if flags & libc::O_CREAT == 0 { return Err(libc::ENOENT); }
                if path.ends_with('/') { return Err(libc::EISDIR); }
                let par = vfs::parent(&full).unwrap_or("/".into());
                match self.vfs.nodes.get(&par) { Some(Node::Dir) => {} Some(_) => return Err(libc::ENOTDIR), None => return Err(libc::ENOENT) }
                self.apply(Mut::Create { path: full.clone(), mode: mode & 0o7777 & !0o022 });
                FdKind::File(self.vfs.inodes.len() - 1)
            }
        };
        while self.fds.len() <= slot { self.fds.push(None); }
        self.fds[slot] = Some(Fd { kind, pos: 0, append: flags & libc::O_APPEND != 0, r, w, path: full });
        Ok(slot)
    }
    pub fn fd(&self, fd: i32) -> Option<&Fd> { if fd < 0 { None } else { self.fds.get(fd as usize).and_then(|f| f.as_ref()) } }
    pub fn fdname(&self, fd: i32) -> String { self.fd(fd).map(|f| f.path.clone()).unwrap_or("<badfd>".into()) }
    pub fn close(&mut self, fd: i32) -> i64 {
        let nm = self.fdname(fd);
        let a = self.begin(CLOSE, &nm);
        let r = if self.fd(fd).is_none() { -libc::EBADF as i64 } else { self.fds[fd as usize] = None; -(a.errno as i64) };
        self.end(CLOSE, &nm, r, &a)
    }
    fn interrupted(&mut self) -> bool {
        self.io_count = self.io_count.wrapping_add(1);
        let hit = self.m.eintr > 0 && self.io_count % self.m.eintr == 0;
        if hit { self.j.fired(F_EINTR); }
        hit
    }
    pub fn read(&mut self, fd: i32, bufs: &mut [&mut [u8]], at: Option<u64>) -> i64 {
        let nm = self.fdname(fd);
        let a = self.begin(READ, &nm);
        let r = self.do_read(fd, bufs, at, &a);
        self.end(READ, &nm, r, &a)
    }
    fn do_read(&mut self, fd: i32, bufs: &mut [&mut [u8]], at: Option<u64>, a: &Act) -> i64 {
        let (kind, pos) = match self.fd(fd) { None => return -libc::EBADF as i64, Some(f) if !f.r => return -libc::EBADF as i64, Some(f) => (f.kind.clone(), at.unwrap_or(f.pos)) };
        if a.errno != 0 { return -(a.errno as i64); }
        if matches!(kind, FdKind::Dir(_)) { return -libc::EISDIR as i64; }
        if self.interrupted() { return -libc::EINTR as i64; }
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        let avail = match &kind {
            FdKind::File(i) => (self.vfs.inodes[*i].data.len() as u64).saturating_sub(pos) as usize,
            FdKind::Pipe(_) if at.is_some() => return -libc::ESPIPE as i64,
            FdKind::Pipe(i) => (self.vfs.inodes[*i].data.len() - self.pipes.get(i).copied().unwrap_or(0)).min(65536),
            FdKind::Dev(d) if *d == vfs::DEV_RANDOM || *d == vfs::DEV_FULL => want, _ => 0 };
        let mut n = want.min(avail);
        if self.m.read_cap > 0 { n = n.min(self.m.read_cap as usize); }
        if self.m.ragged != 0 && n > 1 { n = 1 + self.ragged.us(n); }
        if n < want.min(avail) { self.j.fired(F_SREAD); }
        if let Some(s) = a.short { n = n.min(s.max(1)); }
        let mut done = 0;
        let mut rnd = vec![];
        if kind == FdKind::Stdin { match self.m.inp { 0 => {} 1 => { for b in bufs.iter_mut() { for (i, x) in b.iter_mut().enumerate() { *x = if i % 2 == 0 { b'y' } else { b'\n' }; } } return want as i64; } 2 => return -libc::EIO as i64, _ => die(252, "waits for standard input") } }
        if let FdKind::Dev(d) = kind { rnd = vec![0; n]; if d == vfs::DEV_RANDOM { self.random(&mut rnd); } }
        for b in bufs.iter_mut() {
            let k = b.len().min(n - done);
            match &kind {
                FdKind::File(_) | FdKind::Pipe(_) if k == 0 => {}
                FdKind::Pipe(i) => { let p = self.pipes.entry(*i).or_insert(0); b[..k].copy_from_slice(&self.vfs.inodes[*i].data[*p..*p + k]); *p += k; }
                FdKind::File(i) => { let p = pos as usize + done; b[..k].copy_from_slice(&self.vfs.inodes[*i].data[p..p + k]); }
                _ => b[..k].copy_from_slice(&rnd[done..done + k]),
            }
            done += k;
        }
        if at.is_none() { if let Some(Some(f)) = self.fds.get_mut(fd as usize) { f.pos += n as u64; } }
        n as i64
    }
    pub fn write(&mut self, fd: i32, bufs: &[&[u8]], at: Option<u64>) -> i64 {
        let nm = self.fdname(fd);
        let cls = match self.fd(fd).map(|f| &f.kind) { Some(FdKind::Out) => OUT, Some(FdKind::Err) => ERR, _ => WRITE };
        let a = self.begin(cls, &nm);
        let r = self.do_write(fd, bufs, at, &a);
        if a.kill_mid.is_some() { self.j.op(cls, tid() as u8, r, true, &nm); die(251, "killed"); }
        self.end(cls, &nm, r, &a)
    }
    fn do_write(&mut self, fd: i32, bufs: &[&[u8]], at: Option<u64>, a: &Act) -> i64 {
        let (kind, pos, append) = match self.fd(fd) { None => return -libc::EBADF as i64, Some(f) if !f.w => return -libc::EBADF as i64, Some(f) => (f.kind.clone(), at.unwrap_or(f.pos), f.append) };
        if a.errno != 0 { return -(a.errno as i64); }
        if self.interrupted() { return -libc::EINTR as i64; }
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        let mut n = want;
        if self.m.write_cap > 0 { n = n.min(self.m.write_cap as usize); }
        if self.m.ragged != 0 && n > 1 { n = 1 + self.ragged.us(n); }
        if n < want { self.j.fired(F_SWRITE); }
        if let Some(s) = a.short { n = n.min(s); }
        if let Some(s) = a.kill_mid { n = n.min(s); }
        let take = |n: usize| -> Vec<u8> { let mut v = Vec::with_capacity(n); for b in bufs { let k = b.len().min(n - v.len()); v.extend_from_slice(&b[..k]); } v };
        match kind {
            FdKind::Out | FdKind::Err => {
                let (sink, cnt, no) = if kind == FdKind::Out { (self.m.out.clone(), self.out_n, 1) } else { (self.m.err.clone(), self.err_n, 2) };
                if want > 0 { if !matches!(sink, Sink::Ok | Sink::Pipe) && match sink { Sink::Full(k) | Sink::Closed(k) | Sink::Again(k) => cnt + n as u64 > k, _ => true } { self.j.fired(F_SINK); }
                match sink {
                    Sink::Ok | Sink::Pipe => {}
                    Sink::Eio => return -libc::EIO as i64,
                    Sink::BadFd => return -libc::EBADF as i64,
                    Sink::Full(k) => { if cnt >= k { return -libc::ENOSPC as i64; } n = n.min((k - cnt) as usize); }
                    Sink::Closed(k) => { if cnt >= k { return -libc::EPIPE as i64; } n = n.min((k - cnt) as usize); }
                    Sink::Again(k) => { if cnt >= k { return -libc::EAGAIN as i64; } n = n.min((k - cnt) as usize); }
                } }
                let d = take(n);
                self.j.out(no, &d);
                if no == 1 { self.out_n += n as u64 } else { self.err_n += n as u64 }
                n as i64
            }
            FdKind::File(i) => {
                let len = self.vfs.inodes[i].data.len() as u64;
                let p = if append { len } else { pos };
                if want > 0 { if let Some(free) = self.m.disk_free {
                    let room = len.saturating_sub(p) + free;
                    if room < n as u64 { self.j.fired(F_DISK); }
                    if room == 0 { return -libc::ENOSPC as i64; }
                    n = n.min(room as usize);
                    let grow = (p + n as u64).saturating_sub(len);
                    self.m.disk_free = Some(free - grow.min(free));
                } }
                if n > 0 { let d = take(n); self.apply(Mut::Write { ino: i as u32, off: p, data: d }); }
                if at.is_none() { if let Some(Some(f)) = self.fds.get_mut(fd as usize) { f.pos = p + n as u64; } }
                n as i64
            }
            FdKind::Dev(d) if d == vfs::DEV_FULL => -libc::ENOSPC as i64,
            FdKind::Dev(_) => n as i64,
            _ => -libc::EBADF as i64,
        }
    }
    pub fn random(&mut self, b: &mut [u8]) {
        for x in b.iter_mut() {
            let c = self.rcount; self.rcount += 1;
            *x = match self.rmode {
                RngMode::Seeded(_) => self.rr.next() as u8,
                RngMode::Const(v) => v,
                RngMode::Counter => (c as u8).wrapping_mul(if c % 16 < 8 { 1 } else { 7 }),
                RngMode::Repeat(s) => mix(s ^ (c % 16)) as u8,
                RngMode::Low(_) => (self.rr.next() & 1) as u8,
            };
        }
    }

    pub fn alloc_failed(&mut self) { self.j.fired(u32::MAX); }
    /// the value a clock call returns; wall-clock readings are recorded
    pub fn read_clock(&mut self, wall: bool) -> Result<i64, i32> {
        let a = self.begin(CLOCK, if wall { "<clock>" } else { "<mono>" });
        let v = if wall { self.now } else { self.mono };
        if wall && a.errno == 0 { self.j.clock(v); }
        self.end(CLOCK, if wall { "<clock>" } else { "<mono>" }, -(a.errno as i64), &a);
        if a.errno != 0 { Err(a.errno) } else { Ok(v) }
    }

    // ---- threads ----
    /// the thread a recorded schedule names for this step
    fn planned(&mut self) -> Option<usize> {
        let step = self.step;
        if let Plan::List(l) = &self.plan {
            while self.plan_i < l.len() && l[self.plan_i].0 < step { self.plan_i += 1; }
            if self.plan_i < l.len() && l[self.plan_i].0 == step { return Some(l[self.plan_i].1 as usize); }
        }
        None
    }
    /// a spinning thread lets another one run
    pub fn spin(&mut self) {
        self.opno += 1;
        if self.opno > self.m.max_ops { die(250, "step-cap"); }
        self.step += 1;
        if let Some(t) = self.pick_other() { self.switch_to(t); }
    }
    pub fn yield_point(&mut self) {
        if !self.multi { return; }
        let me = tid();
        if self.th[me].st != St::Run { return; }
        self.step += 1;
        let run: Vec<usize> = (0..self.th.len()).filter(|i| self.th[*i].st == St::Run).collect();
        if run.len() < 2 { return; }
        let to = match &self.plan {
            Plan::None => return,
            Plan::Seeded(_, p) => { let p = *p as u64; if self.prng.chance(1, p) { *self.prng.pick(&run) } else { return } }
            Plan::List(_) => match self.planned() { Some(t) if run.contains(&t) => t, _ => return },
        };
        if to != me { self.switch_to(to); }
    }
    pub fn switch_to(&mut self, to: usize) {
        let me = tid();
        self.j.switch(self.step, to as u8);
        let mine: *const AtomicU32 = &*self.th[me].word;
        self.wake(to);
        unsafe { wait_word(&*mine); }
    }
    pub fn wake(&mut self, to: usize) {
        let w = &*self.th[to].word;
        w.store(1, Ordering::SeqCst);
        unsafe { crate::hooks::raw6(libc::SYS_futex, w as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0); }
    }
    /// gives the processor to some other runnable thread; false if there is none
    pub fn pick_other(&mut self) -> Option<usize> {
        let me = tid();
        let run: Vec<usize> = (0..self.th.len()).filter(|i| *i != me && self.th[*i].st == St::Run).collect();
        if run.is_empty() { return None; }
        Some(match &self.plan { Plan::Seeded(..) => *self.prng.pick(&run), Plan::List(_) => self.planned().filter(|t| run.contains(t)).unwrap_or(run[0]), _ => run[0] })
    }
    pub fn block(&mut self, st: St) -> bool {
        let me = tid();
        self.step += 1;
        self.th[me].st = st;
        match self.pick_other() { Some(t) => { self.switch_to(t); true } None => { self.th[me].st = St::Run; false } }
    }
    pub fn futex_wake(&mut self, addr: usize, n: usize) -> i64 {
        let mut k = 0;
        for t in self.th.iter_mut() { if k < n && t.st == St::Futex(addr) { t.st = St::Run; k += 1; } }
        k as i64
    }
}

pub fn wait_word(w: &AtomicU32) {
    while w.swap(0, Ordering::SeqCst) == 0 {
        unsafe { crate::hooks::raw6(libc::SYS_futex, w as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0); }
    }
}

pub fn hand_over(b: &Board, to: u32) {
    b.turn.store(to, Ordering::SeqCst);
    unsafe { crate::hooks::raw6(libc::SYS_futex, &b.turn as *const _ as usize, libc::FUTEX_WAKE as usize, i32::MAX as usize, 0, 0, 0); }
}
