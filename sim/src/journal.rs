//! Event log of one simulated process, kept in memory shared with the parent so that it
//! survives whatever way the process ends. Also the parsed form of it.
use crate::vfs::Mut;

pub const CAP: usize = 768 << 20;

pub struct Journal { base: *mut u8, pub len: usize, pub full: bool }

#[derive(Clone, Debug, PartialEq)]
pub struct OpRec { pub cls: u8, pub tid: u8, pub ret: i64, pub fault: bool, pub path: String }

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Op(OpRec),
    Mut(Mut),
    Out(u8, Vec<u8>),
    Clock(i64),
    Fired(u32),
    Result(u32, bool, Vec<u8>),
    Note(String),
    Exit(i32),
    Switch(u64, u8),
    Alloc(u64, i64, u64),
}

impl Journal {
    pub fn new() -> Journal {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), CAP, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            Journal { base: p as *mut u8, len: 8, full: false }
        }
    }
    /// the same memory, for the forked child
    pub fn shared(j: &Journal) -> Journal { Journal { base: j.base, len: 8, full: false } }
    pub fn reset(&mut self) { unsafe { if *(self.base as *const u64) > 64 << 20 { libc::madvise(self.base as *mut libc::c_void, CAP, libc::MADV_REMOVE); } } self.len = 8; self.full = false; unsafe { *(self.base as *mut u64) = 8; } }
    fn room(&mut self, n: usize) -> bool {
        if self.len + n + 64 > CAP { if !self.full { self.full = true; crate::sim::die(248, "journal full"); } return false; }
        true
    }
    fn raw(&mut self, b: &[u8]) { unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(self.len), b.len()); } self.len += b.len(); }
    fn u(&mut self, v: u64) { self.raw(&v.to_le_bytes()); }
    fn s(&mut self, b: &[u8]) { self.u(b.len() as u64); self.raw(b); }
    fn commit(&mut self) { unsafe { std::ptr::write_volatile(self.base as *mut u64, self.len as u64); } }

    pub fn op(&mut self, cls: u8, tid: u8, ret: i64, fault: bool, path: &str) {
        if !self.room(path.len() + 40) { return; }
        self.raw(&[1, cls, tid, fault as u8]); self.u(ret as u64); self.s(path.as_bytes()); self.commit();
    }
    pub fn mutation(&mut self, m: &Mut) {
        let n = match m { Mut::Write { data, .. } => data.len(), Mut::Replace { path, data } => data.len() + path.len(), _ => 9000 };
        if !self.room(n + 100) { return; }
        match m {
            Mut::Create { path, mode } => { self.raw(&[2, 0]); self.s(path.as_bytes()); self.u(*mode as u64) }
            Mut::Truncate { ino, len } => { self.raw(&[2, 1]); self.u(*ino as u64); self.u(*len) }
            Mut::Write { ino, off, data } => { self.raw(&[2, 2]); self.u(*ino as u64); self.u(*off); self.s(data) }
            Mut::Unlink { path } => { self.raw(&[2, 3]); self.s(path.as_bytes()) }
            Mut::Rename { from, to } => { self.raw(&[2, 4]); self.s(from.as_bytes()); self.s(to.as_bytes()) }
            Mut::Mkdir { path } => { self.raw(&[2, 5]); self.s(path.as_bytes()) }
            Mut::Rmdir { path } => { self.raw(&[2, 6]); self.s(path.as_bytes()) }
            Mut::Symlink { path, target } => { self.raw(&[2, 7]); self.s(path.as_bytes()); self.s(target.as_bytes()) }
            Mut::Chmod { ino, mode } => { self.raw(&[2, 8]); self.u(*ino as u64); self.u(*mode as u64) }
            Mut::Link { from, to } => { self.raw(&[2, 9]); self.s(from.as_bytes()); self.s(to.as_bytes()) }
            Mut::Replace { path, data } => { self.raw(&[2, 10]); self.s(path.as_bytes()); self.s(data) }
            Mut::Remove { path } => { self.raw(&[2, 11]); self.s(path.as_bytes()) }
            Mut::Sync { ino } => { self.raw(&[2, 12]); self.u(*ino as u64) }
        }
        self.commit();
    }
    pub fn out(&mut self, fd: u8, b: &[u8]) { if self.room(b.len() + 20) { self.raw(&[3, fd]); self.s(b); self.commit(); } }
    pub fn clock(&mut self, t: i64) { if self.room(10) { self.raw(&[4]); self.u(t as u64); self.commit(); } }
    pub fn fired(&mut self, i: u32) { if self.room(10) { self.raw(&[5]); self.u(i as u64); self.commit(); } }
    pub fn result(&mut self, i: u32, ok: bool, b: &[u8]) { if self.room(b.len() + 30) { self.raw(&[6, ok as u8]); self.u(i as u64); self.s(b); self.commit(); } }
    pub fn note(&mut self, s: &str) { if self.room(s.len() + 20) { self.raw(&[7]); self.s(s.as_bytes()); self.commit(); } }
    pub fn exit(&mut self, c: i32) { self.raw(&[8]); self.u(c as u64); self.commit(); }
    pub fn switch(&mut self, step: u64, to: u8) { if self.room(20) { self.raw(&[9, to]); self.u(step); self.commit(); } }
    /// number of allocations and simulated nanoseconds so far, and most bytes in use
    pub fn allocs(&mut self, n: u64, t: i64, peak: i64) { if self.room(30) { self.raw(&[10]); self.u(n); self.u(t as u64); self.u(peak.max(0) as u64); self.commit(); } }

    /// another process has written
    pub fn catch_up(&mut self) { self.len = unsafe { std::ptr::read_volatile(self.base as *const u64) } as usize; }
    pub fn parse(&self) -> Vec<Ev> { self.parse_from(8).0 }
    pub fn parse_from(&self, from: usize) -> (Vec<Ev>, usize) {
        let n = unsafe { std::ptr::read_volatile(self.base as *const u64) } as usize;
        let b = unsafe { std::slice::from_raw_parts(self.base, n) };
        let mut p = from;
        let mut v = vec![];
        fn u(b: &[u8], p: &mut usize) -> u64 { let r = u64::from_le_bytes(b[*p..*p + 8].try_into().unwrap()); *p += 8; r }
        fn s(b: &[u8], p: &mut usize) -> Vec<u8> { let n = u(b, p) as usize; let r = b[*p..*p + n].to_vec(); *p += n; r }
        fn st(b: &[u8], p: &mut usize) -> String { String::from_utf8_lossy(&s(b, p)).into_owned() }
        while p < n {
            let t = b[p]; p += 1;
            v.push(match t {
                1 => { let (cls, tid, f) = (b[p], b[p + 1], b[p + 2]); p += 3; let ret = u(b, &mut p) as i64; Ev::Op(OpRec { cls, tid, ret, fault: f != 0, path: st(b, &mut p) }) }
                2 => { let k = b[p]; p += 1; let p = &mut p; Ev::Mut(match k {
                    0 => Mut::Create { path: st(b, p), mode: u(b, p) as u32 },
                    1 => Mut::Truncate { ino: u(b, p) as u32, len: u(b, p) },
                    2 => Mut::Write { ino: u(b, p) as u32, off: u(b, p), data: s(b, p) },
                    3 => Mut::Unlink { path: st(b, p) },
                    4 => Mut::Rename { from: st(b, p), to: st(b, p) },
                    5 => Mut::Mkdir { path: st(b, p) },
                    6 => Mut::Rmdir { path: st(b, p) },
                    7 => Mut::Symlink { path: st(b, p), target: st(b, p) },
                    8 => Mut::Chmod { ino: u(b, p) as u32, mode: u(b, p) as u32 },
                    9 => Mut::Link { from: st(b, p), to: st(b, p) },
                    10 => Mut::Replace { path: st(b, p), data: s(b, p) },
                    11 => Mut::Remove { path: st(b, p) },
                    _ => Mut::Sync { ino: u(b, p) as u32 },
                }) }
                3 => { let f = b[p]; p += 1; Ev::Out(f, s(b, &mut p)) }
                4 => Ev::Clock(u(b, &mut p) as i64),
                5 => Ev::Fired(u(b, &mut p) as u32),
                6 => { let ok = b[p] != 0; p += 1; let i = u(b, &mut p) as u32; Ev::Result(i, ok, s(b, &mut p)) }
                7 => Ev::Note(st(b, &mut p)),
                8 => Ev::Exit(u(b, &mut p) as i32),
                9 => { let t = b[p]; p += 1; Ev::Switch(u(b, &mut p), t) }
                10 => Ev::Alloc(u(b, &mut p), u(b, &mut p) as i64, u(b, &mut p)),
                _ => { v.push(Ev::Note("journal corrupt".into())); return (v, n); }
            });
        }
        (v, n)
    }
}
