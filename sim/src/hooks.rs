//! The seam: this executable defines the C library entry points through which the code under
//! test (and the Rust standard library inside it) reaches the operating system. While the
//! simulation is on they are answered by `Sim`; otherwise they go to the kernel.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
use crate::sim::*;
use crate::vfs::{self, Mut, Node};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, off64_t, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::ffi::CStr;

pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn raw1(n: c_long, a: usize) -> isize { raw6(n, a, 0, 0, 0, 0, 0) }
unsafe fn raw3(n: c_long, a: usize, b: usize, c: usize) -> isize { raw6(n, a, b, c, 0, 0, 0) }
unsafe fn raw4(n: c_long, a: usize, b: usize, c: usize, d: usize) -> isize { raw6(n, a, b, c, d, 0, 0) }
unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }
unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r } }
unsafe fn sret(r: i64) -> isize { ret(r as isize) }
unsafe fn cs(p: *const c_char) -> String { String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned() }

extern "C" { fn dlvsym(h: *mut c_void, s: *const c_char, v: *const c_char) -> *mut c_void; }
unsafe fn next(name: &CStr, ver: &CStr) -> *mut c_void {
    let p = dlvsym(libc::RTLD_NEXT, name.as_ptr(), ver.as_ptr());
    if p.is_null() { dlvsym(libc::RTLD_NEXT, name.as_ptr(), c"GLIBC_2.2.5".as_ptr()) } else { p }
}

// ---------------------------------------------------------------- memory
pub struct Counting;
pub const LIVE_CAP: i64 = 512 << 20;
#[allow(static_mut_refs)]
unsafe fn may_alloc(n: usize) -> bool {
    if !on() { return true; }
    ALLOCS += 1;
    if ALLOC_FAIL != 0 && ALLOCS >= ALLOC_FAIL && ALLOCS < ALLOC_FAIL + ALLOC_CNT {
        let _g = Guard::new();
        sim().alloc_failed();
        return false;
    }
    if ALLOC_MAX != 0 && n as u64 >= ALLOC_MAX {
        let _g = Guard::new();
        sim().alloc_failed();
        return false;
    }
    if LIVE + n as i64 > LIVE_CAP {
        let _g = Guard::new();
        sim().j.note("memory-cap");
        return false;
    }
    if HEAP != 0 && LIVE + n as i64 > HEAP {
        let _g = Guard::new();
        sim().alloc_failed();
        return false;
    }
    if sim().multi { let _g = Guard::new(); sim().yield_point(); }
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !may_alloc(l.size()) { return std::ptr::null_mut(); }
        if on() { LIVE += l.size() as i64; if LIVE > PEAK { PEAK = LIVE; } }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !may_alloc(l.size()) { return std::ptr::null_mut(); }
        if on() { LIVE += l.size() as i64; if LIVE > PEAK { PEAK = LIVE; } }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() { LIVE -= l.size() as i64; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !may_alloc(n) { return std::ptr::null_mut(); }
        if on() { LIVE += n as i64 - l.size() as i64; if LIVE > PEAK { PEAK = LIVE; } }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

// ---------------------------------------------------------------- open / close / read / write
unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !on() { return ret(raw4(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize)) as c_int; }
    let _g = Guard::new();
    let p = at(dir, cs(path));
    sret(sim().open(&p, flags, mode)) as c_int
}
/// path relative to a directory descriptor
fn at(dir: c_int, p: String) -> String {
    if dir == libc::AT_FDCWD || p.starts_with('/') { return p; }
    match sim().fd(dir).map(|f| f.path.clone()) { Some(d) => vfs::join(&d, &p), None => p }
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn creat(p: *const c_char, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, m) }
#[no_mangle] pub unsafe extern "C" fn creat64(p: *const c_char, m: mode_t) -> c_int { creat(p, m) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !on() { return ret(raw1(libc::SYS_close, fd as usize)) as c_int; }
    let _g = Guard::new();
    sret(sim().close(fd)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_read, fd as usize, b as usize, n)); }
    let _g = Guard::new();
    sret(sim().read(fd, &mut [std::slice::from_raw_parts_mut(b as *mut u8, n)], None))
}
#[no_mangle] pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    if !on() { return ret(raw4(libc::SYS_pread64, fd as usize, b as usize, n, o as usize)); }
    let _g = Guard::new();
    sret(sim().read(fd, &mut [std::slice::from_raw_parts_mut(b as *mut u8, n)], Some(o as u64)))
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t { pread(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_readv, fd as usize, v as usize, n as usize)); }
    let _g = Guard::new();
    let mut bufs: Vec<&mut [u8]> = (0..n as usize).map(|i| { let x = &*v.add(i); std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len) }).collect();
    sret(sim().read(fd, &mut bufs, None))
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_write, fd as usize, b as usize, n)); }
    let _g = Guard::new();
    sret(sim().write(fd, &[std::slice::from_raw_parts(b as *const u8, n)], None))
}
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    if !on() { return ret(raw4(libc::SYS_pwrite64, fd as usize, b as usize, n, o as usize)); }
    let _g = Guard::new();
    sret(sim().write(fd, &[std::slice::from_raw_parts(b as *const u8, n)], Some(o as u64)))
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t { pwrite(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_writev, fd as usize, v as usize, n as usize)); }
    let _g = Guard::new();
    let bufs: Vec<&[u8]> = (0..n as usize).map(|i| { let x = &*v.add(i); std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len) }).collect();
    sret(sim().write(fd, &bufs, None))
}
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t { lseek64(fd, off, wh) }
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !on() { return ret(raw3(libc::SYS_lseek, fd as usize, off as usize, wh as usize)) as off64_t; }
    let _g = Guard::new();
    let s = sim();
    let nm = s.fdname(fd);
    let a = s.begin(SEEK, &nm);
    let r: i64 = if a.errno != 0 { -(a.errno as i64) } else {
        match s.fd(fd).map(|f| (f.kind.clone(), f.pos)) {
            None => -libc::EBADF as i64,
            Some((FdKind::File(i), pos)) => {
                let base = match wh { libc::SEEK_SET => 0, libc::SEEK_CUR => pos as i64, _ => s.vfs.inodes[i].data.len() as i64 };
                if base + off < 0 { -libc::EINVAL as i64 } else { s.fds[fd as usize].as_mut().unwrap().pos = (base + off) as u64; base + off }
            }
            Some((FdKind::Dev(_), _)) | Some((FdKind::Dir(_), _)) => 0,
            _ => -libc::ESPIPE as i64,
        }
    };
    sret(s.end(SEEK, &nm, r, &a)) as off64_t
}

// ---------------------------------------------------------------- stat
struct StInfo { mode: u32, size: u64, ino: u64, mtime: u64 }
fn info_node(path: &str, lie: i64) -> Result<StInfo, i32> {
    let s = sim();
    Ok(match s.vfs.nodes.get(path) {
        None => return Err(libc::ENOENT),
        Some(Node::Dir) => StInfo { mode: libc::S_IFDIR | 0o755, size: 4096, ino: crate::rng::hash_str(path), mtime: 0 },
        Some(Node::Link(t)) => StInfo { mode: libc::S_IFLNK | 0o777, size: t.len() as u64, ino: crate::rng::hash_str(path), mtime: 0 },
        Some(Node::File(i)) => info_ino(*i, lie),
    })
}
fn info_ino(i: usize, lie: i64) -> StInfo {
    let n = &sim().vfs.inodes[i];
    if n.dev == vfs::DEV_PIPE { return StInfo { mode: libc::S_IFIFO | n.mode, size: 0, ino: i as u64 + 100, mtime: 0 }; }
    if n.dev != 0 { return StInfo { mode: libc::S_IFCHR | n.mode, size: 0, ino: i as u64 + 100, mtime: 0 }; }
    StInfo { mode: libc::S_IFREG | n.mode, size: (n.data.len() as i64 + lie).max(0) as u64, ino: i as u64 + 100, mtime: n.mtime }
}
fn stat_path(dir: c_int, p: String, follow: bool) -> Result<StInfo, i32> {
    let s = sim();
    let p = at(dir, p);
    let nm = s.name(&p, follow);
    let a = s.begin(STAT, &nm);
    let r = if a.errno != 0 { Err(a.errno) } else { s.abs(&p, follow).and_then(|f| info_node(&f, a.lie)) };
    s.end(STAT, &nm, match &r { Ok(_) => 0, Err(e) => -(*e as i64) }, &a);
    r
}
fn stat_fd(fd: c_int) -> Result<StInfo, i32> {
    let s = sim();
    let nm = s.fdname(fd);
    let a = s.begin(STAT, &nm);
    let r = if a.errno != 0 { Err(a.errno) } else {
        match s.fd(fd).map(|f| f.kind.clone()) {
            None => Err(libc::EBADF),
            Some(FdKind::File(i)) | Some(FdKind::Pipe(i)) => Ok(info_ino(i, a.lie)),
            Some(FdKind::Dir(p)) => info_node(&p, 0),
            Some(FdKind::Dev(_)) => Ok(StInfo { mode: libc::S_IFCHR | 0o666, size: 0, ino: 3, mtime: 0 }),
            _ => Ok(StInfo { mode: if s.fd(fd).map(|f| s.m.term(&f.kind)).unwrap_or(false) { libc::S_IFCHR } else { libc::S_IFIFO } | 0o600, size: 0, ino: 2, mtime: 0 }),
        }
    };
    s.end(STAT, &nm, match &r { Ok(_) => 0, Err(e) => -(*e as i64) }, &a);
    r
}
unsafe fn put_stat(r: Result<StInfo, i32>, b: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => { set_errno(e); -1 }
        Ok(i) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            let b = &mut *b;
            b.st_mode = i.mode; b.st_size = i.size as i64; b.st_ino = i.ino; b.st_nlink = 1; b.st_uid = 1000; b.st_gid = 1000; b.st_blksize = 4096;
            b.st_blocks = i.size.div_ceil(512) as i64; b.st_dev = 1; b.st_mtime = 1_600_000_000 + (i.mtime / 1_000_000_000) as i64; b.st_mtime_nsec = (i.mtime % 1_000_000_000) as i64; b.st_ctime = 1_600_000_000; b.st_atime = 1_600_000_000;
            0
        }
    }
}
unsafe fn do_stat(dir: c_int, p: *const c_char, b: *mut libc::stat64, flags: c_int) -> c_int {
    if !on() { return ret(raw4(libc::SYS_newfstatat, dir as usize, p as usize, b as usize, flags as usize)) as c_int; }
    let _g = Guard::new();
    let path = cs(p);
    let r = if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 { stat_fd(dir) } else { stat_path(dir, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0) };
    put_stat(r, b)
}
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, b: *mut libc::stat64) -> c_int { do_stat(libc::AT_FDCWD, p, b, 0) }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int { do_stat(libc::AT_FDCWD, p, b, 0) }
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut libc::stat64) -> c_int { do_stat(libc::AT_FDCWD, p, b, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int { do_stat(libc::AT_FDCWD, p, b, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle] pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int { do_stat(d, p, b, f) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int { do_stat(d, p, b, f) }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat64) -> c_int { fstat64(fd, b) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    if !on() { return ret(raw3(libc::SYS_fstat, fd as usize, b as usize, 0)) as c_int; }
    let _g = Guard::new();
    put_stat(stat_fd(fd), b)
}
#[no_mangle] pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if !on() { return ret(raw6(libc::SYS_statx, dir as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as c_int; }
    let _g = Guard::new();
    if p.is_null() || b.is_null() { set_errno(libc::EFAULT); return -1; }
    let path = cs(p);
    let r = if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 { stat_fd(dir) } else { stat_path(dir, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0) };
    match r {
        Err(e) => { set_errno(e); -1 }
        Ok(i) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            let b = &mut *b;
            b.stx_mask = 0x7ff; b.stx_mode = i.mode as u16; b.stx_size = i.size; b.stx_ino = i.ino; b.stx_nlink = 1; b.stx_uid = 1000; b.stx_gid = 1000;
            b.stx_blksize = 4096; b.stx_blocks = i.size.div_ceil(512); b.stx_dev_minor = 1;
            b.stx_mtime.tv_sec = 1_600_000_000 + (i.mtime / 1_000_000_000) as i64; b.stx_mtime.tv_nsec = (i.mtime % 1_000_000_000) as u32; b.stx_ctime.tv_sec = 1_600_000_000; b.stx_atime.tv_sec = 1_600_000_000;
            0
        }
    }
}

// ---------------------------------------------------------------- names
/// runs a call about names under class META
fn meta(path: &str, follow: bool, f: impl FnOnce(&mut Sim) -> Result<i64, i32>) -> i64 {
    let s = sim();
    let nm = s.name(path, follow);
    let a = s.begin(META, &nm);
    let r = if a.errno != 0 { Err(a.errno) } else { f(s) };
    let r = match r { Ok(v) => v, Err(e) => -(e as i64) };
    s.end(META, &nm, r, &a)
}
#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !on() { let r = raw3(libc::SYS_getcwd, b as usize, n, 0); if r < 0 { set_errno(-r as i32); return std::ptr::null_mut(); } return b; }
    let _g = Guard::new();
    let s = sim();
    let c = s.cwd.clone();
    let a = s.begin(CWD, &c);
    let e = if a.errno != 0 { a.errno } else if c.len() + 1 > n { libc::ERANGE } else if b.is_null() { libc::EINVAL } else { 0 };
    s.end(CWD, &c, -(e as i64), &a);
    if e != 0 { set_errno(e); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
    *b.add(c.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !on() { return ret(raw1(libc::SYS_chdir, p as usize)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, true, |s| { let f = s.abs(&p, true)?; match s.vfs.nodes.get(&f) { Some(Node::Dir) => { s.cwd = f; Ok(0) } Some(_) => Err(libc::ENOTDIR), None => Err(libc::ENOENT) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_readlink, p as usize, b as usize, n)); }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, false, |s| { let f = s.abs(&p, false)?; match s.vfs.nodes.get(&f) {
        Some(Node::Link(t)) => { let k = t.len().min(n); std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k); Ok(k as i64) }
        Some(_) => Err(libc::EINVAL), None => Err(libc::ENOENT) } }))
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
    if !on() {
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(c"realpath", c"GLIBC_2.3"));
        return f(p, b);
    }
    let _g = Guard::new();
    let p = cs(p);
    let mut out = String::new();
    let r = { let o = &mut out; meta(&p, true, |s| { let f = s.abs(&p, true)?; if !s.vfs.nodes.contains_key(&f) { return Err(libc::ENOENT); } *o = f; Ok(0) }) };
    if r < 0 { set_errno(-r as i32); return std::ptr::null_mut(); }
    let dst = if b.is_null() { libc::malloc(out.len() + 1) as *mut c_char } else { b };
    std::ptr::copy_nonoverlapping(out.as_ptr(), dst as *mut u8, out.len());
    *dst.add(out.len()) = 0;
    dst
}
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !on() { return ret(raw3(libc::SYS_access, p as usize, m as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, true, |s| { let f = s.abs(&p, true)?; match s.vfs.nodes.get(&f) {
        Some(Node::File(i)) => { let md = s.vfs.inodes[*i].mode; if m & 4 != 0 && md & 0o400 == 0 || m & 2 != 0 && md & 0o200 == 0 || m & 1 != 0 && md & 0o100 == 0 { Err(libc::EACCES) } else { Ok(0) } }
        Some(_) => Ok(0), None => Err(libc::ENOENT) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !on() { return ret(raw1(libc::SYS_unlink, p as usize)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, false, |s| { let f = s.abs(&p, false)?; match s.vfs.nodes.get(&f) { Some(Node::Dir) => Err(libc::EISDIR), None => Err(libc::ENOENT), _ => { s.apply(Mut::Unlink { path: f }); Ok(0) } } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if !on() { return ret(raw3(libc::SYS_unlinkat, d as usize, p as usize, f as usize)) as c_int; }
    let q = { let _g = Guard::new(); std::ffi::CString::new(at(d, cs(p))).unwrap() };
    if f & libc::AT_REMOVEDIR != 0 { rmdir(q.as_ptr()) } else { unlink(q.as_ptr()) }
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if !on() { return ret(raw1(libc::SYS_rmdir, p as usize)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, false, |s| { let f = s.abs(&p, false)?; match s.vfs.nodes.get(&f) {
        Some(Node::Dir) => { let pre = format!("{}/", f); if s.vfs.nodes.keys().any(|k| k.starts_with(&pre)) { return Err(libc::ENOTEMPTY); } s.apply(Mut::Rmdir { path: f }); Ok(0) }
        None => Err(libc::ENOENT), _ => Err(libc::ENOTDIR) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !on() { return ret(raw3(libc::SYS_rename, a as usize, b as usize, 0)) as c_int; }
    let _g = Guard::new();
    let (a, b) = (cs(a), cs(b));
    sret(meta(&b, false, |s| {
        let (fa, fb) = (s.abs(&a, false)?, s.abs(&b, false)?);
        if !s.vfs.nodes.contains_key(&fa) { return Err(libc::ENOENT); }
        match s.vfs.nodes.get(&vfs::parent(&fb).unwrap_or("/".into())) { Some(Node::Dir) => {} _ => return Err(libc::ENOENT) }
        if let (Some(Node::Dir), Some(x)) = (s.vfs.nodes.get(&fb), s.vfs.nodes.get(&fa)) { if *x != Node::Dir { return Err(libc::EISDIR); } }
        if fa != fb { s.apply(Mut::Rename { from: fa, to: fb }); }
        Ok(0)
    })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    if !on() { return ret(raw4(libc::SYS_renameat, d as usize, a as usize, e as usize, b as usize)) as c_int; }
    let (x, y) = { let _g = Guard::new(); (std::ffi::CString::new(at(d, cs(a))).unwrap(), std::ffi::CString::new(at(e, cs(b))).unwrap()) };
    rename(x.as_ptr(), y.as_ptr())
}
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !on() { return ret(raw3(libc::SYS_link, a as usize, b as usize, 0)) as c_int; }
    let _g = Guard::new();
    let (a, b) = (cs(a), cs(b));
    sret(meta(&b, false, |s| {
        let (fa, fb) = (s.abs(&a, true)?, s.abs(&b, false)?);
        if s.vfs.nodes.contains_key(&fb) { return Err(libc::EEXIST); }
        if !matches!(s.vfs.nodes.get(&fa), Some(Node::File(_))) { return Err(libc::ENOENT); }
        s.apply(Mut::Link { from: fa, to: fb });
        Ok(0)
    })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn linkat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, _f: c_int) -> c_int {
    if !on() { return ret(raw6(libc::SYS_linkat, _d as usize, a as usize, _e as usize, b as usize, _f as usize, 0)) as c_int; }
    link(a, b)
}
#[no_mangle] pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    if !on() { return ret(raw3(libc::SYS_symlink, t as usize, p as usize, 0)) as c_int; }
    let _g = Guard::new();
    let (t, p) = (cs(t), cs(p));
    sret(meta(&p, false, |s| { let f = s.abs(&p, false)?; if s.vfs.nodes.contains_key(&f) { return Err(libc::EEXIST); } s.apply(Mut::Symlink { path: f, target: t }); Ok(0) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if !on() { return ret(raw3(libc::SYS_mkdir, p as usize, m as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, false, |s| { let f = s.abs(&p, false)?; if s.vfs.nodes.contains_key(&f) { return Err(libc::EEXIST); } s.apply(Mut::Mkdir { path: f }); Ok(0) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if !on() { return ret(raw3(libc::SYS_chmod, p as usize, m as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, true, |s| { let f = s.abs(&p, true)?; match s.vfs.nodes.get(&f) { Some(Node::File(i)) => { let ino = *i as u32; s.apply(Mut::Chmod { ino, mode: m & 0o7777 }); Ok(0) } Some(_) => Ok(0), None => Err(libc::ENOENT) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if !on() { return ret(raw3(libc::SYS_fchmod, fd as usize, m as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = sim().fdname(fd);
    sret(meta(&p, true, |s| { if let Some(FdKind::File(i)) = s.fd(fd).map(|f| f.kind.clone()) { s.apply(Mut::Chmod { ino: i as u32, mode: m & 0o7777 }); } Ok(0) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if !on() { return ret(raw4(libc::SYS_utimensat, fd as usize, 0, t as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = sim().fdname(fd);
    sret(meta(&p, true, |_| Ok(0))) as c_int
}
#[no_mangle] pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
    if !on() { return ret(raw4(libc::SYS_utimensat, d as usize, p as usize, t as usize, f as usize)) as c_int; }
    let _g = Guard::new();
    let p = at(d, cs(p));
    sret(meta(&p, true, |s| { let f = s.abs(&p, true)?; if s.vfs.nodes.contains_key(&f) { Ok(0) } else { Err(libc::ENOENT) } })) as c_int
}
fn set_len(s: &mut Sim, i: usize, len: i64) -> Result<i64, i32> {
    if len < 0 { return Err(libc::EINVAL); }
    if s.vfs.inodes[i].data.len() as i64 != len {
        let old = s.vfs.inodes[i].data.len() as u64;
        if let Some(f) = s.m.disk_free { if len as u64 > old + f { return Err(libc::ENOSPC); } s.m.disk_free = Some(f + old - len as u64); }
        s.apply(Mut::Truncate { ino: i as u32, len: len as u64 });
    }
    Ok(0)
}
#[no_mangle] pub unsafe extern "C" fn truncate(p: *const c_char, n: off_t) -> c_int { truncate64(p, n) }
#[no_mangle] pub unsafe extern "C" fn truncate64(p: *const c_char, n: off64_t) -> c_int {
    if !on() { return ret(raw3(libc::SYS_truncate, p as usize, n as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = cs(p);
    sret(meta(&p, true, |s| { let f = s.abs(&p, true)?; match s.vfs.nodes.get(&f) { Some(Node::File(i)) => { let i = *i; set_len(s, i, n) } Some(_) => Err(libc::EISDIR), None => Err(libc::ENOENT) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int { ftruncate64(fd, n) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !on() { return ret(raw3(libc::SYS_ftruncate, fd as usize, n as usize, 0)) as c_int; }
    let _g = Guard::new();
    let p = sim().fdname(fd);
    sret(meta(&p, true, |s| match s.fd(fd).map(|f| (f.kind.clone(), f.w)) { Some((FdKind::File(i), true)) => set_len(s, i, n), _ => Err(libc::EINVAL) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: c_int, _m: c_int, o: off64_t, n: off64_t) -> c_int {
    if !on() { return ret(raw4(libc::SYS_fallocate, fd as usize, _m as usize, o as usize, n as usize)) as c_int; }
    set_errno(libc::EOPNOTSUPP); -1
}
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(_fd: c_int, _o: off64_t, _n: off64_t) -> c_int { libc::EOPNOTSUPP }
unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    if !on() { return ret(raw1(nr, fd as usize)) as c_int; }
    let _g = Guard::new();
    let s = sim();
    let nm = s.fdname(fd);
    let a = s.begin(SYNC, &nm);
    let r: i64 = if a.errno != 0 { -(a.errno as i64) } else {
        match s.fd(fd).map(|f| f.kind.clone()) { None => -libc::EBADF as i64, Some(FdKind::File(i)) => { s.apply(Mut::Sync { ino: i as u32 }); 0 } Some(FdKind::Dir(_)) => 0, _ => -libc::EINVAL as i64 }
    };
    sret(s.end(SYNC, &nm, r, &a)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { do_sync(fd, libc::SYS_fsync) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { do_sync(fd, libc::SYS_fdatasync) }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if !on() { return ret(raw6(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, f as usize)); }
    set_errno(libc::ENOSYS); -1
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if !on() { return ret(raw4(libc::SYS_sendfile, a as usize, b as usize, o as usize, n)); }
    set_errno(libc::ENOSYS); -1
}
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !on() { return ret(raw3(libc::SYS_flock, fd as usize, op as usize, 0)) as c_int; }
    0
}
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int { fcntl(fd, libc::F_DUPFD, 0) }
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !on() { return ret(raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int; }
    let _g = Guard::new();
    let s = sim();
    let nm = s.fdname(fd);
    let a = s.begin(MISC, &nm);
    let r: i64 = match s.fd(fd).cloned() {
        None => -libc::EBADF as i64,
        Some(f) => match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let slot = (arg..s.m.fd_limit as usize).find(|i| s.fds.get(*i).map(|f| f.is_none()).unwrap_or(true));
                match slot { None => -libc::EMFILE as i64, Some(k) => { while s.fds.len() <= k { s.fds.push(None); } s.fds[k] = Some(f); k as i64 } }
            }
            libc::F_GETFL => (if f.r && f.w { libc::O_RDWR } else if f.w { libc::O_WRONLY } else { libc::O_RDONLY }) as i64,
            libc::F_GETFD => libc::FD_CLOEXEC as i64,
            _ => 0,
        },
    };
    sret(s.end(MISC, &nm, r, &a)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }
// ---------------------------------------------------------------- environment
pub static mut ANY_ENV: *mut c_char = std::ptr::null_mut();
extern "C" { static environ: *const *mut c_char; }
/// what the run time, the C library and the documented features ask for
const KNOWN_ENV: &[&[u8]] = &[b"TZ", b"TZDIR", b"PWD", b"TERM", b"NO_COLOR", b"RUST_BACKTRACE", b"RUST_LIB_BACKTRACE", b"RUST_MIN_STACK", b"CLICOLOR", b"CLICOLOR_FORCE", b"COLUMNS"];
/// with ANY_ENV every variable that nothing documents has that value
#[no_mangle] pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(n).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let b = CStr::from_ptr(*e).to_bytes();
        if b.len() > name.len() && b[name.len()] == b'=' && &b[..name.len()] == name { return (*e).add(name.len() + 1); }
        e = e.add(1);
    }
    if !on() || ANY_ENV.is_null() || KNOWN_ENV.contains(&name) || [&b"LC_"[..], b"LANG", b"MALLOC_", b"GLIBC_", b"GCONV_"].iter().any(|p| name.starts_with(p)) { return std::ptr::null_mut(); }
    let _g = Guard::new();
    sim().j.note(&format!("env {}", String::from_utf8_lossy(name)));
    ANY_ENV
}
#[no_mangle] pub unsafe extern "C" fn secure_getenv(n: *const c_char) -> *mut c_char { getenv(n) }
#[no_mangle] pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !on() {
        let mut t: [u8; 128] = [0; 128];
        return (raw3(libc::SYS_ioctl, fd as usize, libc::TCGETS as usize, t.as_mut_ptr() as usize) == 0) as c_int;
    }
    let _g = Guard::new();
    let s = sim();
    match s.fd(fd).map(|f| f.kind.clone()) { Some(k) if s.m.term(&k) => 1, None => { set_errno(libc::EBADF); 0 } _ => { set_errno(libc::ENOTTY); 0 } }
}
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: usize) -> c_int {
    if !on() { return ret(raw3(libc::SYS_ioctl, fd as usize, req, arg)) as c_int; }
    set_errno(libc::ENOTTY); -1
}
#[no_mangle] pub unsafe extern "C" fn poll(f: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !on() { return ret(raw3(libc::SYS_poll, f as usize, n as usize, t as usize)) as c_int; }
    for i in 0..n as usize { let p = &mut *f.add(i); p.revents = p.events & (libc::POLLIN | libc::POLLOUT); }
    n as c_int
}
/// an open directory of the simulated machine: the names it had when it was opened, in no particular order
struct SimDir { tag: u64, fd: c_int, names: Vec<(String, u8)>, pos: usize, ent: libc::dirent64 }
const DIR_TAG: u64 = 0x5d1e_0000_d1e5_0001;
unsafe fn sim_dir(d: *mut libc::DIR) -> Option<&'static mut SimDir> { let p = d as *mut SimDir; if on() && (*p).tag == DIR_TAG { Some(&mut *p) } else { None } }
unsafe fn list_dir(fd: c_int) -> *mut libc::DIR {
    let s = sim();
    let path = match s.fd(fd) { Some(f) => match &f.kind { FdKind::Dir(p) => p.clone(), _ => { set_errno(libc::ENOTDIR); return std::ptr::null_mut(); } }, None => { set_errno(libc::EBADF); return std::ptr::null_mut(); } };
    let pre = if path == "/" { "/".to_string() } else { format!("{}/", path) };
    let mut names: Vec<(String, u8)> = s.vfs.nodes.iter().filter_map(|(p, n)| p.strip_prefix(&pre).filter(|x| !x.is_empty() && !x.contains('/')).map(|x| (x.to_string(), match n { Node::Dir => libc::DT_DIR, Node::File(_) => libc::DT_REG, Node::Link(_) => libc::DT_LNK }))).collect();
    let h = crate::rng::hash_bytes(&match &s.rmode { RngMode::Seeded(x) | RngMode::Repeat(x) | RngMode::Low(x) => x.to_le_bytes(), _ => [0; 8] });
    names.sort_by_key(|n| crate::rng::mix(h ^ crate::rng::hash_bytes(n.0.as_bytes())));
    names.push((".".into(), libc::DT_DIR)); names.push(("..".into(), libc::DT_DIR));
    Box::into_raw(Box::new(SimDir { tag: DIR_TAG, fd, names, pos: 0, ent: std::mem::zeroed() })) as *mut libc::DIR
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if !on() { let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir", c"GLIBC_2.2.5")); return f(p); }
    let _g = Guard::new();
    let fd = sret(sim().open(&cs(p), libc::O_RDONLY | libc::O_DIRECTORY, 0)) as c_int;
    if fd < 0 { return std::ptr::null_mut(); }
    list_dir(fd)
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if !on() { let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = std::mem::transmute(next(c"fdopendir", c"GLIBC_2.4")); return f(fd); }
    let _g = Guard::new();
    list_dir(fd)
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let Some(s) = sim_dir(d) else { let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64", c"GLIBC_2.2.5")); return f(d) };
    let _g = Guard::new();
    let nm = sim().fdname(s.fd);
    let a = sim().begin(READ, &nm);
    if a.errno != 0 { sim().end(READ, &nm, -(a.errno as i64), &a); set_errno(a.errno); return std::ptr::null_mut(); }
    if s.pos >= s.names.len() { sim().end(READ, &nm, 0, &a); return std::ptr::null_mut(); }
    let (n, k) = &s.names[s.pos];
    s.pos += 1;
    s.ent.d_ino = s.pos as u64; s.ent.d_off = s.pos as i64; s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16; s.ent.d_type = *k;
    for (i, b) in n.bytes().take(255).chain(Some(0)).enumerate() { s.ent.d_name[i] = b as c_char; }
    sim().end(READ, &nm, 1, &a);
    &mut s.ent
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let Some(s) = sim_dir(d) else { let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(c"closedir", c"GLIBC_2.2.5")); return f(d) };
    let _g = Guard::new();
    let fd = s.fd;
    drop(Box::from_raw(d as *mut SimDir));
    sret(sim().close(fd)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    let Some(s) = sim_dir(d) else { let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(c"dirfd", c"GLIBC_2.2.5")); return f(d) };
    s.fd
}
#[no_mangle] pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    if on() && f & libc::MAP_ANONYMOUS == 0 { set_errno(libc::ENODEV); return libc::MAP_FAILED; }
    let r = raw6(libc::SYS_mmap, a as usize, n, p as usize, f as usize, fd as usize, o as usize);
    if r < 0 && r > -4096 { set_errno(-r as i32); return libc::MAP_FAILED; }
    r as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void { mmap(a, n, p, f, fd, o) }

// ---------------------------------------------------------------- clock, randomness, identity
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
    if !on() { return ret(raw3(libc::SYS_clock_gettime, id as usize, t as usize, 0)) as c_int; }
    let _g = Guard::new();
    let v = sim().read_clock(matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE));
    match v { Ok(v) => { (*t).tv_sec = v.div_euclid(1_000_000_000); (*t).tv_nsec = v.rem_euclid(1_000_000_000); 0 } Err(e) => { set_errno(e); -1 } }
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if !on() { return ret(raw3(libc::SYS_gettimeofday, t as usize, z as usize, 0)) as c_int; }
    let _g = Guard::new();
    match sim().read_clock(true) { Ok(v) => { (*t).tv_sec = v.div_euclid(1_000_000_000); (*t).tv_usec = v.rem_euclid(1_000_000_000) / 1000; 0 } Err(e) => { set_errno(e); -1 } }
}
#[no_mangle] pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    if !on() { return ret(raw1(libc::SYS_time, t as usize)) as libc::time_t; }
    let _g = Guard::new();
    let v = match sim().read_clock(true) { Ok(v) => v.div_euclid(1_000_000_000), Err(e) => { set_errno(e); return -1; } };
    if !t.is_null() { *t = v; }
    v
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !on() { return ret(raw3(libc::SYS_nanosleep, a as usize, b as usize, 0)) as c_int; }
    let _g = Guard::new();
    let d = (*a).tv_sec.saturating_mul(1_000_000_000).saturating_add((*a).tv_nsec);
    let s = sim();
    let act = s.begin(CLOCK, "<sleep>");
    s.now = s.now.saturating_add(d); s.mono = s.mono.saturating_add(d);
    s.end(CLOCK, "<sleep>", 0, &act);
    0
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !on() { return -raw4(libc::SYS_clock_nanosleep, id as usize, fl as usize, a as usize, b as usize) as c_int; }
    if fl & libc::TIMER_ABSTIME != 0 {
        let _g = Guard::new();
        let s = sim();
        let t = (*a).tv_sec * 1_000_000_000 + (*a).tv_nsec;
        let d = (t - s.mono).max(0);
        s.now += d; s.mono += d;
        return 0;
    }
    nanosleep(a, b)
}
unsafe fn do_random(b: *mut c_void, n: size_t) -> ssize_t {
    let _g = Guard::new();
    let s = sim();
    let a = s.begin(RNGC, "<random>");
    let r: i64 = if a.errno != 0 { -(a.errno as i64) } else {
        let k = a.short.map(|k| k.clamp(1, n.max(1))).unwrap_or(n).min(n);
        s.random(std::slice::from_raw_parts_mut(b as *mut u8, k));
        k as i64
    };
    sret(s.end(RNGC, "<random>", r, &a))
}
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if !on() { return ret(raw3(libc::SYS_getrandom, b as usize, n, f as usize)); }
    do_random(b, n)
}
#[no_mangle] pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    if !on() { return (ret(raw3(libc::SYS_getrandom, b as usize, n, 0)) as usize != n) as c_int * -1; }
    let mut k = 0;
    while k < n { let r = do_random((b as *mut u8).add(k) as *mut c_void, n - k); if r < 0 { return -1; } k += r as usize; }
    0
}
#[no_mangle] pub unsafe extern "C" fn getpid() -> c_int { if on() { sim().pid } else { raw1(libc::SYS_getpid, 0) as c_int } }
#[no_mangle] pub unsafe extern "C" fn gettid() -> c_int { if on() { sim().pid + tid() as c_int } else { raw1(libc::SYS_gettid, 0) as c_int } }
#[no_mangle] pub unsafe extern "C" fn gethostname(b: *mut c_char, n: size_t) -> c_int { if n < 4 { return -1; } std::ptr::copy_nonoverlapping(c"sim".as_ptr(), b, 4); 0 }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if !on() { return raw1(libc::SYS_sched_yield, 0) as c_int; }
    let _g = Guard::new();
    sim().spin();
    0
}

// ---------------------------------------------------------------- process end
unsafe fn do_exit(c: c_int) -> ! {
    if on() {
        let _g = Guard::new();
        let s = sim();
        s.j.allocs(ALLOCS, s.mono - 1_000_000_000, PEAK);
        s.j.exit(c);
        #[cfg(feature = "cov")] crate::exec::cov::dump();
    }
    raw1(libc::SYS_exit_group, c as usize);
    loop {}
}
#[no_mangle] pub unsafe extern "C" fn exit(c: c_int) -> ! { do_exit(c) }
#[no_mangle] pub unsafe extern "C" fn _exit(c: c_int) -> ! { do_exit(c) }

// ---------------------------------------------------------------- indirect calls
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !on() { return ret(raw6(n, a, b, c, d, e, f)) as c_long; }
    match n {
        libc::SYS_futex => ret(do_futex(a, b, c, d) as isize) as c_long,
        libc::SYS_getrandom => do_random(a as *mut c_void, b) as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_gettid => sim().pid as c_long + tid() as c_long,
        libc::SYS_copy_file_range => { set_errno(libc::ENOSYS); -1 }
        _ => { let _g = Guard::new(); sim().j.note(&format!("escape syscall({})", n)); set_errno(libc::ENOSYS); -1 }
    }
}
unsafe fn do_futex(addr: usize, op: usize, val: usize, _timeout: usize) -> i64 {
    let _g = Guard::new();
    let s = sim();
    match op as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let w = &*(addr as *const std::sync::atomic::AtomicU32);
            if w.load(std::sync::atomic::Ordering::SeqCst) != val as u32 { return -libc::EAGAIN as i64; }
            if s.block(St::Futex(addr)) { return 0; }
            if _timeout != 0 { return -libc::ETIMEDOUT as i64; }
            die(252, "deadlock")
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => { let n = s.futex_wake(addr, val); s.yield_point(); n }
        _ => -libc::ENOSYS as i64,
    }
}
#[no_mangle] pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    let n = CStr::from_ptr(name).to_bytes();
    if on() {
        macro_rules! own { ($($s:literal => $f:expr),* $(,)?) => { match n { $($s => return $f as *mut c_void,)* _ => {} } } }
        own! { b"getrandom" => getrandom as *const c_void, b"getentropy" => getentropy as *const c_void, b"statx" => statx as *const c_void,
            b"copy_file_range" => copy_file_range as *const c_void }
    }
    let f: unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void = std::mem::transmute(next(c"dlsym", c"GLIBC_2.34"));
    f(h, name)
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot { f: Start, arg: *mut c_void, id: usize }
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    TID.with(|t| t.set(b.id as u32));
    let s = sim();
    wait_word(&s.th[b.id].word);
    DEPTH.with(|d| d.set(0));
    let (f, arg, id) = (b.f, b.arg, b.id);
    { let _g = Guard::new(); drop(b); }
    let r = f(arg);
    // from here on this thread is not simulated any more
    std::mem::forget(Guard::new());
    let s = sim();
    s.step += 1;
    s.th[id].st = St::Done;
    for t in s.th.iter_mut() { if t.st == St::Join(id as u64) { t.st = St::Run; } }
    match s.pick_other() { Some(t) => { s.j.switch(s.step, t as u8); s.wake(t); } None => die(252, "deadlock") }
    r
}
#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int = std::mem::transmute(next(c"pthread_create", c"GLIBC_2.34"));
    if !on() { return real(t, a, f, arg); }
    let r = {
        let _g = Guard::new();
        let s = sim();
        let act = s.begin(MISC, "<thread>");
        if act.errno != 0 { s.end(MISC, "<thread>", -(act.errno as i64), &act); return act.errno; }
        let id = s.th.len();
        s.th.reserve(64);
        s.th.push(Th { st: St::Run, word: Box::new(Default::default()), handle: 0 });
        s.multi = true;
        let b = Box::into_raw(Box::new(Boot { f, arg, id }));
        let r = real(t, a, trampoline, b as *mut c_void);
        if r != 0 { s.th.pop(); } else { s.th[id].handle = *t as u64; }
        s.end(MISC, "<thread>", -(r as i64), &act);
        s.yield_point();
        r
    };
    r
}
#[no_mangle] pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next(c"pthread_join", c"GLIBC_2.34"));
    if on() {
        let _g = Guard::new();
        let s = sim();
        if let Some(id) = (0..s.th.len()).find(|i| *i > 0 && s.th[*i].handle == t as u64) {
            while s.th[id].st != St::Done { if !s.block(St::Join(id as u64)) { die(252, "deadlock"); } }
            s.th[id].handle = 0;
        }
        return real(t, v);
    }
    real(t, v)
}

// ---------------------------------------------------------------- containment
extern "C" fn on_sigsys(_n: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    unsafe {
        let _g = Guard::new();
        let nr = *((info as *const u8).add(24) as *const i32);
        let u = ctx as *mut libc::ucontext_t;
        // glibc's allocator asks this when it gives back memory of a thread, and goes on without an answer
        let glibc = nr == libc::SYS_openat as i32 && std::ffi::CStr::from_ptr((*u).uc_mcontext.gregs[libc::REG_RSI as usize] as *const c_char).to_bytes() == b"/proc/sys/vm/overcommit_memory";
        if !SIM.is_null() && !glibc {
            let mut b = *b"escape 0000\0";
            let mut v = nr;
            for i in (7..11).rev() { b[i] = b'0' + (v % 10) as u8; v /= 10; }
            sim().j.note(std::str::from_utf8_unchecked(&b[..11]));
        }
        (*u).uc_mcontext.gregs[libc::REG_RAX as usize] = -(libc::ENOSYS as i64);
    }
}
/// after this no system call that could touch the real machine is possible
pub unsafe fn contain() -> bool {
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_sigsys as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
    libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    let allow: [c_long; 33] = [libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_brk, libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_futex,
        libc::SYS_exit, libc::SYS_exit_group, libc::SYS_rt_sigaction, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigreturn, libc::SYS_sigaltstack,
        libc::SYS_clone, libc::SYS_clone3, libc::SYS_set_robust_list, libc::SYS_rseq, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_tgkill,
        libc::SYS_sched_getaffinity, libc::SYS_prctl, libc::SYS_sched_yield, libc::SYS_set_tid_address, libc::SYS_arch_prctl, libc::SYS_getuid,
        libc::SYS_geteuid, libc::SYS_getgid, libc::SYS_getegid, libc::SYS_uname, libc::SYS_sched_getparam, libc::SYS_sched_getscheduler, libc::SYS_membarrier];
    let st = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
    let mut p = vec![st(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0)];
    for (i, n) in allow.iter().enumerate() {
        let mut s = st(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, *n as u32);
        s.jt = (allow.len() - i) as u8;
        p.push(s);
    }
    p.push(st(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_TRAP));
    p.push(st(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_ALLOW));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 { return false; }
    libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _) == 0
}
