//! Runs one simulated process: a forked copy of this single-threaded worker in which the
//! real program's `main` runs against the simulated operating system.
use crate::hooks;
use crate::journal::{Ev, Journal, OpRec};
use crate::rng::{hash_bytes, mix};
use crate::sim::*;
use crate::vfs::{Mut, Vfs};
use std::ffi::CString;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug)]
pub enum Kind {
    Cli(Vec<String>),
    /// library assemblies in this order in one process
    Lib(Vec<LibJob>),
    /// library assemblies on one thread each
    Threads(Vec<LibJob>),
    /// command lines run by the library in one process: arguments, directory, edits before it; on threads?
    Calls(Vec<CallJob>, bool),
}
#[derive(Clone, Debug)]
pub struct CallJob { pub args: Vec<String>, pub cwd: String, pub edits: Vec<(String, Option<Vec<u8>>)> }
#[derive(Clone, Debug)]
pub struct LibJob { pub path: String, /** files put in place before it (sequential only) */ pub edits: Vec<(String, Option<Vec<u8>>)> }

pub struct Spec<'a> {
    pub vfs: &'a Vfs, pub kind: Kind, pub env: &'a [(String, String)], pub cwd: &'a str, pub faults: &'a [Fault], pub modes: &'a Modes, pub clk: &'a Clk,
    pub rng: &'a RngMode, pub plan: &'a Plan, pub pid: i32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit { Code(i32), Signal(i32), StepCap, /** more events than there is room for */ Full, Killed, Deadlock, Cpu, Harness }

#[derive(Clone, Debug)]
pub struct Outcome {
    pub exit: Exit, pub ops: Vec<OpRec>, pub muts: Vec<Mut>, pub out: Vec<u8>, pub err: Vec<u8>, pub clocks: Vec<i64>, pub fired: Vec<u32>,
    pub results: Vec<(u32, bool, Vec<u8>)>, pub notes: Vec<String>, pub switches: Vec<(u64, u8)>, pub allocs: u64, /** most bytes of memory in use */ pub peak: u64, pub digest: u64, pub escaped: bool,
    /// file system when the process ended
    pub vfs: Vfs,
    /// (number of operations so far, change)
    pub timeline: Vec<(usize, Mut)>,
}
impl Outcome {
    pub fn errs(&self) -> String { String::from_utf8_lossy(&self.err).into_owned() }
    pub fn outs(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn success(&self) -> bool { self.exit == Exit::Code(0) }
    pub fn panicked(&self) -> bool { self.exit == Exit::Code(101) }
}

static mut ARGC: usize = 0;
static mut ARGV: *mut *mut libc::c_char = std::ptr::null_mut();
extern "C" fn capture(argc: libc::c_int, argv: *mut *mut libc::c_char, _e: *mut *mut libc::c_char) { unsafe { ARGC = argc as usize; ARGV = argv; } }
#[used]
#[link_section = ".init_array"]
static CAPTURE: extern "C" fn(libc::c_int, *mut *mut libc::c_char, *mut *mut libc::c_char) = capture;

extern "C" { static mut environ: *mut *mut libc::c_char; }

pub struct Runner { j: Journal, more: Vec<Journal>, board: *mut Board, pub runs: u64, pub sim_ns: u64 }

impl Runner {
    pub fn new() -> Runner { Runner { j: Journal::new(), more: vec![], board: std::ptr::null_mut(), runs: 0, sim_ns: 0 } }

    /// processes that run at the same time on one file system; returns how each ended, the file system at the end and the switches
    pub fn run_many(&mut self, sps: &[Spec], plan: &Plan) -> (Vec<Outcome>, Vfs, Vec<(u64, u8)>) {
        if self.board.is_null() { unsafe {
            let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(m != libc::MAP_FAILED);
            self.board = m as *mut Board;
        } }
        let b: &'static Board = unsafe { &*self.board };
        // the first one is the log of changes
        while self.more.len() < sps.len() + 1 { self.more.push(Journal::new()); }
        for j in self.more.iter_mut() { j.reset(); }
        b.done.store(0, Ordering::SeqCst); b.step.store(0, Ordering::SeqCst); b.turn.store(u32::MAX, Ordering::SeqCst);
        let mut pids = vec![];
        for (i, sp) in sps.iter().enumerate() {
            self.runs += 1;
            let pid = unsafe { libc::fork() };
            if pid < 0 { panic!("fork failed"); }
            if pid == 0 { unsafe { child(sp, Journal::shared(&self.more[i + 1]), Some(Peers { me: i as u32, n: sps.len() as u32, board: b, log: Journal::shared(&self.more[0]), off: 8, plan: plan.clone() })) } }
            pids.push(pid);
        }
        hand_over(b, 0);
        let mut st = vec![0; sps.len()];
        for _ in 0..sps.len() {
            let (k, x) = loop {
                let mut x = 0;
                let r = unsafe { libc::waitpid(-1, &mut x, 0) };
                if let Some(k) = pids.iter().position(|p| *p == r) { break (k, x); }
                if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) { panic!("waitpid"); }
            };
            st[k] = x;
            let done = b.done.fetch_or(1 << k, Ordering::SeqCst) | 1 << k;
            if b.turn.load(Ordering::SeqCst) == k as u32 { if let Some(t) = (1..sps.len()).map(|d| (k + d) % sps.len()).find(|t| done & 1 << t == 0) { hand_over(b, t as u32); } }
        }
        let mut vfs = sps[0].vfs.clone();
        let mut d = 0;
        for e in self.more[0].parse() { if let Ev::Mut(m) = e { if let Mut::Write { data, off, .. } = &m { d = mix(d ^ hash_bytes(data) ^ off); } vfs.apply(&m); } }
        let mut sw = vec![];
        let mut os = vec![];
        for (i, sp) in sps.iter().enumerate() {
            let mut o = self.collect(sp, st[i], i + 1);
            o.vfs = vfs.clone();
            o.digest = mix(o.digest ^ d);
            sw.extend(o.switches.iter().copied());
            os.push(o);
        }
        sw.sort();
        (os, vfs, sw)
    }


    pub fn run(&mut self, sp: &Spec) -> Outcome {
        self.runs += 1;
        self.j.reset();
        let pid = unsafe { libc::fork() };
        if pid < 0 { panic!("fork failed"); }
        if pid == 0 { unsafe { child(sp, Journal::shared(&self.j), None) } }
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid { break; }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) { panic!("waitpid"); }
        }
        let o = self.collect(sp, st, 0);
        o
    }

    fn collect(&mut self, sp: &Spec, st: i32, which: usize) -> Outcome {
        let evs = if which == 0 { self.j.parse() } else { self.more[which].parse() };
        let mut o = Outcome { exit: Exit::Harness, ops: vec![], muts: vec![], out: vec![], err: vec![], clocks: vec![], fired: vec![], results: vec![], notes: vec![],
            switches: vec![], allocs: 0, peak: 0, digest: 0, escaped: false, vfs: sp.vfs.clone(), timeline: vec![] };
        let mut code = None;
        let mut d = 0u64;
        for e in evs {
            match e {
                Ev::Op(r) => { d = mix(d ^ r.cls as u64 ^ (r.ret as u64) << 8 ^ hash_bytes(r.path.as_bytes())); o.ops.push(r) }
                Ev::Mut(m) => { o.vfs.apply(&m); if let Mut::Write { data, off, .. } = &m { d = mix(d ^ hash_bytes(data) ^ off); } o.timeline.push((o.ops.len(), m.clone())); o.muts.push(m) }
                Ev::Out(f, b) => { d = mix(d ^ f as u64 ^ hash_bytes(&b)); if f == 1 { o.out.extend(b) } else { o.err.extend(b) } }
                Ev::Clock(c) => { d = mix(d ^ c as u64); o.clocks.push(c) }
                Ev::Fired(i) => { d = mix(d ^ 77 ^ i as u64); o.fired.push(i) }
                Ev::Result(i, ok, b) => { d = mix(d ^ i as u64 ^ hash_bytes(&b)); o.results.push((i, ok, b)) }
                Ev::Note(n) => { if n.starts_with("escape") { o.escaped = true; } o.notes.push(n) }
                Ev::Exit(c) => code = Some(c),
                Ev::Switch(s, t) => { d = mix(d ^ s << 8 ^ t as u64); o.switches.push((s, t)) }
                Ev::Alloc(n, t, k) => { o.allocs = n; o.peak = k; self.sim_ns += t.max(0) as u64 }
            }
        }
        o.exit = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) { libc::SIGXCPU | libc::SIGKILL => Exit::Cpu, libc::SIGALRM => Exit::Harness, s => Exit::Signal(s) }
        } else {
            let c = libc::WEXITSTATUS(st);
            match (c, code) {
                (_, Some(x)) if x & 0xff == c => Exit::Code(c),
                (250, _) => Exit::StepCap,
                (248, _) => Exit::Full,
                (251, _) => Exit::Killed,
                (252, _) => Exit::Deadlock,
                _ => Exit::Harness,
            }
        };
        o.digest = mix(d ^ match o.exit { Exit::Code(c) => c as u64, Exit::Signal(s) => 1000 + s as u64, Exit::StepCap => 2000, Exit::Killed => 2001, Exit::Deadlock => 2002, Exit::Cpu => 2003, Exit::Harness => 2004, Exit::Full => 2005 });
        o
    }
}

unsafe fn child(sp: &Spec, j: Journal, peers: Option<Peers>) -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let lim = libc::rlimit { rlim_cur: 4, rlim_max: 5 };
    libc::setrlimit(libc::RLIMIT_CPU, &lim);
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &z);
    let t = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 60, tv_usec: 0 } };
    hooks::raw6(libc::SYS_setitimer, 0, &t as *const _ as usize, 0, 0, 0, 0);
    libc::mallopt(-8, 2); // M_ARENA_MAX: or malloc counts the processors
    // environment and arguments of the simulated process
    let mut env: Vec<*mut libc::c_char> = sp.env.iter().filter(|e| e.0 != "*").map(|(k, v)| CString::new(format!("{}={}", k, v)).unwrap().into_raw()).collect();
    if let Some((_, v)) = sp.env.iter().find(|e| e.0 == "*") { hooks::ANY_ENV = CString::new(v.as_str()).unwrap().into_raw(); }
    env.push(std::ptr::null_mut());
    environ = Box::leak(env.into_boxed_slice()).as_mut_ptr();
    if let Kind::Cli(a) = &sp.kind {
        assert!(a.len() < ARGC, "too many arguments");
        for (i, s) in a.iter().enumerate() { *ARGV.add(i) = CString::new(s.as_str()).unwrap().into_raw(); }
        *ARGV.add(a.len()) = std::ptr::null_mut();
    }
    #[cfg(feature = "cov")] cov::mark();
    let kind = sp.kind.clone();
    let s = Box::new(Sim::new(sp.vfs.clone(), sp.cwd, sp.faults, sp.modes, sp.clk, sp.rng, sp.plan, j));
    ALLOC_FAIL = sp.modes.alloc_fail; ALLOC_CNT = sp.modes.alloc_cnt.max(1); ALLOC_MAX = sp.modes.alloc_max; HEAP = sp.modes.heap as i64;
    SIM = Box::into_raw(s);
    sim().pid = sp.pid;
    sim().peers = peers;
    if !hooks::contain() { sim().j.note("escape no containment"); }
    sim().await_turn();
    let r = match kind {
        Kind::Cli(_) => { ON = true; std::panic::catch_unwind(crate::wbmain::main).is_ok() }
        Kind::Lib(jobs) => { ON = true; std::panic::catch_unwind(|| sequential(&jobs)).is_ok() }
        Kind::Threads(jobs) => { ON = true; std::panic::catch_unwind(|| threaded(jobs)).is_ok() }
        Kind::Calls(jobs, threads) => { ON = true; std::panic::catch_unwind(|| calls(jobs, threads)).is_ok() }
    };
    std::process::exit(if r { 0 } else { 101 })
}

fn one(i: usize, path: &str) {
    let r = std::panic::catch_unwind(|| {
        let mut files = waterbear::files::SourceFiles::new();
        waterbear::assemble_file(&mut files, path).map_err(|e| format!("{:?}", e))
    });
    let _g = Guard::new();
    match r {
        Ok(Ok(b)) => sim().j.result(i as u32, true, &b),
        Ok(Err(e)) => sim().j.result(i as u32, false, e.as_bytes()),
        Err(_) => sim().j.result(i as u32, false, b"panic"),
    }
}
fn sequential(jobs: &[LibJob]) {
    for (i, j) in jobs.iter().enumerate() {
        {
            let _g = Guard::new();
            for (p, d) in &j.edits {
                sim().apply(match d { Some(d) => Mut::Replace { path: p.clone(), data: d.clone() }, None => Mut::Remove { path: p.clone() } });
            }
        }
        one(i, &j.path);
    }
}
fn edit(edits: &[(String, Option<Vec<u8>>)]) {
    let _g = Guard::new();
    for (p, d) in edits { sim().apply(match d { Some(d) => Mut::Replace { path: p.clone(), data: d.clone() }, None => Mut::Remove { path: p.clone() } }); }
}
fn calls(jobs: Vec<CallJob>, threads: bool) {
    if threads {
        let mut hs = vec![];
        for (i, j) in jobs.into_iter().enumerate() {
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let ok = std::panic::catch_unwind(|| waterbear::run_command(&j.args)).is_ok();
                let _g = Guard::new();
                sim().j.result(i as u32, ok, b"");
            }).unwrap());
        }
        for h in hs { let _ = h.join(); }
        return;
    }
    let mut dir: Option<String> = None;
    for (i, j) in jobs.iter().enumerate() {
        edit(&j.edits);
        // the caller changes directory when it wants another one, and only then
        if dir.as_ref().map(|d| *d != j.cwd).unwrap_or(false) { std::env::set_current_dir(&j.cwd).unwrap(); }
        dir = Some(j.cwd.clone());
        waterbear::run_command(&j.args);
        let _g = Guard::new();
        sim().j.result(i as u32, true, b"");
    }
}
fn threaded(jobs: Vec<LibJob>) {
    let mut hs = vec![];
    for (i, j) in jobs.into_iter().enumerate() {
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || one(i, &j.path)).unwrap());
    }
    for h in hs { let _ = h.join(); }
}

/// Line coverage: the counters of every simulated process are added up in shared memory, and
/// the worker takes them over before it writes its profile.
#[cfg(feature = "cov")]
pub mod cov {
    extern "C" { static mut __start___llvm_prf_cnts: u64; static mut __stop___llvm_prf_cnts: u64; }
    static mut ACC: *mut u64 = std::ptr::null_mut();
    static mut BASE: *mut u64 = std::ptr::null_mut();
    unsafe fn span() -> (*mut u64, usize) { let a = &raw mut __start___llvm_prf_cnts; (a, (&raw mut __stop___llvm_prf_cnts as usize - a as usize) / 8) }
    pub fn start() { unsafe {
        let (_, n) = span();
        let m = |f| libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, f | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        ACC = m(libc::MAP_SHARED); BASE = m(libc::MAP_PRIVATE);
    } }
    pub fn mark() { unsafe { let (a, n) = span(); if !BASE.is_null() { std::ptr::copy_nonoverlapping(a, BASE, n); } } }
    pub fn dump() { unsafe { let (a, n) = span(); if !ACC.is_null() { for i in 0..n { *ACC.add(i) += (*a.add(i)).wrapping_sub(*BASE.add(i)); } } } }
    pub fn collect() { unsafe { let (a, n) = span(); for i in 0..n { *a.add(i) += *ACC.add(i); } } }
}
