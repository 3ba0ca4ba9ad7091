//! Scenarios: everything one simulated history consists of, in the form kept in replay files,
//! and their execution.
use crate::exec::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::vfs::Vfs;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job { pub path: String, #[serde(default, skip_serializing_if = "Vec::is_empty")] pub edits: Vec<(String, Option<Blob>)> }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Asm { main: String, out: String },
    Expand { main: String },
    Dis { input: String, out: String, ty: Option<String>, pos: bool, arr: bool },
    Icon { img: String, speed: Option<String>, eye: Option<String> },
    Image { img: String, out: Option<String>, fmt: Option<String> },
    Vmi { input: String, out: Option<String>, copy: Option<String>, game: bool },
    Version,
    Lib(Vec<Job>),
    Threads(Vec<Job>),
    /// several of the others in one process, in sequence or on threads; made from processes by the judge of C25
    Calls(Vec<Proc>, bool),
}
impl Cmd {
    pub fn name(&self) -> &'static str {
        match self { Cmd::Asm { .. } => "assemble", Cmd::Expand { .. } => "expand", Cmd::Dis { .. } => "disassemble", Cmd::Icon { .. } => "icon", Cmd::Image { .. } => "image", Cmd::Vmi { .. } => "vmi", Cmd::Version => "version", Cmd::Lib(_) => "library", Cmd::Calls(_, false) => "several commands in one process", Cmd::Calls(_, true) => "commands on threads of one process", Cmd::Threads(_) => "library threads" }
    }
    /// the output file as named on the command line
    pub fn out(&self) -> Option<String> {
        match self {
            Cmd::Asm { out, .. } | Cmd::Dis { out, .. } => Some(out.clone()),
            Cmd::Image { out, .. } => out.clone(),
            Cmd::Vmi { input, out, .. } => Some(out.clone().unwrap_or_else(|| format!("{}.vmi", input.strip_suffix(".vms").unwrap_or(input)))),
            _ => None,
        }
    }
    pub fn args(&self, spell: u32) -> Vec<String> {
        let mut r = Rng::new(spell as u64 + 7);
        let mut opts: Vec<Vec<String>> = vec![];
        fn opt(r: &mut Rng, short: &str, long: &str, v: &str) -> Vec<String> {
            match r.us(5) { 0 => vec![format!("--{}", long), v.into()], 1 if !v.is_empty() => vec![format!("--{}={}", long, v)], 2 if !v.is_empty() && !v.starts_with('=') => vec![format!("-{}{}", short, v)], _ => vec![format!("-{}", short), v.into()] }
        }
        let flag = |r: &mut Rng, s: &str, l: &str| vec![if r.bool() { format!("-{}", s) } else { format!("--{}", l) }];
        let pos;
        match self {
            Cmd::Asm { main, out } => { pos = main.clone(); opts.push(opt(&mut r, "o", "output", out)); }
            Cmd::Expand { main } => pos = main.clone(),
            Cmd::Dis { input, out, ty, pos: p, arr } => {
                pos = input.clone();
                opts.push(opt(&mut r, "o", "output", out));
                if let Some(t) = ty { opts.push(opt(&mut r, "t", "type", t)); }
                if *p { opts.push(flag(&mut r, "p", "positions")); }
                if *arr { opts.push(flag(&mut r, "a", "arrived_from")); }
            }
            Cmd::Icon { img, speed, eye } => {
                pos = img.clone();
                if let Some(s) = speed { opts.push(opt(&mut r, "s", "speed", s)); }
                if let Some(e) = eye { opts.push(opt(&mut r, "e", "eyecatch", e)); }
            }
            Cmd::Image { img, out, fmt } => {
                pos = img.clone();
                if let Some(o) = out { opts.push(opt(&mut r, "o", "output", o)); }
                if let Some(f) = fmt { opts.push(opt(&mut r, "f", "format", f)); }
            }
            Cmd::Vmi { input, out, copy, game } => {
                pos = input.clone();
                if let Some(o) = out { opts.push(opt(&mut r, "o", "output", o)); }
                if let Some(c) = copy { opts.push(opt(&mut r, "c", "copyright", c)); }
                if *game { opts.push(flag(&mut r, "g", "game")); }
            }
            Cmd::Version => return vec!["waterbear".into(), "version".into()],
            Cmd::Lib(_) | Cmd::Threads(_) | Cmd::Calls(..) => return vec![],
        }
        if spell != 0 { r.shuffle(&mut opts); }
        let at = if spell == 0 { 0 } else { r.us(opts.len() + 1) };
        let mut a = vec!["waterbear".to_string(), self.name().to_string()];
        for (i, o) in opts.into_iter().enumerate() { if i == at { a.push(pos.clone()); } a.extend(o); }
        if !a[2..].contains(&pos) { a.push(pos); }
        a
    }
}

/// what happens before a process starts
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pre { Put(FileSpec), Raw(String, Blob), Del(String), /** power fails: what the last process wrote may be lost or torn, by this seed */ Loss(u64) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Proc {
    pub cmd: Cmd, pub cwd: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub env: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub faults: Vec<Fault>,
    #[serde(default)] pub m: Modes,
    #[serde(default)] pub clk: Clk,
    #[serde(default = "seed0")] pub rng: RngMode,
    #[serde(default = "noplan")] pub plan: Plan,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub pre: Vec<Pre>,
    #[serde(default)] pub spell: u32,
}
fn seed0() -> RngMode { RngMode::Seeded(0) }
fn noplan() -> Plan { Plan::None }
impl Proc {
    pub fn new(cmd: Cmd, cwd: &str) -> Proc {
        Proc { cmd, cwd: cwd.into(), env: vec![], faults: vec![], m: Modes::default(), clk: Clk::default(), rng: RngMode::Seeded(1), plan: Plan::None, pre: vec![], spell: 0 }
    }
    /// the same process on a healthy machine
    pub fn healthy(&self) -> Proc { Proc { faults: vec![], m: Modes { tty: self.m.tty, tty_of: self.m.tty_of, ..Modes::default() }, pre: vec![], ..self.clone() } }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Scen {
    pub prop: String, pub seed: u64, pub idx: u64, pub tag: String,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub dirs: Vec<String>,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub files: Vec<FileSpec>,
    #[serde(skip_serializing_if = "BTreeMap::is_empty")] pub links: BTreeMap<String, String>,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub raw: Vec<(String, Blob)>,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub modes: Vec<(String, u32)>,
    /// second names of files
    #[serde(skip_serializing_if = "Vec::is_empty")] pub hard: Vec<(String, String)>,
    /// files that are pipes
    #[serde(skip_serializing_if = "Vec::is_empty")] pub pipes: Vec<String>,
    pub procs: Vec<Proc>,
    /// further versions of files
    #[serde(skip_serializing_if = "Vec::is_empty")] pub vers: Vec<FileSpec>,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub num: Vec<i64>,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub txt: Vec<String>,
}
impl Scen {
    pub fn vfs(&self) -> Vfs {
        let mut v = Vfs::new();
        for d in &self.dirs { v.mkdirs(d); }
        for p in &self.procs { v.mkdirs(&p.cwd); }
        for f in &self.files { v.put(&f.path, &f.bytes()); }
        for (p, b) in &self.raw { v.put(p, &b.0); }
        for (p, q) in &self.hard { if let (Some(n @ crate::vfs::Node::File(_)), false) = (v.nodes.get(p).cloned(), v.nodes.contains_key(q)) { v.nodes.insert(q.clone(), n); } }
        for (p, t) in &self.links { v.symlink(p, t); }
        for (p, m) in &self.modes { v.chmod(p, *m); }
        for p in &self.pipes { if let Some(crate::vfs::Node::File(i)) = v.nodes.get(p) { let i = *i; v.inodes[i].dev = crate::vfs::DEV_PIPE; } }
        v
    }
    pub fn tree(&self) -> Tree { self.files.iter().map(|f| (f.path.clone(), f.c.clone())).collect() }
    /// what assembling `main` from `cwd` should give
    pub fn model(&self, main: &str, cwd: &str) -> Result<Report, Bad> {
        // files overlaid with raw bytes or broken off are no longer what their description says
        if let Some(f) = self.files.iter().find(|f| f.cut.is_some() || !f.torn.is_empty()) { return bad(format!("broken {}", f.path)); }
        if !self.raw.is_empty() && self.files.iter().any(|f| self.raw.iter().any(|r| r.0 == f.path)) { return bad("overlaid"); }
        let t = self.tree();
        let m = assemble(&World { tree: &t, links: &self.links, cwd, bins: None }, main)?;
        match self.modes.iter().find(|x| x.1 & 0o400 == 0 && (m.texts.contains(&x.0) || m.bins.contains(&x.0))) { Some(x) => bad(format!("unreadable {}", x.0)), None => Ok(m) }
    }
    /// nothing but the sources decides whether the run succeeds: the output can be created
    pub fn fair(&self, p: &Proc) -> bool {
        let v = self.vfs();
        match p.cmd.out() { None => true, Some(o) => match v.resolve(&p.cwd, &o, true) { Err(_) => false, Ok(f) => self.modes.is_empty() && !v.is_dir(&f) && crate::vfs::parent(&f).map(|d| v.is_dir(&d)).unwrap_or(false) && !self.dirs.iter().any(|d| self.procs.iter().any(|_| *d == f)) } }
    }
    pub fn file(&mut self, p: &str) -> Option<&mut FileSpec> { self.files.iter_mut().find(|f| f.path == p) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Pass, Violation { kind: String, detail: String }, /** nothing can be said */ Skip(String) }
pub fn viol(kind: &str, detail: impl Into<String>) -> Verdict { Verdict::Violation { kind: kind.into(), detail: detail.into() } }

#[derive(Default, Serialize, Deserialize, Debug)]
pub struct Stats {
    pub scen: u64, pub runs: u64, pub ops: u64, pub sim_ns: u64, pub nontrivial: u64, pub skipped: u64, pub escaped: u64, pub rechecked: u64, pub differed: u64, #[serde(default)] pub crashed: u64,
    pub faults: BTreeMap<String, u64>, pub exits: BTreeMap<String, u64>, pub cmds: BTreeMap<String, u64>, pub reached: BTreeMap<String, u64>,
    /// digests of the distinct executions
    pub runs_seen: BTreeSet<u64>, pub scens_seen: BTreeSet<u64>, pub nontriv_seen: BTreeSet<u64>, pub switches: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.scen += o.scen; self.runs += o.runs; self.ops += o.ops; self.sim_ns += o.sim_ns; self.nontrivial += o.nontrivial; self.skipped += o.skipped; self.escaped += o.escaped; self.switches += o.switches;
        self.rechecked += o.rechecked; self.differed += o.differed; self.crashed += o.crashed;
        for (a, b) in [(&mut self.faults, o.faults), (&mut self.exits, o.exits), (&mut self.cmds, o.cmds), (&mut self.reached, o.reached)] { for (k, v) in b { *a.entry(k).or_insert(0) += v; } }
        self.runs_seen.extend(o.runs_seen); self.scens_seen.extend(o.scens_seen); self.nontriv_seen.extend(o.nontriv_seen);
    }
}

pub struct Ctx { pub run: Runner, pub st: Stats, /** digest over the runs of the current scenario */ pub dig: u64, /** fault events in the current scenario */ pub hits: u64, pub trouble: Option<String>, pub verbose: bool, /** a run of this scenario met the limit on steps or time */ pub capped: bool }
impl Ctx {
    pub fn new() -> Ctx { Ctx { run: Runner::new(), st: Stats::default(), dig: 0, hits: 0, trouble: None, verbose: false, capped: false } }
    pub fn start(&mut self) { self.dig = 0x51; self.hits = 0; self.trouble = None; self.capped = false; }
    pub fn reached(&mut self, what: &str) { *self.st.reached.entry(what.into()).or_insert(0) += 1; }
    pub fn exec(&mut self, v: &Vfs, p: &Proc) -> Outcome { self.exec_as(v, p, 4242) }
    /// at the same time, under this plan; they have the numbers 4242, 4243, ...
    pub fn exec_many(&mut self, v: &Vfs, ps: &[Proc], plan: &Plan) -> (Vec<Outcome>, Vfs, Vec<(u64, u8)>) {
        let sps: Vec<Spec> = ps.iter().enumerate().map(|(i, p)| Spec { vfs: v, kind: Self::kind(p), env: &p.env, cwd: &p.cwd, faults: &p.faults, modes: &p.m, clk: &p.clk, rng: &p.rng, plan: &Plan::None, pid: 4242 + i as i32 }).collect();
        let (os, w, sw) = self.run.run_many(&sps, plan);
        if self.verbose { eprintln!("== {} processes at the same time; (step, process that goes on): {:?}", ps.len(), sw); }
        for (o, p) in os.iter().zip(ps) { if self.verbose { eprintln!("$ (cd {}) {:?}", p.cwd, Self::kind(p)); } self.account(p, o); }
        (os, w, sw)
    }
    fn kind(p: &Proc) -> Kind {
        match &p.cmd {
            Cmd::Lib(j) => Kind::Lib(j.iter().map(|j| LibJob { path: j.path.clone(), edits: j.edits.iter().map(|(p, b)| (p.clone(), b.as_ref().map(|b| b.0.clone()))).collect() }).collect()),
            Cmd::Threads(j) => Kind::Threads(j.iter().map(|j| LibJob { path: j.path.clone(), edits: vec![] }).collect()),
            Cmd::Calls(ps, threads) => Kind::Calls(ps.iter().map(|p| CallJob { args: p.cmd.args(p.spell), cwd: p.cwd.clone(), edits: p.pre.iter().filter_map(|x| match x { Pre::Put(f) => Some((f.path.clone(), Some(f.bytes()))), Pre::Raw(f, b) => Some((f.clone(), Some(b.0.clone()))), Pre::Del(f) => Some((f.clone(), None)), Pre::Loss(_) => None }).collect() }).collect(), *threads),
            c => Kind::Cli(c.args(p.spell)),
        }
    }
    pub fn exec_as(&mut self, v: &Vfs, p: &Proc, pid: i32) -> Outcome {
        let kind = Self::kind(p);
        if self.verbose { eprintln!("$ (cd {}) {:?} {:?} {:?}", p.cwd, kind, p.env, p.rng); }
        let o = self.run.run(&Spec { vfs: v, kind, env: &p.env, cwd: &p.cwd, faults: &p.faults, modes: &p.m, clk: &p.clk, rng: &p.rng, plan: &p.plan, pid });
        self.account(p, &o);
        o
    }
    fn account(&mut self, p: &Proc, o: &Outcome) {
        if self.verbose {
            for (i, r) in o.ops.iter().enumerate() { if o.ops.len() < 300 || r.fault || r.ret < 0 || i < 20 { eprintln!("  {:4} t{} {:8} {} -> {}{}", i, r.tid, CLS_NAMES[r.cls as usize], r.path, r.ret, if r.fault { "  <= fault" } else { "" }); } }
            eprintln!("  => {:?}  fired {:?} notes {:?}\n--stdout\n{}\n--stderr\n{}\n--", o.exit, o.fired, o.notes, o.outs().chars().take(1500).collect::<String>(), o.errs().chars().take(3000).collect::<String>());
        }
        self.st.runs += 1;
        self.st.ops += o.ops.len() as u64;
        self.st.switches += o.switches.len() as u64;
        self.st.sim_ns += std::mem::take(&mut self.run.sim_ns);
        *self.st.cmds.entry(p.cmd.name().into()).or_insert(0) += 1;
        let ex = match o.exit { Exit::Code(0) => "success".to_string(), Exit::Code(101) => "panic".into(), Exit::Code(c) => format!("status {}", c), Exit::Signal(s) => format!("signal {}", s), e => format!("{:?}", e) };
        *self.st.exits.entry(ex).or_insert(0) += 1;
        for f in &o.fired {
            self.hits += 1;
            let n = if *f > u32::MAX - 8 { F_NAMES[(u32::MAX - *f) as usize].to_string() } else { p.faults.get(*f as usize).map(fault_name).unwrap_or_default() };
            *self.st.faults.entry(n).or_insert(0) += 1;
        }
        self.dig = mix(self.dig ^ o.digest);
        self.st.runs_seen.insert(o.digest);
        if matches!(o.exit, Exit::StepCap | Exit::Cpu | Exit::Full) { self.capped = true; }
        if o.escaped { self.st.escaped += 1; self.trouble = Some(format!("call outside the simulation: {:?}", o.notes)); }
        if o.exit == Exit::Harness { self.trouble = Some("simulated process ended in an unknown way".into()); }
    }
}
pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO", libc::EACCES => "EACCES", libc::EMFILE => "EMFILE", libc::ENFILE => "ENFILE", libc::ENOMEM => "ENOMEM", libc::EINTR => "EINTR", libc::ELOOP => "ELOOP", libc::ENOSPC => "ENOSPC",
        libc::EROFS => "EROFS", libc::EISDIR => "EISDIR", libc::EAGAIN => "EAGAIN", libc::ESTALE => "ESTALE", libc::EDQUOT => "EDQUOT", libc::EFBIG => "EFBIG", libc::EPIPE => "EPIPE", libc::ENOSYS => "ENOSYS",
        libc::EPERM => "EPERM", libc::ENOENT => "ENOENT", libc::ERANGE => "ERANGE", libc::ENOTDIR => "ENOTDIR", libc::ENAMETOOLONG => "ENAMETOOLONG", libc::EBADF => "EBADF", libc::EBUSY => "EBUSY", libc::ETXTBSY => "ETXTBSY", libc::EINVAL => "EINVAL", _ => "errno",
    }
}
pub fn fault_name(f: &Fault) -> String {
    let c = CLS_NAMES[f.cls as usize];
    match &f.kind {
        FK::Errno(e) => format!("{} {}{}", c, errno_name(*e), if f.cnt > 1000 { " for good" } else { "" }), FK::Short(0) => format!("{} accepts nothing", c), FK::Short(_) => format!("{} short", c),
        FK::Edit(_, Some(_)) => "file replaced".into(), FK::Edit(_, None) => "file removed".into(), FK::Trunc(..) => "file cut short in place".into(), FK::Jump(d) => if *d < 0 { "clock stepped back".into() } else { "clock stepped forward".into() },
        FK::KillBefore => format!("killed before {}", c), FK::KillAfter => format!("killed after {}", c), FK::KillMid(_) => format!("killed during {}", c), FK::SizeLie(_) => "wrong file size".into(),
    }
}

// ------------------------------------------------------------------------------ placing faults
/// errors a call of this class can really report
pub fn errnos(cls: u8) -> &'static [i32] {
    match cls {
        OPEN => &[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EINTR, libc::ELOOP, libc::EPERM],
        READ => &[libc::EIO, libc::EIO, libc::EISDIR, libc::EINTR, libc::EAGAIN, libc::ESTALE, libc::ENOMEM],
        WRITE => &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EINTR, libc::EAGAIN],
        OUT | ERR => &[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EINTR, libc::EAGAIN],
        CLOSE => &[libc::EIO, libc::EINTR],
        STAT => &[libc::EIO, libc::EACCES, libc::ENOMEM, libc::EINTR, libc::ESTALE],
        SEEK => &[libc::EIO, libc::EINVAL],
        META => &[libc::EIO, libc::EACCES, libc::ENOSPC],
        SYNC => &[libc::EIO, libc::ENOSPC],
        CLOCK => &[libc::EINVAL],
        RNGC => &[libc::EAGAIN, libc::ENOSYS, libc::EPERM, libc::EIO, libc::EINTR],
        CWD => &[libc::ENOENT, libc::EACCES, libc::ERANGE, libc::ENOMEM],
        _ => &[libc::EAGAIN, libc::ENOMEM],
    }
}
/// the call with this number in the log, as the target of a fault
pub fn target(ops: &[crate::journal::OpRec], i: usize) -> (u8, Option<String>, u32) {
    let o = &ops[i];
    let n = ops[..i].iter().filter(|x| x.cls == o.cls && x.path == o.path).count();
    (o.cls, Some(o.path.clone()), n as u32)
}
/// a fault on one of the calls that `want` accepts; weighted so that each file and class has a chance
pub fn place(r: &mut Rng, ops: &[crate::journal::OpRec], want: &dyn Fn(usize, &crate::journal::OpRec) -> bool) -> Option<usize> {
    let c: Vec<usize> = (0..ops.len()).filter(|i| want(*i, &ops[*i])).collect();
    if c.is_empty() { return None; }
    if r.chance(1, 3) { return Some(*r.pick(&c)); }
    // first the kind of call and the file, then which call
    let mut keys: Vec<(u8, &str)> = c.iter().map(|i| (ops[*i].cls, ops[*i].path.as_str())).collect();
    keys.sort(); keys.dedup();
    let k = *r.pick(&keys);
    let c: Vec<usize> = c.into_iter().filter(|i| (ops[*i].cls, ops[*i].path.as_str()) == k).collect();
    Some(match r.us(4) { 0 => c[0], 1 => c[c.len() - 1], _ => *r.pick(&c) })
}
/// hard failure of call number `i`
pub fn hard(r: &mut Rng, ops: &[crate::journal::OpRec], i: usize) -> Fault {
    let (cls, path, nth) = target(ops, i);
    let e = *r.pick(errnos(cls));
    let cnt = if e == libc::EINTR { 1 + r.below(3) as u32 } else { *r.pick(&[1, 1, 1, 2, 5, u32::MAX]) };
    Fault { cls, path, nth, cnt, kind: FK::Errno(e) }
}
/// short transfer at call number `i`
pub fn short(r: &mut Rng, ops: &[crate::journal::OpRec], i: usize) -> Fault {
    let (cls, path, nth) = target(ops, i);
    Fault { cls, path, nth, cnt: *r.pick(&[1, 1, 2, 7]), kind: FK::Short(*r.pick(&[1, 1, 2, 3, 16, 100, 4095])) }
}
/// transfers in pieces throughout
pub fn soft(r: &mut Rng, m: &mut Modes) {
    match r.us(6) {
        0 => m.read_cap = *r.pick(&[1, 2, 3, 7, 31, 32, 512, 1000, 4096, 65536]),
        1 => m.write_cap = *r.pick(&[1, 2, 5, 16, 100, 511, 1000, 4096, 65536]),
        2 => m.ragged = 1 + r.below(1 << 30),
        3 => { m.read_cap = *r.pick(&[64, 100, 8192]); m.write_cap = *r.pick(&[64, 100, 8192]); }
        4 => { m.ragged = 1 + r.below(1 << 30); m.read_cap = *r.pick(&[3, 50, 700]); }
        _ => { m.read_cap = 1 + r.below(300) as u32; m.write_cap = 1 + r.below(300) as u32; }
    }
    if m.read_cap > 0 && m.read_cap < 32 || m.write_cap > 0 && m.write_cap < 32 { m.max_ops = 3_000_000; }
}
/// only transfers in pieces happened
pub fn only_short(p: &Proc, o: &Outcome) -> bool {
    p.m.alloc_fail == 0 && p.m.heap == 0 && p.m.alloc_max == 0 && o.fired.iter().all(|f| *f == F_SREAD || *f == F_SWRITE || p.faults.get(*f as usize).map(|f| matches!(f.kind, FK::Short(n) if n > 0 && matches!(f.cls, READ | WRITE | OUT | ERR) )).unwrap_or(false))
}
pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { if it.peek() == Some(&'[') { it.next(); while let Some(c) = it.next() { if c.is_ascii_alphabetic() { break; } } } else if it.peek() == Some(&'(') { it.next(); it.next(); } } else { o.push(c) }
    }
    o
}
/// names generated for labels, made equal
pub fn mask(s: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'_' && i + 33 <= s.len() && s[i + 1..i + 33].iter().all(|c| c.is_ascii_hexdigit()) && s.get(i + 33).map(|c| !c.is_ascii_alphanumeric()).unwrap_or(true) { o.extend(b"_UNIQUE"); i += 33; } else { o.push(s[i]); i += 1; }
    }
    o
}
