//! Properties C09 to C13 and C15: generators and judges.
use crate::exec::*;
use crate::gen::*;
use crate::journal::OpRec;
use crate::model::*;
use crate::pa::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::vfs::*;
use crate::work::*;
use std::collections::BTreeSet;

// ------------------------------------------------------------------------------------- C09
/// the VMI file for a VMS file, time stamp left zero; None if the VMS file is too short to have the header
pub fn vmi_model(vms: &[u8], input: &str, copy: &str, game: bool) -> Option<Vec<u8>> {
    let off = if game { 0x200 } else { 0 };
    if vms.len() < off + 0x30 { return None; }
    let file = input.rsplit('/').next().unwrap().as_bytes();
    let base = if file.ends_with(b".vms") { &file[..file.len() - 4] } else { file };
    let fixed = |b: &[u8], n: usize| -> Vec<u8> { (0..n).map(|i| b.get(i).copied().unwrap_or(0)).collect() };
    let res = fixed(base, 8);
    let mut o: Vec<u8> = res.iter().zip(b"SEGA").map(|(a, b)| a & b).collect();
    o.extend(&vms[off + 0x10..off + 0x30]);
    o.extend(fixed(copy.as_bytes(), 32));
    o.extend([0; 10]);
    o.extend([1, 0]);
    o.extend(res);
    o.extend(fixed(file, 12));
    o.extend(if game { [2, 0, 0, 0] } else { [0; 4] });
    o.extend((vms.len() as u32).to_le_bytes());
    Some(o)
}
pub fn vmi_cmd(r: &mut Rng, s: &mut Scen) -> Proc {
    let cwd = *r.pick(&["/w", "/w", "/home/u/my dir", "/x.vms"]);
    let dir = *r.pick(&[cwd, "/w/data", "/home/u", "/w/a.vms/b", "/roms.vms.d"]);
    let game = r.bool();
    // the directories a name would be looked for in if the suffix were removed somewhere else
    for d in [cwd, dir] { if d.contains(".vms") && r.bool() { s.dirs.push(d.replace(".vms", "")); if r.bool() { s.dirs.push(d.replace(".vms", ".vmi")); } } }
    let name = *r.pick(&["game.vms", "A.VMS", "longer-name-than-8.vms", "data", "x.y.vms", "ICONDATA.VMS", "a.vms.vms", "SEGA.vms", "sega1234.vms", ".vms", "twelve-byte.", "abcdefgh.vms", "ab.vms", "x.vmsx", "vms", "über.vms", "sp ace.vms", "game.vmi.vms"]);
    let f = format!("{}/{}", dir, name);
    s.files.push(FileSpec::new(f.clone(), Content::Bin(Blob(vms(r, game)))));
    let out = if r.bool() { Some(outpath(r, s, cwd, r.clone().pick(&["o.vmi", "o", "game.vmi", "x.vms"]))) } else { None };
    let copy = if r.chance(2, 3) { Some(r.pick(&["me", "", "exactly thirty-two bytes long!!!", "a copyright notice that is longer than the field", "ünï", "(c) 1999", "thirty-one bytes and an accent é"]).to_string()) } else { None };
    let mut p = Proc::new(Cmd::Vmi { input: spelling(r, cwd, &f), out, copy, game }, cwd);
    p.env = env(r, cwd); p.rng = rng_mode(r); p.clk = clk(r); p.spell = r.next() as u32;
    p
}
pub fn g09(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = Scen::default();
    let p = vmi_cmd(r, &mut s);
    let (cwd, out) = (p.cwd.clone(), p.cmd.out().unwrap());
    s.procs.push(p);
    old(r, &mut s, &cwd, &out, 108);
    let input = s.files[0].path.clone();
    match r.us(12) {
        0 | 1 => s.tag = "healthy".into(),
        2..=4 => { s.tag = "pieces".into(); soft(r, &mut s.procs[0].m); if r.chance(1, 3) { s.procs[0].m.eintr = 2 + r.below(5) as u32; } }
        5 => { s.tag = "wrong sizes".into(); s.procs[0].m.size_lie = *r.pick(&[-1, 1, -100, 1000, -1_000_000, 5000]); }
        6 => { s.tag = "memory".into(); starve(r, c, &mut s, 0); }
        7 => { s.tag = "missing or short".into(); match r.us(4) { 0 => { s.files.clear(); } 1 => { s.modes.push((input, 0)); } _ => { let n = s.files[0].bytes().len(); s.files[0].cut = Some(r.us(n) as u32); } } }
        8 => { s.tag = "output faults".into(); hurt(r, c, &mut s, 0, &|_, o| o.path != input && matches!(o.cls, OPEN | WRITE | CLOSE), true); if r.bool() { s.procs[0].m.disk_free = Some(r.below(109)); } }
        _ => { s.tag = "input faults".into(); hurt(r, c, &mut s, 0, &|_, o| o.path == input, true); if r.chance(1, 4) { soft(r, &mut s.procs[0].m); } }
    }
    s
}
pub fn j09(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let (input, copy, game) = match &p.cmd { Cmd::Vmi { input, copy, game, .. } => (input, copy.clone().unwrap_or_default(), *game), _ => return Verdict::Skip("command".into()) };
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let src = v.resolve(&p.cwd, input, true).ok().filter(|f| *f != out).and_then(|f| v.get(&f).cloned());
    if o.success() {
        let src = match src { Some(b) => b, None => return viol("nothing-read", "success without a VMS file to read") };
        let want = match vmi_model(&src, input, &copy, game) { Some(w) => w, None => return Verdict::Skip("VMS file without a header".into()) };
        let got = o.vfs.get(&out).map(|b| stampless(b));
        c.hits += 1;
        c.reached("VMI file compared");
        if let Some(x) = same("wrong-vmi", got.as_ref(), &want) { return x; }
        return Verdict::Pass;
    }
    if matches!(o.exit, Exit::StepCap | Exit::Cpu) { return Verdict::Skip("not ended".into()); }
    // failed before writing: no call on the output went wrong
    if p.m.disk_free.is_none() && !o.ops.iter().any(|x| x.path == out && (x.fault || x.ret < 0 && x.cls != STAT)) {
        c.reached("failed before writing");
        if v.get(&out) != o.vfs.get(&out) && src.and_then(|b| vmi_model(&b, input, &copy, game)).map(|w| Some(w) != o.vfs.get(&out).map(|b| stampless(b))).unwrap_or(true) { return viol("output-touched", format!("{:?}; the old VMI file was changed: {:?} bytes, now {:?}", o.exit, v.get(&out).map(|b| b.len()), o.vfs.get(&out).map(|b| b.len()))); }
    }
    let fine = vmi_model(&v.resolve(&p.cwd, input, true).ok().and_then(|f| v.get(&f).cloned()).unwrap_or_default(), input, &copy, game).is_some();
    if fine && s.fair(p) && p.m.disk_free.is_none() && only_short(p, &o) && p.m.fd_limit > 8 { return viol("refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(200).collect::<String>())); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C10
pub fn kill(r: &mut Rng, ops: &[OpRec], want: &dyn Fn(usize, &OpRec) -> bool) -> Option<Fault> {
    let i = place(r, ops, want)?;
    let (cls, path, nth) = target(ops, i);
    let kind = match r.us(4) { 0 => FK::KillBefore, 1 => FK::KillAfter, _ if cls == WRITE || cls == OUT => { let n = ops[i].ret.max(1) as u64; FK::KillMid(r.below(n + 1) as u32) } _ => if r.bool() { FK::KillAfter } else { FK::KillBefore } };
    Some(Fault { cls, path, nth, cnt: 1, kind })
}
/// files of other people that lie close to the output and the inputs
fn neighbours(r: &mut Rng, s: &mut Scen) {
    let v = s.vfs();
    let mut near: Vec<String> = s.files.iter().map(|f| f.path.clone()).collect();
    near.extend(s.procs.iter().filter_map(|p| outfile(s, p)));
    for _ in 0..1 + r.us(5) {
        let f = r.pick(&near).clone();
        let n = match r.us(9) {
            0 => format!("{}.tmp", f), 1 => format!("{}~", f), 2 => format!("{}.bak", f), 3 => format!("{}/tmp", dirname(&f)), 4 => format!("{}.vmi", f.strip_suffix(".vms").unwrap_or(&f)), 5 => format!("/tmp/{}", f.rsplit('/').next().unwrap()),
            6 => f.rfind('.').map(|i| format!("{}.lst", &f[..i])).unwrap_or(format!("{}.lst", f)), 7 => "/w/out".to_string(), _ => format!("{}.old", f),
        };
        if v.nodes.contains_key(&n) || s.raw.iter().any(|x| x.0 == n) { continue; }
        let k = r.us(60);
        s.raw.push((n, Blob(r.bytes(k))));
    }
}
pub fn g10(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "disassemble", "expand", "icon", "image", "vmi", "vmi"]);
    let mut s = if which == "vmi" { let mut s = Scen::default(); let p = vmi_cmd(r, &mut s); let (cwd, o) = (p.cwd.clone(), p.cmd.out().unwrap()); s.procs.push(p); old(r, &mut s, &cwd, &o, 108); s } else { let small = r.chance(2, 3); anycmd(r, which, W { small, ..ALL }) };
    neighbours(r, &mut s);
    let w = s.procs[0].cmd.name();
    match r.us(10) {
        0 => s.tag = format!("{} healthy", w),
        2..=4 => { s.tag = format!("{} killed", w); let v = s.vfs(); let o = c.exec(&v, &s.procs[0].healthy()); if let Some(f) = kill(r, &o.ops, &|_, x| !matches!(x.cls, CLOCK)) { s.procs[0].faults.push(f); } if r.chance(1, 3) { soft(r, &mut s.procs[0].m); } }
        5 => { s.tag = format!("{} memory", w); starve(r, c, &mut s, 0); }
        1 | 6 if matches!(which, "assemble" | "expand") => { s.tag = format!("{} bad source", w); spoil(r, &mut s); }
        1 | 6 => { s.tag = format!("{} broken input", w); let i = r.us(s.files.len()); let n = s.files[i].bytes().len(); s.files[i].cut = Some(r.us(n + 1) as u32); }
        7 => { s.tag = format!("{} full disk", w); s.procs[0].m.disk_free = Some(r.below(200)); if r.bool() { soft(r, &mut s.procs[0].m); } }
        _ => { s.tag = format!("{} faults", w); hurt(r, c, &mut s, 0, &|_, _| true, true); }
    }
    s
}
pub fn j10(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let mut v = s.vfs();
    pre(&mut v, p);
    let o = c.exec(&v, p);
    let out = match p.cmd.out() { Some(n) => match v.resolve(&p.cwd, &n, true) { Ok(f) => Some(f), Err(_) => None }, None => None };
    let link = p.cmd.out().and_then(|n| v.resolve(&p.cwd, &n, false).ok());
    let mine = |f: &String| Some(f) == out.as_ref() || Some(f) == link.as_ref();
    let (was, is) = (v.files(), o.vfs.files());
    for (f, b) in &was {
        if mine(f) { continue; }
        match is.get(f) { None => return viol("file-removed", format!("{} ({:?}): {} is gone", p.cmd.name(), o.exit, f)), Some(x) if x != b => return viol("file-changed", format!("{} ({:?}): {} changed: {}", p.cmd.name(), o.exit, f, format!("{} bytes, were {}", x.len(), b.len()))), _ => {} }
    }
    let cut_off = !matches!(o.exit, Exit::Code(_));
    let meta_failed = o.ops.iter().any(|x| x.cls == META && (x.fault || x.ret < 0));
    for f in is.keys().filter(|f| !was.contains_key(*f) && !mine(f)) {
        if (cut_off || meta_failed) && out.as_ref().map(|o| dirname(o) == dirname(f)).unwrap_or(false) { c.reached("temporary file after a kill"); continue; }
        return viol("file-left-behind", format!("{} ({:?}): {}", p.cmd.name(), o.exit, f));
    }
    let (was, is): (BTreeSet<_>, BTreeSet<_>) = (v.others().into_iter().collect(), o.vfs.others().into_iter().collect());
    for x in was.symmetric_difference(&is) { if !mine(&x.0) && !cut_off { return viol("entry-changed", format!("{} ({:?}): {:?}", p.cmd.name(), o.exit, x)); } }
    c.hits += 1;
    c.reached(match o.exit { Exit::Code(0) => "after a successful run", Exit::Code(1) => "after a failed run", Exit::Code(_) => "after a panic", Exit::Killed => "after a kill", _ => "after another end" });
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C11
pub fn g11(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "assemble", "disassemble", "image", "vmi"]);
    let small = r.chance(2, 3);
    let mut s = anycmd(r, which, W { small, stress: false, ..ALL });
    if s.procs[0].cmd.out().is_none() { let o = format!("{}/again.s", s.procs[0].cwd); set_out(&mut s.procs[0].cmd, &o); }
    s.tag = which.into();
    let last = s.procs.pop().unwrap();
    let n = 1 + r.us(3);
    let orig = s.files.clone();
    let mut changed: BTreeSet<usize> = BTreeSet::new();
    for k in 0..n {
        let mut p = last.clone();
        p.rng = rng_mode(r);
        p.clk = clk(r);
        // the history before this run: edits, and the power failing
        if k > 0 && r.chance(2, 5) { p.pre.push(Pre::Loss(r.next() >> 16)); }
        for _ in 0..r.us(3) {
            if orig.is_empty() { break; }
            let i = r.us(orig.len());
            let f = &orig[i];
            match r.us(5) {
                0 => p.pre.push(Pre::Del(f.path.clone())),
                1 => { let mut g = f.clone(); let n = g.bytes().len(); g.cut = Some(r.us(n + 1) as u32); p.pre.push(Pre::Put(g)); }
                2 => { let n = r.us(300); p.pre.push(Pre::Raw(f.path.clone(), Blob(r.bytes(n)))); }
                _ => p.pre.push(Pre::Put(version(r, f))),
            }
            changed.insert(i);
        }
        if r.chance(1, 4) { if let Some(of) = outfile(&Scen { procs: vec![last.clone()], ..s.clone() }, &last) { let k = r.us(3000); p.pre.push(if r.bool() { Pre::Raw(of, Blob(r.bytes(k))) } else { Pre::Del(of) }); } }
        // how it ends
        let v = { let mut v = s.vfs(); pre(&mut v, &p); v };
        let o = c.exec(&v, &p.healthy());
        match r.us(8) {
            0 | 1 => {}
            2..=4 => { if let Some(f) = kill(r, &o.ops, &|_, x| matches!(x.cls, OPEN | READ | WRITE | CLOSE | META | SYNC)) { p.faults.push(f); } }
            5 => { let n = o.vfs.files().values().map(|b| b.len()).max().unwrap_or(1) as u64; p.m.disk_free = Some(r.below(n.min(20_000) + 1)); }
            6 => { soft(r, &mut p.m); if let Some(f) = kill(r, &o.ops, &|_, x| matches!(x.cls, WRITE | READ)) { p.faults.push(Fault { nth: f.nth + r.below(6) as u32, ..f }); } }
            _ => { if let Some(i) = place(r, &o.ops, &|_, x| matches!(x.cls, OPEN | READ | WRITE | CLOSE | STAT)) { let f = hard(r, &o.ops, i); p.faults.push(f); } }
        }
        s.procs.push(p);
    }
    let mut p = last;
    if r.chance(1, 2) { p.pre.push(Pre::Loss(r.next() >> 16)); }
    for i in changed { p.pre.push(Pre::Put(orig[i].clone())); }
    if r.chance(1, 5) { soft(r, &mut p.m); }
    s.procs.push(p);
    s
}
pub fn set_out(c: &mut Cmd, o: &str) { match c { Cmd::Asm { out, .. } | Cmd::Dis { out, .. } => *out = o.into(), Cmd::Image { out, .. } | Cmd::Vmi { out, .. } => *out = Some(o.into()), _ => {} } }
/// what may be left on the disk after a power failure
fn loss(before: &Vfs, o: &Outcome, seed: u64) -> Vfs {
    let mut r = Rng::new(seed);
    let mut v = o.vfs.clone();
    let was = before.files();
    for (f, new) in o.vfs.files() {
        let old = was.get(&f);
        if old == Some(&new) { continue; }
        let ino = match v.nodes.get(&f) { Some(Node::File(i)) => *i as u32, _ => continue };
        let lw = o.muts.iter().rposition(|m| matches!(m, Mut::Write { ino: i, .. } | Mut::Truncate { ino: i, .. } if *i == ino));
        let ls = o.muts.iter().rposition(|m| matches!(m, Mut::Sync { ino: i } if *i == ino));
        if ls > lw { continue; }
        let torn = |r: &mut Rng, fill: &dyn Fn(usize) -> u8| -> Vec<u8> { let b = *r.pick(&[1usize, 16, 512, 4096]); let keep: Vec<bool> = (0..new.len() / b + 1).map(|_| r.bool()).collect(); new.iter().enumerate().map(|(i, x)| if keep[i / b] { *x } else { fill(i) }).collect() };
        let d: Option<Vec<u8>> = match r.us(7) {
            0 => old.cloned(), 1 => if old.is_none() { None } else { Some(vec![]) }, 2 => Some(vec![]), 3 => { let k = r.us(new.len() + 1); Some(new[..k].to_vec()) }
            4 => Some(vec![0; new.len()]), 5 => Some(torn(&mut r, &|_| 0)), _ => { let ob = old.cloned().unwrap_or_default(); Some(torn(&mut r, &|i| ob.get(i).copied().unwrap_or(0))) }
        };
        match d { Some(d) => v.put(&f, &d), None => { v.nodes.remove(&f); } }
    }
    v
}
pub fn j11(s: &Scen, c: &mut Ctx) -> Verdict {
    let mut v = s.vfs();
    let mut prev: Option<(Vfs, Outcome)> = None;
    let n = s.procs.len();
    let (mut broken, mut seen) = (false, 0);
    for (i, p) in s.procs.iter().enumerate() {
        for x in &p.pre { if let (Pre::Loss(k), Some((b, o))) = (x, &prev) { v = loss(b, o, *k); seen += 1; } }
        pre(&mut v, p);
        let out = match p.cmd.out().map(|n| v.resolve(&p.cwd, &n, true)) { Some(Ok(f)) => f, _ => return Verdict::Skip("output path".into()) };
        if s.files.iter().any(|f| f.path == out) { return Verdict::Skip("output is an input".into()); }
        let o = c.exec(&v, p);
        if i + 1 == n {
            let mut fresh = v.clone();
            fresh.nodes.remove(&out);
            let h = c.exec(&fresh, p);
            if broken { c.reached("rerun after a run that was cut off"); }
            if seen > 0 { c.reached("rerun after a power failure"); }
            if h.exit != o.exit { return viol("rerun-status", format!("after the history {:?}, in a fresh directory {:?}", o.exit, h.exit)); }
            if !h.success() { return Verdict::Skip("fails in a fresh directory".into()); }
            c.hits += 1;
            let t = |b: Option<&Vec<u8>>| b.map(|b| if matches!(p.cmd, Cmd::Vmi { .. }) { stampless(b) } else { b.clone() });
            if let Some(x) = same("rerun-differs", t(o.vfs.get(&out)).as_ref(), &t(h.vfs.get(&out)).unwrap_or_default()) { return x; }
            return Verdict::Pass;
        }
        if o.exit == Exit::Killed || matches!(o.exit, Exit::Signal(_)) {
            broken = true;
            if v.get(&out) != o.vfs.get(&out) {
                // it has begun to write: then everything it needs has been read
                let ino = match v.nodes.get(&out) { Some(Node::File(i)) => Some(*i as u32), _ => None };
                let at = o.timeline.iter().find(|(_, m)| match m { Mut::Create { path, .. } | Mut::Unlink { path } | Mut::Replace { path, .. } | Mut::Remove { path } => *path == out, Mut::Rename { to, from } => *to == out || *from == out, Mut::Truncate { ino: i, .. } | Mut::Write { ino: i, .. } => Some(*i) == ino, _ => false }).map(|x| x.0);
                let h = c.exec(&v, &p.healthy());
                let opened = |ops: &[OpRec]| -> BTreeSet<String> { ops.iter().filter(|x| x.cls == OPEN && x.ret >= 0 && s.files.iter().any(|f| f.path == x.path)).map(|x| x.path.clone()).collect() };
                if let Some(k) = at {
                    let need = opened(&h.ops);
                    let have = opened(&o.ops[..k.min(o.ops.len())]);
                    if let Some(f) = need.difference(&have).next() { return viol("killed-early", format!("run {} was killed after it had changed the output but before it had opened {}", i, f)); }
                    c.reached("killed while writing");
                }
            } else { c.reached("killed before writing"); }
        }
        let before = std::mem::replace(&mut v, o.vfs.clone());
        prev = Some((before, o));
    }
    Verdict::Skip("no run".into())
}

// ------------------------------------------------------------------------------------- C12
fn moved(p: Proj, to: &str) -> (Vec<FileSpec>, String) {
    (p.files.into_iter().map(|mut f| { f.path = format!("{}{}", to, f.path); f }).collect(), format!("{}{}", to, p.main))
}
pub fn g12(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let mut s = Scen::default();
    let cwd = "/j0/w".to_string();
    let n = 2 + r.us(3);
    let mut mains: Vec<String> = vec![];
    let twins = r.chance(1, 3);
    let mut first: Option<Proj> = None;
    for i in 0..n {
        let p = match (&first, twins) {
            // the same names with other contents
            (Some(f), true) => { let mut f = f.clone(); for x in f.files.iter_mut() { if r.bool() { *x = version(r, x); } } f }
            _ => { let w = W { spell: false, fallback: false, imgs: r.chance(1, 4), small: r.chance(2, 3), stress: false }; let mut o = if w.small { Opt::small(r) } else { Opt::any(r) }; o.spell = false; o.fallback = false; if !w.imgs { o.imgs = 0; } o.macros = r.us(5); o.binmax = o.binmax.min(1000); if r.bool() { o.layout = Some(2); } project(r, &o) }
        };
        if first.is_none() { first = Some(p.clone()); }
        let (files, main) = moved(p, &format!("/j{}", i));
        let k = s.files.len();
        s.files.extend(files);
        if r.chance(1, 5) {
            let texts: Vec<usize> = (k..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_))).collect();
            let f = &mut s.files[*r.pick(&texts)];
            let text = bad_line(r);
            if let Content::Asm(l) = &mut f.c { let at = r.us(l.len() + 1); l.insert(at, L { l: Ln::Bad(text), st: 0 }); }
        }
        mains.push(main);
    }
    let threads = r.chance(3, 5);
    let jn = n + r.us(3);
    let mut jobs = vec![];
    let mut extra = vec![];
    for k in 0..jn {
        let m = if k < n && r.chance(4, 5) { mains[k].clone() } else { r.pick(&mains).clone() };
        let m = if r.chance(1, 3) { relative(&cwd, &m) } else { m };
        let mut edits = vec![];
        if !threads && k > 0 && r.chance(1, 2) {
            for _ in 0..1 + r.us(2) {
                let f = s.files[r.us(s.files.len())].clone();
                match r.us(6) { 0 => edits.push((f.path.clone(), None)), 1 => { edits.push((f.path.clone(), Some(Blob(f.bytes())))) } _ => { let g = version(r, &f); edits.push((g.path.clone(), Some(Blob(g.bytes())))); extra.push(g); } }
            }
        }
        jobs.push(Job { path: m, edits });
    }
    let cmd = if threads { Cmd::Threads(jobs) } else { Cmd::Lib(jobs) };
    s.tag = cmd.name().into();
    let mut p = Proc::new(cmd, &cwd);
    p.env = env(r, &cwd); p.rng = rng_mode(r); p.clk = clk(r);
    if threads { p.plan = Plan::Seeded(r.next() >> 16, *r.pick(&[1, 2, 3, 8, 30])); }
    if r.chance(1, 4) { soft(r, &mut p.m); }
    s.procs.push(p);
    s
}
pub fn j12(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let (jobs, threads) = match &p.cmd { Cmd::Lib(j) => (j, false), Cmd::Threads(j) => (j, true), _ => return Verdict::Skip("command".into()) };
    let o = c.exec(&v, p);
    if o.exit == Exit::Deadlock { return viol("deadlock", "the threads wait for one another for ever"); }
    if !matches!(o.exit, Exit::Code(0)) { return viol("process-ended", format!("{:?}: {}", o.exit, o.errs().chars().take(300).collect::<String>())); }
    let mut cur = v.clone();
    let mut edited = false;
    for (i, j) in jobs.iter().enumerate() {
        for (f, b) in &j.edits { edited = true; match b { Some(b) => cur.put(f, &b.0), None => { cur.nodes.remove(f); } } }
        let base = if threads { &v } else { &cur };
        let alone = Proc { cmd: Cmd::Lib(vec![Job { path: j.path.clone(), edits: vec![] }]), plan: Plan::None, ..p.clone() };
        let h = c.exec(base, &alone);
        let want = match h.results.first() { Some(r) => r, None => return Verdict::Skip("no result alone".into()) };
        let got = match o.results.iter().find(|r| r.0 == i as u32) { Some(r) => r, None => return viol("no-result", format!("job {} of {} gave no result", i, jobs.len())) };
        let show = |r: &(u32, bool, Vec<u8>)| if r.1 { format!("{} bytes", r.2.len()) } else { String::from_utf8_lossy(&mask(&r.2)).chars().take(200).collect() };
        if got.1 != want.1 || if got.1 { got.2 != want.2 } else { mask(&got.2) != mask(&want.2) } { return viol("job-differs", format!("job {} ({}): {} instead of {}", i, j.path, show(got), show(want))); }
        if threads || !edited { if let Ok(m) = s.model(&j.path, &p.cwd) { if !got.1 { return viol("job-refused", show(got)); } if got.2 != m.image { return viol("wrong-image", format!("job {} ({})", i, j.path)); } } }
        c.reached(if got.1 { "job gave an image" } else { "job gave an error" });
    }
    c.hits += 1;
    if threads && o.switches.len() > 1 { c.reached("threads interleaved"); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C13
/// a file that includes itself again, or a macro that calls itself
fn endless(r: &mut Rng, s: &mut Scen) {
    let texts: Vec<usize> = (0..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_))).collect();
    if texts.is_empty() { return; }
    let (i, j) = (*r.pick(&texts), *r.pick(&texts));
    let (from, to) = (s.files[i].path.clone(), s.files[j].path.clone());
    let rel = relative(dirname(&from), &to);
    let up = dirname(&from).rsplit('/').next().unwrap_or("").to_string();
    let path = match r.us(4) { 0 => to, 1 => format!("./{}", rel), 2 if !up.is_empty() => format!("../{}/{}", up, rel), _ => rel };
    let back = match r.us(5) { 0 | 1 => L { l: Ln::Inc(path), st: r.next() as u32 },
        2 => L { l: Ln::Bad("%macro zzring\n nop\n zzring\n%end\n zzring".into()), st: 0 },
        3 => L { l: Ln::Bad("%macro zzodd %n\n nop\n zzeven %n\n%end\n%macro zzeven %n\n zzodd %n\n%end\n zzeven 3".into()), st: 0 },
        _ => L { l: Ln::Bad("%macro zztwo %n\n zztwo %n\n zztwo %n\n%end\n zztwo #1".into()), st: 0 } };
    if let Content::Asm(ls) = &mut s.files[i].c {
        let at = if r.bool() { ls.len() } else { r.us(ls.len() + 1) };
        ls.insert(at, back);
    }
}
pub fn g13(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&COMMANDS);
    let small = r.chance(3, 4);
    let stress = small && r.chance(1, 20);
    let mut s = anycmd(r, which, W { small, stress, ..ALL });
    if r.chance(1, 8) && matches!(which, "assemble" | "expand") { spoil(r, &mut s); }
    let w = s.procs[0].cmd.name();
    let circle = matches!(which, "assemble" | "expand") && r.chance(1, 8);
    if circle { endless(r, &mut s); }
    let v = s.vfs();
    let o = c.exec(&v, &s.procs[0].healthy());
    let p = &mut s.procs[0];
    if circle && r.bool() { s.tag = format!("{} endless inclusion", w); if r.bool() { soft(r, &mut p.m); } return s; }
    match r.us(10) {
        0 => { s.tag = format!("{} single bytes", w); p.m.read_cap = 1; p.m.write_cap = 1; if r.bool() { p.m.eintr = 2; } }
        1 => { s.tag = format!("{} disk stays full", w); p.m.disk_free = Some(r.below(50)); if r.bool() { p.m.write_cap = 1; } }
        2 => { s.tag = format!("{} stream refuses", w); let k = r.below(40); let sk = [Sink::Full(k), Sink::Closed(k), Sink::Eio, Sink::BadFd, Sink::Again(k)]; if r.bool() { p.m.out = r.pick(&sk).clone(); } else { p.m.err = r.pick(&sk).clone(); } if r.chance(1, 3) { p.m.out = r.pick(&sk).clone(); } }
        3 => { s.tag = format!("{} clock runs backwards", w); let i = place(r, &o.ops, &|_, x| x.cls == CLOCK); match i { Some(i) => { let (cls, path, nth) = target(&o.ops, i); p.faults.push(Fault { cls, path, nth, cnt: u32::MAX, kind: FK::Jump(-(r.range(1, 4_000_000_000))) }); } None => soft(r, &mut p.m) } }
        4 => { s.tag = format!("{} wrong sizes", w); p.m.size_lie = *r.pick(&[-1_000_000, -1, 1, 1 << 30, 5000]); }
        5 => { s.tag = format!("{} interruptions", w); if let Some(i) = place(r, &o.ops, &|_, x| matches!(x.cls, OPEN | READ | WRITE | OUT | ERR | CLOSE | STAT | RNGC)) { let (cls, path, nth) = target(&o.ops, i); p.faults.push(Fault { cls, path, nth, cnt: 20 + r.below(300) as u32, kind: FK::Errno(libc::EINTR) }); } }
        _ => {
            s.tag = format!("{} persistent fault", w);
            for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, _| true) {
                let (cls, path, nth) = target(&o.ops, i);
                let path = if r.chance(1, 4) { None } else { path };
                let kind = match cls { WRITE | OUT | ERR if r.chance(1, 2) => FK::Short(r.below(2) as u32), READ if r.chance(1, 3) => FK::Short(1), c => loop { let e = *r.pick(errnos(c)); if e != libc::EINTR && e != libc::ERANGE { break FK::Errno(e); } } };
                s.procs[0].faults.push(Fault { cls, path, nth, cnt: u32::MAX, kind });
            } }
        }
    }
    s
}
pub fn j13(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let h = c.exec(&v, &p.healthy());
    if h.exit == Exit::Full { return Verdict::Skip("too many events".into()); }
    if let Exit::Signal(g) = h.exit { return viol("odd-end", format!("{} is ended by signal {} on a healthy machine", p.cmd.name(), g)); }
    if !matches!(h.exit, Exit::Code(_)) { return if c.exec(&v, &p.healthy()).exit == h.exit && !matches!(h.exit, Exit::Signal(_)) { viol("does-not-end", format!("{:?} on a healthy machine", h.exit)) } else { Verdict::Skip("reference run".into()) }; }
    let bytes: i64 = h.ops.iter().filter(|x| matches!(x.cls, READ | WRITE | OUT | ERR) && x.ret > 0).map(|x| x.ret).sum();
    let eintr: u64 = p.faults.iter().filter(|f| f.kind == FK::Errno(libc::EINTR)).map(|f| f.cnt as u64).sum();
    let bound = 6 * h.ops.len() as u64 + 8 * bytes as u64 + 4 * eintr + 6000;
    let mut q = p.clone();
    q.m.max_ops = bound as _;
    let hits = c.hits;
    let o = c.exec(&v, &q);
    if c.hits > hits { c.reached("fault took effect"); }
    match o.exit {
        Exit::Code(_) => { if o.ops.len() > h.ops.len() * 2 { c.reached("more than twice the calls of a healthy run"); } Verdict::Pass }
        Exit::Full => Verdict::Skip("too many events".into()),
        Exit::StepCap | Exit::Cpu | Exit::Deadlock => {
            if c.exec(&v, &q).exit != o.exit { return Verdict::Skip("not repeatable".into()); }
            let tail: Vec<String> = o.ops.iter().rev().take(3).map(|x| format!("{} {} -> {}", CLS_NAMES[x.cls as usize], x.path, x.ret)).collect();
            viol("does-not-end", format!("{}: {:?} after {} system calls (healthy run: {} calls, {} bytes); last: {}", p.cmd.name(), o.exit, o.ops.len(), h.ops.len(), bytes, tail.join("; ")))
        }
        e => { if matches!(e, Exit::Signal(_)) && (p.m.alloc_fail > 0 || p.m.alloc_max > 0) { Verdict::Pass } else { viol("odd-end", format!("{:?}", e)) } }
    }
}

// ------------------------------------------------------------------------------------- C15
pub fn g15(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "assemble", "disassemble", "expand", "icon", "image", "vmi"]);
    let small = r.chance(2, 3);
    let stress = r.chance(1, 10);
    let mut s = anycmd(r, which, W { small, stress, ..ALL });
    if matches!(which, "assemble" | "expand") { if r.chance(3, 5) { spoil(r, &mut s); } }
    else if r.chance(2, 5) { match r.us(3) { 0 => { let i = r.us(s.files.len()); s.files.remove(i); } _ => { let i = r.us(s.files.len()); let n = s.files[i].bytes().len(); s.files[i].cut = Some(r.us(n + 1) as u32); } } }
    s.tag = s.procs[0].cmd.name().into();
    let v = s.vfs();
    let o = c.exec(&v, &s.procs[0].healthy());
    let len = o.err.len() as u64;
    let p = &mut s.procs[0];
    let k = if r.bool() { 0 } else { r.below(len + 1) };
    match r.us(9) {
        0 => p.m.err = Sink::Closed(k), 1 => p.m.err = Sink::Full(k), 2 => p.m.err = Sink::Eio, 3 => p.m.err = Sink::BadFd, 4 => p.m.err = Sink::Again(k),
        5 => { p.m.write_cap = 1 + r.below(20) as u32; if r.bool() { p.m.err = Sink::Full(k); } }
        _ => {
            let at = |r: &mut Rng| { let nth = r.below(o.ops.iter().filter(|x| x.cls == ERR).count().max(1) as u64) as u32; Fault { cls: ERR, path: None, nth, cnt: *r.pick(&[1, 1, 3, 20, u32::MAX]), kind: if r.chance(1, 3) { FK::Short(r.below(4) as u32) } else { FK::Errno(*r.pick(errnos(ERR))) } } };
            for _ in 0..1 + r.us(2) { let mut f = at(r); if f.kind == FK::Errno(libc::EINTR) { f.cnt = f.cnt.min(20); } p.faults.push(f); }
        }
    }
    s
}
pub fn j15(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let h = c.exec(&v, &p.healthy());
    if h.exit == Exit::Full { return Verdict::Skip("too many events".into()); }
    if !matches!(h.exit, Exit::Code(_)) { return Verdict::Skip("reference run".into()); }
    let hits = c.hits;
    let o = c.exec(&v, p);
    if c.hits == hits && o.exit == h.exit { return Verdict::Skip("standard error not used".into()); }
    c.reached(&format!("{} that ends with status {}", p.cmd.name(), match h.exit { Exit::Code(c) => c, _ => -1 }));
    if o.exit != h.exit { return viol("status-changed", format!("{}: {:?} with a failing standard error, {:?} otherwise", p.cmd.name(), o.exit, h.exit)); }
    let strip = |v: &Vfs| -> Vec<(String, Vec<u8>)> { v.files().into_iter().map(|(f, b)| { let b = if matches!(p.cmd, Cmd::Vmi { .. }) && b.len() == 108 { stampless(&b) } else { b }; (f, b) }).collect() };
    if strip(&o.vfs) != strip(&h.vfs) { return viol("output-changed", format!("{}: files differ from those of a run with a working standard error", p.cmd.name())); }
    if o.out != h.out { return viol("output-changed", format!("{}: standard output differs", p.cmd.name())); }
    Verdict::Pass
}
