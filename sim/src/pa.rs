//! Properties C01 to C06: generators and judges.
use crate::exec::*;
use crate::gen::*;
use crate::img::*;
use crate::model::*;
use crate::pb::set_out;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::vfs::*;
use crate::work::*;
use std::collections::{BTreeMap, BTreeSet};

pub const COMMANDS: [&str; 6] = ["assemble", "disassemble", "expand", "icon", "image", "vmi"];

/// one run of one of the commands on inputs it accepts
pub fn anycmd(r: &mut Rng, which: &str, w: W) -> Scen {
    let mut s = Scen::default();
    let cwd = *r.pick(&["/w", "/w", "/w/sub", "/home/u/my dir"]);
    let dir = *r.pick(&[cwd, "/w/data", "/home/u"]);
    let mut near = 200;
    let cmd = match which {
        "assemble" => return asm(r, w),
        "expand" => {
            let p = proj(r, w);
            let (cwd, main) = (p.cwd.clone(), p.main.clone());
            take(&mut s, p);
            let mut pr = Proc::new(Cmd::Expand { main: spelling(r, &cwd, &main) }, &cwd);
            pr.env = env(r, &cwd); pr.rng = rng_mode(r); pr.clk = clk(r); pr.spell = r.next() as u32;
            s.procs.push(pr);
            return s;
        }
        "disassemble" => {
            let f = format!("{}/{}", dir, *r.pick(&["in.vms", "rom.bin", "x"]));
            let b = match r.us(5) { 0 | 1 => code(r), 2 => program(r), _ => binary(r) };
            near = b.len() * 6;
            s.files.push(FileSpec::new(f.clone(), Content::Bin(Blob(b))));
            let out = outpath(r, &mut s, cwd, "out.s");
            Cmd::Dis { input: spelling(r, cwd, &f), out, ty: r.pick(&[None, None, Some("game"), Some("game"), Some("bios"), Some("file"), Some("raw")]).map(|s| s.to_string()), pos: r.bool(), arr: r.bool() }
        }
        "icon" => {
            let i = image(r, 0);
            let f = format!("{}/icon.{}", dir, i.ext());
            s.files.push(FileSpec::new(f.clone(), Content::Img(i)));
            let eye = if r.bool() { let e = image(r, 1); let g = format!("{}/eye.{}", dir, e.ext()); s.files.push(FileSpec::new(g.clone(), Content::Img(e))); Some(spelling(r, cwd, &g)) } else { None };
            let speed = if r.bool() { Some(r.range(0, 999).to_string()) } else { None };
            Cmd::Icon { img: spelling(r, cwd, &f), speed, eye }
        }
        "image" => {
            let i = image(r, 2);
            near = (i.w * i.h * i.nframes()) as usize;
            let f = format!("{}/pic.{}", dir, i.ext());
            s.files.push(FileSpec::new(f.clone(), Content::Img(i)));
            let out = if r.chance(3, 4) { Some(outpath(r, &mut s, cwd, "pic.s")) } else { None };
            Cmd::Image { img: spelling(r, cwd, &f), out, fmt: r.pick(&[None, Some("json"), Some("json-pretty"), Some("1bit-asm"), Some("1bit-asm-masked")]).map(|s| s.to_string()) }
        }
        _ => {
            let game = r.bool();
            near = 108;
            let f = format!("{}/{}", dir, *r.pick(&["game.vms", "A.VMS", "longer-name-than-8.vms", "data", "x.y.vms", "ICONDATA.VMS"]));
            s.files.push(FileSpec::new(f.clone(), Content::Bin(Blob(vms(r, game)))));
            let out = if r.bool() { Some(outpath(r, &mut s, cwd, "o.vmi")) } else { None };
            let copy = if r.bool() { Some(r.pick(&["me", "", "exactly thirty-two bytes long!!!", "a copyright notice that is longer than the field", "ünï"]).to_string()) } else { None };
            Cmd::Vmi { input: spelling(r, cwd, &f), out, copy, game }
        }
    };
    let out = cmd.out();
    let mut pr = Proc::new(cmd, cwd);
    pr.env = env(r, cwd); pr.rng = rng_mode(r); pr.clk = clk(r); pr.spell = r.next() as u32;
    s.procs.push(pr);
    if let Some(o) = out { old(r, &mut s, cwd, &o, near); }
    s
}

pub fn ok_line(o: &Outcome) -> Option<Option<u64>> {
    let t = strip_ansi(&o.errs());
    for l in t.lines().chain(strip_ansi(&o.outs()).lines()) {
        if let Some(k) = l.find("[OK]") {
            let d: String = l[k + 4..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
            return Some(d.parse().ok());
        }
    }
    None
}
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    format!("{} bytes instead of {}, first difference {}", got.len(), want.len(), match at { Some(i) => format!("at {:#x}: {:02x} instead of {:02x}", i, got[i], want[i]), None => "at the end of the shorter one".into() })
}
pub fn same(what: &str, got: Option<&Vec<u8>>, want: &[u8]) -> Option<Verdict> {
    match got { None => Some(viol(what, "no output file")), Some(g) if g != want => Some(viol(what, diff(g, want))), _ => None }
}
pub fn hurt(r: &mut Rng, c: &mut Ctx, s: &mut Scen, i: usize, want: &dyn Fn(usize, &crate::journal::OpRec) -> bool, shorts: bool) -> bool {
    let v = s.vfs();
    let o = c.exec(&v, &s.procs[i].healthy());
    for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3, 6]) {
        if let Some(k) = place(r, &o.ops, want) {
            let f = if shorts && matches!(o.ops[k].cls, READ | WRITE | OUT | ERR) && r.chance(1, 3) { short(r, &o.ops, k) } else { hard(r, &o.ops, k) };
            s.procs[i].faults.push(f);
        }
    }
    if r.chance(1, 5) { soft(r, &mut s.procs[i].m); }
    !s.procs[i].faults.is_empty()
}
pub fn starve(r: &mut Rng, c: &mut Ctx, s: &mut Scen, i: usize) {
    let v = s.vfs();
    let o = c.exec(&v, &s.procs[i].healthy());
    let m = &mut s.procs[i].m;
    if r.chance(1, 3) { m.alloc_max = *r.pick(&[256u64, 1000, 4096, 20_000, 100_000]); } else {
        m.alloc_fail = 1 + r.below(o.allocs.max(1));
        m.alloc_cnt = *r.pick(&[1, 1, 3, 1 << 40]);
    }
}

// ------------------------------------------------------------------------------------- C01
pub fn g01(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = asm(r, ALL);
    match r.us(24) {
        0..=3 => s.tag = "healthy".into(),
        4..=8 => { s.tag = "pieces".into(); soft(r, &mut s.procs[0].m); }
        9 => { s.tag = "interrupted".into(); s.procs[0].m.eintr = 2 + r.below(9) as u32; if r.bool() { soft(r, &mut s.procs[0].m); } }
        10 => { s.tag = "wrong sizes".into(); s.procs[0].m.size_lie = *r.pick(&[-1, 1, -100, 100, -1_000_000, 5000]); if r.bool() { soft(r, &mut s.procs[0].m); } }
        11 | 12 => { s.tag = "full disk".into(); let n = s.procs[0].clone(); let len = s.model(cmd_main(&n), &n.cwd).map(|m| m.image.len()).unwrap_or(10) as u64; s.procs[0].m.disk_free = Some(if r.chance(1, 5) { 0 } else { r.below(len + 2) }); if r.bool() { soft(r, &mut s.procs[0].m); } }
        13 => { s.tag = "few descriptors".into(); s.procs[0].m.fd_limit = 3 + r.below(3) as u32; }
        14 | 15 => { s.tag = "memory".into(); starve(r, c, &mut s, 0); }
        16 => { s.tag = "bad source".into(); spoil(r, &mut s); if r.bool() { soft(r, &mut s.procs[0].m); } }
        _ => { s.tag = "faults".into(); hurt(r, c, &mut s, 0, &|_, _| true, true); }
    }
    s
}
pub fn cmd_main(p: &Proc) -> &str { match &p.cmd { Cmd::Asm { main, .. } | Cmd::Expand { main } => main, _ => "" } }
pub fn j01(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let m = s.model(cmd_main(p), &p.cwd);
    if o.success() {
        let want = match m { Err(b) => return viol("bad-source-accepted", format!("{} but the run succeeded", b.what)), Ok(m) => m.image };
        c.reached(if c.hits > 0 { "success under faults or in pieces" } else { "success" });
        let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
        if let Some(x) = same("wrong-image", o.vfs.get(&out), &want) { return x; }
        if !o.ops.iter().any(|x| x.cls == ERR && (x.fault || x.ret < 0)) && p.m.err == Sink::Ok { if let Some(Some(n)) = ok_line(&o) { if n != want.len() as u64 { return viol("wrong-count", format!("OK line says {} bytes, file has {}", n, want.len())); } } }
        return Verdict::Pass;
    }
    if m.is_ok() && s.fair(p) && only_short(p, &o) && p.m.fd_limit > 8 && p.m.disk_free.is_none() && !matches!(o.exit, Exit::StepCap | Exit::Cpu) && p.m.out == Sink::Ok && !o.ops.iter().any(|x| x.ret == -(libc::EISDIR as i64)) {
        return viol("valid-project-refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>()));
    }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- errors in sources
/// text files the main file reaches, from the model
pub fn reach(s: &Scen) -> Vec<String> { let p = &s.procs[0]; s.model(cmd_main(p), &p.cwd).map(|m| m.texts).unwrap_or_default() }
pub fn bad_line(r: &mut Rng) -> String {
    r.pick(&["  ld zzmissing", "  zznosuch #1", "  .byte 777777", "  br 60000 + zzmissing", "  .word zzmissing", "  mov #1 $10", "  ld #1", "  add @R9", "  .byte \"unterminated", "  jmp", "  .bogus 1", " ]", "  .include \"zz-missing.s\"", "  .include bytes \"zz-missing.bin\"",
        "  .byte 1 / 0", "  %end", "  .org", "zzdup: nop\nzzdup: nop", "  .include sprite \"zz-missing.png\"", "  .byte 1,", "  mov #256, $10", "  bp $10, 8, 0", "  .text 1 \"abc\""]).to_string()
}
/// puts one error somewhere the run will meet it; true if done
pub fn spoil(r: &mut Rng, s: &mut Scen) -> bool {
    let texts = reach(s);
    if texts.is_empty() { return false; }
    let p = s.procs[0].clone();
    let m = match s.model(cmd_main(&p), &p.cwd) { Ok(m) => m, _ => return false };
    let t = r.pick(&texts).clone();
    match r.us(10) {
        0 if texts.len() > 1 => { let t = texts[1 + r.us(texts.len() - 1)].clone(); s.files.retain(|f| f.path != t); if r.chance(1, 3) { s.dirs.push(t); } }
        1 if !m.bins.is_empty() => { let t = r.pick(&m.bins).clone(); s.files.retain(|f| f.path != t); if r.chance(1, 3) { s.dirs.push(t); } }
        2 => { let f = s.file(&t).unwrap(); let mut b = f.bytes(); let i = r.us(b.len() + 1); b.insert(i, *r.pick(&[0x80u8, 0xff, 0xc3])); if std::str::from_utf8(&b).is_ok() { return false; } s.raw.push((t, Blob(b))); }
        3 => { s.modes.push((t, 0)); }
        4 if m.bins.iter().any(|b| s.files.iter().any(|f| f.path == *b && matches!(f.c, Content::Img(_)))) => {
            let b = m.bins.iter().find(|b| s.files.iter().any(|f| f.path == **b && matches!(f.c, Content::Img(_)))).unwrap().clone();
            let f = s.file(&b).unwrap();
            let n = f.bytes().len();
            if r.chance(1, 2) { if let Content::Img(i) = &mut f.c { crate::pc::misfits(r, i); } } else { f.cut = Some(r.us(n.min(20)) as u32); }
        }
        _ => {
            let k = r.us(crate::pc::PLANTS.len());
            let text = if r.chance(2, 5) && !crate::pc::PLANTS[k].cpp { crate::pc::clean(&crate::pc::PLANTS[k].parts.join("\n")) } else { bad_line(r) };
            let t2 = texts.iter().rev().find(|_| r.chance(1, 2)).unwrap_or(&t).clone();
            let f = s.file(&t2).unwrap();
            match &mut f.c {
                Content::Asm(l) => { let i = r.us(l.len() + 1); let inc: usize = i; l.insert(inc, L { l: Ln::Bad(text), st: 0 }); }
                Content::Cpp(l) => { let i = r.us(l.len() + 1); let k = r.us(crate::pc::PLANTS.len()); l.insert(i, L { l: Ln::Bad(if crate::pc::PLANTS[k].cpp { crate::pc::clean(crate::pc::PLANTS[k].parts[0]) } else { "#define zzq )".into() }), st: 0 }); }
                _ => return false,
            }
        }
    }
    true
}

// ------------------------------------------------------------------------------------- C02
pub fn g02(r: &mut Rng, c: &mut Ctx) -> Scen {
    for _ in 0..20 {
        let mut s = asm(r, W { stress: false, ..ALL });
        match r.us(10) {
            0..=3 => { s.tag = "bad source".into(); if !spoil(r, &mut s) { continue; } if r.chance(1, 3) { soft(r, &mut s.procs[0].m); } }
            4 => { s.tag = "memory".into(); starve(r, c, &mut s, 0); }
            5 => { s.tag = "few descriptors".into(); s.procs[0].m.fd_limit = 3; }
            _ => {
                s.tag = "input faults".into();
                let out = match outfile(&s, &s.procs[0]) { Some(o) => o, None => continue };
                let done = hurt(r, c, &mut s, 0, &|_, o| o.path != out && !matches!(o.cls, ERR | OUT | CLOCK | MISC), false);
                if !done { continue; }
                if r.chance(1, 6) { spoil(r, &mut s); }
            }
        }
        return s;
    }
    asm(r, ALL)
}
pub fn j02(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    if o.success() { return Verdict::Pass; }
    if matches!(o.exit, Exit::StepCap | Exit::Cpu) { return Verdict::Skip("not ended".into()); }
    if p.m.disk_free.is_some() || o.ops.iter().any(|x| x.path == out && (x.fault || x.ret < 0 && x.cls != STAT)) { return Verdict::Skip("output failed".into()); }
    c.reached(match o.exit { Exit::Code(1) => "failure reported", Exit::Code(101) => "failure by panic", _ => "aborted" });
    let ok = ok_line(&o);
    if ok.is_some() { return viol("ok-line-of-failed-run", format!("{:?}", o.exit)); }
    if o.err.is_empty() && p.m.err == Sink::Ok && !o.ops.iter().any(|x| x.cls == ERR && x.ret < 0) { return viol("silent-failure", format!("{:?} with nothing on standard error", o.exit)); }
    let (was, is) = (v.get(&out), o.vfs.get(&out));
    if was != is {
        if matches!(o.exit, Exit::Signal(_)) || p.m.alloc_fail > 0 || p.m.alloc_max > 0 {
            if let Ok(m) = s.model(cmd_main(p), &p.cwd) { if is == Some(&m.image) { return Verdict::Pass; } }
        }
        return viol("output-touched", format!("{:?}; output was {:?} bytes and is {:?} bytes; {}", o.exit, was.map(|b| b.len()), is.map(|b| b.len()), strip_ansi(&o.errs()).chars().take(200).collect::<String>()));
    }
    c.hits += 1;
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C03
pub fn g03(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&COMMANDS);
    let small = r.chance(2, 3);
    let mut s = anycmd(r, which, W { fallback: true, spell: true, imgs: true, small, stress: true });
    s.tag = which.into();
    if r.chance(1, 12) && s.procs[0].cmd.out().is_some() && which != "vmi" { set_out(&mut s.procs[0].cmd, "/dev/full"); s.raw.clear(); return s; }
    if r.chance(1, 12) { starve(r, c, &mut s, 0); return s; }
    let v = s.vfs();
    let o = c.exec(&v, &s.procs[0].healthy());
    let (file, len) = match outfile(&s, &s.procs[0]) { Some(f) => { let n = o.vfs.get(&f).map(|b| b.len()).unwrap_or(0); (Some(f), n as u64) } None => (None, o.out.len() as u64) };
    let p = &mut s.procs[0];
    let k = match r.us(5) { 0 => 0, 1 => len.saturating_sub(1), 2 => len.saturating_sub(1 + r.below(4)), _ => r.below(len + 1) };
    match &file {
        Some(f) => match r.us(8) {
            0..=2 => p.m.disk_free = Some(k),
            3 => { soft(r, &mut p.m); if r.bool() { p.m.disk_free = Some(k); } }
            _ => { for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, x| x.path == *f && matches!(x.cls, OPEN | WRITE | SEEK | SYNC | META)) { let x = if o.ops[i].cls == WRITE && r.chance(1, 3) { Fault { kind: FK::Short(r.below(len.max(1)) as u32), ..short(r, &o.ops, i) } } else { hard(r, &o.ops, i) }; p.faults.push(x); } } }
        },
        None => match r.us(8) {
            0 | 1 => p.m.out = Sink::Full(k), 2 => p.m.out = Sink::Closed(k), 3 => p.m.out = Sink::Eio, 4 => p.m.out = Sink::Again(k),
            5 => { soft(r, &mut p.m); p.m.out = Sink::Full(k) }
            _ => { for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, x| x.cls == OUT) { let x = if r.bool() { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; p.faults.push(x); } } }
        },
    }
    s
}
pub fn j03(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    if !o.success() { return Verdict::Pass; }
    let full = p.cmd.out().as_deref() == Some("/dev/full");
    if full {
        // nothing at all can be written there
        let mut q = p.healthy();
        set_out(&mut q.cmd, "/tmp/ref");
        let h = c.exec(&v, &q);
        if h.success() && h.vfs.get("/tmp/ref").map(|b| !b.is_empty()).unwrap_or(false) { return viol("lost-output", format!("{} to a full device reported as success", p.cmd.name())); }
        return Verdict::Pass;
    }
    let h = c.exec(&v, &p.healthy());
    if !h.success() { return Verdict::Skip("reference run fails".into()); }
    if c.hits > 0 { c.reached("success although writes were cut short"); }
    let (got, want) = outputs(s, p, &o, &h);
    if got != want { return viol("lost-output", format!("{} succeeded: {}", p.cmd.name(), diff(&got.unwrap_or_default(), &want.unwrap_or_default()))); }
    Verdict::Pass
}
/// what the two runs of the same process put out
pub fn outputs(s: &Scen, p: &Proc, o: &Outcome, h: &Outcome) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    match outfile(s, p) {
        Some(f) => { let t = |b: Option<&Vec<u8>>| b.map(|b| if matches!(p.cmd, Cmd::Vmi { .. }) { stampless(b) } else { b.clone() }); (t(o.vfs.get(&f)), t(h.vfs.get(&f))) }
        None => (Some(o.out.clone()), Some(h.out.clone())),
    }
}
pub fn stampless(b: &[u8]) -> Vec<u8> { let mut b = b.to_vec(); for x in b.iter_mut().skip(0x44).take(8) { *x = 0; } b }

// ------------------------------------------------------------------------------------- C04
pub fn g04(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "disassemble", "disassemble", "expand", "icon", "image", "vmi"]);
    let mut s = anycmd(r, which, W { fallback: false, spell: true, imgs: true, small: false, stress: true });
    s.tag = which.into();
    let a = s.procs[0].clone();
    let n = 1 + r.us(3);
    for _ in 0..n {
        let mut b = a.clone();
        b.rng = rng_mode(r);
        b.clk = clk(r);
        b.spell = r.next() as u32;
        if r.chance(3, 4) { b.env = env(r, &a.cwd); if r.chance(1, 4) { b.env.push(("TZ".into(), (*r.pick(&["UTC", "EST5EDT", "Nowhere/Land", ""])).into())); } }
        b.m.tty = r.bool();
        if r.chance(1, 3) { b.m.inp = 1 + r.us(3) as u8; }
        if r.chance(1, 4) { b.m.tty_of = r.us(3) as u8; }
        let v = s.vfs();
        let canon = |p: &str| v.resolve(&a.cwd, p, false).unwrap_or(p.into());
        if r.chance(1, 2) {
            // from another directory, the same files by other names
            let cwd = (*r.pick(&["/w", "/", "/w/src", "/elsewhere/deep", "/home/u"])).to_string();
            let out = b.cmd.out();
            let re = |r: &mut Rng, p: &mut String| { let c = canon(p); *p = spelling(r, &cwd, &c); };
            match &mut b.cmd {
                Cmd::Asm { main, .. } | Cmd::Expand { main } => re(r, main),
                Cmd::Dis { input, .. } | Cmd::Vmi { input, .. } => re(r, input),
                Cmd::Icon { img, eye, .. } => { re(r, img); if let Some(e) = eye { re(r, e) } }
                Cmd::Image { img, .. } => re(r, img),
                _ => {}
            }
            if let Some(o) = out { let has = !matches!(&b.cmd, Cmd::Vmi { out: None, .. } | Cmd::Image { out: None, .. }); if has { let mut x = o; re(r, &mut x); set_out(&mut b.cmd, &x); } }
            b.cwd = cwd.clone();
            b.env.retain(|e| e.0 != "PWD");
            if r.chance(4, 5) { b.env.push(("PWD".into(), cwd)); }
        }
        if r.chance(1, 2) { if let Some(f) = outfile(&s, &a) { let k = r.us(400); let d = r.bytes(k); b.pre.push(if r.chance(1, 3) { Pre::Del(f) } else { Pre::Raw(f, Blob(d)) }); } }
        if r.chance(1, 4) { soft(r, &mut b.m); }
        s.procs.push(b);
    }
    s
}
pub fn pre(v: &mut Vfs, p: &Proc) {
    for x in &p.pre { match x {
        Pre::Put(f) => v.put(&f.path, &f.bytes()), Pre::Raw(f, b) => v.put(f, &b.0), Pre::Del(f) => { v.nodes.remove(f); } Pre::Loss(_) => {}
    } }
    v.mkdirs(&p.cwd);
}
pub fn plain(cmd: &Cmd, b: Option<Vec<u8>>) -> Option<Vec<u8>> {
    b.map(|b| match cmd {
        Cmd::Vmi { .. } => stampless(&b),
        Cmd::Expand { .. } | Cmd::Icon { .. } => mask(&b).split_inclusive(|c| *c == b'\n').filter(|l| l.iter().find(|c| **c != b' ') != Some(&b';')).flatten().copied().collect::<Vec<u8>>(),
        _ => b,
    })
}
pub fn j04(s: &Scen, c: &mut Ctx) -> Verdict {
    let mut first: Option<(Exit, Option<Vec<u8>>)> = None;
    for (i, p) in s.procs.iter().enumerate() {
        let mut v = s.vfs();
        pre(&mut v, p);
        let o = c.exec(&v, p);
        let before = p.cmd.out().and_then(|n| v.resolve(&p.cwd, &n, true).ok());
        let got = plain(&p.cmd, if !o.success() { None } else { match &before { Some(f) => o.vfs.get(f).cloned(), None => Some(o.out.clone()) } });
        match &first {
            None => { if matches!(o.exit, Exit::StepCap | Exit::Cpu) { return Verdict::Skip("not ended".into()); } if o.success() { c.hits += 1; } first = Some((o.exit, got)) }
            Some((e, b)) => {
                if *e != o.exit { return viol("status-differs", format!("run 0 of {}: {:?}, run {}: {:?}; {}", p.cmd.name(), e, i, o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
                if *b != got { return viol("output-differs", format!("{}, run {}: {}", p.cmd.name(), i, diff(&got.unwrap_or_default(), b.as_ref().unwrap_or(&vec![])))); }
            }
        }
    }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C05
/// labels of the program that look as if they were made for an expansion
fn lookalikes(r: &mut Rng, p: &Proj) -> Proj {
    fn own(l: &[L], out: &mut Vec<String>) { for x in l { if let Ln::Macro(_, _, b) = &x.l { for y in b { if let Ln::MLab(n, ..) = &y.l { out.push(n.clone()); } } } } }
    let mut names = vec![];
    for f in &p.files { if let Content::Asm(l) = &f.c { own(l, &mut names); } }
    names.sort(); names.dedup();
    let mut q = p.clone();
    if names.is_empty() { return q; }
    let main = match q.files.iter_mut().find(|f| f.path == p.main) { Some(f) => f, None => return q };
    if let Content::Asm(l) = &mut main.c {
        for _ in 0..1 + r.us(3) {
            let n = r.pick(&names).clone();
            let sep = *r.pick(&["_", "_", "_", "", "__", "_l", "_0", "_m"]);
            let from = *r.pick(&[0, 0, 1, 1, 2, 9, 10]);
            for k in from..from + 1 + r.us(5) {
                let t = format!("{}{}{}", n, sep, k);
                // a local one belongs to whichever label stands before it
                let at = if n.starts_with('.') { r.us(l.len() + 1) } else if r.bool() { 0 } else { l.len() };
                l.insert(at, L { l: Ln::Label(t.clone(), None), st: r.next() as u32 });
                if !n.starts_with('.') && r.bool() { l.push(L { l: Ln::Word(vec![E::Nm(t)]), st: r.next() as u32 }); }
            }
        }
    }
    if q.model().is_ok() { q } else { p.clone() }
}
pub fn g05(r: &mut Rng, c: &mut Ctx) -> Scen {
    let p = if r.chance(1, 3) { many_calls(r) } else {
        let o = Opt { macros: 2 + r.us(6), lines: 10 + r.us(30), imgs: 0, bins: r.us(2), binmax: 50, ..Opt::any(r) };
        project(r, &o)
    };
    let p = if r.chance(1, 3) { lookalikes(r, &p) } else { p };
    let mut s = asm_of(r, p);
    match r.us(8) {
        0 => { s.tag = "weak random numbers".into(); s.procs[0].rng = match r.us(5) { 0 => RngMode::Const(r.next() as u8), 1 => RngMode::Const(0), 2 => RngMode::Counter, 3 => RngMode::Repeat(r.next() >> 20), _ => RngMode::Low(r.next() >> 20) }; }
        1 | 2 => { s.tag = "random source fails".into(); hurt(r, c, &mut s, 0, &|_, o| o.cls == RNGC, false); if r.chance(1, 3) { s.procs[0].rng = RngMode::Repeat(r.next() >> 20); } }
        3 => { s.tag = "random numbers in pieces".into(); let nth = r.below(6) as u32; s.procs[0].faults.push(Fault { cls: RNGC, path: None, nth, cnt: *r.pick(&[1, 3, 1000]), kind: FK::Short(1 + r.below(15) as u32) }); }
        _ => s.tag = "good random numbers".into(),
    }
    s
}
pub fn j05(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let m = s.model(cmd_main(p), &p.cwd);
    if o.success() {
        let m = match m { Err(b) => return viol("bad-source-accepted", b.what), Ok(m) => m };
        let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
        if let Some(x) = same("wrong-image", o.vfs.get(&out), &m.image) { return x; }
        if m.calls > 1 { c.hits += 1; c.reached("several expansions kept apart"); }
        return Verdict::Pass;
    }
    if let Ok(m) = &m { if m.calls > 0 { c.reached("run refused"); } }
    let good = matches!(p.rng, RngMode::Seeded(_)) && p.faults.iter().all(|f| matches!(f.kind, FK::Short(_))) && p.m == Modes { tty: p.m.tty, tty_of: p.m.tty_of, ..Modes::default() };
    if m.is_ok() && s.fair(p) && good && !matches!(o.exit, Exit::StepCap | Exit::Cpu) { return viol("valid-project-refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C06
/// another version of a text or data file
pub fn version(r: &mut Rng, f: &FileSpec) -> FileSpec {
    let mut g = f.clone();
    match &mut g.c {
        Content::Asm(l) => {
            for _ in 0..1 + r.us(3) {
                let b: Vec<BI> = (0..1 + r.us(4)).map(|_| BI::X(E::N(r.range(0, 255) as i32, 0))).collect();
                let at = match r.us(3) { 0 => l.len(), 1 => l.iter().position(|x| matches!(x.l, Ln::Inc(_) | Ln::Bytes(_))).map(|i| i + r.us(2)).unwrap_or(l.len()), _ => r.us(l.len() + 1) };
                l.insert(at, L { l: Ln::Byte(b), st: r.next() as u32 });
            }
            if r.chance(1, 3) { if let Some(i) = (0..l.len()).find(|i| matches!(l[*i].l, Ln::Byte(_) | Ln::Ins(..) | Ln::Raw(_)) && r.chance(1, 3)) { l.remove(i); } }
            if r.chance(1, 4) { for x in l.iter_mut() { x.st = r.next() as u32; } }
            if r.chance(1, 6) { for _ in 0..r.us(200) { l.insert(0, L { l: Ln::Raw("; xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx".into()), st: 0 }); } }
        }
        Content::Cpp(l) => { for x in l.iter_mut() { if let Ln::Equ(_, e) = &mut x.l { if r.bool() { *e = E::B('+', Box::new(e.clone()), Box::new(E::N(1 + r.us(3) as i32, 0))); } } } }
        Content::Bin(b) => { let mut n = b.0.len(); if r.bool() { n = r.us(n * 2 + 2); } b.0 = r.bytes(n); }
        Content::Img(i) => { i.seed ^= 1 + r.below(1 << 30); if r.chance(1, 3) { i.frames = 1 + r.below(3) as u32; } }
    }
    g
}
pub fn g06(r: &mut Rng, c: &mut Ctx) -> Scen {
    for _ in 0..20 {
        let (small, stress) = (r.bool(), r.chance(1, 4));
        let mut s = asm(r, W { spell: false, fallback: false, imgs: true, small, stress });
        s.links.clear();
        let p = s.procs[0].clone();
        let m = match s.model(cmd_main(&p), &p.cwd) { Ok(m) => m, _ => continue };
        let o = c.exec(&s.vfs(), &p.healthy());
        if !o.success() { continue; }
        let mut cand: Vec<String> = m.texts.clone();
        cand.extend(m.bins.clone());
        let k = 1 + r.us(3);
        for _ in 0..k {
            let f = r.pick(&cand).clone();
            let spec = s.files.iter().find(|x| x.path == f).unwrap().clone();
            let g = version(r, &spec);
            // somewhere in the run, mostly around the uses of this or another source
            let i = match r.us(3) { 0 => r.us(o.ops.len()), 1 => match place(r, &o.ops, &|_, x| x.path == f) { Some(i) => i, None => continue }, _ => match place(r, &o.ops, &|_, x| matches!(x.cls, OPEN | READ | STAT | CLOSE) && x.path.starts_with('/')) { Some(i) => i, None => continue } };
            let (cls, path, nth) = target(&o.ops, i);
            s.vers.push(g.clone());
            s.procs[0].faults.push(Fault { cls, path, nth, cnt: 1, kind: FK::Edit(f, Some(Blob(g.bytes()))) });
        }
        if r.chance(1, 3) { soft(r, &mut s.procs[0].m); }
        s.tag = "files replaced".into();
        return s;
    }
    asm(r, ALL)
}
pub fn j06(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    if !o.success() { c.reached("run failed"); return Verdict::Pass; }
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let got = o.vfs.get(&out).cloned().unwrap_or_default();
    // versions each file had while the run lasted
    let mut had: BTreeMap<String, Vec<Content>> = s.files.iter().map(|f| (f.path.clone(), vec![f.c.clone()])).collect();
    let mut replaced = BTreeSet::new();
    for (_, m) in &o.timeline { if let Mut::Replace { path, data } = m {
        if let Some(g) = s.vers.iter().find(|g| g.path == *path && g.bytes() == *data) { had.entry(path.clone()).or_default().push(g.c.clone()); if !s.files.iter().any(|f| f.path == *path) { return Verdict::Skip("created".into()); } replaced.insert(path.clone()); } else { return Verdict::Skip("unknown version".into()); }
    } }
    let t = s.tree();
    let links = BTreeMap::new();
    // choices are made one after another: what is included can depend on the version chosen
    fn search(t: &Tree, links: &BTreeMap<String, String>, cwd: &str, main: &str, had: &BTreeMap<String, Vec<Content>>, replaced: &BTreeSet<String>, cur: &mut Versions, done: &mut BTreeSet<String>, got: &[u8], left: &mut u32) -> Option<bool> {
        if *left == 0 { return None; }
        *left -= 1;
        let (far, rep) = assemble_far(&World { tree: t, links, cwd, bins: Some(cur) }, main);
        let open = far.uses.iter().find(|(c, sp)| replaced.contains(c) && !done.contains(sp)).map(|(c, sp)| (c.clone(), sp.clone(), None))
            .or_else(|| far.binuses.iter().filter(|(c, _)| replaced.contains(*c)).flat_map(|(c, n)| (0..*n).map(move |k| (c.clone(), format!("{}#{}", c, k), Some(k)))).find(|x| !done.contains(&x.1)));
        match open {
            None => Some(matches!(&rep, Ok(m) if m.image == got)),
            Some((c, key, use_)) => {
                done.insert(key.clone());
                let mut unsure = false;
                for v in &had[&c] {
                    match use_ { Some(k) => { cur.bins.insert((c.clone(), k), v.clone()); } None => { cur.texts.insert(key.clone(), v.clone()); } }
                    match search(t, links, cwd, main, had, replaced, cur, done, got, left) { Some(true) => return Some(true), None => unsure = true, _ => {} }
                }
                match use_ { Some(k) => { cur.bins.remove(&(c.clone(), k)); } None => { cur.texts.remove(&key); } }
                done.remove(&key);
                if unsure { None } else { Some(false) }
            }
        }
    }
    let mut left = 600;
    let f = search(&t, &links, &p.cwd, cmd_main(p), &had, &replaced, &mut Versions::default(), &mut BTreeSet::new(), &got, &mut left);
    match f {
        Some(true) => { if !replaced.is_empty() { c.hits += 1; c.reached("success with files replaced"); if s.model(cmd_main(p), &p.cwd).map(|m| m.image != got).unwrap_or(true) { c.reached("a later version was used"); } } Verdict::Pass }
        Some(false) => viol("mixed-versions", format!("the image ({} bytes) is not denoted by any choice of one version per file of {:?}", got.len(), replaced)),
        None => Verdict::Skip("too many combinations".into()),
    }
}
#[allow(dead_code)]
pub fn unused(_: &ImgSpec) {}
