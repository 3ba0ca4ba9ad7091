//! Workloads: projects, errors, binaries and images together with the way a command is pointed at them.
use crate::gen::*;
use crate::img::ImgSpec;
use crate::model::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug)]
pub struct W { /** includes spelled in several ways */ pub spell: bool, pub fallback: bool, pub imgs: bool, pub small: bool, pub stress: bool }
pub const ALL: W = W { spell: true, fallback: true, imgs: true, small: false, stress: true };

pub fn ln(r: &mut Rng, l: Ln) -> L { L { l, st: r.next() as u32 } }
fn n(v: i64) -> E { E::N(v as i32, 0) }

pub fn proj(r: &mut Rng, w: W) -> Proj {
    if w.stress && r.chance(1, 5) { return stress(r); }
    let mut o = if w.small || r.chance(1, 4) { Opt::small(r) } else { Opt::any(r) };
    if !w.imgs { o.imgs = 0; }
    o.fallback = w.fallback;
    o.spell = w.spell;
    project(r, &o)
}
/// projects that go to the limits of one thing
pub fn stress(r: &mut Rng) -> Proj {
    for _ in 0..20 { let k = r.us(7); let p = stressed(r, k); if p.model().is_ok() { return p; } }
    let o = Opt::any(r);
    project(r, &o)
}
pub fn many_calls(r: &mut Rng) -> Proj { for _ in 0..20 { let p = stressed(r, 0); if p.model().is_ok() { return p; } } panic!() }
pub fn stressed(r: &mut Rng, kind: usize) -> Proj {
    let mut fs: Vec<FileSpec> = vec![];
    let mut m: Vec<L> = vec![];
    macro_rules! add { ($v:expr, $l:expr) => {{ let l = $l; let st = r.next() as u32; $v.push(L { l, st }); }} }
    match kind {
        0 => {
            // one macro, expanded very often, with its own labels, and one that uses it
            let body = vec![ln(r, Ln::MLab("top".into(), None, false)), ln(r, Ln::Ins("nop".into(), vec![])), ln(r, Ln::Ins("bz".into(), vec![O::Ex(E::Lab("end".into()))])), ln(r, Ln::Ins("br".into(), vec![O::Ex(E::Lab("top".into()))])), ln(r, Ln::MLab("end".into(), None, false))];
            add!(m, Ln::Macro("spin".into(), vec![], body));
            let body = vec![ln(r, Ln::Call("spin".into(), vec![])), ln(r, Ln::MLab(".x".into(), None, true)), ln(r, Ln::Ins("add".into(), vec![O::Imm(E::Arg("v".into()))])), ln(r, Ln::Ins("jmpf".into(), vec![O::Ex(E::Lab(".x".into()))])), ln(r, Ln::Call("spin".into(), vec![]))];
            add!(m, Ln::Macro("twice".into(), vec!["v".into()], body));
            add!(m, Ln::Label("first".into(), None));
            let k = *r.pick(&[5usize, 40, 200, 300, 420, 600]);
            for i in 0..k { if r.chance(2, 3) { add!(m, Ln::Call("spin".into(), vec![])) } else { let v = r.range(0, 255); add!(m, Ln::Call("twice".into(), vec![O::Ex(n(v))])) } if i % 50 == 7 { add!(m, Ln::Label(format!("user{}", i), None)); add!(m, Ln::Local(".x".into())); } }
            add!(m, Ln::Word(vec![E::Nm("first".into())]));
        }
        1 => {
            // a chain of includes through directories
            let k = 2 + r.us(9);
            let mut at = "/w/src".to_string();
            let mut cur: &mut Vec<L> = &mut m;
            let mut all: Vec<(String, Vec<L>)> = vec![];
            for i in 0..k {
                let v = r.range(0, 255);
                let mut here = vec![];
                here.push(ln(r, Ln::Byte(vec![BI::X(n(v))])));
                let d = *r.pick(&["", "a/", "b c/", "../up/", "../../x/", "deep/er/"]);
                let p = format!("{}l{}.s", d, i);
                here.push(ln(r, Ln::Inc(p.clone())));
                let v = r.range(-128, 255);
                here.push(ln(r, Ln::Byte(vec![BI::X(n(v)), BI::S(format!("end{}", i))])));
                let to = norm(&format!("{}/{}", at, p));
                at = dirname(&to).to_string();
                if i == 0 { cur.extend(here); } else { all.last_mut().unwrap().1.extend(here); }
                all.push((to, vec![]));
                let _ = &mut cur;
            }
            let v = r.range(0, 65535);
            all.last_mut().unwrap().1.push(ln(r, Ln::Word(vec![n(v)])));
            for (p, ls) in all { fs.push(FileSpec::new(p, Content::Asm(ls))); }
        }
        2 => {
            // the same files again and again
            let cnt = 1 + r.us(3);
            for i in 0..cnt {
                let mut c = vec![];
                for _ in 0..r.us(4) { let v = r.range(0, 255); c.push(ln(r, Ln::Byte(vec![BI::X(n(v))]))); }
                if r.bool() { let b = rand_bin(r, 40); fs.push(FileSpec::new(format!("/w/src/d{}.bin", i), Content::Bin(Blob(b)))); c.push(ln(r, Ln::Bytes(format!("d{}.bin", i)))); }
                let mut f = FileSpec::new(format!("/w/src/again{}.s", i), Content::Asm(c));
                f.nonl = r.bool();
                fs.push(f);
            }
            for k in 0..3 + r.us(40) { let i = r.us(cnt); add!(m, Ln::Inc(format!("again{}.s", i))); if r.chance(1, 4) { add!(m, Ln::Byte(vec![BI::X(n(k as i64))])) } }
        }
        3 => {
            // text that ends just around a block size, with something at the very end
            let size = *r.pick(&[4096i64, 8192, 16384, 32768, 65536]) + r.range(-2, 2);
            add!(m, Ln::Byte(vec![BI::X(n(1))]));
            let mut c = vec![L { l: Ln::Label("here".into(), None), st: 0 }];
            let tailed = L { l: Ln::Byte(vec![BI::X(n(0xA5))]), st: r.next() as u32 };
            let fixed = render(&[c[0].clone(), tailed.clone()], false, false, false).len() as i64;
            let mut left = size - fixed;
            while left > 0 { let k = left.min(1 + r.range(0, 200)); if k < 2 { c.push(L { l: Ln::Raw("".into()), st: 0 }); left -= 1; continue; } let f = *r.pick(&[';', ';', '*']); let t: String = std::iter::repeat(f).take(1).chain(std::iter::repeat('x').take(k as usize - 2)).collect(); let t = if f == '*' && !t.starts_with("***") { t.replacen('*', ";", 1) } else { t }; left -= t.len() as i64 + 1; c.push(L { l: Ln::Raw(t), st: 0 }); }
            c.push(tailed);
            fs.push(FileSpec::new("/w/src/big.s", Content::Asm(c)));
            add!(m, Ln::Inc("big.s".into()));
            add!(m, Ln::Word(vec![E::Nm("here".into())]));
        }
        4 | 5 => {
            // data files around block sizes
            let mut total = 0;
            let mut used = vec![];
            for i in 0..1 + r.us(3) {
                let size = (*r.pick(&[0i64, 1, 512, 4096, 8192, 16384, 32768, 65536, 100_000]) + r.range(-1, 1)).max(0) as usize;
                if total + size > 150_000 { continue; }
                total += size;
                let b = r.bytes(size);
                fs.push(FileSpec::new(format!("/w/src/gfx/blk{}.bin", i), Content::Bin(Blob(b))));
                used.push(i);
            }
            add!(m, Ln::Label("start".into(), None));
            for _ in 0..2 { for i in &used { if r.chance(2, 3) && total < 90_000 || *i == used[0] { add!(m, Ln::Bytes(format!("gfx/blk{}.bin", i))); let v = r.range(0, 255); add!(m, Ln::Byte(vec![BI::X(n(v))])) } } if total > 90_000 { break; } }
            let (a, b) = *r.pick(&[(0, 512), (0, 4), (5, 16)]);
            add!(m, Ln::Cnop(a, b));
            add!(m, Ln::Word(vec![E::Nm("start".into())]));
        }
        _ => {
            // many names and many statements
            let k = *r.pick(&[200usize, 600, 1500]);
            for i in 0..k {
                match r.us(5) { 0 => add!(m, Ln::Label(format!("n{}", i), None)), 1 => add!(m, Ln::Equ(format!("e{}", i), n(i as i64))), 2 => add!(m, Ln::Ins("nop".into(), vec![])), 3 => { let v = r.range(0, 511); add!(m, Ln::Ins("ld".into(), vec![O::Ex(n(v))])) } _ => { let s: String = (0..r.us(60)).map(|_| (b'a' + r.below(26) as u8) as char).collect(); add!(m, Ln::Byte(vec![BI::S(format!("{}_", s))])) } }
            }
            let have: Vec<String> = m.iter().filter_map(|l| match &l.l { Ln::Label(n, _) | Ln::Equ(n, _) => Some(n.clone()), _ => None }).collect();
            for _ in 0..10 { if !have.is_empty() { let e = E::Nm(r.pick(&have).clone()); add!(m, Ln::Word(vec![e])) } }
        }
    }
    fs.push(FileSpec::new("/w/src/main.s", Content::Asm(m)));
    let cwd = *r.pick(&["/w/src", "/w", "/w/build"]);
    Proj { files: fs, links: BTreeMap::new(), main: "/w/src/main.s".into(), cwd: cwd.into() }
}

/// the way `path` may be written from `cwd`
pub fn spelling(r: &mut Rng, cwd: &str, path: &str) -> String {
    let rel = relative(cwd, path);
    match r.us(5) { 0 => path.to_string(), 1 if !rel.starts_with('.') => format!("./{}", rel), 2 => { let base = cwd.rsplit('/').next().unwrap_or(""); if base.is_empty() { rel } else { format!("../{}/{}", base, rel) } } _ => rel }
}
pub fn env(r: &mut Rng, cwd: &str) -> Vec<(String, String)> {
    let mut e: Vec<(String, String)> = vec![];
    match r.us(8) { 0 => {} 1 => e.push(("PWD".into(), (*r.pick(&["/", "/tmp", "/nowhere", "", ".", "relative"])).into())), 2 => e.push(("PWD".into(), format!("{}/", cwd))), _ => e.push(("PWD".into(), cwd.into())) }
    for (k, v) in [("HOME", "/home/u"), ("LANG", "C"), ("LC_ALL", "de_DE.UTF-8"), ("TERM", "xterm"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("CLICOLOR", "0"), ("CLICOLOR_FORCE", "1"), ("COLUMNS", "20"), ("USER", "u"), ("OLDPWD", "/tmp"), ("TMPDIR", "/tmp"), ("PATH", "/bin"), ("SOURCE_DATE_EPOCH", "1"), ("RUST_LOG", "debug"), ("WATERBEAR_PATH", "/tmp")] {
        if r.chance(1, 7) && !e.iter().any(|x| x.0 == k) { e.push((k.into(), v.into())); }
    }
    // any variable nobody knows of
    if r.chance(1, 6) { e.push(("*".into(), (*r.pick(&["1", "0", "", "/tmp", "true", "sub", "debug"])).into())); }
    e
}
pub fn rng_mode(r: &mut Rng) -> RngMode { RngMode::Seeded(r.next() >> 12) }
pub fn clk(r: &mut Rng) -> Clk { Clk { start: r.range(0, 2_000_000_000) * 1_000_000_000 + r.range(0, 999_999_999), step: *r.pick(&[0, 1000, 20_000, 1_000_000, 300_000_000]), seed: r.next() >> 20 } }

/// where the output goes: (as written, directories needed, symlink), never one of the inputs
pub fn outpath(r: &mut Rng, s: &mut Scen, cwd: &str, name: &str) -> String {
    match r.us(7) {
        0 | 1 => name.to_string(),
        2 => { s.dirs.push("/out".into()); format!("/out/{}", name) }
        3 => { s.dirs.push(format!("{}/o d", cwd)); format!("o d/{}", name) }
        4 => format!("./{}", name),
        5 => { s.dirs.push("/real".into()); s.links.insert(format!("{}/{}", cwd, name), format!("/real/{}", name)); name.to_string() }
        _ => { s.dirs.push("/out/deep/er".into()); format!("/out/deep/er/{}", name) }
    }
}
/// maybe something in the place of the output already
pub fn old(r: &mut Rng, s: &mut Scen, cwd: &str, out: &str, near: usize) {
    if r.chance(1, 3) { return; }
    let v = s.vfs();
    if let Ok(p) = v.resolve(cwd, out, true) {
        if v.nodes.contains_key(&p) || p.starts_with("/dev") { return; }
        let n = match r.us(6) { 0 => 0, 1 => near + 1 + r.us(600), 2 => near, 3 => r.us(near.max(1)), 4 => near + 70_000, _ => r.us(300) };
        let b = r.bytes(n);
        s.raw.push((p, Blob(b)));
    }
}
pub fn take(s: &mut Scen, p: Proj) { s.files = p.files; s.links.extend(p.links); }

/// an assemble run over a project
pub fn asm(r: &mut Rng, w: W) -> Scen {
    let p = proj(r, w);
    asm_of(r, p)
}
pub fn asm_of(r: &mut Rng, p: Proj) -> Scen {
    let mut s = Scen::default();
    let near = p.model().map(|m| m.image.len()).unwrap_or(100);
    let (cwd, main) = (p.cwd.clone(), p.main.clone());
    take(&mut s, p);
    let name = *r.pick(&["game.vms", "out.bin", "a.vms"]);
    let out = outpath(r, &mut s, &cwd, name);
    let mut pr = Proc::new(Cmd::Asm { main: spelling(r, &cwd, &main), out: out.clone() }, &cwd);
    pr.env = env(r, &cwd);
    pr.rng = rng_mode(r);
    pr.clk = clk(r);
    pr.m.tty = r.chance(1, 6);
    pr.spell = r.next() as u32;
    s.procs.push(pr);
    old(r, &mut s, &cwd, &out, near);
    s
}
/// the output path of a process, resolved
pub fn outfile(s: &Scen, p: &Proc) -> Option<String> { p.cmd.out().and_then(|o| s.vfs().resolve(&p.cwd, &o, true).ok()) }

/// an image command or a project statement needs an image of a certain kind
pub fn image(r: &mut Rng, kind: u8) -> ImgSpec {
    let mut i = rand_img(r, kind);
    if kind == 2 && r.chance(1, 6) { i.w = 48 + r.below(20) as u32; i.h = 32; }
    i
}
/// a binary for the disassembler: made by assembling, or anything
pub fn binary(r: &mut Rng) -> Vec<u8> {
    match r.us(8) {
        0 => { let k = r.us(40); r.bytes(k) }
        1 => { let k = *r.pick(&[0x100usize, 0x1ff, 0x200, 0x201, 0x131]); r.bytes(k) }
        2 => { let k = *r.pick(&[0usize, 1, 2, 600, 5000]); vec![*r.pick(&[0u8, 0x00, 0xA0, 0xff, 0x20]); k] }
        3 => { let mut b = vec![0u8; 0x200 + r.us(3000)]; for x in [0usize, 3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b] { b[x] = 0xB0; } b[0] = 0x21; b[1] = 1; b[2] = 0x80 + r.below(8) as u8; for _ in 0..r.us(30) { let i = 0x150 + r.us(b.len() - 0x150); b[i] = r.next() as u8; } b }
        _ => { let o = Opt { layout: Some(0), ..Opt::any(r) }; let p = project(r, &Opt { imgs: 0, binmax: o.binmax.min(3000), ..o }); let mut b = p.model().map(|m| m.image).unwrap_or_default(); if r.chance(1, 3) && b.len() > 4 { for _ in 0..1 + r.us(5) { let i = r.us(b.len()); b[i] = r.next() as u8; } } b }
    }
}
/// the code the disassembler accepts is mostly benign: every path ends in a return
pub fn program(r: &mut Rng) -> Vec<u8> {
    // straight-line blocks with branches to one another
    let mut b: Vec<u8> = vec![];
    for i in 0..0x200usize { b.push(if [3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b].contains(&i) { 0xB0 } else if i == 0x130 { 0xA0 } else { 0 }); }
    b[0] = 0x21; b[1] = 0x02; b[2] = 0x00;
    b.extend((0..r.us(3)).flat_map(|_| vec![0u8; 0]));
    let nblk = 1 + r.us(12);
    let mut starts = vec![];
    let mut fix = vec![];
    for k in 0..nblk {
        if r.chance(1, 4) { let n = r.us(40); let d = if r.bool() { r.bytes(n) } else { vec![0; n] }; b.extend(d); }
        starts.push(b.len());
        for _ in 0..r.us(9) {
            match r.us(9) {
                0 => b.extend([0x81, r.next() as u8]), 1 => b.extend([0x22 | r.below(2) as u8, r.next() as u8, r.next() as u8]), 2 => b.extend([0x02 | r.below(2) as u8, r.next() as u8]), 3 => b.push(0x04 | r.below(4) as u8),
                4 => b.extend([0xC8 | r.below(8) as u8 | (r.below(2) as u8) << 4, *r.pick(&[0x00, 0x01, 0x08, 0x54, 0x7f, 0x1b, 0x1d])]), 5 => b.extend([0x60, r.next() as u8]),
                6 => { fix.push((b.len(), 3)); b.extend([0x20, 0, 0]); } 7 => b.extend([0x61 | r.below(2) as u8, *r.pick(&[0x1bu8, 0x1d, 0x00, 0x01, 0x4c])]), _ => b.push(0),
            }
        }
        if r.chance(1, 2) && k + 1 < nblk { b.extend([0x80 | (r.below(2) as u8) << 4, r.below(3) as u8]); b.extend([0, 0, 0]); }
        // a jump to the other memory
        if r.chance(1, 6) { b.extend([*r.pick(&[0xB8, 0xB8, 0xB9, 0xA8]), *r.pick(&[0x0D, 0x0D, 0x0D, 0x0C])]); if r.chance(1, 5) { starts.push(b.len()); } if r.bool() { fix.push((b.len(), 3)); } b.extend([0x21, r.next() as u8, r.next() as u8]); continue; }
        match r.us(3) { 0 => b.push(0xA0), 1 => { fix.push((b.len(), 3)); b.extend([0x21, 0, 0]); } _ => b.extend([0x01, 0xFE]) }
    }
    for (at, _) in fix { let t = *r.pick(&starts); b[at + 1] = (t >> 8) as u8; b[at + 2] = t as u8; }
    let tail = *r.pick(&[0usize, 0, 3, 16, 100, 512]);
    let d = if r.bool() { r.bytes(tail) } else { vec![0; tail] };
    b.extend(d);
    b
}
pub fn vms(r: &mut Rng, game: bool) -> Vec<u8> {
    let off = if game { 0x200 } else { 0 };
    let n = off + 0x30 + match r.us(5) { 0 => 0, 1 => r.us(40), 2 => 512 * (1 + r.us(20)), 3 => *r.pick(&[8192 - 0x30, 65536 - 0x30, 131072, 70_000]), _ => r.us(3000) };
    let mut b = r.bytes(n);
    if r.bool() { let t = b"A GAME OF WATER BEARS           "; b[off + 0x10..off + 0x30].copy_from_slice(t); }
    b
}
/// code of all forms: blocks that go to one another, also into the middle of instructions, and beyond
pub fn code(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![0u8; 0x200];
    for x in [3usize, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b] { b[x] = *r.pick(&[0xB0, 0xB0, 0xA0]); }
    b[0x130] = 0xA0;
    if r.chance(1, 3) { for x in [0x100usize, 0x108, 0x110, 0x120, 0x140, 0x1f0] { if r.bool() { b[x] = 0xA0; } } }
    let nblk = 1 + r.us(10);
    // (position, form) of every instruction
    let mut ins: Vec<(usize, &'static Form)> = vec![];
    let far = r.chance(1, 8);
    let mut at = 0x200;
    let mut gaps: Vec<(usize, usize)> = vec![];
    for _ in 0..nblk {
        let g = match r.us(6) { 0 => r.us(40), 1 => 16 * r.us(4), _ => 0 };
        gaps.push((at, g));
        at += g;
        if far && r.chance(1, 3) { at = (at + 0x1000) & !0xFFF; at -= r.us(8); }
        for _ in 0..r.us(10) { let f = loop { let f = r.pick(FORMS); if !["jmp", "jmpf", "br", "brf", "ret", "reti"].contains(&f.name) { break f; } }; ins.push((at, f)); at += f.size as usize; }
        if r.chance(1, 6) { let f = FORMS.iter().find(|f| f.name == "not1").unwrap(); ins.push((at, f)); at += 2; let f = FORMS.iter().find(|f| f.name == "jmpf").unwrap(); ins.push((at, f)); at += 3; continue; }
        let e = *r.pick(&["jmp", "jmpf", "br", "brf", "ret", "reti", "ret"]);
        let f = FORMS.iter().find(|f| f.name == e).unwrap();
        ins.push((at, f));
        at += f.size as usize;
    }
    if r.chance(1, 3) { at += r.us(70); }
    b.resize(at.min(0x10000), 0);
    if r.bool() { for (p, n) in gaps { for k in 0..n { if p + k < b.len() && r.chance(2, 3) { b[p + k] = r.next() as u8; } } } }
    let places: Vec<usize> = ins.iter().map(|x| x.0).collect();
    for k in 0..ins.len() {
        let (p, f) = ins[k];
        let next = (p + f.size as usize) as i64;
        let pick = |r: &mut Rng, ok: &dyn Fn(i64) -> bool| -> i64 {
            for _ in 0..12 {
                let mut t = *r.pick(&places) as i64;
                if r.chance(1, 25) { t += r.range(-2, 2); }
                if r.chance(1, 60) { t = *r.pick(&[0i64, 3, 0x130, 0x1f0, b.len() as i64, b.len() as i64 + 5]); }
                if ok(t) { return t; }
            }
            next.min(0xFFFF)
        };
        let v: Vec<i32> = f.ops.iter().map(|o| match o {
            K::Imm => r.us(256) as i32, K::R => r.us(4) as i32, K::B3 => r.us(8) as i32,
            K::D9 => if r.bool() { 0x100 + r.us(0x90) as i32 } else { r.us(512) as i32 },
            K::A16 => pick(r, &|t| (0..65536).contains(&t)) as i32,
            K::A12 => pick(r, &|t| t >> 12 == next >> 12) as i32,
            K::R8 => (pick(r, &|t| (-128..128).contains(&(t - next))) - next) as i32,
            K::R16 => (pick(r, &|t| (-32000..32000).contains(&(t - next))) - next + 1) as i32,
        }).collect();
        let mut e = encode(f, &v);
        if f.name == "not1" && ins.get(k + 1).map(|x| x.1.name == "jmpf").unwrap_or(false) && r.chance(4, 5) { e = vec![0xB8, 0x0D]; }
        for (i, x) in e.iter().enumerate() { if p + i < b.len() { b[p + i] = *x; } }
    }
    if !places.is_empty() { let t = *r.pick(&places); b[0] = 0x21; b[1] = (t >> 8) as u8; b[2] = t as u8; if r.bool() { b[1] = (places[0] >> 8) as u8; b[2] = places[0] as u8; } }
    for x in [0xbusize, 0x13, 0x1b, 0x43] { if r.chance(1, 6) && !places.is_empty() { let t = *r.pick(&places); b[x] = 0x21; b[x + 1] = (t >> 8) as u8; b[x + 2] = t as u8; } }
    b
}
