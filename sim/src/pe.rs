//! Properties C21 and C22: generators and judges.
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::pa::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::vfs::*;
use crate::work::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------- C21
/// very many files, one after another or within one another
fn crowd(r: &mut Rng) -> Proj {
    let mut fs: Vec<FileSpec> = vec![];
    let mut main: Vec<L> = vec![];
    let small = |r: &mut Rng| { let v = r.range(0, 255); ln(r, Ln::Byte(vec![BI::X(E::N(v as i32, 0))])) };
    let deep = r.bool();
    let k = *r.pick(&[6usize, 12, 20, 40, 80]);
    let mut cur: Vec<L> = vec![];
    let mut cur_path = "/w/src/main.s".to_string();
    for i in 0..k {
        if r.chance(2, 3) { let x = small(r); cur.push(x); }
        match r.us(8) {
            0 | 1 => { let n = r.us(50); let b = r.bytes(n); let p = format!("/w/src/b{}.bin", i); fs.push(FileSpec::new(p, Content::Bin(Blob(b)))); let x = ln(r, Ln::Bytes(format!("b{}.bin", i))); cur.push(x); }
            _ => {
                let p = format!("/w/src/f{}.s", i);
                let x = ln(r, Ln::Inc(format!("f{}.s", i)));
                cur.push(x);
                if deep { fs.push(FileSpec::new(cur_path.clone(), Content::Asm(std::mem::take(&mut cur)))); cur_path = p; }
                else { let a = small(r); let b = small(r); fs.push(FileSpec::new(p, Content::Asm(if r.bool() { vec![a, b] } else { vec![a] }))); }
            }
        }
    }
    let x = small(r); cur.push(x);
    if deep && cur_path != "/w/src/main.s" { fs.push(FileSpec::new(cur_path, Content::Asm(cur))); } else { main = cur; }
    if !fs.iter().any(|f| f.path == "/w/src/main.s") { fs.push(FileSpec::new("/w/src/main.s", Content::Asm(main))); }
    Proj { files: fs, links: BTreeMap::new(), main: "/w/src/main.s".into(), cwd: (*r.pick(&["/w/src", "/w/src", "/w/src", "/w/src"])).into() }
}
/// what the run has to have in memory at most: a multiple of what it reads and writes
pub fn moved(o: &Outcome) -> u64 {
    let b: u64 = o.ops.iter().filter(|x| matches!(x.cls, READ | WRITE | OUT | ERR) && x.ret > 0).map(|x| x.ret as u64).sum();
    b
}
pub fn g21(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let mut s = match r.us(10) {
        0..=3 => { let p = crowd(r); let mut s = asm_of(r, p); s.tag = "many files".into(); if r.chance(1, 4) { s.procs[0].cmd = Cmd::Expand { main: cmd_main(&s.procs[0]).to_string() }; } s }
        4..=6 => { let mut s = asm(r, W { fallback: false, ..ALL }); s.tag = "assemble".into(); s }
        9 if r.chance(1, 20) => { let mut s = Scen::default(); s.procs.push(Proc::new(Cmd::Version, "/w")); s.tag = "version".into(); s }
        _ => { let w = *r.pick(&COMMANDS); let mut s = anycmd(r, w, W { fallback: false, ..ALL }); s.tag = w.into(); s }
    };
    let m = &mut s.procs[0].m;
    m.fd_limit = *r.pick(&[8, 9, 11, 16, 64]);
    m.inp = r.us(4) as u8;
    s.procs[0].env = match r.us(3) { 0 => vec![], 1 => vec![("*".into(), (*r.pick(&["", "1", "/nowhere", "0"])).into())], _ => env(r, &s.procs[0].cwd.clone()) };
    s.num.push(r.us(4) as i64);
    s
}
pub fn j21(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let want = match &p.cmd { Cmd::Asm { main, .. } => match s.model(main, &p.cwd) { Ok(m) => Some(m.image), Err(b) => return Verdict::Skip(format!("not a good project: {}", b.what.chars().take(40).collect::<String>())) }, _ => None };
    if !s.fair(p) { return Verdict::Skip("output path".into()); }
    let h = c.exec(&v, &Proc { env: vec![("PWD".into(), p.cwd.clone())], ..p.healthy() });
    if !h.success() {
        return if want.is_some() && !c.capped { viol("refused", format!("{:?}: {}", h.exit, strip_ansi(&h.errs()).chars().take(300).collect::<String>())) } else { Verdict::Skip("not accepted".into()) };
    }
    let out = outfile(s, p);
    let mut q = p.clone();
    let k = s.num.first().copied().unwrap_or(0);
    if k & 1 != 0 { q.m.heap = (8 << 20) + 1600 * moved(&h); }
    if k & 2 != 0 { q.m.disk_free = Some(out.as_ref().and_then(|f| h.vfs.get(f)).map(|d| d.len()).unwrap_or(0) as u64); }
    let o = c.exec(&v, &q);
    if c.capped { return Verdict::Skip("a run was not ended".into()); }
    if o.ops.iter().chain(&h.ops).any(|x| x.cls == READ && x.path == "<stdin>") { return viol("takes-standard-input", "standard input was read"); }
    if !o.success() { return viol("needs-more", format!("with {} descriptors, {} bytes of memory, {} bytes of disk, environment {:?}: {:?}: {}", q.m.fd_limit, if q.m.heap == 0 { "any number of".into() } else { q.m.heap.to_string() }, q.m.disk_free.map(|n| n.to_string()).unwrap_or("any number of".into()), q.env, o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
    c.hits += 1;
    let vmi = matches!(p.cmd, Cmd::Vmi { .. });
    if let Some(f) = &out {
        let (a, b) = (o.vfs.get(f).cloned().unwrap_or_default(), h.vfs.get(f).cloned().unwrap_or_default());
        let (a, b) = if vmi { (stampless(&a), stampless(&b)) } else { (a, b) };
        if let Some(w) = &want { if let Some(x) = same("wrong-image", Some(&a), w) { return x; } }
        if a != b { return viol("output-differs", diff(&a, &b)); }
    }
    if mask(&o.out) != mask(&h.out) { return viol("standard-output-differs", diff(&mask(&o.out), &mask(&h.out))); }
    if q.m.fd_limit < 12 { c.reached("few descriptors"); }
    if q.m.heap > 0 { c.reached("little memory"); }
    if q.m.disk_free.is_some() { c.reached("room for the output only"); }
    if q.env.is_empty() { c.reached("no environment"); }
    if q.m.inp == 3 { c.reached("nothing ever comes from standard input"); }
    if o.ops.iter().filter(|x| x.cls == OPEN).count() > 30 { c.reached("more than 30 files"); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C22
pub fn g22(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let w = *r.pick(&["assemble", "assemble", "assemble", "disassemble", "expand", "icon", "image", "vmi"]);
    let mut s = anycmd(r, w, W { small: true, ..ALL });
    s.tag = w.into();
    if r.chance(2, 3) { spoil(r, &mut s); }
    if matches!(w, "icon" | "image" | "vmi" | "disassemble") && r.chance(1, 2) {
        let k = r.us(s.files.len());
        let f = &mut s.files[k];
        let n = f.bytes().len();
        match &mut f.c { Content::Img(i) if r.bool() => crate::pc::misfits(r, i), _ => f.cut = Some(r.us(n.min(40) + 1) as u32) }
    }
    if r.chance(1, 6) { match &mut s.procs[0].cmd { Cmd::Asm { main, .. } | Cmd::Expand { main } => *main = "no such file.s".into(), Cmd::Dis { input, .. } | Cmd::Vmi { input, .. } => *input = "gone".into(), Cmd::Icon { img, .. } | Cmd::Image { img, .. } => *img = "gone.png".into(), _ => {} } }
    if r.chance(1, 10) { let o = s.procs[0].cmd.out(); if let Some(o) = o { crate::pb::set_out(&mut s.procs[0].cmd, &format!("{}/nowhere/x", o)); } }
    if r.chance(1, 25) { s.procs[0].cmd = Cmd::Version; s.tag = "version".into(); }
    let mut a = s.procs[0].clone();
    a.m.tty = false; a.m.tty_of = 0;
    s.procs[0] = a.clone();
    for _ in 0..1 + r.us(2) {
        let mut b = a.clone();
        b.m.tty = true;
        b.m.tty_of = r.us(3) as u8;
        b.env.retain(|e| e.0 != "TERM");
        if r.chance(7, 8) { b.env.push(("TERM".into(), (*r.pick(&["xterm", "xterm-256color", "vt100", "linux", "dumb"])).into())); }
        if r.chance(2, 3) { b.env.retain(|e| e.0 != "NO_COLOR" && e.0 != "*"); }
        if r.chance(1, 3) { soft(r, &mut b.m); }
        s.procs.push(b);
    }
    s
}
/// what the terminal makes of it: text, and whether attributes are left on at the end
fn attrs_left(b: &[u8]) -> bool {
    let mut on = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let e = (i + 2..b.len()).find(|k| b[*k].is_ascii_alphabetic()).unwrap_or(b.len());
            if b.get(e) == Some(&b'm') { on = !matches!(&b[i + 2..e], b"" | b"0"); }
            i = e;
        }
        i += 1;
    }
    on
}
pub fn j22(s: &Scen, c: &mut Ctx) -> Verdict {
    let esc = |b: &[u8]| b.contains(&0x1b);
    if s.files.iter().any(|f| esc(&f.bytes()) && !matches!(f.c, Content::Bin(_) | Content::Img(_))) || s.raw.iter().any(|x| esc(&x.1 .0) && Some(&x.0) != outfile(s, &s.procs[0]).as_ref()) { return Verdict::Skip("escape characters in a source".into()); }
    let v = s.vfs();
    let mut first: Option<Outcome> = None;
    let vmi = matches!(s.procs[0].cmd, Cmd::Vmi { .. });
    for p in &s.procs {
        let o = c.exec(&v, p);
        if c.capped { return Verdict::Skip("a run was not ended".into()); }
        for (n, b, k) in [("standard output", &o.out, FdKind::Out), ("standard error", &o.err, FdKind::Err)] {
            let any = esc(b);
            if any && !p.m.term(&k) { return viol("escapes-outside-a-terminal", format!("{}: {:?}", n, String::from_utf8_lossy(b).chars().take(200).collect::<String>())); }
            let plain = p.env.iter().any(|e| e.0 == "NO_COLOR" || e.0 == "TERM" && e.1 == "dumb");
            if any && plain { return viol("escapes-not-wanted", format!("{}: {:?}", n, p.env)); }
            if any { c.reached("coloured text"); }
            if !o.panicked() && attrs_left(b) { return viol("terminal-left-coloured", format!("{}: ...{:?}", n, String::from_utf8_lossy(&b[b.len().saturating_sub(60)..]))); }
        }
        match &first {
            None => first = Some(o),
            Some(h) => {
                c.hits += 1;
                if o.exit != h.exit { return viol("ends-differently", format!("{:?} on a terminal, {:?} otherwise", o.exit, h.exit)); }
                for (n, a, b) in [("standard output", &o.out, &h.out), ("standard error", &o.err, &h.err)] {
                    let (a, b) = (mask(strip_ansi(&String::from_utf8_lossy(a)).as_bytes()), mask(&String::from_utf8_lossy(b).into_owned().into_bytes()));
                    if a != b { return viol("text-differs", format!("{}: {} ({:?} / {:?})", n, diff(&a, &b), String::from_utf8_lossy(&a).chars().take(200).collect::<String>(), String::from_utf8_lossy(&b).chars().take(200).collect::<String>())); }
                }
                let (a, b) = (o.vfs.files(), h.vfs.files());
                for f in a.keys().chain(b.keys()) { match (a.get(f), b.get(f)) { (Some(x), Some(y)) => { let (x, y) = if vmi && x != y { (stampless(x), stampless(y)) } else { (x.clone(), y.clone()) }; if x != y { return viol("file-differs", format!("{}: {}", f, diff(&x, &y))); } } _ => return viol("file-missing", f.clone()) } }
            }
        }
    }
    if first.map(|o| o.success()).unwrap_or(false) { c.reached("success") } else { c.reached("failure") }
    Verdict::Pass
}
