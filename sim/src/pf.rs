//! Properties C23 and C24: generators and judges.
use crate::exec::*;
use crate::pa::*;
use crate::model::*;
use crate::pb::{set_out, vmi_cmd};
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::vfs::*;
use crate::work::*;

// ------------------------------------------------------------------------------------- C23
pub fn g23(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "assemble", "assemble", "expand", "expand", "disassemble", "icon", "image", "vmi"]);
    let mut s = anycmd(r, which, W { small: false, stress: false, ..ALL });
    s.tag = which.into();
    match which {
        "assemble" | "expand" => { for _ in 0..*r.pick(&[1, 1, 2, 3, 4, 6, 12]) { many(r, &mut s); } }
        _ => { let k = r.us(s.files.len().max(1)); if let Some(f) = s.files.get_mut(k) { let n = f.bytes().len(); match &mut f.c { Content::Img(i) if r.bool() => crate::pc::misfits(r, i), _ => f.cut = Some(r.us(n.min(60) + 1) as u32) } } }
    }
    let a = s.procs[0].clone();
    for _ in 0..1 + r.us(3) {
        let mut b = a.clone();
        b.rng = rng_mode(r);
        b.clk = clk(r);
        if r.chance(1, 2) { let pwd = a.env.iter().find(|e| e.0 == "PWD").cloned(); b.env = env(r, &a.cwd); b.env.retain(|e| e.0 != "PWD"); b.env.extend(pwd); }
        b.m.tty = r.chance(1, 3);
        if r.chance(1, 3) { b.m.inp = 1 + r.us(3) as u8; }
        if r.chance(1, 3) { if let Some(f) = outfile(&s, &a) { let k = r.us(400); let d = r.bytes(k); b.pre.push(if r.chance(1, 3) { Pre::Del(f) } else { Pre::Raw(f, Blob(d)) }); } }
        if r.chance(1, 4) { soft(r, &mut b.m); }
        s.procs.push(b);
    }
    s
}
/// one more error, somewhere
fn many(r: &mut Rng, s: &mut Scen) {
    if r.chance(1, 4) { spoil(r, s); return; }
    let texts: Vec<usize> = (0..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_))).collect();
    if texts.is_empty() { return; }
    let names: Vec<String> = texts.iter().flat_map(|i| if let Content::Asm(l) = &s.files[*i].c { l.iter().filter_map(|l| match &l.l { Ln::Label(n, _) | Ln::Equ(n, _) => Some(n.clone()), _ => None }).collect::<Vec<_>>() } else { vec![] }).collect();
    let i = *r.pick(&texts);
    let nm = format!("x{}_{}", (b'a' + r.below(26) as u8) as char, r.us(99));
    let any = |r: &mut Rng| if names.is_empty() { "start".to_string() } else { r.pick(&names).clone() };
    let t = match r.us(12) {
        // names that resemble several others
        9 => { let a = any(r); let k = r.us(99); let names = (0..2 + r.us(5)).map(|i| format!("{}{}_{}:", a, k, (b'a' + i as u8) as char)).collect::<Vec<_>>().join(" nop\n"); let u = format!("{}{}{}", a, k, r.pick(&["", "_", "_z", "_ab"])); format!("{} nop\n  {} {}", names, r.pick(&["br", "jmpf", "callf", ".word", "mov #1,"]), u) }
        10 => { let mut a: Vec<char> = any(r).chars().collect(); let k = r.us(a.len()); match r.us(4) { 0 => { a.remove(k); } 1 => a.insert(k, *r.pick(&['a', '1', '_'])), 2 => a.truncate(k.max(1)), _ => a.push(*r.pick(&['s', '2', '_'])) } format!("  {} {}", r.pick(&["br", "jmpf", "callf", ".word", ".byte", "ld"]), a.into_iter().collect::<String>()) }
        11 => { let a = r.pick(&["work_lopp", "ac", "pwd", "pcom", "vtr_of", "sfr", "tl", "th", "t1", "ld_", "movv", "pushh", "includ", "byt"]).to_string(); if r.bool() { format!("  ld {}", a) } else { format!("  {} {}", a, any(r)) } }
        0 => format!("  .word {}", nm),
        1 => { let a = any(r); format!("{} = {} + 1", a, a) }
        2 => { let a = any(r); format!("{}:", a) }
        3 => { let b = format!("y{}", r.us(9)); format!("{} = {} + 1\n{} = {} * 2\n  .byte {}", nm, b, b, nm, nm) }
        4 => format!("  ld {}_{}\n  br {}", nm, r.us(3), nm),
        5 => { let a = any(r); format!("  .byte {} / ({} - {})", a, a, a) }
        6 => format!("%macro {} %a, %a\n  ld %a\n%end", nm),
        7 => { let a = any(r); format!("%macro {} %a\n  ld %a\n%end\n%macro {} %b\n  st %b\n%end\n  {} {}", nm, nm, nm, a) }
        _ => bad_line(r),
    };
    if let Content::Asm(l) = &mut s.files[i].c { let at = r.us(l.len() + 1); l.insert(at, L { l: Ln::Bad(t), st: 0 }); }
}
pub fn j23(s: &Scen, c: &mut Ctx) -> Verdict {
    let mut first: Option<(Exit, Vec<u8>, Vec<u8>, bool)> = None;
    for (i, p) in s.procs.iter().enumerate() {
        let mut v = s.vfs();
        pre(&mut v, p);
        let o = c.exec(&v, p);
        if c.capped { return Verdict::Skip("a run was not ended".into()); }
        let text = |b: &[u8]| mask(strip_ansi(&String::from_utf8_lossy(b)).as_bytes());
        let (out, err) = (text(&o.out), text(&o.err));
        // a panic names the thread and, if asked to, the stack
        let quiet = o.panicked();
        match &first {
            None => first = Some((o.exit, out, err, quiet)),
            Some((e, a, b, q)) => {
                if *e != o.exit { return viol("ends-differently", format!("run {}: {:?}, run 0: {:?}", i, o.exit, e)); }
                if quiet || *q { continue; }
                if *b != err { return viol("says-something-else", format!("standard error of run {}: {}: {:?}; run 0: {:?}", i, diff(&err, b), String::from_utf8_lossy(&err).chars().take(300).collect::<String>(), String::from_utf8_lossy(b).chars().take(300).collect::<String>())); }
                if !o.success() && *a != out { return viol("says-something-else", format!("standard output of run {}: {}", i, diff(&out, a))); }
                if !o.success() { c.hits += 1; c.reached("failure"); } else { c.reached("success"); }
            }
        }
    }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C24
pub fn g24(r: &mut Rng, c: &mut Ctx) -> Scen {
    let w = *r.pick(&["assemble", "assemble", "assemble", "disassemble", "vmi", "image"]);
    let mut s = anycmd(r, w, W { fallback: false, small: true, stress: false, ..ALL });
    let cwd = s.procs[0].cwd.clone();
    s.raw.clear();
    for d in ["/o", "/o/sub", "/o2"] { s.dirs.push(d.into()); }
    let n = *r.pick(&[0usize, 1, 20, 300, 3000]);
    let old = r.bytes(n);
    let f = "/o/sub/data.bin".to_string();
    let rights = |r: &mut Rng| *r.pick(&[0o644u32, 0o600, 0o640, 0o666, 0o755, 0o200, 0o664]);
    let mut to = f.clone();
    s.tag = match r.us(12) {
        0 => { "new file" }
        1 => { s.raw.push((f.clone(), Blob(old))); let m = rights(r); s.modes.push((f, m)); "file with rights" }
        2 | 3 => { s.raw.push((f.clone(), Blob(old))); let m = rights(r); s.modes.push((f.clone(), m)); s.hard.push((f, (*r.pick(&["/o/other name", "/w/alias.bin", "/o/sub/data.bin.old", "/o/sub/.data.bin.tmp"])).into())); "file with two names" }
        4 => { s.raw.push((f, Blob(old))); to = "/o2/l".into(); s.links.insert(to.clone(), (*r.pick(&["/o/sub/data.bin", "../o/sub/data.bin", "../o2/../o/sub/data.bin"])).into()); "link to a file" }
        5 => { s.raw.push((f, Blob(old))); to = "/o2/l".into(); s.links.insert(to.clone(), "m".into()); s.links.insert("/o2/m".into(), "/o/n".into()); s.links.insert("/o/n".into(), "sub/data.bin".into()); "chain of links" }
        6 => { to = "/o2/l".into(); s.links.insert(to.clone(), "/o/sub/new.bin".into()); "link to nothing yet" }
        7 => { s.raw.push((f, Blob(old))); to = "/o2/d/data.bin".into(); s.links.insert("/o2/d".into(), "/o/sub".into()); "through a linked directory" }
        8 => { to = (*r.pick(&["/dev/null", "/dev/null", "/dev/stdout"])).into(); "device" }
        9 => { to = "/o2/l".into(); s.links.insert(to.clone(), (*r.pick(&["/dev/null", "/dev/stdout"])).into()); "link to a device" }
        10 => { s.raw.push((f.clone(), Blob(old))); let m = *r.pick(&[0o444u32, 0o400, 0]); s.modes.push((f, m)); "file that must not be written" }
        _ => { to = (*r.pick(&["/o/sub", "/o/nowhere/x", "/o2/l", "/dev/full"])).into(); s.links.insert("/o2/l".into(), (*r.pick(&["/o2/l", "/o/sub", "/o/gone/x"])).into()); "cannot be written" }
    }.into();
    let sp = if s.tag == "through a linked directory" && r.bool() { "/o2/d/../sub/data.bin".into() } else { spelling(r, &cwd, &to) };
    set_out(&mut s.procs[0].cmd, &sp);
    let p = &mut s.procs[0];
    match r.us(5) {
        0 => soft(r, &mut p.m),
        1 => {
            let p = p.clone();
            let o = c.exec(&s.vfs(), &p.healthy());
            for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, x| x.path != "/dev/urandom") { let f = if r.chance(1, 4) { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; s.procs[0].faults.push(f); } }
        }
        2 if r.bool() => p.m.disk_free = Some(r.below(n as u64 + 60)),
        _ => {}
    }
    s
}
pub fn j24(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let out = match p.cmd.out() { Some(o) => o, None => return Verdict::Skip("no output".into()) };
    // the same run into a plain new file
    let mut q = p.healthy();
    set_out(&mut q.cmd, "/ref/out");
    let mut w = v.clone();
    w.mkdirs("/ref");
    let h = c.exec(&w, &q);
    if !h.success() { return Verdict::Skip("not accepted".into()); }
    let vmi = matches!(p.cmd, Cmd::Vmi { .. });
    let plain = |b: &[u8]| if vmi { stampless(&b.to_vec()) } else { b.to_vec() };
    let want = match h.vfs.get("/ref/out") { Some(b) => plain(b), None => return viol("no-output", "success without an output file") };
    let o = c.exec(&v, p);
    if c.capped { return Verdict::Skip("a run was not ended".into()); }
    let file = v.resolve(&p.cwd, &out, true);
    #[derive(PartialEq, Debug)]
    enum T { Bad, New(String), Old(String, usize), Null, Out }
    let t = match &file {
        Err(_) => T::Bad,
        Ok(f) => match v.nodes.get(f) {
            Some(Node::File(i)) => match v.inodes[*i].dev { DEV_NONE if v.inodes[*i].mode & 0o200 != 0 => T::Old(f.clone(), *i), DEV_NULL => T::Null, DEV_OUT => T::Out, _ => T::Bad },
            Some(_) => T::Bad,
            None if parent(f).map(|d| v.is_dir(&d)).unwrap_or(false) => T::New(f.clone()),
            None => T::Bad,
        },
    };
    if let T::New(f) | T::Old(f, _) = &t { if s.files.iter().any(|x| x.path == *f) { return Verdict::Skip("output is an input".into()); } }
    // what each name is and what it holds
    let mine: Vec<String> = match &t { T::New(f) => vec![f.clone()], T::Old(_, i) => v.nodes.iter().filter(|(_, n)| **n == Node::File(*i)).map(|x| x.0.clone()).collect(), _ => vec![] };
    let ok = o.success();
    if ok && t == T::Bad { return viol("written-anyway", format!("{}: success although it cannot be written", out)); }
    if !ok && t != T::Bad && (o.fired.is_empty() || only_short(p, &o)) { return viol("refused", format!("{}: {:?}: {}", s.tag, o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
    for (n, a) in &v.nodes {
        let b = match o.vfs.nodes.get(n) { Some(b) => b, None => return viol("name-gone", format!("{} is gone", n)) };
        match (a, b) {
            (Node::Dir, Node::Dir) => {}
            (Node::Link(x), Node::Link(y)) if x == y => {}
            (Node::File(i), Node::File(j)) => {
                let (x, y) = (&v.inodes[*i], &o.vfs.inodes[*j]);
                if x.dev != y.dev { return viol("device-replaced", n.clone()); }
                if x.mode != y.mode { return viol("rights-changed", format!("{}: {:o} instead of {:o}", n, y.mode, x.mode)); }
                if !mine.contains(n) && x.data != y.data { return viol("other-file-changed", n.clone()); }
            }
            _ => return viol("replaced", format!("{} was {:?} and is {:?}", n, a, b)),
        }
    }
    for (n, b) in &o.vfs.nodes { if !v.nodes.contains_key(n) { match (&t, b) { (T::New(f), Node::File(j)) if f == n => { if o.vfs.inodes[*j].mode != 0o644 { return viol("rights-of-new-file", format!("{:o}", o.vfs.inodes[*j].mode)); } } _ => return viol("left-behind", n.clone()) } } }
    if !ok { c.reached("failure"); if t == T::Bad { c.hits += 1; } return Verdict::Pass; }
    c.hits += 1;
    c.reached(&s.tag);
    for n in &mine { let got = plain(o.vfs.get(n).map(|b| &b[..]).unwrap_or(b"")); if got != want { return viol("wrong-bytes", format!("{}: {}", n, diff(&got, &want))); } }
    if t == T::Out { let got = plain(&o.out); if got != want { return viol("wrong-bytes", format!("standard output: {}", diff(&got, &want))); } } else if o.out != h.out { return viol("standard-output-differs", diff(&o.out, &h.out)); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C25
/// every path on a command line
fn paths(c: &mut Cmd, mv: &mut dyn FnMut(&mut String)) {
    match c {
        Cmd::Asm { main, out } => { mv(main); mv(out); }
        Cmd::Expand { main } => mv(main),
        Cmd::Dis { input, out, .. } => { mv(input); mv(out); }
        Cmd::Icon { img, eye, .. } => { mv(img); if let Some(e) = eye { mv(e); } }
        Cmd::Image { img, out, .. } => { mv(img); if let Some(o) = out { mv(o); } }
        Cmd::Vmi { input, out, .. } => { mv(input); if let Some(o) = out { mv(o); } }
        _ => {}
    }
}
/// the same scenario in another place
fn elsewhere(s: &mut Scen, to: &str) {
    let mv = |p: &mut String| if p.starts_with('/') && !p.starts_with("/dev/") { *p = format!("{}{}", to, p); };
    for f in &mut s.files { mv(&mut f.path); }
    for d in &mut s.dirs { mv(d); }
    for x in &mut s.raw { mv(&mut x.0); }
    for x in &mut s.modes { mv(&mut x.0); }
    s.links = std::mem::take(&mut s.links).into_iter().map(|(mut k, mut t)| { mv(&mut k); mv(&mut t); (k, t) }).collect();
    for p in &mut s.procs {
        mv(&mut p.cwd);
        paths(&mut p.cmd, &mut |x| mv(x));
    }
}
pub fn g25(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let threads = r.chance(2, 5);
    let kinds: &[&str] = if threads { &["assemble", "assemble", "assemble", "disassemble", "icon", "image", "vmi"] } else { &["assemble", "assemble", "assemble", "disassemble", "expand", "icon", "image", "vmi"] };
    let mut s = Scen::default();
    let mut base: Vec<Proc> = vec![];
    let mut twin: Option<Scen> = None;
    for i in 0..1 + r.us(3) {
        let mut t = match (&twin, r.chance(1, 3)) {
            // files of the same names with other contents in another directory
            (Some(t), true) => { let mut t = t.clone(); for f in t.files.iter_mut() { if r.bool() { *f = version(r, f); } } t }
            _ => { let w = *r.pick(kinds); let small = r.chance(3, 4); let r2 = r.chance(1, 3); if w == "vmi" { let mut s = Scen::default(); let p = vmi_cmd(r, &mut s); s.procs.push(p); s } else { anycmd(r, w, W { small, fallback: r2, ..ALL }) } }
        };
        if twin.is_none() { twin = Some(t.clone()); }
        if i > 0 { elsewhere(&mut t, &format!("/t{}", i)); }
        if r.chance(1, 12) && !threads { spoil(r, &mut t); }
        base.push(t.procs[0].clone());
        s.files.extend(t.files); s.dirs.extend(t.dirs); s.raw.extend(t.raw); s.modes.extend(t.modes); s.links.extend(t.links);
    }
    let n = if threads { 2 + r.us(3) } else { *r.pick(&[2, 2, 3, 4, 6, 12]) };
    for k in 0..n {
        let mut p = if k < base.len() { base[k].clone() } else { r.pick(&base).clone() };
        p.faults.clear();
        p.m = Modes::default();
        if threads && k > 0 {
            match p.cmd.out() { Some(o) => { let o = format!("{}.{}", o, k); set_out(&mut p.cmd, &o); } None => {} }
        } else if k > 0 && !threads && r.chance(1, 3) && !s.files.is_empty() {
            let f = r.pick(&s.files).clone();
            p.pre.push(if r.chance(1, 8) { Pre::Del(f.path.clone()) } else { Pre::Put(version(r, &f)) });
        }
        if let (true, Some(q)) = (threads && k > 0, s.procs.first()) { if q.cwd != p.cwd { let d = p.cwd.clone(); paths(&mut p.cmd, &mut |x| if !x.starts_with('/') { *x = format!("{}/{}", d, x); }); p.cwd = q.cwd.clone(); } }
        s.procs.push(p);
    }
    let p = &mut s.procs[0];
    p.rng = RngMode::Seeded(r.next());
    p.clk = clk(r);
    if r.chance(1, 4) { soft(r, &mut p.m); }
    if threads { p.plan = Plan::Seeded(r.next() >> 16, *r.pick(&[1, 2, 3, 8, 30])); s.tag = "on threads".into(); } else { if r.bool() { p.m.fd_limit = *r.pick(&[8, 9, 11]); } s.tag = "in sequence".into(); }
    s
}
pub fn j25(s: &Scen, c: &mut Ctx) -> Verdict {
    let threads = s.procs[0].plan != Plan::None;
    let v = s.vfs();
    let lead = s.procs[0].clone();
    let like = |p: &Proc| Proc { cmd: p.cmd.clone(), cwd: if threads { lead.cwd.clone() } else { p.cwd.clone() }, spell: p.spell, plan: Plan::None, pre: vec![], ..lead.clone() };
    let outs: Vec<Option<String>> = s.procs.iter().map(|p| v.resolve(if threads { &lead.cwd } else { &p.cwd }, &p.cmd.out()?, true).ok()).collect();
    for (i, o) in outs.iter().enumerate() {
        if s.procs[i].cmd.out().is_some() && o.is_none() { return Verdict::Skip("output path".into()); }
        if let Some(o) = o { if s.files.iter().any(|f| f.path == *o) { return Verdict::Skip("output in the place of a source".into()); } if threads && outs[..i].contains(&Some(o.clone())) { return Verdict::Skip("one output of two".into()); } }
    }
    // each in a process of its own
    let mut cur = v.clone();
    let (mut out, mut err) = (vec![], vec![]);
    let mut end = Exit::Code(0);
    let mut done = 0;
    for (i, p) in s.procs.iter().enumerate() {
        if !threads { for x in &p.pre { match x { Pre::Put(f) => cur.apply(&Mut::Replace { path: f.path.clone(), data: f.bytes() }), Pre::Raw(f, b) => cur.apply(&Mut::Replace { path: f.clone(), data: b.0.clone() }), Pre::Del(f) => cur.apply(&Mut::Remove { path: f.clone() }), Pre::Loss(_) => {} } } }
        let o = c.exec(&cur, &like(p));
        if c.capped || o.exit == Exit::Harness { return Verdict::Skip("a run was not ended".into()); }
        if threads {
            if !o.success() { return Verdict::Skip("not accepted".into()); }
            for (k, x) in outs.iter().enumerate() { if let Some(x) = x { if k != i && o.ops.iter().any(|y| y.path == *x) { return Verdict::Skip("output looked at by another run".into()); } } }
            if let Some(x) = &outs[i] { cur.put(x, o.vfs.get(x).unwrap_or(&vec![])); }
        } else { cur = o.vfs.clone(); }
        out.extend(&o.out); err.extend(&o.err);
        if o.success() { done += 1; } else { end = o.exit; break; }
    }
    let all = Proc { cmd: Cmd::Calls(s.procs.clone(), threads), plan: lead.plan.clone(), pre: vec![], ..lead.clone() };
    let o = c.exec(&v, &all);
    if c.capped { return Verdict::Skip("a run was not ended".into()); }
    if o.exit == Exit::Deadlock { return viol("deadlock", "the threads wait for one another for ever"); }
    let say = |x: &Outcome| strip_ansi(&x.errs()).chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    if o.exit != end { return viol("ends-differently", format!("{:?} after {} of {} commands instead of {:?} after {}: {}", o.exit, o.results.len(), s.procs.len(), end, done, say(&o))); }
    if o.results.iter().filter(|r| r.1).count() != done { return viol("ends-differently", format!("{} of {} commands came to an end instead of {}", o.results.len(), s.procs.len(), done)); }
    let text = |b: &[u8]| { let t = mask(strip_ansi(&String::from_utf8_lossy(b)).as_bytes()); t.split_inclusive(|c| *c == b'\n').filter(|l| l.iter().find(|c| **c != b' ') != Some(&b';')).flatten().copied().collect::<Vec<u8>>() };
    let sorted = |b: &[u8]| { let mut b = b.to_vec(); b.sort(); b };
    if threads {
        // pieces of messages may mix
        if sorted(&o.out) != sorted(&out) { return viol("standard-output-differs", diff(&o.out, &out)); }
        if lead.m.err == Sink::Ok && sorted(strip_ansi(&o.errs()).as_bytes()) != sorted(strip_ansi(&String::from_utf8_lossy(&err)).as_bytes()) { return viol("messages-differ", diff(&o.err, &err)); }
    } else {
        if text(&o.out) != text(&out) { return viol("standard-output-differs", diff(&text(&o.out), &text(&out))); }
        if end != Exit::Code(101) && text(&o.err) != text(&err) { return viol("messages-differ", diff(&text(&o.err), &text(&err))); }
    }
    let (want, is) = (cur.files(), o.vfs.files());
    let stamped: Vec<&String> = s.procs.iter().zip(&outs).filter(|(p, _)| matches!(p.cmd, Cmd::Vmi { .. })).filter_map(|(_, o)| o.as_ref()).collect();
    let plain = |f: &String, b: &Vec<u8>| if stamped.contains(&f) { stampless(b) } else { b.clone() };
    for f in want.keys().chain(is.keys()) {
        match (want.get(f), is.get(f)) { (Some(a), Some(b)) => { let (a, b) = (plain(f, a), plain(f, b)); if a != b { return viol("file-differs", format!("{}: {}", f, diff(&b, &a))); } } (Some(_), None) => return viol("file-missing", f.clone()), _ => return viol("file-left-behind", f.clone()) }
    }
    c.hits += done as u64;
    if threads { if o.switches.len() > 2 { c.reached("threads interleaved"); } } else { c.reached(&format!("{} commands in a row", done)); if end != Exit::Code(0) { c.reached("ended by a failure"); } if s.procs.windows(2).any(|w| w[0].cwd != w[1].cwd) { c.reached("directory changed between them"); } }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C26
pub fn g26(r: &mut Rng, _c: &mut Ctx) -> Scen {
    let w = *r.pick(&["assemble", "assemble", "assemble", "assemble", "expand", "disassemble", "icon", "image", "vmi"]);
    let (small, fallback) = (r.chance(2, 3), r.chance(1, 6));
    let mut s = anycmd(r, w, W { small, fallback, ..ALL });
    s.tag = w.into();
    // what is read once
    let mut can: Vec<String> = vec![];
    match w {
        "assemble" | "expand" => {
            let p = &s.procs[0];
            if let Ok(m) = s.model(cmd_main(p), &p.cwd) {
                for f in &m.texts { if m.uses.iter().filter(|u| u.0 == *f).count() == 1 && !m.bins.contains(f) { can.push(f.clone()); } }
                for f in &m.bins { if m.binuses[f] == 1 && !m.texts.contains(f) { can.push(f.clone()); } }
            }
            if r.chance(1, 5) {
                let texts: Vec<usize> = (0..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_))).collect();
                if !texts.is_empty() { let t = bad_line(r); if let Content::Asm(l) = &mut s.files[*r.pick(&texts)].c { let at = r.us(l.len() + 1); l.insert(at, L { l: Ln::Bad(t), st: 0 }); } }
            }
        }
        _ => {
            can = s.files.iter().map(|f| f.path.clone()).collect();
            if let (true, Some(f)) = (r.chance(1, 6), s.files.first_mut()) { let n = f.bytes().len(); f.cut = Some(r.us(n + 1) as u32); }
        }
    }
    // a bitmap is read to and fro
    can.retain(|p| !s.files.iter().any(|f| f.path == *p && matches!(&f.c, Content::Img(i) if i.fmt == crate::img::Fmt::Bmp)));
    can.sort(); can.dedup();
    let all = r.bool();
    can.retain(|_| all || r.bool());
    if !s.raw.is_empty() { let raw = s.raw.clone(); can.retain(|p| !raw.iter().any(|x| x.0 == *p)); }
    s.pipes = can;
    if r.chance(1, 2) { soft(r, &mut s.procs[0].m); }
    s
}
pub fn j26(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    if s.pipes.is_empty() { return Verdict::Skip("no pipes".into()); }
    let v = s.vfs();
    let mut plain = s.clone();
    plain.pipes.clear();
    let a = c.exec(&plain.vfs(), p);
    let o = c.exec(&v, p);
    if c.capped { return Verdict::Skip("a run was not ended".into()); }
    let text = |b: &[u8]| mask(strip_ansi(&String::from_utf8_lossy(b)).as_bytes());
    // only a regular file counts as the one that is meant, when there is another one to fall back to
    if o.errs().contains("Falling back") || a.errs().contains("Falling back") { return Verdict::Skip("a choice of files".into()); }
    if o.exit != a.exit { return viol("ends-differently", format!("{:?} instead of {:?}: {}", o.exit, a.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
    let outp = outfile(s, p);
    let file = |o: &Outcome| outp.as_ref().and_then(|f| o.vfs.get(f).cloned()).map(|b| if matches!(p.cmd, Cmd::Vmi { .. }) { stampless(&b) } else { b });
    if a.success() && file(&o) != file(&a) { return viol("wrong-output", diff(&file(&o).unwrap_or_default(), &file(&a).unwrap_or_default())); }
    if text(&o.out) != text(&a.out) { return viol("standard-output-differs", diff(&text(&o.out), &text(&a.out))); }
    if a.exit != Exit::Code(101) && text(&o.err) != text(&a.err) { return viol("messages-differ", diff(&text(&o.err), &text(&a.err))); }
    c.hits += s.pipes.iter().filter(|f| o.ops.iter().any(|x| x.cls == READ && x.path == **f)).count() as u64;
    c.reached(if a.success() { "success" } else { "failure" });
    c.reached(&format!("{} pipes", s.pipes.len().min(9)));
    Verdict::Pass
}
