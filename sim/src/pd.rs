//! C19 (what the disassembler takes for code) ...
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::pa::*;
use crate::pb::*;
use crate::pc::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::vfs::*;
use crate::work::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------------------- C19
/// for each first byte the form and the upper bits of its first operand
fn opcodes() -> Vec<Option<(&'static Form, i32)>> {
    let mut t: Vec<Option<(&'static Form, i32)>> = vec![None; 256];
    for f in FORMS {
        let his: Vec<Vec<i32>> = match f.ops.iter().position(|k| matches!(k, K::D9 | K::R | K::A12)) {
            None => vec![vec![0; f.ops.len()]],
            Some(k) => { let n = match f.ops[k] { K::D9 => 2, K::R => 4, _ => 16 }; (0..n).map(|h| { let mut v = vec![0; f.ops.len()]; v[k] = if f.ops[k] == K::R { h } else { h << 8 }; v }).collect() }
        };
        for v in his {
            let h = v.iter().find(|x| **x != 0).copied().unwrap_or(0);
            match f.ops.iter().position(|k| *k == K::B3) {
                Some(b) => for x in 0..8 { let mut w = v.clone(); w[b] = x; t[encode(f, &w)[0] as usize] = Some((f, h)); },
                None => t[encode(f, &v)[0] as usize] = Some((f, h)),
            }
        }
    }
    t
}
/// one instruction: where control goes (sure, only perhaps), its size, whether there is a target other than the next
#[derive(Clone, Debug)]
struct Flow { size: usize, next: Option<usize>, jump: Option<usize>, perhaps: bool, jmpf: bool }
fn flow(ops: &[Option<(&'static Form, i32)>], file: &[u8], p: usize) -> Option<Flow> {
    let b = &file[p..];
    let (f, hi) = ops[b[0] as usize]?;
    let n = f.size as usize;
    if b.len() < n { return None; }
    let next = (p + n) as i64;
    let mut perhaps = false;
    let jump = match f.ops.last() {
        Some(K::R8) => Some(next + b[n - 1] as i8 as i64),
        Some(K::A12) => Some((next & 0xF000) | hi as i64 & 0xF00 | b[1] as i64),
        Some(K::A16) => Some((b[1] as i64) << 8 | b[2] as i64),
        Some(K::R16) => Some(next - 1 + i16::from_le_bytes([b[1], b[2]]) as i64),
        _ => None,
    };
    // beyond the ends of the memory
    if jump.map(|j| j < 0 || j > 0xFFFF).unwrap_or(false) { perhaps = true; }
    let jump = jump.map(|j| if j < 0 { usize::MAX } else { j as usize });
    Some(Flow { size: n, next: if ["jmp", "jmpf", "br", "brf", "ret", "reti"].contains(&f.name) { None } else { Some(next as usize) }, jump, perhaps, jmpf: f.name == "jmpf" })
}
pub struct Reach { /** locations that are code in any case, and those that may be */ pub sure: BTreeSet<usize>, pub may: BTreeSet<usize>, /** every path can be decoded, every path that may be followed can be */ pub ok: bool, pub ok_all: bool, flows: BTreeMap<usize, Flow> }
/// `not1 ext, 0` right before a `jmpf`: the jump goes to the other memory
fn leaves(file: &[u8], p: usize) -> bool { p >= 2 && file[p - 2] == 0xB8 && file[p - 1] == 0x0D }
pub fn reach(file: &[u8], entries: &[usize]) -> Reach {
    let ops = opcodes();
    let mut flows = BTreeMap::new();
    let mut walk = |all: bool| -> (BTreeSet<usize>, bool) {
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut bad = false;
        // from where, other than from the instruction before, a place is reached
        let mut other: BTreeSet<usize> = entries.iter().copied().collect();
        let mut todo: Vec<usize> = entries.to_vec();
        let mut held: BTreeSet<usize> = BTreeSet::new();
        loop {
            while let Some(p) = todo.pop() {
                if p >= file.len() || !seen.insert(p) { continue; }
                let f = match flow(&ops, file, p) { Some(f) => f, None => { bad = true; continue } };
                flows.insert(p, f.clone());
                if let Some(n) = f.next { if !(leaves(file, n) && n == p + 2) { other.insert(n); } todo.push(n); }
                if let Some(j) = f.jump {
                    if f.jmpf && leaves(file, p) { held.insert(p); continue; }
                    if f.perhaps && !all { continue; }
                    other.insert(j);
                    todo.push(j);
                }
            }
            if all { for p in held.clone() { if other.contains(&p) { held.remove(&p); if let Some(j) = flows[&p].jump { other.insert(j); todo.push(j); } } } }
            if todo.is_empty() { break; }
        }
        (seen, !bad)
    };
    let (sure, ok) = walk(false);
    let (may, ok_all) = walk(true);
    Reach { sure, may, ok, ok_all, flows }
}
pub fn entries(ty: Option<&str>) -> Vec<usize> {
    let mut v = vec![0, 3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130];
    if ty == Some("bios") { v.extend([0x100, 0x108, 0x110, 0x120, 0x140, 0x1f0]); }
    v
}
/// what the listing says of each place: an instruction stands there, with these marks
#[derive(Default, Debug)]
struct Mark { label: bool, from: Option<Vec<usize>>, laps: Option<Vec<usize>>, op: String }
fn marks(t: &str) -> Result<(BTreeMap<usize, Mark>, BTreeSet<usize>), String> {
    let mut m: BTreeMap<usize, Mark> = BTreeMap::new();
    let mut entry = BTreeSet::new();
    let (mut cur, mut due) = (Mark::default(), false);
    let hexes = |x: &str| -> Result<Vec<usize>, String> { x.split(',').map(|h| usize::from_str_radix(h.trim().trim_start_matches('$'), 16).map_err(|_| format!("bad mark {}", x))).collect() };
    for l in t.lines() {
        let (p, x) = match l.find("| ") { Some(k) if k <= 8 && l[..k].chars().all(|c| c == ' ' || c.is_ascii_hexdigit()) => (usize::from_str_radix(l[..k].trim(), 16).ok(), &l[k + 2..]), _ => (None, l) };
        let (code, note) = match x.find(';') { Some(k) => (x[..k].trim(), x[k..].trim_start_matches(';').trim()), None => (x.trim(), "") };
        if let Some(h) = note.strip_prefix("Overlaps with:") { cur.laps = Some(hexes(h)?); }
        if let Some(h) = note.strip_prefix("Arrived from:") { cur.from = Some(hexes(h)?); }
        if note == "Entry point" { due = true; }
        match p {
            None => if code.starts_with("label_") && code.ends_with(':') { cur.label = true; },
            Some(p) => {
                if code.is_empty() || code.starts_with(".org") { continue; }
                if code.starts_with(".byte") { cur = Mark::default(); due = false; continue; }
                if due { entry.insert(p); due = false; }
                cur.op = code.to_string();
                if m.insert(p, std::mem::take(&mut cur)).is_some() { return Err(format!("two instructions at {:X}", p)); }
            }
        }
    }
    Ok((m, entry))
}
fn some(v: &[usize]) -> String { v.iter().take(8).map(|p| format!("{:X}", p)).collect::<Vec<_>>().join(" ") }
pub fn check_code(listing: &str, file: &[u8], ent: &[usize], arr: bool, r: &Reach) -> Result<bool, (&'static str, String)> {
    let (m, starts) = marks(listing).map_err(|e| ("listing-unreadable", e))?;
    let got: BTreeSet<usize> = m.keys().copied().collect();
    let lost: Vec<usize> = r.sure.difference(&got).copied().collect();
    if !lost.is_empty() { return Err(("code-not-listed", format!("not listed as instructions: {}", some(&lost)))); }
    let more: Vec<usize> = got.difference(&r.may).copied().collect();
    if !more.is_empty() { return Err(("data-listed-as-code", format!("listed as instructions: {}", some(&more)))); }
    let mut from: BTreeMap<usize, (BTreeSet<usize>, BTreeSet<usize>)> = BTreeMap::new();
    for p in &got {
        let f = &r.flows[p];
        if let Some(n) = f.next { from.entry(n).or_default().0.insert(*p); }
        if let Some(j) = f.jump {
            let maybe = f.perhaps || f.jmpf && leaves(file, *p);
            let e = from.entry(j).or_default();
            if maybe { e.1.insert(*p); } else { e.0.insert(*p); }
            if !maybe {
                if got.contains(&j) && !m[&j].label { return Err(("label-missing", format!("the target {:X} of {:X} has no label", j, p))); }
                if !m[p].op.ends_with(&format!("label_{:04X}", j)) { return Err(("target-wrong", format!("{} at {:X} goes to {:X}", m[p].op, p, j))); }
            }
        }
    }
    for (p, k) in &m {
        let f = &r.flows[p];
        let laps: Vec<usize> = got.range(p.saturating_sub(2)..p + f.size).copied().filter(|q| q != p && (*q > *p || q + r.flows[q].size > *p)).collect();
        let mut said = k.laps.clone().unwrap_or_default();
        said.sort();
        if said != laps { return Err(("overlaps-wrong", format!("at {:X}: {} instead of {}", p, some(&said), some(&laps)))); }
        if arr {
            let (a, b) = from.get(p).cloned().unwrap_or_default();
            let said: BTreeSet<usize> = k.from.clone().unwrap_or_default().into_iter().collect();
            if !a.is_subset(&said) || said.iter().any(|x| !a.contains(x) && !b.contains(x)) { return Err(("arrivals-wrong", format!("at {:X}: {:X?} instead of {:X?}", p, said, a))); }
        } else if k.from.is_some() { return Err(("arrivals-unasked", format!("at {:X}", p))); }
    }
    let want: BTreeSet<usize> = ent.iter().copied().filter(|p| *p < file.len()).collect();
    if starts != want { return Err(("entry-points-wrong", format!("{:X?} instead of {:X?}", starts, want))); }
    Ok(got.iter().any(|p| m[p].laps.is_some()))
}
pub fn g19(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = g18(r, c);
    if let Cmd::Dis { pos, .. } = &mut s.procs[0].cmd { *pos = true; }
    s
}
pub fn j19(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let (input, ty, arr) = match &p.cmd { Cmd::Dis { input, pos: true, ty, arr, .. } => (input.clone(), ty.clone(), *arr), _ => return Verdict::Skip("command".into()) };
    let data = match v.resolve(&p.cwd, &input, true).ok().and_then(|f| v.get(&f).cloned()) { Some(d) => d, None => return Verdict::Skip("no input".into()) };
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let ent = entries(ty.as_deref());
    let o = c.exec(&v, p);
    let mut vers = vec![data];
    vers.extend(s.vers.iter().map(|g| g.bytes()));
    let rs: Vec<Reach> = vers.iter().map(|d| reach(d, &ent)).collect();
    if !o.success() {
        // all of it can be decoded, and nothing else stood in the way
        if rs.iter().all(|r| r.ok_all) && p.faults.is_empty() && s.fair(p) && only_short(p, &o) && p.m.size_lie == 0 { c.hits += 1; return viol("code-refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(200).collect::<String>())); }
        c.reached("refused or failed");
        return Verdict::Pass;
    }
    let listing = o.vfs.get(&out).cloned().unwrap_or_default();
    let t = String::from_utf8_lossy(&listing).into_owned();
    c.hits += 1;
    let mut first = None;
    for (d, r) in vers.iter().zip(&rs) {
        if !r.ok { if first.is_none() { first = Some(("undecodable-accepted", "code that cannot be decoded was passed over".to_string())); } continue; }
        match check_code(&t, d, &ent, arr, r) {
            Ok(l) => {
                c.reached("code compared with the reachable one");
                if l { c.reached("instructions that share bytes"); }
                if r.sure != r.may { c.reached("jump to the other memory that can be entered on another way"); }
                if arr { c.reached("arrivals compared"); }
                return Verdict::Pass;
            }
            Err(e) => if first.is_none() { first = Some(e); },
        }
    }
    let (k, w) = first.unwrap();
    viol(k, w)
}

// ------------------------------------------------------------------------------------- C20
/// another name for the output, beside it: often close to it
fn sibling(r: &mut Rng, o: &str) -> String {
    let (d, n) = match o.rfind('/') { Some(k) => (&o[..k + 1], &o[k + 1..]), None => ("", o) };
    let stem = n.rsplit_once('.').map(|x| x.0).unwrap_or(n);
    format!("{}{}", d, match r.us(6) { 0 => format!("{}.two", stem), 1 => format!("{}.bin", stem), 2 => format!("{}2.vms", stem), 3 => format!("other-{}", n), 4 => format!("{}.{}", n, r.us(9)), _ => format!("{}.dat", r.us(1000)) })
}
pub fn g20(r: &mut Rng, c: &mut Ctx) -> Scen {
    let which = *r.pick(&["assemble", "assemble", "assemble", "disassemble", "expand", "icon", "image", "vmi"]);
    let gen = |r: &mut Rng, which: &str| -> Scen { if which == "vmi" { let mut s = Scen::default(); let p = vmi_cmd(r, &mut s); s.procs.push(p); s } else { let small = r.chance(3, 4); anycmd(r, which, W { small, ..ALL }) } };
    let mut s = gen(r, which);
    let mut kinds = vec![];
    for _ in 0..1 + r.us(5) / 3 {
        if r.chance(1, 2) {
            // the same inputs again, to another place
            let mut b = s.procs[0].clone();
            b.rng = rng_mode(r); b.clk = clk(r); b.spell = r.next() as u32;
            if r.chance(1, 3) { b.rng = s.procs[0].rng.clone(); b.clk = s.procs[0].clk.clone(); }
            kinds.push("same inputs");
            match b.cmd.out() { Some(o) => { if r.chance(5, 6) { let o = sibling(r, &o); set_out(&mut b.cmd, &o); } } None => {} }
            if let (Cmd::Asm { main, .. }, true) = (&b.cmd, r.chance(1, 4)) { b.cmd = Cmd::Expand { main: main.clone() }; }
            s.procs.push(b);
        } else {
            let w = *r.pick(&COMMANDS);
            let mut t = gen(r, w);
            kinds.push("other inputs");
            let mut b = t.procs.remove(0);
            if r.bool() { if let Some(o) = s.procs[0].cmd.out() { if o.starts_with('/') && b.cmd.out().is_some() { let o = sibling(r, &o); set_out(&mut b.cmd, &o); } } }
            for f in t.files { if !s.files.iter().any(|x| x.path == f.path) { s.files.push(f); } }
            for d in t.dirs { if !s.dirs.contains(&d) { s.dirs.push(d); } }
            for (k, v) in t.links { s.links.entry(k).or_insert(v); }
            for x in t.raw { if !s.raw.iter().any(|y| y.0 == x.0) { s.raw.push(x); } }
            s.procs.push(b);
        }
    }
    // some of them in trouble of their own
    for i in 0..s.procs.len() {
        match r.us(10) {
            0 => { let o = c.exec(&s.vfs(), &s.procs[i].healthy()); if let Some(f) = kill(r, &o.ops, &|_, x| !matches!(x.cls, CLOCK)) { s.procs[i].faults.push(f); } }
            1 => { hurt(r, c, &mut s, i, &|_, _| true, true); }
            2 => s.procs[i].m.disk_free = Some(r.below(3000)),
            3 | 4 => { soft(r, &mut s.procs[i].m); }
            5 if i > 0 && matches!(s.procs[i].cmd, Cmd::Asm { .. } | Cmd::Expand { .. }) => { match &mut s.procs[i].cmd { Cmd::Asm { main, .. } | Cmd::Expand { main } => *main = "no-such-file.s".into(), _ => {} } }
            _ => {}
        }
    }
    if r.chance(1, 8) { spoil(r, &mut s); }
    s.procs[0].plan = Plan::Seeded(r.next() >> 12, *r.pick(&[1, 2, 2, 3, 5, 10, 40]));
    s.tag = format!("{} and {} more, {}", s.procs[0].cmd.name(), s.procs.len() - 1, if kinds.contains(&"other inputs") { "other inputs" } else { "same inputs" });
    s
}
pub fn j20(s: &Scen, c: &mut Ctx) -> Verdict {
    let v = s.vfs();
    // outputs are not inputs of the others, and two runs share an output only if they make the same
    let outs: Vec<Option<String>> = s.procs.iter().map(|p| outfile(s, p)).collect();
    for (i, o) in outs.iter().enumerate() {
        let Some(o) = o else { if s.procs[i].cmd.out().is_some() { return Verdict::Skip("output path".into()); } continue };
        if s.files.iter().any(|f| f.path == *o) { return Verdict::Skip("output in the place of a source".into()); }
    }
    let mut alone = vec![];
    for (i, p) in s.procs.iter().enumerate() { alone.push(c.exec_as(&v, p, 4242 + i as i32)); }
    if c.capped || alone.iter().any(|o| o.exit == Exit::Harness) { return Verdict::Skip("a run was not ended".into()); }
    let was = v.files();
    // what each run changes when it is alone
    let changes: Vec<BTreeMap<String, Option<Vec<u8>>>> = alone.iter().map(|o| { let is = o.vfs.files(); was.keys().chain(is.keys()).filter(|f| was.get(*f) != is.get(*f)).map(|f| (f.clone(), is.get(f).cloned())).collect() }).collect();
    for i in 0..outs.len() { for j in 0..i { if outs[i].is_some() && outs[i] == outs[j] {
        if !(alone[i].success() && alone[j].success() && changes[i] == changes[j] && [i, j].iter().all(|k| s.procs[*k].faults.is_empty() && s.procs[*k].m.disk_free.is_none())) { return Verdict::Skip("different outputs in one place".into()); }
        c.reached("one output from two runs");
    } } }
    // what a run reads may also be something another one writes, under a name nobody gave it
    for i in 0..outs.len() { for j in 0..outs.len() { if i != j { if let Some(f) = &outs[j] { if alone[i].ops.iter().any(|x| x.path == *f) && outs[i] != outs[j] { return Verdict::Skip("output looked at by another run".into()); } } } } }
    let (os, w, sw) = c.exec_many(&v, &s.procs, &s.procs[0].plan);
    let mut want = was.clone();
    for ch in &changes { for (f, b) in ch { match b { Some(b) => want.insert(f.clone(), b.clone()), None => want.remove(f) }; } }
    for (i, (o, a)) in os.iter().zip(&alone).enumerate() {
        let n = format!("{} (number {} of {})", s.procs[i].cmd.name(), i + 1, os.len());
        if o.exit != a.exit { return viol("ends-differently", format!("{}: {:?} instead of {:?}: {}", n, o.exit, a.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
        if o.out != a.out { return viol("standard-output-differs", format!("{}: {}", n, diff(&o.out, &a.out))); }
    }
    let is = w.files();
    for f in want.keys().chain(is.keys()) {
        match (want.get(f), is.get(f)) { (Some(a), Some(b)) if a == b => {} (Some(_), None) => return viol("file-missing", f.clone()), (None, _) => return viol("file-left-behind", f.clone()), (Some(a), Some(b)) => return viol("file-differs", format!("{}: {}", f, diff(b, a))) }
    }
    c.hits += sw.len() as u64;
    if sw.len() > os.len() { c.reached("processes interleaved"); }
    if sw.len() > 20 { c.reached("more than 20 switches"); }
    if os.len() > 2 { c.reached("three processes"); }
    if alone.iter().all(|o| o.success()) { c.reached("all succeeded"); } else { c.reached("some failed or were killed"); }
    Verdict::Pass
}
