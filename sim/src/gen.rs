//! Generator of well-formed projects. A skeleton with holes is laid out first, then the holes
//! are filled with expressions whose value fits where they stand.
use crate::img::{Fmt, ImgSpec};
use crate::model::*;
use crate::rng::Rng;
use crate::sim::Blob;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Proj { pub files: Vec<FileSpec>, #[serde(default)] pub links: BTreeMap<String, String>, pub main: String, pub cwd: String }
impl Proj {
    pub fn tree(&self) -> Tree { self.files.iter().map(|f| (f.path.clone(), f.c.clone())).collect() }
    pub fn model(&self) -> Result<Report, Bad> { let t = self.tree(); assemble(&World { tree: &t, links: &self.links, cwd: &self.cwd, bins: None }, &self.main) }
}

#[derive(Clone, Debug)]
pub struct Opt { /** lines per file */ pub lines: usize, pub texts: usize, pub bins: usize, pub imgs: usize, pub macros: usize, pub binmax: usize, pub layout: Option<u8>, pub crlf: bool, pub multi: bool, pub fallback: bool, pub spell: bool }
impl Opt {
    pub fn any(r: &mut Rng) -> Opt {
        Opt { lines: 3 + r.us(22), texts: r.us(4), bins: r.us(3), imgs: if r.chance(1, 4) { 1 + r.us(2) } else { 0 }, macros: if r.bool() { r.us(4) } else { 0 },
            binmax: *r.pick(&[8, 60, 300, 300, 3000, 9000]), layout: None, crlf: true, multi: true, fallback: true, spell: true }
    }
    pub fn small(r: &mut Rng) -> Opt { Opt { lines: 3 + r.us(7), texts: r.us(3), bins: r.us(2), imgs: 0, macros: r.us(2), binmax: 120, layout: None, crlf: true, multi: true, fallback: true, spell: true } }
}

pub fn dirname(p: &str) -> &str { match p.rfind('/') { Some(0) => "/", Some(i) => &p[..i], None => "." } }
/// path of `to` seen from directory `from`, both absolute
pub fn relative(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let k = a.iter().zip(&b[..b.len() - 1]).take_while(|(x, y)| x == y).count();
    let mut o: Vec<&str> = vec![".."; a.len() - k];
    o.extend(&b[k..]);
    o.join("/")
}

#[derive(Clone)]
struct MacroInfo { name: String, kinds: Vec<u8>, max: usize, level: u8, /** has a label of the ordinary kind, so that it can be called only once */ once: Option<String> }
struct G<'r> { r: &'r mut Rng, n: usize, macros: Vec<MacroInfo>, equs: Vec<(String, i64)>, globals: Vec<String>, est: i64, local: Vec<String>, once: BTreeMap<String, String> }

const IMM: u8 = 0;
const D9: u8 = 1;
const B3: u8 = 2;
const A12: u8 = 3;
const A16: u8 = 4;
const R8: u8 = 5;
const R16: u8 = 6;
const BYTE: u8 = 7;
const WORD: u8 = 8;
const NEAR: u8 = 9;

fn kcode(k: K) -> u8 { match k { K::Imm => IMM, K::D9 => D9, K::B3 => B3, K::A12 => A12, K::A16 => A16, K::R8 => R8, K::R16 => R16, K::R => 99 } }
fn hole(k: u8) -> E { E::Hole(k) }

impl<'r> G<'r> {
    fn name(&mut self) -> String {
        self.n += 1;
        let b = *self.r.pick(&["lab", "start", "loop_x", "z", "data", "_q", "wait", "tbl", "p_", "vsync"]);
        format!("{}{}", b, self.n)
    }
    fn st(&mut self) -> u32 { self.r.next() as u32 }
    fn l(&mut self, l: Ln) -> L { let st = self.st(); L { l, st } }
    fn string(&mut self, max: usize) -> String {
        let n = self.r.us(max + 1);
        let pool: Vec<char> = "abcXYZ 0123,;:'%#$@.-+*/()[]{}<>=_!?~^&|\"\\\n\t\r\u{8}\0éß€✘".chars().collect();
        let plain = self.r.chance(2, 3);
        (0..n).map(|_| if plain { (b' ' + self.r.below(95) as u8) as char } else { *self.r.pick(&pool) }).collect()
    }
    fn instr(&mut self, pic: bool) -> Ln {
        loop {
            let f = &FORMS[self.r.us(FORMS.len())];
            if pic && f.ops.iter().any(|k| matches!(k, K::R8 | K::R16 | K::A12)) { continue; }
            self.est += 3;
            let ops = f.ops.iter().map(|k| match k { K::R => O::R(self.r.below(4) as u8), K::Imm => O::Imm(hole(IMM)), k => O::Ex(hole(kcode(*k))) }).collect();
            return Ln::Ins(f.name.into(), ops);
        }
    }
    fn data(&mut self) -> Ln {
        match self.r.us(6) {
            0 | 1 => { let n = 1 + self.r.us(8); self.est += n as i64 * 30; Ln::Byte((0..n).map(|_| if self.r.chance(1, 4) { BI::S(self.string(14)) } else { BI::X(hole(BYTE)) }).collect()) }
            2 => { let n = 1 + self.r.us(5); self.est += n as i64 * 2; Ln::Word((0..n).map(|_| hole(WORD)).collect()) }
            3 => { let s = self.string(10); let n = s.len() as i32 + self.r.us(6) as i32; self.est += n as i64; Ln::Text(n, s) }
            4 => { let s = self.string(10); let n = s.len() as i32 + self.r.us(6) as i32; self.est += n as i64; Ln::Str(n, s) }
            _ => { let (a, m) = *self.r.pick(&[(0, 2), (0, 16), (1, 4), (3, 8), (0, 100), (7, 1), (0x10, 0x20)]); self.est += m as i64 + a as i64; Ln::Cnop(a, m) }
        }
    }
    fn call(&mut self, m: &MacroInfo) -> Ln {
        self.est += m.max as i64;
        let args = m.kinds.iter().map(|k| match k {
            b'o' => match self.r.us(3) { 0 => O::R(self.r.below(4) as u8), 1 => O::Imm(hole(IMM)), _ => O::Ex(hole(D9)) },
            b'i' => O::Ex(hole(IMM)), b'm' => O::Ex(hole(D9)), b'b' => O::Ex(hole(B3)), b't' => O::Ex(hole(NEAR)), _ => O::Ex(hole(A16)),
        }).collect();
        Ln::Call(m.name.clone(), args)
    }
    fn makemacro(&mut self) -> L {
        let name = loop { let n = format!("{}{}", *self.r.pick(&["mac", "copy_", "ret_if", "%".trim_start_matches('%'), "do."]), self.n); self.n += 1; if n.chars().next().unwrap().is_alphabetic() && !n.contains('.') { break n; } };
        let kinds: Vec<u8> = (0..self.r.us(4)).map(|_| *self.r.pick(b"imobta")).collect();
        let params: Vec<String> = kinds.iter().enumerate().map(|(i, k)| format!("{}{}", *k as char, i)).collect();
        let level = if self.macros.is_empty() { 0 } else { self.r.us(2) as u8 };
        let nlab = self.r.us(3);
        let labs: Vec<String> = (0..nlab).map(|i| if self.r.chance(1, 4) { format!(".l{}", i) } else { format!("{}{}", *self.r.pick(&["again", "done", "lab"]), i) }).collect();
        let mut body: Vec<L> = vec![];
        let mut max = 0;
        let mut left: Vec<usize> = (0..nlab).collect();
        let n = 1 + self.r.us(5);
        let once = if self.r.chance(1, 6) { Some((self.r.us(n), self.name())) } else { None };
        for i in 0..n {
            if let Some((at, lab)) = &once { if *at == i {
                let rest = if self.r.chance(1, 3) { max += 1; Some(Box::new(Ln::Ins("nop".into(), vec![]))) } else { None };
                let l = self.l(Ln::Label(lab.clone(), rest));
                body.push(l);
                if self.r.chance(1, 3) { let l = if self.r.bool() { Ln::Local(".in".into()) } else { Ln::Label(".in".into(), None) }; let l = self.l(l); body.push(l); }
            } }
            while !left.is_empty() && (i == n - 1 || self.r.chance(1, 3)) {
                let k = left.remove(0);
                let bare = labs[k].starts_with('.') && self.r.bool();
                let rest = if !bare && self.r.chance(1, 4) { max += 1; Some(Box::new(Ln::Ins("nop".into(), vec![]))) } else { None };
                let l = self.l(Ln::MLab(labs[k].clone(), rest, bare));
                body.push(l);
            }
            let low: Vec<MacroInfo> = self.macros.iter().filter(|m| m.level < level && m.once.is_none()).cloned().collect();
            if level > 0 && !low.is_empty() && self.r.chance(1, 3) && max < 40 {
                let m = self.r.pick(&low).clone();
                if max + m.max > 60 { continue; }
                let mut ok = true;
                let args = m.kinds.iter().map(|k| {
                    let fits: Vec<&String> = params.iter().zip(&kinds).filter(|(_, p)| *p == k).map(|(n, _)| n).collect();
                    if !fits.is_empty() && self.r.bool() { return O::Ex(E::Arg(self.r.pick(&fits).to_string())); }
                    match k {
                        b'o' => O::R(self.r.below(4) as u8), b'i' => O::Ex(hole(IMM)), b'm' => O::Ex(hole(D9)), b'b' => O::Ex(hole(B3)),
                        b't' | b'a' => if labs.is_empty() { if !fits.is_empty() { O::Ex(E::Arg(fits[0].to_string())) } else if *k == b'a' { O::Ex(hole(A16)) } else { ok = false; O::R(0) } } else { O::Ex(E::Lab(self.r.pick(&labs).clone())) },
                        _ => O::Ex(hole(A16)),
                    }
                }).collect();
                if ok { max += m.max; let l = self.l(Ln::Call(m.name.clone(), args)); body.push(l); }
                continue;
            }
            let got = self.body_ins(&params, &kinds, &labs);
            max += 3;
            let l = self.l(got);
            body.push(l);
        }
        if self.r.chance(1, 6) { let l = self.l(Ln::Raw(" ; comment in a macro".into())); body.push(l); }
        if let Some((_, lab)) = &once { self.once.insert(name.clone(), lab.clone()); }
        self.macros.push(MacroInfo { name: name.clone(), kinds, max, level, once: once.map(|x| x.1) });
        self.l(Ln::Macro(name, params, body))
    }
    fn body_ins(&mut self, params: &[String], kinds: &[u8], labs: &[String]) -> Ln {
        let with = |k: u8| -> Vec<String> { params.iter().zip(kinds).filter(|(_, p)| **p == k).map(|(n, _)| n.clone()).collect() };
        // an operand handed through as it is
        if !with(b'o').is_empty() && self.r.chance(1, 4) {
            let p = with(b'o');
            let n = *self.r.pick(&["add", "sub", "and", "or", "xor", "addc", "subc"]);
            return Ln::Ins(n.into(), vec![O::Ex(E::Arg(self.r.pick(&p).clone()))]);
        }
        loop {
            let f = &FORMS[self.r.us(FORMS.len())];
            let mut ops = vec![];
            for k in f.ops {
                let arg = |g: &mut Self, k: u8| -> Option<E> { let v = with(k); if v.is_empty() || g.r.bool() { None } else { Some(E::Arg(g.r.pick(&v).clone())) } };
                ops.push(match k {
                    K::R => O::R(self.r.below(4) as u8),
                    K::Imm => O::Imm(match arg(self, b'i') { Some(a) => if self.r.bool() { a } else { let k = self.r.below(256) as i32; E::B(*self.r.pick(&['^', '&', '|']), Box::new(a), Box::new(E::N(k, self.r.next() as u8))) }, None => if !labs.is_empty() && self.r.chance(1, 5) { E::Lo(Box::new(E::Lab(self.r.pick(labs).clone()))) } else { hole(IMM) } }),
                    K::D9 => O::Ex(match arg(self, b'm') { Some(a) => a, None => hole(D9) }),
                    K::B3 => O::Ex(match arg(self, b'b') { Some(a) => a, None => hole(B3) }),
                    K::A16 => O::Ex(match arg(self, b'a') { Some(a) => a, None => if !labs.is_empty() && self.r.bool() { E::Lab(self.r.pick(labs).clone()) } else { hole(A16) } }),
                    K::R8 | K::R16 => { let t = with(b't'); if !t.is_empty() && (labs.is_empty() || self.r.bool()) { O::Ex(E::Arg(self.r.pick(&t).clone())) } else if !labs.is_empty() { O::Ex(E::Lab(self.r.pick(labs).clone())) } else { O::Ex(E::Hole(200)) } }
                    K::A12 => O::Ex(E::Hole(200)),
                });
            }
            if ops.iter().any(|o| *o == O::Ex(E::Hole(200))) { continue; }
            return Ln::Ins(f.name.into(), ops);
        }
    }
    fn equ(&mut self) -> Ln {
        let n = self.name();
        let v = match self.r.us(5) { 0 => self.r.range(0, 7), 1 => self.r.range(0, 255), 2 => self.r.range(-128, 0), 3 => self.r.range(0, 511), _ => self.r.range(-32768, 65535) };
        self.equs.push((n.clone(), v));
        Ln::Equ(n, E::Hole(100))
    }
    fn lines(&mut self, n: usize, multi: bool, out: &mut Vec<L>) {
        for _ in 0..n {
            let k = self.r.us(20);
            let x = match k {
                0 if !multi => { let n = self.name(); self.globals.push(n.clone()); self.local.clear(); let rest = if self.r.chance(1, 3) { Some(Box::new(self.instr(false))) } else { None }; Ln::Label(n, rest) }
                1 if !multi && !self.globals.is_empty() => { self.n += 1; let n = format!(".{}{}", *self.r.pick(&["a", "loop", "e_"]), self.n); self.local.push(n.clone()); if self.r.bool() { Ln::Local(n) } else { Ln::Label(n, None) } }
                2 if !multi => self.equ(),
                3 => Ln::Raw(self.r.pick(&["", "   ", "; a comment line", "*** banner", "\t; .include \"nothing.s\"", " ;"]).to_string()),
                4 if !self.macros.is_empty() => { let i = self.r.us(self.macros.len()); let m = self.macros[i].clone(); if multi && (m.kinds.contains(&b't') || m.once.is_some()) { self.data() } else { if let Some(l) = &m.once { self.macros.remove(i); self.globals.push(l.clone()); self.local.clear(); } self.call(&m) } }
                5 if !multi && self.r.chance(1, 5) && self.est < 0xC000 => { let v = self.est + self.r.range(0, 0x300); self.est = v; Ln::Org(v as i32) }
                6..=9 => self.data(),
                10 if self.r.chance(1, 8) => { self.est += 5; let l = self.l(Ln::Ins("not1".into(), vec![O::Ex(E::N(0x10D, 0)), O::Ex(E::N(0, 0))])); out.push(l); Ln::Ins("jmpf".into(), vec![O::Ex(hole(A16))]) }
                _ => self.instr(multi),
            };
            let l = self.l(x);
            out.push(l);
        }
    }
}

/// expression with value `v`
pub fn value(r: &mut Rng, v: i64, names: &[(String, i64)], depth: u32) -> E {
    if depth == 0 || r.chance(2, 5) {
        if let Some((n, _)) = if r.bool() { let eq: Vec<&(String, i64)> = names.iter().filter(|x| x.1 == v).collect(); if eq.is_empty() { None } else { Some((*r.pick(&eq)).clone()) } } else { None } { return E::Nm(n); }
        return E::N(v as i32, r.next() as u8);
    }
    let d = depth - 1;
    let bx = |e| Box::new(e);
    let small = |r: &mut Rng| r.range(-300, 300);
    match r.us(10) {
        0 | 1 if !names.is_empty() => {
            let (n, x) = r.pick(names).clone();
            let k = v - x;
            if k == 0 { return E::Nm(n); }
            if k < 0 && r.bool() { E::B('-', bx(E::Nm(n)), bx(value(r, -k, names, d))) } else { E::B('+', bx(E::Nm(n)), bx(value(r, k, names, d))) }
        }
        2 => { let a = small(r); E::B('+', bx(value(r, v - a, names, d)), bx(value(r, a, names, d))) }
        3 => { let a = small(r); E::B('-', bx(value(r, v + a, names, d)), bx(value(r, a, names, d))) }
        4 => {
            let k = *r.pick(&[2i64, 3, 4, 7, 5, 1, -1, -2, -3]);
            if v % k == 0 {
                let (a, b) = (value(r, v / k, names, d), value(r, k, names, d));
                if r.chance(1, 3) { E::B('*', bx(b), bx(a)) } else { E::B('*', bx(a), bx(b)) }
            } else {
                let m = k.abs() - 1;
                let t = match (v * k).signum() { 1 => r.range(0, m), -1 => -r.range(0, m), _ => r.range(-m, m) };
                E::B('/', bx(value(r, v * k + t, names, d)), bx(value(r, k, names, d)))
            }
        }
        5 => { let a = r.range(0, 65535); let o = *r.pick(&['^']); E::B(o, bx(value(r, a, names, d)), bx(value(r, a ^ v, names, d))) }
        6 if v >= 0 => { let m = r.range(0, 65535); E::B('&', bx(value(r, v | m, names, d)), bx(value(r, v | (!m & 0xffff), names, d))) }
        7 if v >= 0 => { let m = r.range(0, 65535); E::B('|', bx(value(r, v & m, names, d)), bx(value(r, v & (!m & 0xfffff), names, d))) }
        8 if (0..256).contains(&v) => if r.bool() { let hi = if r.chance(1, 4) { r.range(-30000, 2_000_000) } else { r.range(0, 100) }; E::Lo(bx(value(r, hi << 8 | v, names, d))) } else { let lo = r.range(0, 255); let top = if r.chance(1, 4) { r.range(-100, 8000) << 16 } else { 0 }; E::Hi(bx(value(r, top + (v << 8 | lo), names, d))) },
        _ => E::Neg(bx(value(r, -v, names, d))),
    }
}

struct Fill<'a> { r: Rng, pos: &'a BTreeMap<usize, i64>, labels: &'a BTreeMap<String, i64>, equs: &'a [(String, i64)], scope: String, n: usize, eqn: usize }
impl<'a> Fill<'a> {
    fn globals(&self, equs: usize) -> Vec<(String, i64)> {
        let mut v: Vec<(String, i64)> = self.labels.iter().filter(|(k, _)| !k.contains('.') && !k.contains('\u{1}')).map(|(k, v)| (k.clone(), *v)).collect();
        v.extend(self.equs[..equs].iter().cloned());
        v
    }
    fn all(&self) -> Vec<(String, i64)> {
        let mut v = self.globals(self.equs.len());
        let pre = format!("{}.", self.scope);
        v.extend(self.labels.iter().filter(|(k, _)| k.starts_with(&pre) && !k.contains('\u{1}')).map(|(k, v)| (k[self.scope.len()..].to_string(), *v)));
        v
    }
    /// names for lines that can appear in several places
    fn fixed(&self) -> Vec<(String, i64)> { self.globals(self.equs.len()) }
    fn pick(&mut self, k: u8, pos: i64, next: i64, names: &[(String, i64)]) -> i64 {
        let edge = self.r.chance(1, 8);
        let mut between = |f: &mut Self, lo: i64, hi: i64| -> i64 {
            if edge { return if f.r.bool() { lo } else { hi }; }
            let c: Vec<i64> = names.iter().map(|n| n.1).filter(|v| (lo..=hi).contains(v)).collect();
            if !c.is_empty() && f.r.chance(2, 3) { *f.r.pick(&c) } else { f.r.range(lo, hi) }
        };
        match k {
            IMM => between(self, 0, 255), D9 => between(self, 0, 511), B3 => between(self, 0, 7), A16 => between(self, 0, 65535), BYTE => between(self, -128, 255), WORD => between(self, -32768, 65535),
            A12 => { let b = next & 0xF000; between(self, b, b + 0xFFF) }
            R8 => between(self, (next - 128).max(0), (next + 127).min(65535)),
            NEAR => between(self, (pos - 40).max(0), (pos + 40).min(65535)),
            R16 => between(self, (next - 1 - 32768).max(0), (next - 1 + 32767).min(65535)),
            _ => 0,
        }
    }
    fn e(&mut self, e: &mut E, pos: i64, next: i64, names: &[(String, i64)]) {
        if let E::Hole(k) = *e { let v = self.pick(k, pos, next, names); let d = if self.r.chance(1, 24) { 6 } else { self.r.below(4) as u32 }; *e = value(&mut self.r, v, names, d); }
    }
    fn ln(&mut self, l: &mut Ln, names: &[(String, i64)]) {
        let pos = self.pos.get(&self.n).copied().unwrap_or(0);
        match l {
            Ln::Ins(n, o) => { let next = pos + form(n, o).map(|f| f.size as i64).unwrap_or(0); for o in o { if let O::Imm(e) | O::Ex(e) = o { self.e(e, pos, next, names); } } }
            Ln::Call(_, o) => for o in o { if let O::Imm(e) | O::Ex(e) = o { self.e(e, pos, pos, names); } },
            Ln::Byte(b) => for b in b { if let BI::X(e) = b { self.e(e, pos, pos, names); } },
            Ln::Word(w) => for e in w { self.e(e, pos, pos, names); },
            Ln::Label(_, Some(x)) => self.ln(x, names),
            _ => {}
        }
    }
}

pub fn rand_img(r: &mut Rng, kind: u8) -> ImgSpec {
    // 0 icon, 1 eyecatch, 2 sprite or general
    let fmt = match r.us(8) { 0 => Fmt::Bmp, 1 | 2 => Fmt::Gif, 3 | 4 => Fmt::Apng(*r.pick(&[0u8, 2, 4, 6])), _ => { let (c, d) = *r.pick(&[(6, 8), (2, 8), (3, 8), (3, 4), (0, 8), (4, 8), (6, 16), (2, 16)]); Fmt::Png(c, d) } };
    let (w, h) = match kind { 0 => (32, 32), 1 => (72, 56), _ => (if r.chance(1, 40) { 250 + r.below(6) as u32 } else { 1 + r.below(40) as u32 }, if r.chance(1, 40) { 250 + r.below(6) as u32 } else { 1 + r.below(20) as u32 }) };
    let colors = match kind { 0 => 1 + r.below(16) as u32, 1 => *r.pick(&[2, 16, 17, 100, 256, 300, 1000]), _ => 1 + r.below(20) as u32 };
    ImgSpec { fmt, w, h, frames: 1 + r.below(3) as u32, colors, seed: r.next() >> 20, alpha: r.chance(1, 3), patch: 1 + r.below(4) as u32, piece: *r.pick(&[0, 0, 1, 13, 100, 1000]) }
}
pub fn rand_bin(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.us(6) { 0 => r.us(4), 1 => max, _ => r.us(max + 1) };
    match r.us(3) { 0 => { let b = r.next() as u8; vec![b; n] } _ => r.bytes(n) }
}

pub fn project(r: &mut Rng, o: &Opt) -> Proj {
    for _ in 0..40 {
        let mut rr = r.fork();
        if let Some(p) = attempt(&mut rr, o) { return p; }
    }
    panic!("no project could be generated");
}
fn attempt(r: &mut Rng, o: &Opt) -> Option<Proj> {
    let lay = o.layout.unwrap_or_else(|| r.below(6) as u8);
    let (cwd, dir, mname) = match lay { 0 | 1 => ("/w", "/w", "main.s"), 2 => ("/w", "/w/src", "prog.s"), 3 => ("/w/build", "/w/src", "main.s"), 4 => ("/home/u", "/w/p", "m.asm"), _ => ("/w", "/w/my proj", "main.s") };
    let maxdepth = o.texts;
    let main = format!("{}/{}", dir, mname);
    let mut g = G { r, n: 0, macros: vec![], equs: vec![], globals: vec![], est: 0, local: vec![], once: BTreeMap::new() };
    // files to include: (path, kind) kind: 0 asm, 1 asm multi, 2 cpp
    let mut names: Vec<(String, u8)> = vec![];
    let dirs = ["", "inc/", "lib/x/", "../common/", "", "sub dir/"];
    for i in 0..maxdepth {
        let k = if g.r.chance(1, 5) { 2 } else if o.multi && g.r.chance(1, 4) { 1 } else { 0 };
        let d = *g.r.pick(&dirs);
        let f = match k { 2 => format!("hdr{}.h", i), 1 => format!("tab{}.s", i), _ => format!("part{}.s", i) };
        // files of one name in different directories
        let same = norm(&format!("{}/{}{}", dir, d, match k { 2 => "hdr.h", 1 => "tab.s", _ => "part.s" }));
        names.push((if g.r.chance(1, 3) && !names.iter().any(|n| n.0 == same) { same } else { norm(&format!("{}/{}{}", dir, d, f)) }, k));
    }
    let mut files: BTreeMap<String, FileSpec> = BTreeMap::new();
    let mut bins: Vec<(String, usize)> = vec![];
    for i in 0..o.bins {
        let d = *g.r.pick(&dirs);
        let p = norm(&format!("{}/{}{}{}", dir, d, *g.r.pick(&["d", "gfx", "snd"]), if g.r.chance(1, 2) { String::new() } else { i.to_string() })) + *g.r.pick(&[".bin", ".bin", ".bin", ".dat", "", ".s"]);
        let b = rand_bin(g.r, o.binmax);
        if files.contains_key(&p) { continue; }
        bins.push((p.clone(), b.len()));
        files.insert(p.clone(), FileSpec::new(p, Content::Bin(Blob(b))));
    }
    let mut imgs: Vec<(String, u8, ImgSpec)> = vec![];
    for i in 0..o.imgs {
        let k = if g.r.bool() { 0 } else { 2 };
        let s = rand_img(g.r, k);
        let d = *g.r.pick(&dirs);
        let same = norm(&format!("{}/{}pic.{}", dir, d, s.ext()));
        let p = if g.r.chance(1, 2) && !files.contains_key(&same) { same } else { norm(&format!("{}/{}pic{}.{}", dir, d, i, s.ext())) };
        imgs.push((p.clone(), k, s.clone()));
        files.insert(p.clone(), FileSpec::new(p, Content::Img(s)));
        if k == 0 && g.r.chance(1, 3) {
            let s = rand_img(g.r, 1);
            let d = *g.r.pick(&dirs);
            let p = norm(&format!("{}/{}eye{}.{}", dir, d, i, s.ext()));
            imgs.push((p.clone(), 1, s.clone()));
            files.insert(p.clone(), FileSpec::new(p, Content::Img(s)));
        }
    }
    let mut pending = names.clone();
    let mut nmac = o.macros;
    // the multi files first, since they do not depend on anything
    let mut main_lines = vec![];
    let mut stack: Vec<(String, Vec<L>)> = vec![];
    fn one(g: &mut G, o: &Opt, path: &str, depth: usize, pending: &mut Vec<(String, u8)>, files: &mut BTreeMap<String, FileSpec>, bins: &[(String, usize)], imgs: &[(String, u8, ImgSpec)], cwd: &str, nmac: &mut usize, multis: &mut Vec<String>) -> Vec<L> {
        let mut ls = vec![];
        let dir = dirname(path).to_string();
        let spell = |g: &mut G, to: &str| -> String {
            let p = relative(&dir, to);
            match g.r.us(9) { _ if !o.spell => p, 0 => format!("./{}", p), 1 => to.to_string(), 2 if o.fallback && relative(&dir, to) != relative(cwd, to) && !relative(cwd, to).starts_with("..") => relative(cwd, to), _ => p }
        };
        let segs = 1 + g.r.us(3);
        for s in 0..segs {
            while *nmac > 0 && g.r.chance(1, 2) { *nmac -= 1; let m = g.makemacro(); ls.push(m); }
            let n = 1 + o.lines / segs;
            g.lines(n, false, &mut ls);
            if g.r.chance(2, 3) || s == 0 { if let Some((p, k)) = pending.pop() {
                let inc = spell(g, &p);
                match k {
                    2 => { let mut c = vec![]; for _ in 0..1 + g.r.us(5) { let x = if g.r.chance(1, 5) { Ln::Raw(g.r.pick(&["", "// comment", "/* block */", "/* two\n lines */"]).to_string()) } else { g.equ() }; let l = g.l(x); c.push(l); } files.insert(p.clone(), FileSpec::new(p.clone(), Content::Cpp(c))); let l = g.l(Ln::Cpp(inc)); ls.push(l); }
                    1 => { let mut c = vec![]; let n = 1 + g.r.us(5); let e0 = g.est; g.lines(n, true, &mut c); let d = g.est - e0; g.est += d * 2; files.insert(p.clone(), FileSpec::new(p.clone(), Content::Asm(c))); multis.push(p.clone()); let l = g.l(Ln::Inc(inc)); ls.push(l); }
                    _ => { if depth < 4 { files.insert(p.clone(), FileSpec::new(p.clone(), Content::Asm(vec![]))); let c = one(g, o, &p, depth + 1, pending, files, bins, imgs, cwd, nmac, multis); let mut f = FileSpec::new(p.clone(), Content::Asm(c)); f.crlf = o.crlf && g.r.chance(1, 8); f.nonl = g.r.chance(1, 8); files.insert(p.clone(), f); let l = g.l(Ln::Inc(inc)); ls.push(l); } }
                }
            } }
            if !multis.is_empty() && g.r.chance(1, 2) { let p = g.r.pick(multis).clone(); let inc = spell(g, &p); let l = g.l(Ln::Inc(inc)); ls.push(l); g.est += 600; }
            if !bins.is_empty() && g.r.chance(1, 2) { let (p, n) = g.r.pick(bins).clone(); g.est += n as i64; let inc = spell(g, &p); let l = g.l(Ln::Bytes(inc)); ls.push(l); }
            if !imgs.is_empty() && g.r.chance(2, 3) {
                let (p, k, i) = g.r.pick(imgs).clone();
                let inc = spell(g, &p);
                if k == 0 {
                    let eyes: Vec<&(String, u8, ImgSpec)> = imgs.iter().filter(|x| x.1 == 1).collect();
                    // an eyecatch path is not spelled in ways that resolve differently from other directories
                    let eye = if !eyes.is_empty() && g.r.bool() { Some(g.r.pick(&eyes).0.clone()) } else { None };
                    let speed = if g.r.bool() { let v = g.r.range(0, 200); Some(value(g.r, v, &[], 1)) } else { None };
                    let x = Ln::Icon { p: inc, speed, eye: eye.map(|e| spell(g, &e)) };
                    g.est += 700 + i.nframes() as i64 * 512 + 8200;
                    let l = g.l(x); ls.push(l);
                } else if k == 2 {
                    let masked = if g.r.bool() { Some(g.r.bool()) } else { None };
                    let hdr = if g.r.bool() { Some(g.r.bool()) } else { None };
                    g.est += (i.nframes() * (2 + i.h * 2 * (i.w / 8 + 1))) as i64;
                    let l = g.l(Ln::Sprite { p: inc, masked, hdr }); ls.push(l);
                }
            }
            if g.est > 60000 { break; }
        }
        ls
    }
    let mut multis = vec![];
    main_lines.extend(one(&mut g, o, &main, 0, &mut pending, &mut files, &bins, &imgs, cwd, &mut nmac, &mut multis));
    let _ = &mut stack;
    let mut f = FileSpec::new(main.clone(), Content::Asm(main_lines));
    f.crlf = o.crlf && g.r.chance(1, 8);
    f.nonl = g.r.chance(1, 8);
    files.insert(main.clone(), f);
    let equs = g.equs.clone();
    let once = g.once.clone();
    let mut p = Proj { files: files.into_values().collect(), links: BTreeMap::new(), main: main.clone(), cwd: cwd.into() };
    // fill the holes
    let t = p.tree();
    let w = World { tree: &t, links: &p.links, cwd, bins: None };
    let (pos, labels) = match layout(&w, &main) { Ok(x) => x, Err(_) => return None };
    let order = inclusion(&w, &main)?;
    let mut fl = Fill { r: r.fork(), pos: &pos, labels: &labels, equs: &equs, scope: String::new(), n: 0, eqn: 0 };
    let mut done: BTreeMap<(String, usize), Ln> = BTreeMap::new();
    let eqv: BTreeMap<&String, i64> = equs.iter().map(|(n, v)| (n, *v)).collect();
    let mut eq_seen: Vec<(String, i64)> = vec![];
    let lab_only = fl.globals(0);
    for (n, (file, idx)) in order.iter().enumerate() {
        fl.n = n;
        let line = match &t[file] { Content::Asm(l) | Content::Cpp(l) => &l[*idx].l, _ => continue };
        if let Ln::Label(x, _) | Ln::Local(x) = line { if !x.starts_with('.') { fl.scope = x.clone(); } }
        if let Ln::Call(m, _) = line { if let Some(x) = once.get(m) { fl.scope = x.clone(); } }
        if done.contains_key(&(file.clone(), *idx)) { continue; }
        let multi = multis.contains(file);
        let mut l = line.clone();
        match &mut l {
            Ln::Equ(x, e) => {
                let v = eqv[x];
                let mut names = lab_only.clone();
                names.extend(eq_seen.iter().cloned());
                let d = fl.r.below(3) as u32;
                *e = value(&mut fl.r, v, &names, d);
                eq_seen.push((x.clone(), v));
            }
            Ln::Macro(_, _, b) => { let names = fl.fixed(); for x in b.iter_mut() { fl.ln(&mut x.l, &names); } }
            x => { let names = if multi { fl.fixed() } else { fl.all() }; fl.ln(x, &names) }
        }
        done.insert((file.clone(), *idx), l);
    }
    let _ = fl.eqn;
    for f in p.files.iter_mut() {
        if let Content::Asm(ls) | Content::Cpp(ls) = &mut f.c { for (i, l) in ls.iter_mut().enumerate() { if let Some(x) = done.get(&(f.path.clone(), i)) { l.l = x.clone(); } } }
    }
    // files nothing includes stay as bystanders
    match p.model() { Ok(rep) if rep.image.len() <= 65536 => Some(p), Ok(_) => None, Err(e) => { if std::env::var("WBSIM_DEBUG").is_ok() { eprintln!("model rejects: {:?}", e); } None } }
}
pub fn norm(p: &str) -> String {
    let mut o: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { o.pop(); } c => o.push(c) } }
    format!("/{}", o.join("/"))
}
/// (file, line index) of every line in the order the assembler sees them
pub fn inclusion(w: &World, main: &str) -> Option<Vec<(String, usize)>> {
    fn go(w: &World, path: &str, out: &mut Vec<(String, usize)>, depth: u32) -> Option<()> {
        let (canon, c) = w.file(path)?;
        if depth > 12 { return None; }
        let ls = match c { Content::Asm(l) | Content::Cpp(l) => l, _ => return None };
        for (i, l) in ls.iter().enumerate() {
            out.push((canon.clone(), i));
            if let Ln::Inc(p) | Ln::Cpp(p) = &l.l { let (f, _) = w.resolve(path, p).ok()?; go(w, &f, out, depth + 1)?; }
        }
        Some(())
    }
    let mut v = vec![];
    go(w, &w.abs(main), &mut v, 0)?;
    Some(v)
}
