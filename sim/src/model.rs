//! The reference assembler: an independent, deliberately plain account of what a project
//! denotes, working on the project's own syntax tree and not on its text.
use crate::img::ImgSpec;
use crate::rng::Rng;
use crate::sim::Blob;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E { N(i32, u8), Nm(String), B(char, Box<E>, Box<E>), Neg(Box<E>), Hi(Box<E>), Lo(Box<E>), Arg(String), Lab(String), /** to be filled by the generator */ Hole(u8) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum O { Imm(E), Ex(E), R(u8) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BI { X(E), S(String) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ln {
    Label(String, Option<Box<Ln>>),
    /// ".x" alone on its line
    Local(String),
    /// label owned by a macro expansion; the flag asks for the form without colon (local ones only)
    MLab(String, Option<Box<Ln>>, bool),
    Equ(String, E),
    Ins(String, Vec<O>),
    Call(String, Vec<O>),
    Byte(Vec<BI>), Word(Vec<E>), Text(i32, String), Str(i32, String), Org(i32), Cnop(i32, i32),
    Inc(String), Cpp(String), Bytes(String),
    Icon { p: String, speed: Option<E>, eye: Option<String> },
    Sprite { p: String, masked: Option<bool>, hdr: Option<bool> },
    Macro(String, Vec<String>, Vec<L>),
    /// text without any token in it, copied as it is
    Raw(String),
    /// a line with an error in it, copied as it is
    Bad(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct L { pub l: Ln, pub st: u32 }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content { Asm(Vec<L>), Cpp(Vec<L>), Bin(Blob), Img(ImgSpec) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec { pub path: String, pub c: Content, #[serde(default)] pub crlf: bool, #[serde(default)] pub nonl: bool,
    /// the file breaks off after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")] pub cut: Option<u32>,
    /// (offset, length) of stretches overwritten with zeros
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub torn: Vec<(u32, u32)> }
impl FileSpec {
    pub fn new(path: impl Into<String>, c: Content) -> FileSpec { FileSpec { path: path.into(), c, crlf: false, nonl: false, cut: None, torn: vec![] } }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.whole();
        if let Some(n) = self.cut { b.truncate(n as usize); }
        for (o, n) in &self.torn { for x in b.iter_mut().skip(*o as usize).take(*n as usize) { *x = 0; } }
        b
    }
    pub fn whole(&self) -> Vec<u8> {
        match &self.c {
            Content::Asm(l) => render(l, false, self.crlf, self.nonl).into_bytes(),
            Content::Cpp(l) => render(l, true, self.crlf, self.nonl).into_bytes(),
            Content::Bin(b) => b.0.clone(),
            Content::Img(i) => i.encode(),
        }
    }
}

// ------------------------------------------------------------------------------ rendering
fn case(r: &mut Rng, s: &str) -> String {
    if r.chance(3, 4) { return s.to_string(); }
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect()
}
fn num(r: &mut Rng, n: i32, radix: u8) -> String {
    let sep = |r: &mut Rng, d: String| -> String {
        if d.len() < 2 || !r.chance(1, 6) { return d; }
        let k = 1 + r.us(d.len() - 1);
        format!("{}'{}", &d[..k], &d[k..])
    };
    let n = n as u32;
    match radix % 8 {
        0 | 1 => { let d = if r.bool() { format!("{:x}", n) } else { format!("{:02X}", n) }; format!("${}", sep(r, d)) }
        2 => { let p = if r.bool() { "0x" } else { "0X" }; format!("{}{}", p, sep(r, format!("{:X}", n))) }
        3 => format!("%{}", sep(r, format!("{:b}", n))),
        4 => { let p = if r.bool() { "0b" } else { "0B" }; format!("{}{}", p, sep(r, format!("{:08b}", n))) }
        5 => { let p = if r.bool() { "0o" } else { "0O" }; format!("{}{}", p, sep(r, format!("{:o}", n))) }
        _ => sep(r, format!("{}", n)),
    }
}
fn prec(e: &E) -> u8 { match e { E::B(c, ..) => match c { '&' | '|' | '^' => 1, '+' | '-' => 3, _ => 4 }, E::Neg(_) | E::Hi(_) | E::Lo(_) => 6, _ => 9 } }
pub fn expr(r: &mut Rng, e: &E, min: u8) -> String {
    let s = match e {
        E::N(n, x) => if *n < 0 { format!("-{}", num(r, n.wrapping_neg(), *x)) } else { num(r, *n, *x) },
        E::Nm(n) => case(r, n),
        E::Arg(n) => format!("%{}", case(r, n)),
        E::Lab(n) => format!("{}%", case(r, n)),
        E::Hole(_) => "0".into(),
        E::B(c, a, b) => {
            let p = prec(e);
            let (l, q) = (expr(r, a, p), expr(r, b, p + 1));
            let sp = if r.chance(1, 3) && !(l.ends_with('%')) { "" } else { " " };
            let sp2 = if *c == '*' || *c == '/' { " " } else { sp };
            format!("{}{}{}{}{}", l, sp2, c, sp2, q)
        }
        E::Neg(a) => format!("-{}", expr(r, a, 6)),
        E::Hi(a) => format!(">{}", expr(r, a, 6)),
        E::Lo(a) => format!("<{}", expr(r, a, 6)),
    };
    let low = prec(e) < min || matches!(e, E::N(n, _) if *n < 0 && min > 6);
    if low || r.chance(1, 12) { if r.chance(1, 8) { format!("( {} )", s) } else { format!("({})", s) } } else { s }
}
pub fn quote(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '\u{8}' => o.push_str("\\b"), '\0' => o.push_str("\\0"),
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            c if c.is_ascii_punctuation() && r.chance(1, 10) => { o.push('\\'); o.push(c) }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn oper(r: &mut Rng, o: &O) -> String {
    match o {
        O::Imm(e) => { let sp = if r.chance(1, 8) { " " } else { "" }; format!("#{}{}", sp, expr(r, e, 0)) }
        // a lone macro argument must not be put in parentheses: it would still be one
        O::Ex(e) => expr(r, e, 0),
        O::R(k) => format!("{}{}", if r.bool() { "@R" } else { "@r" }, k),
    }
}
fn list(r: &mut Rng, v: Vec<String>) -> String {
    let mut o = String::new();
    for (i, s) in v.iter().enumerate() {
        if i > 0 { o.push_str(*r.pick(&[", ", ",", " , ", ",  "])); }
        o.push_str(s);
    }
    o
}
/// one line without its indentation
fn body(r: &mut Rng, l: &Ln, cpp: bool) -> String {
    match l {
        Ln::Label(n, rest) => { let c = case(r, n); match rest { None => format!("{}{}:", c, if r.chance(1, 10) { " " } else { "" }), Some(x) => { let sp = *r.pick(&[" ", "  ", "\t"]); format!("{}:{}{}", c, sp, body(r, x, cpp)) } } }
        Ln::Local(n) => case(r, n),
        Ln::MLab(n, rest, bare) => { let c = case(r, n); match rest { None => format!("{}%{}", c, if *bare { "" } else { ":" }), Some(x) => format!("{}%: {}", c, body(r, x, cpp)) } }
        Ln::Equ(n, e) => {
            let (c, x) = (case(r, n), expr(r, e, 0));
            if cpp && r.chance(4, 5) { let sp = *r.pick(&[" ", "  ", "\t"]); format!("#define {}{}{}", c, sp, x) }
            else if r.bool() { let k = case(r, "equ"); format!("{} {} {}", c, k, x) } else { format!("{} = {}", c, x) }
        }
        Ln::Ins(n, o) | Ln::Call(n, o) => {
            let c = case(r, n);
            if o.is_empty() { return c; }
            let v: Vec<String> = o.iter().map(|o| oper(r, o)).collect();
            let sp = *r.pick(&[" ", "  ", "\t", "    "]);
            format!("{}{}{}", c, sp, list(r, v))
        }
        Ln::Byte(b) => {
            let v: Vec<String> = b.iter().map(|b| match b { BI::X(e) => expr(r, e, 0), BI::S(s) => quote(s, r) }).collect();
            let c = case(r, ".byte");
            format!("{} {}", c, list(r, v))
        }
        Ln::Word(w) => { let v: Vec<String> = w.iter().map(|e| expr(r, e, 0)).collect(); let c = case(r, ".word"); format!("{} {}", c, list(r, v)) }
        Ln::Text(n, s) => { let k = r.next() as u8; format!(".text {} {}", num(r, *n, k), quote(s, r)) }
        Ln::Str(n, s) => { let k = r.next() as u8; format!(".string {} {}", num(r, *n, k), quote(s, r)) }
        Ln::Org(n) => { let k = r.next() as u8; let c = case(r, ".org"); format!("{} {}", c, num(r, *n, k)) }
        Ln::Cnop(a, b) => { let (k, j) = (r.next() as u8, r.next() as u8); format!(".cnop {}, {}", num(r, *a, k), num(r, *b, j)) }
        Ln::Inc(p) => { let c = case(r, ".include"); let a = if r.chance(1, 3) { "asm " } else { "" }; format!("{} {}{}", c, a, plain_quote(p)) }
        Ln::Cpp(p) => format!(".include cpp {}", plain_quote(p)),
        Ln::Bytes(p) => { let c = case(r, "bytes"); format!(".include {} {}", c, plain_quote(p)) }
        Ln::Icon { p, speed, eye } => {
            let mut v = vec![];
            if let Some(e) = speed { v.push(format!("speed={}", expr(r, e, 0))); }
            if let Some(e) = eye { v.push(format!("eyecatch = {}", plain_quote(e))); }
            if v.len() == 2 && r.bool() { v.swap(0, 1); }
            format!(".include icon {} {}", plain_quote(p), list(r, v))
        }
        Ln::Sprite { p, masked, hdr } => {
            let mut v = vec![];
            if let Some(m) = masked { v.push(format!("type=\"{}\"", if *m { "masked" } else { "simple" })); }
            if let Some(h) = hdr { v.push(format!("header = \"{}\"", if *h { "yes" } else { "no" })); }
            if v.len() == 2 && r.bool() { v.swap(0, 1); }
            format!(".include sprite {} {}", plain_quote(p), list(r, v))
        }
        Ln::Macro(..) => unreachable!(),
        Ln::Raw(s) | Ln::Bad(s) => s.clone(),
    }
}
fn plain_quote(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }
fn tail(r: &mut Rng, cpp: bool) -> String {
    let sp = *r.pick(&["", "", "", " ", "  ", "\t"]);
    if !r.chance(1, 6) { return sp.into(); }
    let t = *r.pick(&["note", " x", "it's \"quoted\" here", " ünïcode ✘", ";;", "", " 100%", " .include \"none\""]);
    if cpp { match r.us(3) { 0 => format!(" // {}", t), 1 => format!(" /* {} */", if t.is_ascii() { t } else { "c" }), _ => sp.into() } } else { format!("{};{}", if sp.is_empty() { " " } else { sp }, t) }
}
pub fn lines_of(ls: &[L], cpp: bool) -> Vec<String> {
    let mut out = vec![];
    for l in ls {
        let mut r = Rng::new(l.st as u64 + 1);
        match &l.l {
            Ln::Raw(s) => out.push(s.clone()),
            Ln::Bad(s) => out.push(s.clone()),
            Ln::Macro(n, args, b) => {
                let a: Vec<String> = args.iter().map(|a| format!("%{}", case(&mut r, a))).collect();
                let kw = case(&mut r, "%macro");
                let nm = case(&mut r, n);
                let ar = list(&mut r, a);
                out.push(format!("{}{} {} {}", if r.bool() { "" } else { " " }, kw, nm, ar));
                out.extend(lines_of(b, cpp));
                let e = case(&mut r, "%end");
                out.push(format!("{}{}{}", if r.bool() { "" } else { "  " }, e, tail(&mut r, cpp)));
            }
            x => {
                let ind = match x { Ln::Label(..) | Ln::Equ(..) | Ln::Local(_) | Ln::MLab(..) => *r.pick(&["", "", "", " "]), _ => *r.pick(&["  ", "\t", " ", "        ", "    ", ""]) };
                let b = body(&mut r, x, cpp);
                out.push(format!("{}{}{}", ind, b, tail(&mut r, cpp)));
            }
        }
    }
    out
}
pub fn render(ls: &[L], cpp: bool, crlf: bool, nonl: bool) -> String {
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut s = lines_of(ls, cpp).join(nl);
    if !nonl { s.push_str(nl); }
    s
}

// ------------------------------------------------------------------------------ instructions
/// operand kinds of an instruction form
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Imm, D9, R, B3, A12, A16, R8, R16 }
pub struct Form { pub name: &'static str, pub ops: &'static [K], pub size: i32 }
macro_rules! forms { ($($n:literal [$($k:ident),*] $s:literal;)*) => { pub const FORMS: &[Form] = &[$(Form { name: $n, ops: &[$(K::$k),*], size: $s }),*]; } }
forms! {
    "add" [Imm] 2; "add" [D9] 2; "add" [R] 1; "addc" [Imm] 2; "addc" [D9] 2; "addc" [R] 1; "sub" [Imm] 2; "sub" [D9] 2; "sub" [R] 1;
    "subc" [Imm] 2; "subc" [D9] 2; "subc" [R] 1; "inc" [D9] 2; "inc" [R] 1; "dec" [D9] 2; "dec" [R] 1; "mul" [] 1; "div" [] 1;
    "and" [Imm] 2; "and" [D9] 2; "and" [R] 1; "or" [Imm] 2; "or" [D9] 2; "or" [R] 1; "xor" [Imm] 2; "xor" [D9] 2; "xor" [R] 1;
    "rol" [] 1; "rolc" [] 1; "ror" [] 1; "rorc" [] 1; "ld" [D9] 2; "ld" [R] 1; "st" [D9] 2; "st" [R] 1; "mov" [Imm, D9] 3; "mov" [Imm, R] 2;
    "ldc" [] 1; "push" [D9] 2; "pop" [D9] 2; "xch" [D9] 2; "xch" [R] 1; "jmp" [A12] 2; "jmpf" [A16] 3; "br" [R8] 2; "brf" [R16] 3;
    "bz" [R8] 2; "bnz" [R8] 2; "bp" [D9, B3, R8] 3; "bpc" [D9, B3, R8] 3; "bn" [D9, B3, R8] 3; "dbnz" [D9, R8] 3; "dbnz" [R, R8] 2;
    "be" [Imm, R8] 3; "be" [D9, R8] 3; "be" [R, Imm, R8] 3; "bne" [Imm, R8] 3; "bne" [D9, R8] 3; "bne" [R, Imm, R8] 3;
    "call" [A12] 2; "callf" [A16] 3; "callr" [R16] 3; "ret" [] 1; "reti" [] 1; "clr1" [D9, B3] 2; "set1" [D9, B3] 2; "not1" [D9, B3] 2;
    "nop" [] 1; "ldf" [] 1; "stf" [] 1;
}
pub fn form(name: &str, ops: &[O]) -> Option<&'static Form> {
    FORMS.iter().find(|f| f.name == name && f.ops.len() == ops.len() && f.ops.iter().zip(ops).all(|(k, o)| match (k, o) {
        (K::Imm, O::Imm(_)) | (K::R, O::R(_)) => true,
        (K::Imm, _) | (K::R, _) => false,
        (_, O::Ex(_)) => true,
        _ => false,
    }))
}
pub fn is_instr(n: &str) -> bool { FORMS.iter().any(|f| f.name == n) }

/// encodes with values already checked for range
pub fn encode(f: &Form, v: &[i32]) -> Vec<u8> {
    let a8 = |x: i32| ((x >> 8) & 1) as u8;
    let lo = |x: i32| (x & 0xff) as u8;
    let hi = |x: i32| ((x >> 8) & 0xff) as u8;
    let alu = |b: u8| match f.ops[0] { K::Imm => vec![b | 1, lo(v[0])], K::D9 => vec![b | 2 | a8(v[0]), lo(v[0])], _ => vec![b | 4 | v[0] as u8] };
    let bit = |b: u8| { let mut o = vec![b | a8(v[0]) << 4 | v[1] as u8, lo(v[0])]; if v.len() > 2 { o.push(lo(v[2])); } o };
    let j12 = |b: u8| vec![b | (((v[0] >> 11) & 1) as u8) << 4 | ((v[0] >> 8) & 7) as u8, lo(v[0])];
    let cmp = |b: u8| match f.ops[0] { K::Imm => vec![b | 1, lo(v[0]), lo(v[1])], K::D9 => vec![b | 2 | a8(v[0]), lo(v[0]), lo(v[1])], _ => vec![b | 4 | v[0] as u8, lo(v[1]), lo(v[2])] };
    match f.name {
        "add" => alu(0x80), "addc" => alu(0x90), "sub" => alu(0xA0), "subc" => alu(0xB0), "and" => alu(0xE0), "or" => alu(0xD0), "xor" => alu(0xF0),
        "inc" => alu(0x60), "dec" => alu(0x70), "ld" => alu(0x00), "st" => alu(0x10), "xch" => alu(0xC0),
        "mul" => vec![0x30], "div" => vec![0x40], "rol" => vec![0xE0], "rolc" => vec![0xF0], "ror" => vec![0xC0], "rorc" => vec![0xD0], "ldc" => vec![0xC1],
        "ret" => vec![0xA0], "reti" => vec![0xB0], "nop" => vec![0], "ldf" => vec![0x50], "stf" => vec![0x51],
        "mov" => if f.ops[1] == K::D9 { vec![0x22 | a8(v[1]), lo(v[1]), lo(v[0])] } else { vec![0x24 | v[1] as u8, lo(v[0])] },
        "push" => vec![0x60 | a8(v[0]), lo(v[0])], "pop" => vec![0x70 | a8(v[0]), lo(v[0])],
        "jmp" => j12(0x28), "call" => j12(0x08), "jmpf" => vec![0x21, hi(v[0]), lo(v[0])], "callf" => vec![0x20, hi(v[0]), lo(v[0])],
        "br" => vec![0x01, lo(v[0])], "bz" => vec![0x80, lo(v[0])], "bnz" => vec![0x90, lo(v[0])],
        "brf" => vec![0x11, lo(v[0]), hi(v[0])], "callr" => vec![0x10, lo(v[0]), hi(v[0])],
        "bp" => bit(0x68), "bpc" => bit(0x48), "bn" => bit(0x88), "clr1" => bit(0xC8), "set1" => bit(0xE8), "not1" => bit(0xA8),
        "dbnz" => if f.ops[0] == K::D9 { vec![0x52 | a8(v[0]), lo(v[0]), lo(v[1])] } else { vec![0x54 | v[0] as u8, lo(v[1])] },
        "be" => cmp(0x30), "bne" => cmp(0x40),
        _ => unreachable!(),
    }
}
/// value of an operand as it is encoded, or None if out of range
fn fit(k: K, v: i64, next: i64) -> Option<i32> {
    let ok = |c: bool, x: i64| if c { Some(x as i32) } else { None };
    match k {
        K::Imm => ok((0..256).contains(&v), v), K::D9 => ok((0..512).contains(&v), v), K::B3 => ok((0..8).contains(&v), v),
        K::A16 => ok((0..65536).contains(&v), v),
        K::A12 => ok((0..65536).contains(&v) && v >> 12 == (next >> 12) & 0xF, v),
        K::R8 => ok((0..65536).contains(&v) && (-128..128).contains(&(v - next)), v - next),
        K::R16 => ok((0..65536).contains(&v) && (-32768..32768).contains(&(v - next + 1)), v - next + 1),
        K::R => Some(v as i32),
    }
}

// ------------------------------------------------------------------------------ assembling
#[derive(Clone, Debug, PartialEq)]
pub struct Bad { pub what: String }
pub fn bad<T>(w: impl Into<String>) -> Result<T, Bad> { Err(Bad { what: w.into() }) }

/// file tree as the model sees it: absolute canonical path -> content
pub type Tree = BTreeMap<String, Content>;

pub struct World<'a> {
    pub tree: &'a Tree, pub links: &'a BTreeMap<String, String>, pub cwd: &'a str,
    /// which version of a file is used: by path as spelled for text, by canonical name and number of the use for data
    pub bins: Option<&'a Versions>,
}
#[derive(Clone, Debug, Default)]
pub struct Versions { pub texts: BTreeMap<String, Content>, pub bins: BTreeMap<(String, usize), Content> }
impl<'a> World<'a> {
    /// canonical name of a path, or None if a component is missing
    pub fn canon(&self, path: &str) -> Option<String> {
        let mut cur = String::new();
        let mut todo: Vec<String> = path.split('/').filter(|c| !c.is_empty() && *c != ".").rev().map(|s| s.to_string()).collect();
        let mut hops = 0;
        while let Some(c) = todo.pop() {
            if c == ".." { if !self.is_dir(&cur) { return None; } cur = cur.rfind('/').map(|i| cur[..i].to_string()).unwrap_or_default(); continue; }
            let next = format!("{}/{}", cur, c);
            if let Some(t) = self.links.get(&next) {
                hops += 1;
                if hops > 20 { return None; }
                for k in t.split('/').filter(|c| !c.is_empty() && *c != ".").rev() { todo.push(k.to_string()); }
                if t.starts_with('/') { cur = String::new(); }
                continue;
            }
            if !todo.is_empty() && !self.is_dir(&next) { return None; }
            cur = next;
        }
        Some(cur)
    }
    pub fn is_dir(&self, p: &str) -> bool { p.is_empty() || p == self.cwd || { let pre = format!("{}/", p); self.tree.keys().any(|k| k.starts_with(&pre)) || self.cwd.starts_with(&pre) || self.links.keys().any(|k| k.starts_with(&pre)) } }
    pub fn file(&self, p: &str) -> Option<(String, &'a Content)> { let c = self.canon(p)?; self.tree.get(&c).map(|x| (c, x)) }
    pub fn abs(&self, p: &str) -> String { if p.starts_with('/') { p.into() } else { format!("{}/{}", self.cwd, p) } }
    /// the file an include in `from` (path as spelled) denotes, and whether it is the fallback
    pub fn resolve(&self, from: &str, p: &str) -> Result<(String, bool), Bad> {
        let beside = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", from.rfind('/').map(|i| &from[..i]).unwrap_or(""), p) };
        if self.file(&beside).is_some() { return Ok((beside, false)); }
        let alt = self.abs(p);
        if !p.starts_with('/') && self.file(&alt).is_some() { return Ok((alt, true)); }
        bad(format!("no such file {}", p))
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub image: Vec<u8>,
    /// canonical names of every text file, in the order of first use
    pub texts: Vec<String>,
    pub bins: Vec<String>,
    /// includes answered by the fallback: name beside the including file, name as written
    pub fallbacks: Vec<(String, String)>,
    pub names: BTreeMap<String, i64>,
    pub calls: usize,
    /// text files as (canonical name, path as spelled)
    pub uses: Vec<(String, String)>,
    /// how often each text file is included
    pub times: BTreeMap<String, usize>,
    /// how often each data file is used
    pub binuses: BTreeMap<String, usize>,
}

/// one statement after inclusion
#[derive(Clone, Debug)]
enum S { L(Ln), Data(Vec<u8>) }

struct Asm<'a> { w: &'a World<'a>, rep: Report, out: Vec<(S, usize)>, macros: BTreeMap<(String, usize), (Vec<String>, Vec<Ln>)>, depth: usize, nline: usize, stack: Vec<String> }

pub fn assemble(w: &World, main: &str) -> Result<Report, Bad> { assemble_far(w, main).1 }
/// also what was used up to the end or the error
pub fn assemble_far(w: &World, main: &str) -> (Report, Result<Report, Bad>) {
    let mut a = Asm { w, rep: Report::default(), out: vec![], macros: BTreeMap::new(), depth: 0, nline: 0, stack: vec![] };
    let main = w.abs(main);
    let x = a.include(&main, false);
    let rep = a.rep.clone();
    (rep, match x { Ok(()) => a.finish(), Err(e) => Err(e) })
}
/// position of every source line (numbered in the order of inclusion) and value of every label; expressions are not looked at
pub fn layout(w: &World, main: &str) -> Result<(BTreeMap<usize, i64>, BTreeMap<String, i64>), Bad> {
    let mut a = Asm { w, rep: Report::default(), out: vec![], macros: BTreeMap::new(), depth: 0, nline: 0, stack: vec![] };
    a.include(&w.abs(main), false)?;
    let st = a.expand_all()?;
    let (pos, names) = a.labels(&st)?;
    let mut at = BTreeMap::new();
    for (i, (_, n)) in st.iter().enumerate() { at.entry(*n).or_insert(pos[i]); }
    Ok((at, names))
}

fn macro_body(ls: &[L]) -> Result<Vec<Ln>, Bad> {
    let mut out = vec![];
    for l in ls {
        match &l.l {
            Ln::Raw(_) => {}
            Ln::Label(n, rest) => { out.push(Ln::Label(n.clone(), None)); if let Some(x) = rest { out.push((**x).clone()); } }
            Ln::MLab(n, rest, b) => { out.push(Ln::MLab(n.clone(), None, *b)); if let Some(x) = rest { out.push((**x).clone()); } }
            x @ (Ln::Local(_) | Ln::Ins(..) | Ln::Call(..)) => out.push(x.clone()),
            Ln::Bad(_) => return bad("bad line in macro"),
            _ => return bad("not allowed in a macro"),
        }
    }
    Ok(out)
}

impl<'a> Asm<'a> {
    fn include(&mut self, path: &str, cpp: bool) -> Result<(), Bad> {
        let (canon, c) = match self.w.file(path) { Some(x) => x, None => return bad(format!("missing {}", path)) };
        if !self.rep.texts.contains(&canon) { self.rep.texts.push(canon.clone()); }
        *self.rep.times.entry(canon.clone()).or_insert(0) += 1;
        self.depth += 1;
        if self.depth > 100 || self.stack.iter().filter(|f| **f == canon).count() > 2 { return bad("include depth"); }
        self.stack.push(canon.clone());
        let c = self.w.bins.and_then(|v| v.texts.get(path)).unwrap_or(c);
        if !self.rep.uses.contains(&(canon.clone(), path.to_string())) { self.rep.uses.push((canon.clone(), path.to_string())); }
        let ls = match c { Content::Asm(l) | Content::Cpp(l) => l, _ => return bad("not text") };
        for l in ls { self.line(path, l, cpp)?; }
        self.depth -= 1;
        self.stack.pop();
        Ok(())
    }
    fn resolve(&mut self, from: &str, p: &str) -> Result<String, Bad> {
        let (f, fb) = self.w.resolve(from, p)?;
        if fb { self.rep.fallbacks.push((format!("{}/{}", from.rfind('/').map(|i| &from[..i]).unwrap_or(""), p), p.to_string())); }
        Ok(f)
    }
    fn data(&mut self, f: &str) -> Result<&'a Content, Bad> {
        let (c, x) = self.w.file(f).ok_or(Bad { what: "missing".into() })?;
        let k = self.rep.binuses.entry(c.clone()).or_insert(0);
        let n = *k;
        *k += 1;
        if let Some(v) = self.w.bins { if let Some(y) = v.bins.get(&(c.clone(), n)) { return Ok(y); } }
        if !self.rep.bins.contains(&c) { self.rep.bins.push(c); }
        Ok(x)
    }
    fn img(&mut self, from: &str, p: &str) -> Result<&'a ImgSpec, Bad> {
        let f = self.resolve(from, p)?;
        match self.data(&f)? { Content::Img(i) if f.ends_with(i.ext()) => Ok(i), _ => bad("not an image") }
    }
    fn line(&mut self, from: &str, l: &L, cpp: bool) -> Result<(), Bad> {
        let n = self.nline;
        self.nline += 1;
        match &l.l {
            Ln::Raw(_) => {}
            Ln::Bad(s) => return bad(format!("bad line {}", s)),
            Ln::Macro(name, args, b) => {
                if is_instr(name) { return bad("macro named like an instruction"); }
                let body = macro_body(b)?;
                let set: BTreeSet<&String> = args.iter().collect();
                if set.len() != args.len() { return bad("duplicate macro argument"); }
                if self.macros.insert((name.clone(), args.len()), (args.clone(), body)).is_some() { return bad("macro defined twice"); }
            }
            Ln::Inc(_) | Ln::Cpp(_) | Ln::Bytes(_) | Ln::Icon { .. } | Ln::Sprite { .. } if cpp => return bad("include in header"),
            Ln::Inc(p) => { let f = self.resolve(from, p)?; self.include(&f, false)?; }
            Ln::Cpp(p) => { let f = self.resolve(from, p)?; self.include(&f, true)?; }
            Ln::Bytes(p) => {
                let f = self.resolve(from, p)?;
                let d = match self.data(&f)? { Content::Bin(b) => b.0.clone(), Content::Img(i) => i.encode(), c => FileSpec::new("", c.clone()).bytes() };
                self.out.push((S::Data(d), n));
            }
            Ln::Icon { p, speed, eye } => {
                let sp = match speed { Some(e) => eval(e, &|_| None)?, None => 10 };
                let i = self.img(from, p)?;
                let e = match eye { Some(p) => Some(self.img(from, p)?), None => None };
                match crate::img::icon_bytes(i, sp, e) { Some(d) => self.out.push((S::Data(d), n)), None => return bad("image not fit for an icon") }
            }
            Ln::Sprite { p, masked, hdr } => {
                let i = self.img(from, p)?;
                match crate::img::sprite_bytes(i, masked.unwrap_or(false), hdr.unwrap_or(true)) { Some(d) => self.out.push((S::Data(d), n)), None => return bad("sprite too large") }
            }
            Ln::Label(name, Some(rest)) => { self.out.push((S::L(Ln::Label(name.clone(), None)), n)); self.out.push((S::L((**rest).clone()), n)); }
            x => self.out.push((S::L(x.clone()), n)),
        }
        Ok(())
    }
    fn expand_all(&mut self) -> Result<Vec<(S, usize)>, Bad> {
        let mut out = vec![];
        let mut serial = 0;
        for (s, n) in std::mem::take(&mut self.out) {
            match s {
                S::L(Ln::Call(name, args)) => self.expand(&name, &args, &mut out, n, &mut serial, 0)?,
                S::L(Ln::MLab(..)) => return bad("macro label outside macro"),
                s => out.push((s, n)),
            }
        }
        self.rep.calls = serial;
        Ok(out)
    }
    fn expand(&self, name: &str, args: &[O], out: &mut Vec<(S, usize)>, n: usize, serial: &mut usize, depth: usize) -> Result<(), Bad> {
        if depth > 12 { return bad("macro depth"); }
        let (params, body) = match self.macros.get(&(name.to_string(), args.len())) { Some(m) => m, None => return bad(format!("no macro {}", name)) };
        let env: BTreeMap<&String, &O> = params.iter().zip(args).collect();
        let k = *serial;
        *serial += 1;
        let mut own = BTreeMap::new();
        for l in body { if let Ln::MLab(m, ..) = l { if own.insert(m.clone(), format!("{}\u{1}{}", m, k)).is_some() { return bad("duplicate macro label"); } } }
        for l in body {
            match l {
                Ln::MLab(m, ..) => out.push((S::L(Ln::Label(own[m].clone(), None)), n)),
                Ln::Label(m, _) | Ln::Local(m) => out.push((S::L(Ln::Label(m.clone(), None)), n)),
                Ln::Ins(m, a) | Ln::Call(m, a) => {
                    let mut b = vec![];
                    for o in a {
                        b.push(match o {
                            O::Ex(E::Arg(x)) => match env.get(x) { Some(o) => (*o).clone(), None => return bad("no such macro argument") },
                            O::Ex(e) => O::Ex(subst(e, &env, &own)?),
                            O::Imm(e) => O::Imm(subst(e, &env, &own)?),
                            O::R(r) => O::R(*r),
                        });
                    }
                    if self.macros.contains_key(&(m.clone(), b.len())) { self.expand(m, &b, out, n, serial, depth + 1)?; } else { out.push((S::L(Ln::Ins(m.clone(), b)), n)); }
                }
                _ => unreachable!(),
            }
        }
        Ok(())
    }
    fn size(s: &S, pos: i64) -> Result<i64, Bad> {
        Ok(match s {
            S::Data(d) => d.len() as i64,
            S::L(l) => match l {
                Ln::Ins(n, o) => match form(n, o) { Some(f) => f.size as i64, None => return bad(format!("operands of {}", n)) },
                Ln::Byte(b) => b.iter().map(|b| match b { BI::X(_) => 1, BI::S(s) => s.len() as i64 }).sum(),
                Ln::Word(w) => 2 * w.len() as i64,
                Ln::Text(n, _) | Ln::Str(n, _) => *n as i64,
                Ln::Org(n) => *n as i64 - pos,
                Ln::Cnop(a, m) => { let base = if *m <= 0 { 0 } else { (pos + *m as i64 - 1) / *m as i64 * *m as i64 }; base + *a as i64 - pos }
                _ => 0,
            },
        })
    }
    /// position of every statement, and all global names (equs excluded)
    fn labels(&self, st: &[(S, usize)]) -> Result<(Vec<i64>, BTreeMap<String, i64>), Bad> {
        let mut pos = 0i64;
        let mut globals: BTreeMap<String, i64> = BTreeMap::new();
        let mut at = vec![];
        let mut scope = String::new();
        for (s, _) in st {
            at.push(pos);
            if let S::L(Ln::Label(n, _) | Ln::Local(n)) = s {
                let key = if n.starts_with('.') { format!("{}{}", scope, n) } else { scope = n.clone(); n.clone() };
                if globals.insert(key, pos).is_some() { return bad(format!("label {} twice", n)); }
            }
            pos += Self::size(s, pos)?;
            if !(0..=8_000_000).contains(&pos) { return bad("position"); }
        }
        Ok((at, globals))
    }
    fn finish(mut self) -> Result<Report, Bad> {
        let st = self.expand_all()?;
        let (at, mut names) = self.labels(&st)?;
        let mut end = 0;
        for (i, (s, _)) in st.iter().enumerate() {
            if let S::L(Ln::Equ(n, e)) = s {
                let v = eval(e, &|x| if x.starts_with('.') { None } else { names.get(x).copied() })?;
                if names.insert(n.clone(), v).is_some() { return bad(format!("name {} twice", n)); }
            }
            end = end.max(at[i] + Self::size(s, at[i])?);
        }
        let mut img = vec![0u8; end as usize];
        let mut scope = String::new();
        for (i, (s, _)) in st.iter().enumerate() {
            let p = at[i];
            let look = |x: &str| if x.starts_with('.') { names.get(&format!("{}{}", scope, x)).copied() } else { names.get(x).copied() };
            let mut put: Vec<u8> = vec![];
            match s {
                S::Data(d) => put = d.clone(),
                S::L(l) => match l {
                    Ln::Label(n, _) | Ln::Local(n) => if !n.starts_with('.') { scope = n.clone(); },
                    Ln::Byte(b) => for x in b { match x {
                        BI::S(s) => put.extend(s.as_bytes()),
                        BI::X(e) => { let v = eval(e, &look)?; if !(-128..256).contains(&v) { return bad("byte range"); } put.push(v as u8) }
                    } },
                    Ln::Word(w) => for e in w { let v = eval(e, &look)?; if !(-32768..65536).contains(&v) { return bad("word range"); } put.extend((v as u16).to_le_bytes()) },
                    Ln::Text(n, s) | Ln::Str(n, s) => {
                        if s.len() > *n as usize { return bad("text too long"); }
                        put.extend(s.as_bytes());
                        put.resize(*n as usize, if matches!(l, Ln::Text(..)) { b' ' } else { 0 });
                    }
                    Ln::Org(n) => if *n > 0xFFFF { return bad("org range"); },
                    Ln::Ins(n, o) => {
                        let f = form(n, o).unwrap();
                        let next = p + f.size as i64;
                        let mut v = vec![];
                        for (k, o) in f.ops.iter().zip(o) {
                            let x = match o { O::R(r) => *r as i64, O::Imm(e) | O::Ex(e) => eval(e, &look)? };
                            match fit(*k, x, next) { Some(x) => v.push(x), None => return bad(format!("{} operand range {} at {}", n, x, p)) }
                        }
                        put = encode(f, &v);
                    }
                    _ => {}
                },
            }
            img[p as usize..p as usize + put.len()].copy_from_slice(&put);
        }
        self.rep.image = img;
        self.rep.names = names;
        Ok(self.rep)
    }
}
fn subst(e: &E, env: &BTreeMap<&String, &O>, own: &BTreeMap<String, String>) -> Result<E, Bad> {
    Ok(match e {
        E::Arg(x) => match env.get(x) { Some(O::Ex(e)) => e.clone(), _ => return bad("macro argument") },
        E::Lab(x) => match own.get(x) { Some(n) => E::Nm(n.clone()), None => return bad("macro label") },
        E::B(c, a, b) => E::B(*c, Box::new(subst(a, env, own)?), Box::new(subst(b, env, own)?)),
        E::Neg(a) => E::Neg(Box::new(subst(a, env, own)?)), E::Hi(a) => E::Hi(Box::new(subst(a, env, own)?)), E::Lo(a) => E::Lo(Box::new(subst(a, env, own)?)),
        x => x.clone(),
    })
}
pub fn eval(e: &E, look: &dyn Fn(&str) -> Option<i64>) -> Result<i64, Bad> {
    let v = match e {
        E::N(n, _) => *n as i64,
        E::Nm(n) => match look(n) { Some(v) => v, None => return bad(format!("name {}", n)) },
        E::Neg(a) => -eval(a, look)?,
        E::Hi(a) => (eval(a, look)? >> 8) & 0xff,
        E::Lo(a) => eval(a, look)? & 0xff,
        E::B(c, a, b) => {
            let (x, y) = (eval(a, look)?, eval(b, look)?);
            match c { '+' => x + y, '-' => x - y, '*' => x * y, '/' => if y == 0 { return bad("division by zero") } else { x / y }, '&' => x & y, '|' => x | y, _ => x ^ y }
        }
        _ => return bad("macro argument outside macro"),
    };
    if v.abs() > i32::MAX as i64 / 2 { return bad("overflow"); }
    Ok(v)
}
