//! Properties C07, C08, C14, C16, C17 and C18: generators and judges.
use crate::exec::*;
use crate::gen::*;
use crate::img::*;
use crate::model::*;
use crate::pa::*;
use crate::pb::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::tz::*;
use crate::vfs::*;
use crate::work::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------------------- C07
/// An error to plant. Each part goes somewhere into a source file. \u{1} marks the offending token, \u{2} and
/// \u{3} the calls it was expanded from or, for a clash, the first declaration.
pub struct Plant {
    pub cpp: bool,
    pub parts: &'static [&'static str],
    /// may carry a comment at the end
    pub note: bool,
    /// the parts stay in order, in one file
    pub clash: bool,
    /// what stands in the place of each part when there is no error: a number of bytes, `label` or `equ` and a name
    pub heal: &'static [&'static str],
}
const fn pl(parts: &'static [&'static str]) -> Plant { Plant { cpp: false, parts, note: true, clash: false, heal: &[] } }
const fn ph(parts: &'static [&'static str], heal: &'static [&'static str]) -> Plant { Plant { cpp: false, parts, note: true, clash: false, heal } }
const fn pd(parts: &'static [&'static str], heal: &'static [&'static str]) -> Plant { Plant { cpp: false, parts, note: true, clash: true, heal } }
const fn pq(parts: &'static [&'static str]) -> Plant { Plant { cpp: false, parts, note: false, clash: false, heal: &[] } }
const fn pcpp(parts: &'static [&'static str]) -> Plant { Plant { cpp: true, parts, note: false, clash: false, heal: &[] } }
pub const PLANTS: &[Plant] = &[
    pl(&["  ld \u{1}zzmissing"]),
    pl(&["  \u{1}zznosuch #1"]),
    pl(&["  .byte \u{1}777777"]),
    pl(&["  br 60000 + \u{1}zzmissing"]),
    pl(&["    .word $1, \u{1}zzmissing, 5"]),
    pl(&["  mov #1 \u{1}$10"]),
    pl(&["  \u{1}ld #1"]),
    pl(&["  add \u{1}@R9"]),
    pl(&["  .word 5 \u{1}6"]),
    pl(&["  \u{1}jmp"]),
    pl(&["  \u{1}.bogus 1"]),
    pl(&[" \u{1}]"]),
    pl(&["  .byte 1, \u{1}2 / 0, 3"]),
    pl(&["  \u{1}%end"]),
    pd(&["\u{2}zzdup: nop", "\u{1}zzdup:  nop"], &["label:zzdup 1", "label:zzdup1 1"]),
    pl(&["  mov #\u{1}256, $10"]),
    pl(&["  \u{1}.text 1 \"abc\""]),
    pl(&["  set1 $10, \u{1}8"]),
    pl(&["  .byte \"üé✘\", 5, \u{1}zzmissing"]),
    pd(&["\u{2}zzeq = 1", "\u{1}zzeq = 2"], &["equ:zzeq", "equ:zzeq1"]),
    pl(&["  bz \u{1}zzm%"]),
    pl(&["  .text 5 \u{1}5"]),
    pl(&["  jmpf \u{1}70000"]),
    pl(&["  nop \u{1}?"]),
    pl(&["          \u{1}LD #1"]),
    pl(&["  br \u{1}.zznone"]),
    pl(&["  .word \u{1}99999"]),
    pl(&["  .byte \"aéb\", \"c\" \u{1}5"]),
    pl(&["  .cnop \u{1}\"x\", 5"]),
    pl(&["%macro zzm %a\n  ld %a\n%end", "  zzm   \u{1}zzmissing"]),
    pl(&["%macro zzm %a\n  nop\n  ld \u{1}zzmissing\n%end", "  \u{2}zzm   1"]),
    pl(&["%macro zzm %a\n  ld \u{1}%b\n%end", "  zzm   1"]),
    pl(&["%macro zzm %a\n  \u{1}ld #1\n%end", "%macro zzo %a, %b\n  nop\n  \u{2}zzm  %a\n%end", "  \u{3}zzo   1, 2"]),
    pl(&["%macro zzm %a\n  nop\n  \u{1}zznone %a\n%end", "  \u{2}zzm 1"]),
    pl(&["%macro zzm %a\n  mov %a, $10\n%end", "  zzm #\u{1}256"]),
    pcpp(&["#define zzq \u{1})"]),
    pcpp(&["#define zzq \u{1}zzundefined"]),
    pcpp(&["#define zzq 1 \u{1}1"]),
    pcpp(&["zzq = \u{1}zzundefined"]),
    pl(&["  .include sprite \"zz.gif\" type=\u{1}\"foo\""]),
    pl(&["  .include sprite \"zz.gif\" type=\u{1}5"]),
    pl(&["  .include sprite \"zz.gif\" header=\u{1}\"maybe\""]),
    pl(&["  .include sprite \"zz.gif\"  header = \u{1}5"]),
    pl(&["  .include sprite \"zz.gif\"\u{1}, type=\"simple\""]),
    pl(&["  .include icon \"zz.gif\" speed=5, eyecatch=\u{1}7"]),
    pl(&["  .include icon \"zz.gif\" speed=\u{1}\"x\""]),
    pl(&["  .include icon \"zz.gif\" speed=\u{1}zzno"]),
    pl(&["  .include icon \"zz.gif\" speed=\u{1}1 / 0"]),
    pl(&["  .include \u{1}nosuch \"x\""]),
    pl(&["  .include bytes \u{1}5"]),
    pl(&["  .include bytes \"zz.bin\" \u{1}5"]),
    pl(&["  \u{1}.org 70000"]),
    pl(&["  \u{1}.org 2147483647"]),
    pl(&["  .org \u{1}\"x\""]),
    pl(&["  .org 5 \u{1}6"]),
    pl(&["  .org \u{1}-1"]),
    pl(&["%macro \u{1}ld %a\n  nop\n%end"]),
    pl(&["%macro zzm %a, %b, \u{1}%a\n  nop\n%end"]),
    pl(&["%macro zzm %a, \u{1}b\n  nop\n%end"]),
    pl(&["%macro \u{1}5\n  nop\n%end"]),
    pl(&["%macro zzm %a \u{1}%b\n  nop\n%end"]),
    pl(&["%macro zzm\n  nop\n%end \u{1}5"]),
    pl(&["  \u{1}.byte"]),
    pl(&["  \u{1}.word"]),
    pl(&["  \u{1}nop 1"]),
    pl(&["\u{1}zz%: nop"]),
    pl(&["  \u{1}ld %zz"]),
    pl(&["  .word \u{1}\"str\""]),
    pl(&["zz: zz2\u{1}: nop"]),
    pl(&["  .byte \u{1}$"]),
    pl(&["  .text \u{1}\"a\""]),
    pl(&["  .text \u{1}zz \"a\""]),
    pl(&["  .text 3\u{1}, \"abc\""]),
    pl(&["  .text 3 \"abc\" \u{1}5"]),
    pl(&["  .string 3 \u{1}4"]),
    ph(&["  \u{1}.string 1 \"ab\""], &["1"]),
    pl(&["  \u{1}@R0"]),
    pl(&["  \u{1}5"]),
    pl(&["  \u{1}\"x\""]),
    pl(&["zz: \u{1}5"]),
    pl(&["  \u{1}nop nop"]),
    pl(&["  ld $10 \u{1}$11"]),
    pl(&["  \u{1}dbnz @R0"]),
    pl(&["  \u{1}add @R0, 1"]),
    pl(&["  \u{1}be @R0, #1"]),
    pl(&["  \u{1}bne #1"]),
    pl(&["  .cnop 1, \u{1}-5"]),
    pl(&["  .cnop \u{1}-1, 5"]),
    pl(&["  .cnop 1, 2\u{1}, 3"]),
    pl(&["  .cnop 1 \u{1}2"]),
    pl(&["  .byte 1,\u{1},2"]),
    pl(&["  ld 5 \u{1}% 3"]),
    pl(&["  .byte \u{1}'a'"]),
    pl(&["zzq equ 5 \u{1}6"]),
    pl(&["\u{1}5 equ 6"]),
    pl(&["  .byte 0b1\u{1}2"]),
    pl(&["  ld zz \u{1}= 1"]),
    pl(&["  ld \u{1})"]),
    pl(&["  ld (\u{1})"]),
    pl(&["  ld 5\u{1})"]),
    pl(&["  mov #\u{1}#5, $10"]),
    pl(&["  ld 5 + \u{1}@R0"]),
    pl(&["  ld \u{1}%5"]),
    pl(&["  ld $5\u{1}''5"]),
    pl(&["  mov #5, \u{1}@R5"]),
    pl(&["  \u{1}inc #5"]),
    pl(&["  \u{1}jmp @R0"]),
    pl(&["  \u{1}ret 5"]),
    pl(&["  .word \u{1}99999999999"]),
    pl(&["  ld 5 + \u{1}0x1'ffff'ffff"]),
    pl(&["  .byte 1, \u{1}%111111111111111111111111111111111"]),
    pl(&["zzq = \u{1}0o77777777777777"]),
    ph(&["\tld\t\u{1}zzmissing + 5\t"], &["2"]),
    pl(&["\t.byte \"\té\",\t\u{1})"]),
    pl(&["  ld #\u{1}@R0"]),
    pq(&["zzq =\u{1}"]),
    pq(&["  .cnop 1\u{1}"]),
    pq(&["  .include\u{1}"]),
    pq(&["  ld (1 + 2\u{1}"]),
    pq(&["  ld 1 +\u{1}"]),
    pq(&["%macro\u{1}"]),
    pq(&["  mov #1,\u{1}"]),
    pq(&["zzq equ\u{1}"]),
    pq(&["  .text 3\u{1}"]),
    pq(&["  .string\u{1}"]),
    pq(&["  .org\u{1}"]),
    pq(&["  .include icon\u{1}"]),
    pq(&["  .include icon \"zz.gif\" speed=\u{1}"]),
    pq(&["  .include icon \"zz.gif\" speed\u{1}"]),
    pq(&["  ld >\u{1}"]),
    pq(&["  .byte 1,\u{1}"]),
    ph(&["  br \u{1}-200"], &["2"]),
    ph(&["  ld \u{1}512"], &["2"]),
    ph(&["  push \u{1}600"], &["2"]),
    ph(&["  mov #\u{1}-1, $10"], &["3"]),
    ph(&["  .byte \u{1}-129"], &["1"]),
    ph(&["  set1 $10, \u{1}-1"], &["2"]),
    ph(&["  brf \u{1}99999"], &["3"]),
    ph(&["  callr \u{1}-1"], &["3"]),
    ph(&["zz = \u{1}1 / 0"], &["equ:zz"]),
    ph(&["zz = 5 + \u{1}zz"], &["equ:zz"]),
    ph(&["zzh: jmp \u{1}zzh ^ $8000"], &["label:zzh 2"]),
    ph(&["zzh: call \u{1}zzh ^ $8000"], &["label:zzh 2"]),
    ph(&["zzh: bp $10, \u{1}8, zzh"], &["label:zzh 3"]),
    ph(&["  be #5, \u{1}-900"], &["3"]),
    ph(&["zzh: be #\u{1}256, zzh"], &["label:zzh 3"]),
    ph(&["zzh: be \u{1}512, zzh"], &["label:zzh 3"]),
    ph(&["zzh: dbnz (\u{1}512), zzh"], &["label:zzh 3"]),
    ph(&["  dbnz @R0, \u{1}-5000"], &["2"]),
    ph(&["  mov #5, \u{1}600"], &["3"]),
    ph(&["  not1 \u{1}600, 1"], &["2"]),
    ph(&["  xch \u{1}999"], &["2"]),
    ph(&["  callf \u{1}99999"], &["3"]),
    ph(&["  jmpf \u{1}-5"], &["3"]),
    ph(&["  .word 1, -2, \u{1}-32769"], &["6"]),
    ph(&["  .byte \"ab\", 5, \u{1}256, 300"], &["5"]),
    ph(&["  .word \u{1}$7fffffff"], &["2"]),
    ph(&["  bn $10, 3, \u{1}zzmissing"], &["3"]),
    pd(&["\u{2}zzdup: nop", "\u{1}zzdup = 5"], &["label:zzdup 1", "equ:zzdup2"]),
    pd(&["\u{1}zzdup = 5", "\u{2}zzdup: nop"], &["equ:zzdup2", "label:zzdup 1"]),
    ph(&["zzl: nop\n\u{2}.zza: nop\n\u{1}.zza: nop"], &["label:zzl"]),
    ph(&["zzl:\n\u{2}.zza\n nop\n\u{1}.zza"], &["label:zzl"]),
    pd(&["%macro \u{2}zzm %a\n  ld %a\n%end", "%macro \u{1}zzm %b\n  nop\n%end"], &["", ""]),
    pl(&["%macro zzm %a\n  nop\n%end", "  \u{1}zzm 1, 2"]),
    pl(&["%macro zzm\n  \u{1}.byte 5\n%end", "  zzm"]),
    pl(&["%macro zzm\nzza%:\n nop\n\u{1}zza%:\n nop\n%end", "  zzm"]),
    pl(&["%macro zzm %a\n  mov #\u{1}%a, $10\n%end", "  zzm \u{2}@R0"]),
    pl(&["%macro zzm %a\n  ld \u{1}%a + 1\n%end", "  zzm #\u{2}5"]),
    ph(&["%macro zzm %a\n  mov #%a, $10\n%end", "  zzm \u{1}256"], &["", "3"]),
    ph(&["%macro zzm %a\n  ld %a + 5\n%end", "  zzm \u{1}zzmissing"], &["", "2"]),
    ph(&["%macro zzm %a\n  ld %a\n%end", "%macro zzo %b\n  nop\n  zzm %b\n%end", "  zzo \u{1}zzmissing"], &["", "", "3"]),
    pl(&["%macro zzm\n  br \u{1}a%\n%end", "  zzm"]),
    ph(&["%macro zzm %a\n  ld \u{1}zzmissing\n%end", "%macro zzo %b\n  nop\n  \u{2}zzm %b\n%end", "  \u{3}zzo 5"], &["", "", "3"]),
    ph(&["%macro zzm %a\n  mov #5, \u{1}900\n%end", "  \u{2}zzm 5"], &["", "3"]),
    pcpp(&["#define zzq \u{1}1 / 0"]),
    pcpp(&["#define zzq\u{1}"]),
    pcpp(&["#define \u{1}5 6"]),
    pcpp(&["#define zzq (1 + 2\u{1}"]),
    pcpp(&["#define zzq 1 +\u{1}"]),
    pcpp(&["#define zzq \u{1}99999999999"]),
    pcpp(&["#define zzq \u{1}\"x\""]),
    pcpp(&["#define zzq \u{1}$"]),
    pcpp(&["#define zzq 5 + \u{1}zzno"]),
    pcpp(&["zzq equ \u{1}zzno"]),
    pcpp(&["zzq = \u{1}1 / 0"]),
    pcpp(&["zzq =\u{1}"]),
    pcpp(&["  #define zzq \u{1}zzq"]),
    pcpp(&["#define\tzzq\t\u{1}zzno"]),
    pcpp(&["#define zzq(x) \u{1}x"]),
    pcpp(&["#define zzq 1 // zzno\n#define zzr \u{1}zzno /* c */"]),
    pcpp(&["#define zzq /* é */ \u{1}zzno"]),
    pcpp(&["/* a\n b */ #define zzq \u{1}zzno"]),
    pcpp(&["#define zzq \u{1}zzno // x"]),
    pcpp(&["\u{1}#undef zzq"]),
    pcpp(&["\u{1}#ifdef X"]),
    pcpp(&["#define \u{2}zzq 1\n#define \u{1}zzq 2"]),
    pcpp(&["#define zzq 1\u{1},2"]),
];
pub fn clean(t: &str) -> String { t.chars().filter(|c| !matches!(c, '\u{1}'..='\u{3}')).collect() }
/// what stands in the same place when there is no error
fn harmless(kind: usize, part: usize) -> Vec<Ln> {
    let z = |n: usize| Ln::Byte(vec![BI::X(E::N(0, 0)); n]);
    let ld = || Ln::Ins("ld".into(), vec![O::Ex(E::N(0, 0))]);
    if let Some(h) = PLANTS[kind].heal.get(part) {
        return h.split_whitespace().map(|x| match x.split_once(':') { Some(("label", n)) => Ln::Label(n.into(), None), Some((_, n)) => Ln::Equ(n.into(), E::N(1, 0)), None => z(x.parse().unwrap()) }).collect();
    }
    match kind {
        0 | 3 | 15 | 17 | 20 | 25 => vec![if kind == 15 { z(3) } else { ld() }],
        2 => vec![z(1)], 4 => vec![z(6)], 12 => vec![z(3)],         16 => vec![z(1)], 18 => vec![z(9)], 22 => vec![z(3)], 26 => vec![z(2)],
        29 if part == 1 => vec![ld()], 30 if part == 1 => vec![Ln::Ins("nop".into(), vec![]), ld()],
        34 if part == 1 => vec![z(3)],
        _ => vec![],
    }
}
/// the part of a plant a line is, if it is one
fn part_of(kind: usize, l: &L) -> Option<usize> {
    match &l.l { Ln::Bad(t) => PLANTS[kind].parts.iter().position(|p| { let c = clean(p); *t == c || t.strip_prefix(c.as_str()).map(|r| r.starts_with(" ; ")).unwrap_or(false) }), _ => None }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Place { pub file: String, pub line: usize, pub col: usize, pub text: String }
/// where the marks of a file's plants are: (mark, place)
fn marks(kind: usize, path: &str, c: &Content) -> Vec<(u8, Place)> {
    let ls = match c { Content::Asm(l) | Content::Cpp(l) => l, _ => return vec![] };
    let cpp = matches!(c, Content::Cpp(_));
    let mut out = vec![];
    let mut at = 0;
    for l in ls {
        let text: Vec<String> = lines_of(std::slice::from_ref(l), cpp).join("\n").split('\n').map(|s| s.to_string()).collect();
        if let Some(k) = part_of(kind, l) {
            for (i, m) in PLANTS[kind].parts[k].split('\n').enumerate() {
                if let Some(b) = m.chars().position(|c| matches!(c, '\u{1}'..='\u{3}')) {
                    let mark = m.chars().nth(b).unwrap() as u8;
                    out.push((mark, Place { file: path.into(), line: at + i + 1, col: b, text: text[i].clone() }));
                }
            }
        }
        at += text.len();
    }
    out
}
fn healed(kind: usize, c: &Content) -> Content {
    let fix = |ls: &Vec<L>| -> Vec<L> { ls.iter().flat_map(|l| match part_of(kind, l) { Some(k) => harmless(kind, k).into_iter().map(|x| L { l: x, st: 0 }).collect::<Vec<_>>(), None => vec![l.clone()] }).collect() };
    match c { Content::Asm(l) => Content::Asm(fix(l)), Content::Cpp(l) => Content::Cpp(fix(l)), c => c.clone() }
}
fn shifted(r: &mut Rng, kind: usize, f: &FileSpec) -> FileSpec {
    let mut g = f.clone();
    let cpp = matches!(f.c, Content::Cpp(_));
    if let Content::Asm(l) | Content::Cpp(l) = &mut g.c {
        let ps: Vec<usize> = (0..l.len()).filter(|i| part_of(kind, &l[*i]).is_some()).collect();
        match r.us(6) {
            0 if PLANTS[kind].note => for i in &ps { if let Ln::Bad(t) = &mut l[*i].l { if t.contains('\n') { continue; } *t = format!("{} ; {}", t, r.pick(&["changed", "ein ünïcode", "x"])); } },
            1 if ps.len() > 0 && PLANTS[kind].parts.len() == 1 => { let x = l.remove(ps[0]); l.insert(r.us(l.len() + 1), x); }
            _ => for _ in 0..1 + r.us(3) { let at = if ps.is_empty() { 0 } else { r.us(ps[0] + 1) }; l.insert(at, L { l: Ln::Raw(r.pick(if cpp { &["// a new line", "", "  /* indented */", "/* two\n lines */"] } else { &["; a new line", "", "  ; indented", ";; zzmissing"] }).to_string()), st: 0 }); },
        }
    }
    g
}
/// location lines of a message: (path, line, column, quoted text, caret column)
pub fn places(err: &str) -> Vec<(String, usize, usize, Option<String>, Option<usize>)> {
    let lines: Vec<&str> = err.lines().collect();
    let mut out = vec![];
    for (i, l) in lines.iter().enumerate() {
        let inset = l.starts_with("  | ");
        let bare = |l: &'_ str| -> String { if inset { l.strip_prefix("  | ").unwrap_or(l) } else { l }.to_string() };
        let l = bare(l);
        let p: Vec<&str> = l.rsplitn(3, ':').collect();
        if p.len() < 3 || p[2].is_empty() { continue; }
        let (col, line) = (p[0].trim().split('-').next().unwrap().parse::<usize>(), p[1].parse::<usize>());
        if !p[0].trim().chars().all(|c| c.is_ascii_digit() || c == '-') { continue; }
        if let (Ok(c), Ok(n)) = (col, line) {
            let q = lines.get(i + 1).map(|l| bare(l)).map(|l| l.strip_prefix("  ").map(|s| s.to_string()).unwrap_or(l));
            let k = lines.get(i + 2).map(|l| bare(l)).filter(|l| l.trim_start().starts_with('^')).and_then(|l| l.chars().position(|c| c == '^')).and_then(|k| k.checked_sub(2));
            out.push((p[2].to_string(), n, c, q, k));
        }
    }
    out
}
/// pieces of a line: words, numbers, single other characters
fn pieces(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = false;
    for c in t.chars() {
        let w = c.is_alphanumeric() || matches!(c, '_' | '.' | '$' | '%' | '@' | '#');
        if w && word && !matches!(c, '#' | '@') { out.last_mut().unwrap().push(c); } else { out.push(c.to_string()); }
        word = w;
    }
    out
}
const ODD: &[&str] = &["0", "-1", "256", "65535", "65536", "70000", "99999999999", "$ffffffff", "0x", "%", "%1", "@R5", "@", "#", "\"", "'", "\\", "é", "✘", "\u{a0}", "\u{2028}", "\t", "=", "equ", ",", ":", "::", "(", ")", ";", "*", "/", "/*", "*/", "//", "+", "-", "&", "<", ">", ".org", ".byte", ".include", ".cnop", ".text", "asm", "bytes", "cpp", "icon", "sprite", "%end", "%macro", "zz%", "zz%:", ".zz", ".zz:", "nop", "mov", "\"x", "\"é\"", "\"\"", "0b12", "1'", "1''1", "#define", "\u{b}", "\u{c}", "\r", "\u{0}", "\u{7f}"];
/// a line that resembles the one given
fn mangle(r: &mut Rng, t: &str, others: &[String]) -> String {
    let mut p = pieces(t);
    for _ in 0..1 + r.us(3) {
        let at = r.us(p.len() + 1);
        match r.us(9) {
            0 if at < p.len() => { p.remove(at); }
            1 if at < p.len() => { let x = p[at].clone(); p.insert(at, x); }
            2 | 3 => { let x = r.pick(ODD).to_string(); if r.bool() && at < p.len() { p[at] = x; } else { p.insert(at, x); } }
            4 => { let q = pieces(r.pick(others)); if !q.is_empty() { let x = r.pick(&q).clone(); if r.bool() && at < p.len() { p[at] = x; } else { p.insert(at, x); } } }
            5 => p.truncate(at),
            6 => { p.drain(..at); }
            7 => { let q = pieces(r.pick(others)); p.truncate(at); let k = r.us(q.len() + 1); p.extend(q[k..].iter().cloned()); }
            _ if at < p.len() && !p[at].is_empty() => { let mut c: Vec<char> = p[at].chars().collect(); let k = r.us(c.len()); if r.bool() { c.remove(k); } else { c.insert(k, *r.pick(&['0', '9', 'z', '.', '%', 'é'])); } p[at] = c.into_iter().collect(); }
            _ => {}
        }
    }
    p.concat()
}
/// Text that resembles a program: it is assembled, or refused with a message that quotes what was read.
fn mangled(r: &mut Rng) -> Scen {
    let (small, imgs) = (r.chance(2, 3), r.chance(1, 6));
    let mut s = asm(r, W { spell: true, fallback: false, imgs, small, stress: false });
    let all: Vec<String> = s.files.iter().flat_map(|f| match &f.c { Content::Asm(l) => lines_of(l, false), Content::Cpp(l) => lines_of(l, true), _ => vec![] }).collect();
    let idx: Vec<usize> = (0..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_) | Content::Cpp(_))).collect();
    if all.is_empty() || idx.is_empty() { return Scen::default(); }
    for _ in 0..1 + r.us(3) {
        let i = *r.pick(&idx);
        let cpp = matches!(s.files[i].c, Content::Cpp(_));
        if let Content::Asm(l) | Content::Cpp(l) = &mut s.files[i].c {
            if l.is_empty() { continue; }
            let k = r.us(l.len());
            let mut t = lines_of(std::slice::from_ref(&l[k]), cpp);
            if t.is_empty() { continue; }
            match r.us(8) {
                0 if t.len() > 1 => { t.remove(r.us(t.len())); }
                1 => { let j = r.us(t.len()); let x = r.pick(&all).clone(); t.insert(j, x); }
                _ => { let j = r.us(t.len()); t[j] = mangle(r, &t[j], &all); }
            }
            l[k].l = Ln::Bad(t.join("\n"));
        }
    }
    s.num = vec![-1];
    s.tag = "mangled".into();
    if r.chance(1, 3) { soft(r, &mut s.procs[0].m); }
    s
}
fn jmangled(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    if o.success() { c.reached("mangled text assembled"); return Verdict::Pass; }
    let e = strip_ansi(&o.errs());
    if o.exit != Exit::Code(1) { return viol("no-diagnostic", format!("{:?} for a text that is not a program: {}", o.exit, e.chars().take(300).collect::<String>())); }
    c.hits += 1;
    c.reached("mangled text refused");
    // these are about files, not about places in a text
    if ["Error loading file", "Error loading icon", "Failed to load image", "image"].iter().any(|t| e.contains(t)) { return Verdict::Pass; }
    let got = places(&e);
    let g = match got.first() { Some(g) => g, None => return viol("no-location", format!("no place is named: {}", e.chars().take(400).collect::<String>())) };
    let file = match v.resolve(&p.cwd, &g.0, true) { Ok(f) => f, Err(_) => return viol("wrong-file", format!("{} does not exist", g.0)) };
    let spec = match s.files.iter().find(|f| f.path == file) { Some(f) => f, None => return viol("wrong-file", format!("{} is not a source", g.0)) };
    if !o.ops.iter().any(|x| x.cls == READ && x.path == file) { return viol("wrong-file", format!("{} was not read", g.0)); }
    let text = String::from_utf8(spec.bytes()).unwrap_or_default();
    let line = match text.split('\n').nth(g.1.wrapping_sub(1)) { Some(l) => l.trim_end_matches('\r'), None => return viol("wrong-place", format!("{}:{} is behind the end of the file", g.0, g.1)) };
    // the escapes are gone from what is compared
    if line.contains('\u{1b}') { return Verdict::Pass; }
    if g.2 > line.chars().count() { return viol("wrong-place", format!("{}:{}:{} is behind the end of {:?}", g.0, g.1, g.2, line)); }
    if g.3.as_deref() != Some(line) { return viol("wrong-quote", format!("{:?} instead of {:?}", g.3, line)); }
    if g.4 != Some(g.2) { return viol("wrong-caret", format!("caret at {:?} instead of {} under {:?}", g.4, g.2, line)); }
    Verdict::Pass
}
pub fn g07(r: &mut Rng, c: &mut Ctx) -> Scen {
    if r.chance(1, 3) { return mangled(r); }
    for _ in 0..40 {
        let (small, imgs) = (r.chance(2, 3), r.chance(1, 5));
        let mut s = asm(r, W { spell: true, fallback: false, imgs, small, stress: false });
        let p = s.procs[0].clone();
        let m = match s.model(cmd_main(&p), &p.cwd) { Ok(m) => m, _ => continue };
        let kind = r.us(PLANTS.len());
        let isc = |f: &String, s: &Scen| s.files.iter().any(|x| x.path == *f && matches!(x.c, Content::Cpp(_)));
        let cand: Vec<String> = m.texts.iter().filter(|f| isc(f, &s) == PLANTS[kind].cpp && m.times[*f] == 1).cloned().collect();
        if cand.is_empty() { continue; }
        let mut used = vec![];
        let mut last = 0;
        // clashing declarations keep their order: both in one file, the first one first
        let clash = PLANTS[kind].clash;
        let one = r.pick(&cand).clone();
        for part in PLANTS[kind].parts {
            let f = if clash { one.clone() } else { r.pick(&cand).clone() };
            if let Some(FileSpec { c: Content::Asm(l) | Content::Cpp(l), .. }) = s.file(&f) {
                let at = if clash { last + r.us(l.len() + 1 - last) } else { r.us(l.len() + 1) };
                let mut t = clean(part);
                if PLANTS[kind].note && !t.contains('\n') && r.chance(1, 5) { t.push_str(" ; as it was é"); }
                l.insert(at, L { l: Ln::Bad(t), st: 0 });
                last = at + 1;
            }
            if !used.contains(&f) { used.push(f); }
        }
        s.num = vec![kind as i64];
        match r.us(5) {
            0 => s.tag = "healthy".into(),
            1 | 2 => { s.tag = "pieces".into(); soft(r, &mut s.procs[0].m); if r.chance(1, 3) && !imgs { s.procs[0].m.eintr = 2 + r.below(6) as u32; } }
            _ => {
                s.tag = "files replaced".into();
                let o = c.exec(&s.vfs(), &p.healthy());
                for _ in 0..1 + r.us(3) {
                    let f = r.pick(&used).clone();
                    let spec = s.files.iter().find(|x| x.path == f).unwrap().clone();
                    let g = shifted(r, kind, &spec);
                    let i = match r.us(3) { 0 => r.us(o.ops.len()), 1 => match place(r, &o.ops, &|_, x| x.path == f) { Some(i) => i, None => continue }, _ => match place(r, &o.ops, &|_, x| matches!(x.cls, CLOSE | ERR | CWD | STAT | OPEN)) { Some(i) => i, None => continue } };
                    let (cls, path, nth) = target(&o.ops, i);
                    s.vers.push(g.clone());
                    s.procs[0].faults.push(Fault { cls, path, nth, cnt: 1, kind: FK::Edit(f, if r.chance(1, 12) { None } else { Some(Blob(g.bytes())) }) });
                }
                if r.chance(1, 4) { soft(r, &mut s.procs[0].m); }
            }
        }
        return s;
    }
    Scen::default()
}
pub fn j07(s: &Scen, c: &mut Ctx) -> Verdict {
    if s.procs.is_empty() || s.num.is_empty() { return Verdict::Skip("no plant".into()); }
    if s.num[0] < 0 { return jmangled(s, c); }
    let p = &s.procs[0];
    // image decoders give up when a read is interrupted, which is an error of its own
    if p.m.eintr > 0 && s.files.iter().any(|f| matches!(f.c, Content::Img(_))) { return Verdict::Skip("interrupted image".into()); }
    let kind = s.num[0] as usize;
    let v = s.vfs();
    let o = c.exec(&v, p);
    // the text each file was read as: what it held when it was opened to be read
    let mut tree = s.tree();
    let mut expect: BTreeMap<u8, Place> = BTreeMap::new();
    let mut later = false;
    let mut w = s.clone();
    for f in &s.files {
        if !matches!(f.c, Content::Asm(_) | Content::Cpp(_)) { continue; }
        let mut read = f.clone();
        if let Some(k) = o.ops.iter().position(|x| x.cls == READ && x.path == f.path) {
            let open = match o.ops[..k].iter().rposition(|x| x.cls == OPEN && x.path == f.path && x.ret >= 0) { Some(i) => i, None => return Verdict::Skip("read without open".into()) };
            for (at, m) in &o.timeline {
                match m {
                    Mut::Replace { path, data } if *path == f.path => { if *at <= open { match s.vers.iter().find(|g| g.path == *path && g.bytes() == *data) { Some(g) => read = g.clone(), None => return Verdict::Skip("unknown version".into()) } } else { later = true; } }
                    Mut::Remove { path } if *path == f.path => { if *at <= open { return Verdict::Skip("removed".into()); } later = true; }
                    _ => {}
                }
            }
        } else if o.timeline.iter().any(|(_, m)| matches!(m, Mut::Replace { path, .. } | Mut::Remove { path } if *path == f.path)) { return Verdict::Skip("replaced and not read".into()); }
        for (k, pl) in marks(kind, &f.path, &read.c) { if expect.insert(k, pl).is_some() { return Verdict::Skip("planted twice".into()); } }
        tree.insert(f.path.clone(), healed(kind, &read.c));
        *w.file(&f.path).unwrap() = FileSpec { c: healed(kind, &read.c), ..read };
    }
    let want: Vec<u8> = PLANTS[kind].parts.iter().flat_map(|t| t.chars()).filter(|c| matches!(c, '\u{1}'..='\u{3}')).map(|c| c as u8).collect();
    if want.iter().any(|k| !expect.contains_key(k)) || PLANTS[kind].parts.iter().any(|t| !s.files.iter().any(|f| matches!(&f.c, Content::Asm(l) | Content::Cpp(l) if l.iter().any(|l| part_of(kind, l).map(|k| PLANTS[kind].parts[k] == *t).unwrap_or(false))))) { return Verdict::Skip("plant incomplete".into()); }
    w.vers.clear();
    match w.model(cmd_main(p), &p.cwd) { Ok(m) => { if expect.values().any(|x| !m.texts.contains(&x.file) || m.times[&x.file] != 1) { return Verdict::Skip("plant not reached".into()); } } Err(_) => return Verdict::Skip("not the only error".into()) }
    if o.success() { return viol("error-accepted", format!("{:?}", expect.get(&1))); }
    if o.exit != Exit::Code(1) { return viol("no-diagnostic", format!("{:?} for an error in {:?}", o.exit, expect.get(&1))); }
    let e = strip_ansi(&o.errs());
    let got = places(&e);
    c.hits += 1;
    c.reached(if later { "file replaced after it was read" } else if s.vers.is_empty() { "error located" } else { "file replaced before it was read" });
    c.reached(&format!("plant {}", kind));
    for (i, k) in (1u8..=3).filter(|k| expect.contains_key(k)).enumerate() {
        let x = &expect[&k];
        let g = match got.get(i) { Some(g) => g, None => return viol("no-location", format!("{:?} is not named: {}", x, e.chars().take(400).collect::<String>())) };
        let file = v.resolve(&p.cwd, &g.0, true).ok();
        if file.as_ref() != Some(&x.file) { return viol("wrong-file", format!("{} instead of {}", g.0, x.file)); }
        if (g.1, g.2) != (x.line, x.col) { return viol("wrong-place", format!("{}:{}:{} instead of {}:{} for {:?}", g.0, g.1, g.2, x.line, x.col, x.text)); }
        if g.3.as_deref() != Some(x.text.trim_end_matches('\r')) { return viol("wrong-quote", format!("{:?} instead of {:?}", g.3, x.text)); }
        if g.4 != Some(x.col) { return viol("wrong-caret", format!("caret at {:?} instead of {} under {:?}", g.4, x.col, x.text)); }
    }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C08
const AREAS: [&str; 6] = ["Test/City", "America/Argentina/Ushuaia", "Europe/Paris", "Etc/GMT+9", "EST5EDT", "Japan"];
fn boundary(r: &mut Rng, z: &Zone) -> i64 {
    let y = if r.chance(1, 4) { *r.pick(&[1970, 1980, 1996, 1999, 2000, 2001, 2024, 2026, 2037, 2038, 2039, 2048, 2099, 2100, 2105, 2106, 2107, 2127, 2128]) } else { r.range(1970, 2150) };
    let local = match r.us(9) {
        0 => days(y, 1, 1) * 86400,
        1 => days(y, 2, 28) * 86400 + *r.pick(&[86_400, 172_800]),
        2 => days(y, r.range(1, 12), 1) * 86400,
        3 => (days(y, 1, 1) + r.range(0, 364)) * 86400,
        4 => (days(y, 1, 1) + r.range(0, 364)) * 86400 + r.range(0, 23) * 3600,
        5 => (days(y, 1, 1) + r.range(0, 364)) * 86400 + r.range(0, 1439) * 60,
        6 => (days(y, 1, 1) + r.range(0, 364)) * 86400 + r.range(0, 86_399),
        _ => {
            // a change of offset
            let mut ev: Vec<i64> = z.trans.iter().map(|x| x.0).collect();
            if let Some(q) = &z.rule { let last = z.trans.last().map(|x| x.0).unwrap_or(i64::MIN); ev.extend((y - 1..=y + 1).flat_map(|y| q.changes(y)).map(|x| x.0).filter(|t| *t >= last)); }
            ev.retain(|t| *t > 0);
            if !ev.is_empty() { return *r.pick(&ev) + *r.pick(&[0, 0, 0, -1, 1, 3600, -3600, 1800]); }
            days(y, 12, 31) * 86400
        }
    };
    let mut t = local;
    for _ in 0..3 { t = local - z.offset(t).unwrap_or(0); }
    t.max(2)
}
pub fn g08(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = Scen::default();
    let mut p = vmi_cmd(r, &mut s);
    if let Content::Bin(b) = &mut s.files[0].c { let n = if p.cmd.args(0).iter().any(|a| a == "-g" || a == "--game") { 0x400 } else { 0x200 }; if b.0.len() > n { b.0.truncate(n); } }
    let (z, f) = Zone::random(r);
    let ver = *r.pick(&[2u8, 2, 2, 3, 3, 1]);
    let full1 = r.bool();
    let tz = |z: &Zone, f: &str, r: &mut Rng| -> Blob { let foot = if r.chance(1, 15) { "" } else { f }; Blob(z.write(ver, foot, full1)) };
    let area = *r.pick(&AREAS);
    let dir = *r.pick(&["/usr/share/zoneinfo", "/usr/share/zoneinfo", "/usr/share/zoneinfo", "/share/zoneinfo", "/etc/zoneinfo"]);
    p.env.retain(|e| e.0 != "TZ");
    let system = |s: &mut Scen, r: &mut Rng, b: Blob| {
        if r.bool() { s.raw.push(("/etc/localtime".into(), b)); } else { let a = *r.pick(&AREAS); s.raw.push((format!("/usr/share/zoneinfo/{}", a), b)); s.links.insert("/etc/localtime".into(), if r.bool() { format!("/usr/share/zoneinfo/{}", a) } else { format!("../usr/share/zoneinfo/{}", a) }); }
    };
    let set = |p: &mut Proc, v: &str| p.env.push(("TZ".into(), v.into()));
    match r.us(10) {
        0 | 1 => { s.tag = "system zone".into(); let b = tz(&z, &f, r); system(&mut s, r, b); }
        2 => { s.tag = "no zone".into(); if r.chance(1, 3) { s.raw.push(("/etc/timezone".into(), Blob(format!("{}\n", area).into_bytes()))); let b = tz(&z, &f, r); s.raw.push((format!("/usr/share/zoneinfo/{}", area), b)); } }
        3 | 4 => { s.tag = "rule in TZ".into(); let v = posix(r); set(&mut p, &v); if r.bool() { let b = tz(&z, &f, r); system(&mut s, r, b); } }
        5 | 6 => { s.tag = "zone named in TZ".into(); let b = tz(&z, &f, r); s.raw.push((format!("{}/{}", dir, area), b)); set(&mut p, &if r.bool() { format!(":{}", area) } else { area.to_string() }); if r.bool() { let (z2, f2) = Zone::random(r); let b = tz(&z2, &f2, r); s.raw.push(("/etc/localtime".into(), b)); } }
        7 => { s.tag = "zone file in TZ".into(); let b = tz(&z, &f, r); let q = *r.pick(&["/home/u/my.tz", "/opt/tz/x", "/w/zone"]); s.raw.push((q.into(), b)); set(&mut p, &if r.bool() { format!(":{}", q) } else { q.to_string() }); }
        8 => { s.tag = "TZ useless".into(); let v = *r.pick(&["Nowhere/Land", "", "EST5EDT", "garbage", ":", "5", "AAA", ":No/Such", "/no/file", "CET-1CEST,M3.5.0", "<+03-3", "AB3"]); set(&mut p, v); match r.us(4) { 0 => { let b = tz(&z, &f, r); system(&mut s, r, b); } 1 => { let b = tz(&z, &f, r); s.raw.push(("/etc/timezone".into(), Blob(area.as_bytes().to_vec()))); s.raw.push((format!("/usr/share/zoneinfo/{}", area), b)); } _ => {} } }
        _ => { s.tag = "TZ localtime".into(); let b = tz(&z, &f, r); system(&mut s, r, b); set(&mut p, "localtime"); }
    }
    s.procs.push(p);
    let clkstep = *r.pick(&[0, 0, 1, 1_000, 1_000_000, 400_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000]);
    let v = s.vfs();
    let (prim, other) = zones(&v, &s.procs[0].env);
    let zone = prim.or(other.last().cloned()).unwrap_or(Zone::utc());
    let b = boundary(r, &zone);
    s.procs[0].clk = Clk { start: 1_000_000_000 * 1_000_000_000, step: clkstep, seed: r.next() >> 20 };
    let o = c.exec(&v, &s.procs[0].healthy());
    let base = s.procs[0].clk.start;
    let at = if o.clocks.is_empty() { 0 } else { o.clocks[r.us(o.clocks.len())] - base };
    let eps = match r.us(5) { 0 | 1 => 0, 2 => 1, 3 => r.below(clkstep.max(1) * 3) as i64, _ => r.below(2_000_000_000) as i64 };
    s.procs[0].clk.start = (b * 1_000_000_000 - at - eps).max(0);
    match r.us(12) {
        0 | 1 => { let n = o.ops.iter().filter(|x| x.path == "<clock>").count(); if n > 0 { for _ in 0..1 + r.us(2) { let d = *r.pick(&[1i64, -1, 60, -60, 3600, -3600, 86_400, 31_536_000, -31_536_000, -4_000_000_000, 4_000_000_000]) * 1_000_000_000 + r.range(-2, 2); s.procs[0].faults.push(Fault { cls: CLOCK, path: Some("<clock>".into()), nth: r.us(n) as u32, cnt: 1, kind: FK::Jump(d) }); } } }
        2 => { let want = |_: usize, x: &crate::journal::OpRec| x.path.contains("zoneinfo") || x.path.starts_with("/etc/") || s.raw.iter().any(|q| q.0 == x.path); if let Some(i) = place(r, &o.ops, &want) { let f = if r.chance(1, 3) { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; s.procs[0].faults.push(f); } }
        3 => soft(r, &mut s.procs[0].m),
        4 => { if let Some(x) = s.raw.iter_mut().find(|x| x.1.0.starts_with(b"TZif")) { let n = x.1.0.len(); if r.bool() { x.1.0.truncate(r.us(n)); } else { let k = r.us(n); x.1.0[k] ^= 1 << r.us(8); s.num = vec![1]; } } }
        5 => { if let Some(x) = s.raw.iter().find(|x| x.1.0.starts_with(b"TZif")).cloned() { let (z2, f2) = Zone::random(r); let i = r.us(o.ops.len()); let (cls, path, nth) = target(&o.ops, i); s.procs[0].faults.push(Fault { cls, path, nth, cnt: 1, kind: FK::Edit(x.0, Some(Blob(z2.write(2, &f2, false)))) }); } }
        6 => { let (out, cwd) = (s.procs[0].cmd.out().unwrap(), s.procs[0].cwd.clone()); old(r, &mut s, &cwd, &out, 108); }
        _ => {}
    }
    s
}
pub fn j08(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let (first, mut zs) = zones(&v, &p.env);
    let touches = |path: &str| path.contains("zoneinfo") || path.starts_with("/etc/") || s.raw.iter().any(|q| q.0 == path);
    let hurt = p.m.alloc_fail > 0 || p.m.alloc_max > 0 || o.ops.iter().any(|x| touches(&x.path) && x.fault) || p.faults.iter().any(|f| matches!(f.kind, FK::Edit(..)));
    let sure = first.is_some() && !hurt;
    if sure { zs.clear(); }
    zs.extend(first);
    // a zone file put in place during the run counts from then on
    for f in &p.faults { if let FK::Edit(_, Some(b)) = &f.kind { zs.extend(Zone::parse(&b.0)); } }
    let offs: Vec<(i64, i64)> = o.clocks.iter().flat_map(|t| { let t = t.div_euclid(1_000_000_000); zs.iter().filter_map(move |z| z.offset(t).map(|k| (t, k))) }).collect();
    if o.success() {
        let b = match o.vfs.get(&out) { Some(b) if b.len() >= 0x4C => b, _ => return viol("no-stamp", "success without a VMI file that has a time stamp") };
        if zs.iter().any(|z| o.clocks.iter().any(|t| z.offset(t.div_euclid(1_000_000_000)).is_none())) { return Verdict::Skip("the zone does not reach this far".into()); }
        let got = &b[0x44..0x4C];
        c.hits += 1;
        if !s.num.is_empty() {
            // a zone file with a flipped bit says anything: some offset must explain the stamp
            let (y, mo, d) = (got[0] as i64 | (got[1] as i64) << 8, got[2] as i64, got[3] as i64);
            let l = days(y, mo, d) * 86400 + got[4] as i64 * 3600 + got[5] as i64 * 60 + got[6] as i64;
            c.reached("damaged zone file");
            return if o.clocks.iter().any(|t| { let t = t.div_euclid(1_000_000_000); (l - t).abs() < 86400 && stamp(t, l - t) == *got }) { Verdict::Pass } else { viol("wrong-stamp", format!("{:02x?} is not a local time of a reading of the clock", got)) };
        }
        if offs.len() > 1 && offs.iter().map(|(t, k)| stamp(*t, *k)).collect::<BTreeSet<_>>().len() > 1 { c.reached("readings of the clock that differ"); }
        c.reached(&format!("stamp compared: {}", s.tag));
        if !offs.iter().any(|(t, k)| stamp(*t, *k) == *got) {
            let w: Vec<String> = offs.iter().take(4).map(|(t, k)| format!("{:02x?} ({} {:+})", stamp(*t, *k), t, k)).collect();
            return viol("wrong-stamp", format!("{:02x?} instead of {}", got, w.join(" or ")));
        }
        return Verdict::Pass;
    }
    if sure && s.num.is_empty() && s.fair(p) && only_short(p, &o) && offs.len() == o.clocks.len() && o.clocks.iter().all(|t| *t >= 0) && s.files.first().map(|f| f.cut.is_none()).unwrap_or(false) && !p.faults.iter().any(|f| matches!(f.kind, FK::Jump(_))) { return viol("refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(200).collect::<String>())); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C14
/// every inclusion the run meets: (including file as spelled, path as written)
fn refs(s: &Scen, main: &str, cwd: &str) -> Vec<(String, String)> {
    fn go(w: &World, path: &str, depth: u32, out: &mut Vec<(String, String)>) {
        fn one(w: &World, path: &str, l: &Ln, depth: u32, out: &mut Vec<(String, String)>) {
            match l {
                Ln::Inc(p) | Ln::Cpp(p) => { out.push((path.into(), p.clone())); if let Ok((f, _)) = w.resolve(path, p) { if depth < 12 && out.len() < 200 { go(w, &f, depth + 1, out); } } }
                Ln::Bytes(p) | Ln::Sprite { p, .. } => out.push((path.into(), p.clone())),
                Ln::Icon { p, eye, .. } => { out.push((path.into(), p.clone())); if let Some(e) = eye { out.push((path.into(), e.clone())); } }
                Ln::Macro(_, _, b) => for l in b { one(w, path, &l.l, depth, out) },
                _ => {}
            }
        }
        if let Some((_, Content::Asm(ls) | Content::Cpp(ls))) = w.file(path) { for l in ls { one(w, path, &l.l, depth, out); } }
    }
    let t = s.tree();
    let w = World { tree: &t, links: &s.links, cwd, bins: None };
    let mut out = vec![];
    go(&w, &w.abs(main), 0, &mut out);
    out
}
fn beside(from: &str, p: &str) -> String { if p.starts_with('/') { p.into() } else { format!("{}/{}", from.rfind('/').map(|i| &from[..i]).unwrap_or(""), p) } }
fn named(ls: &mut [L], out: &mut dyn FnMut(&mut String)) {
    for l in ls { match &mut l.l {
        Ln::Inc(p) | Ln::Cpp(p) | Ln::Bytes(p) | Ln::Sprite { p, .. } => out(p),
        Ln::Icon { p, eye, .. } => { out(p); if let Some(e) = eye { out(e); } }
        Ln::Macro(_, _, b) => named(b, out),
        _ => {}
    } }
}
/// some inclusions (or the main file) are spelled through a symbolic link to a directory elsewhere
/// and back up from there, so that the path as text and the path as walked differ
fn detours(r: &mut Rng, s: &mut Scen) {
    let (main, cwd) = (cmd_main(&s.procs[0]).to_string(), s.procs[0].cwd.clone());
    let want = match s.model(&main, &cwd) { Ok(m) => m.image, Err(_) => return };
    for k in 0..1 + r.us(3) {
        let keep = s.clone();
        let texts: Vec<usize> = (0..s.files.len()).filter(|i| matches!(s.files[*i].c, Content::Asm(_))).collect();
        if texts.is_empty() { return; }
        let i = *r.pick(&texts);
        let from = s.files[i].path.clone();
        let mut n = 0;
        if let Content::Asm(ls) = &mut s.files[i].c { named(ls, &mut |_| n += 1); }
        let here = r.chance(1, 5);
        if n == 0 && !here { continue; }
        let at = r.us(n.max(1));
        let mut q = String::new();
        if let Content::Asm(ls) = &mut s.files[i].c { let mut j = 0; named(ls, &mut |p| { if j == at { q = p.clone(); } j += 1; }); }
        let (base, spelled) = if here { (cwd.clone(), main.clone()) } else { (dirname(&from).to_string(), q.clone()) };
        let v = s.vfs();
        let to = match v.resolve(&base, &spelled, true) { Ok(t) if v.get(&t).is_some() => t, _ => continue };
        let far = r.us(3);
        let dir = dirname(&to).trim_end_matches('/').to_string();
        let target = format!("{}/{}", dir, ["far", "x/y", "a/b/c"][far]);
        let link = format!("{}/{}{}", base, r.pick(&["lib", "deps", "l n"]), k);
        if v.nodes.contains_key(&link) || v.nodes.contains_key(&target) { continue; }
        let up = ["..", "../..", "../../.."][far];
        let name = to.rsplit('/').next().unwrap();
        let path = format!("{}/{}/{}", if r.chance(1, 6) { link.clone() } else { relative(&base, &link) }, up, name);
        s.links.insert(link.clone(), if r.bool() { target.clone() } else { relative(&base, &target) });
        s.files.push(FileSpec::new(format!("{}/note{}.txt", target, k), Content::Bin(Blob(b"kept\n".to_vec()))));
        if here { match &mut s.procs[0].cmd { Cmd::Asm { main, .. } | Cmd::Expand { main } => *main = path.clone(), _ => {} } }
        else if let Content::Asm(ls) = &mut s.files[i].c { let mut j = 0; named(ls, &mut |p| { if j == at { *p = path.clone(); } j += 1; }); }
        // where the path would lead as text
        let text = norm(&format!("{}/{}", if path.starts_with('/') { "" } else { base.as_str() }, path));
        if r.chance(3, 4) && !v.nodes.contains_key(&text) && v.is_dir(dirname(&text)) && outfile(s, &s.procs[0]).as_ref() != Some(&text) {
            if let Some(f) = s.files.iter().find(|f| f.path == to).cloned() { let mut g = version(r, &f); g.path = text; s.files.push(g); }
        }
        let main = cmd_main(&s.procs[0]).to_string();
        match s.model(&main, &cwd) { Ok(m) if m.image == want => {} _ => *s = keep }
    }
}
/// a path that is nearly the same
fn near(r: &mut Rng, p: &str) -> String {
    let (dir, base) = p.rsplit_once('/').unwrap();
    let stem = base.rsplit_once('.').map(|x| x.0).filter(|x| !x.is_empty()).unwrap_or(base).to_string();
    let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let b = match r.us(9) {
        0 => base.to_ascii_uppercase(),
        1 => base.to_ascii_lowercase(),
        2 => { let k = r.us(base.chars().count()); base.chars().enumerate().map(|(i, c)| if i == k { swap(c) } else { c }).collect() }
        3 => { let (a, z) = base.split_at(stem.len()); format!("{}{}", a, z.chars().map(swap).collect::<String>()) }
        4 => format!("{}{}", stem, r.pick(&[".s", ".asm", ".inc", ".bin", ".png", ".h", ""])),
        5 => format!("{}{}", base, r.pick(&[".s", ".asm", ".inc", ".bin", ".png", "~", ".bak", " ", "."])),
        6 => format!("{}{}", r.pick(&[".", " ", "./#", "_"]).trim_start_matches("./"), base),
        7 => base.chars().map(|c| match c { '-' => '_', '_' => '-', ' ' => '_', c => c }).collect(),
        _ => base.chars().map(swap).collect(),
    };
    format!("{}/{}", dir, b)
}
pub fn g14(r: &mut Rng, c: &mut Ctx) -> Scen {
    for _ in 0..60 {
        let (small, imgs) = (r.chance(3, 4), r.chance(1, 4));
        let mut s = asm(r, W { spell: true, fallback: true, imgs, small, stress: false });
        if r.chance(1, 3) { detours(r, &mut s); }
        let p = s.procs[0].clone();
        let (main, cwd) = (cmd_main(&p).to_string(), p.cwd.clone());
        let all = refs(&s, &main, &cwd);
        if all.is_empty() { continue; }
        let content = |s: &Scen, from: &str, q: &str| -> Option<FileSpec> { let t = s.tree(); let w = World { tree: &t, links: &s.links, cwd: &cwd, bins: None }; let (f, _) = w.resolve(from, q).ok()?; let f = w.canon(&f)?; s.files.iter().find(|x| x.path == f).cloned() };
        let mut tag = "decoys";
        let mut away = vec![];
        for _ in 0..r.us(4) {
            // move a file from beside the including file to the working directory, or take it away
            let (from, q) = r.pick(&all).clone();
            if q.starts_with('/') { continue; }
            let was = match content(&s, &from, &q) { Some(f) => f, None => continue };
            let to = norm(&format!("{}/{}", cwd, q));
            let v = s.vfs();
            if v.nodes.contains_key(&to) || Some(&to) == outfile(&s, &p).as_ref() || to.starts_with("/dev") { continue; }
            let keep = s.clone();
            s.files.retain(|f| f.path != was.path);
            let gone = r.chance(1, 8);
            if !gone { s.files.push(FileSpec { path: to, ..was.clone() }); }
            match r.us(7) { 0 => s.dirs.push(was.path.clone()), 1 => { s.links.insert(was.path.clone(), (*r.pick(&["nowhere", "/no/such", "../gone.s"])).into()); } 2 => { s.links.insert(was.path.clone(), was.path.clone()); } _ => {} }
            if gone || s.model(&main, &cwd).is_ok() { away.push(was.clone()); tag = if gone { "missing" } else { "moved to the working directory" }; } else { s = keep; }
        }
        for _ in 0..1 + r.us(5) {
            // a file of the same name somewhere else
            let (from, q) = r.pick(&all).clone();
            let was = match content(&s, &from, &q) { Some(f) => f, None => continue };
            let rel = if q.starts_with('/') { was.path.rsplit('/').next().unwrap().to_string() } else { q.clone() };
            let canon = s.vfs().resolve("/", &from, true).unwrap_or(from.clone());
            let dir = match r.us(9) { 0..=2 => cwd.clone(), 3 => dirname(&norm(&format!("{}/{}", cwd, main))).into(), 4 => dirname(&norm(&from)).into(), 5 => dirname(dirname(&norm(&from))).into(), 6 => dirname(&canon).into(), 7 => p.env.iter().find(|e| e.0 == "PWD" && e.1.starts_with('/')).map(|e| e.1.clone()).unwrap_or("/tmp".into()), _ => (*r.pick(&["/", "/w", "/tmp", "/home/u"])).into() };
            let to = norm(&format!("{}/{}", dir, if r.chance(1, 4) { rel.rsplit('/').next().unwrap() } else { &rel }));
            if s.vfs().nodes.contains_key(&to) || to.starts_with("/dev") || Some(&to) == outfile(&s, &p).as_ref() || s.files.iter().any(|f| f.path.starts_with(&format!("{}/", to))) || s.links.keys().any(|l| to.starts_with(&format!("{}/", l))) { continue; }
            let mut g = version(r, &was);
            g.path = to;
            s.files.push(g);
        }
        for _ in 0..r.us(3) {
            // a file of nearly the same name
            let (from, q) = r.pick(&all).clone();
            let was = if !away.is_empty() && r.bool() { r.pick(&away).clone() } else { match content(&s, &from, &q) { Some(f) => f, None => continue } };
            let to = match r.us(4) { 0 if !q.starts_with('/') => norm(&format!("{}/{}", cwd, q)), _ => was.path.clone() };
            let to = near(r, &to);
            if s.vfs().nodes.contains_key(&to) || to.starts_with("/dev") || Some(&to) == outfile(&s, &p).as_ref() || s.files.iter().any(|f| f.path.starts_with(&format!("{}/", to)) || to.starts_with(&format!("{}/", f.path))) || s.links.keys().any(|l| to.starts_with(&format!("{}/", l))) { continue; }
            let mut g = version(r, &was);
            g.path = to;
            s.files.push(g);
        }
        s.tag = tag.into();
        match r.us(10) {
            0..=3 => {}
            4 => soft(r, &mut s.procs[0].m),
            5 => { let (from, q) = r.pick(&all).clone(); if let Some(f) = content(&s, &from, &q) { s.tag = "unreadable file".into(); s.modes.push((f.path, 0)); } }
            _ => {
                s.tag = "lookup faults".into();
                let o = c.exec(&s.vfs(), &s.procs[0].healthy());
                for _ in 0..1 + r.us(3) { if let Some(i) = place(r, &o.ops, &|_, x| matches!(x.cls, STAT | OPEN | CWD | READ | META) && x.path != "/") { let f = hard(r, &o.ops, i); s.procs[0].faults.push(f); } }
            }
        }
        if outfile(&s, &p).map(|o| s.files.iter().any(|f| f.path == o) || s.dirs.contains(&o)).unwrap_or(true) { continue; }
        return s;
    }
    Scen::default()
}
pub fn j14(s: &Scen, c: &mut Ctx) -> Verdict {
    if s.procs.is_empty() { return Verdict::Skip("empty".into()); }
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let m = s.model(cmd_main(p), &p.cwd);
    // a symbolic link that leads to itself is an error, not an absence
    let loops = refs(s, cmd_main(p), &p.cwd).iter().any(|(f, q)| v.resolve("/", &beside(f, q), true) == Err(libc::ELOOP));
    if o.success() {
        let m = match m { Ok(m) if !loops => m, Ok(_) => return viol("other-file-used", "a file was looked for through a link that leads to itself and the run succeeded"), Err(b) => return viol("other-file-used", format!("{} and the run succeeded", b.what)) };
        c.hits += 1;
        c.reached(if m.fallbacks.is_empty() { "image compared, all files beside" } else { "image compared, some files in the working directory" });
        if let Some(x) = same("wrong-file-used", o.vfs.get(&out), &m.image) { return x; }
        if p.m.err != Sink::Ok || o.ops.iter().any(|x| x.cls == ERR && x.fault && x.ret < 0) { return Verdict::Pass; }
        let e = strip_ansi(&o.errs());
        let lines: Vec<&str> = e.lines().collect();
        for (b, q) in &m.fallbacks {
            // both paths are named in one message
            let (nb, na) = (norm(b), norm(&format!("{}/{}", p.cwd, q)));
            let names = |l: &str, n: &str| -> bool { l.split(|c| c == '"' || c == '\'' || c == '`').any(|w| { let w = w.trim(); !w.is_empty() && (norm(&if w.starts_with('/') { w.to_string() } else { format!("{}/{}", p.cwd, w) }) == n || v.resolve(&p.cwd, w, true).ok().as_deref() == Some(n)) }) };
            if !lines.iter().enumerate().any(|(i, l)| l.to_lowercase().contains("warning") && { let t = lines[i..(i + 3).min(lines.len())].join("\""); names(&t, &nb) && names(&t, &na) || t.contains(b.as_str()) && t.contains(q.as_str()) }) { return viol("no-warning", format!("{} is used instead of {}, and no warning names both: {}", na, nb, e.chars().take(400).collect::<String>())); }
        }
        return Verdict::Pass;
    }
    if let Ok(m) = m { if !loops && s.fair(p) && p.faults.is_empty() && only_short(p, &o) { return viol("refused", format!("{:?} with {} files from the working directory: {}", o.exit, m.fallbacks.len(), strip_ansi(&o.errs()).chars().take(300).collect::<String>())); } } else { c.hits += 1; c.reached("missing or unreadable file refused"); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C16
pub struct Stmt { pub word: bool, pub vals: Vec<i64> }
fn number(t: &str) -> Option<i64> {
    let t = t.trim().replace('\'', "");
    let (neg, t) = match t.strip_prefix('-') { Some(r) => (true, r.to_string()), None => (false, t) };
    let l = t.to_lowercase();
    let v = if let Some(h) = l.strip_prefix('$').or(l.strip_prefix("0x")) { i64::from_str_radix(h, 16).ok()? } else if let Some(b) = l.strip_prefix('%').or(l.strip_prefix("0b")) { i64::from_str_radix(b, 2).ok()? } else if let Some(o) = l.strip_prefix("0o") { i64::from_str_radix(o, 8).ok()? } else { l.parse().ok()? };
    Some(if neg { -v } else { v })
}
/// the `.byte` and `.word` lines of a text that has nothing else but comments
pub fn data_lines(t: &str) -> Result<Vec<Stmt>, String> {
    let mut out = vec![];
    for l in t.lines() {
        let l = l.split(';').next().unwrap().trim();
        if l.is_empty() { continue; }
        let (w, rest) = if let Some(r) = l.strip_prefix(".byte") { (false, r) } else if let Some(r) = l.strip_prefix(".word") { (true, r) } else { return Err(format!("unexpected line {:?}", l)) };
        let vals: Option<Vec<i64>> = rest.split(',').map(number).collect();
        out.push(Stmt { word: w, vals: vals.ok_or(format!("unexpected value in {:?}", l))? });
    }
    Ok(out)
}
fn data_bytes(s: &[Stmt]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    for s in s { for v in &s.vals {
        if s.word { if !(-32768..65536).contains(v) { return Err(format!("word {}", v)); } o.extend((*v as u16).to_le_bytes()); } else { if !(-128..256).contains(v) { return Err(format!("byte {}", v)); } o.push(*v as u8); }
    } }
    Ok(o)
}
fn img_of(s: &Scen, p: &Proc, path: &str) -> Option<ImgSpec> { let f = s.vfs().resolve(&p.cwd, path, true).ok()?; match &s.files.iter().find(|x| x.path == f)?.c { Content::Img(i) => Some(i.clone()), _ => None } }
/// what an image command must produce from the complete files; None if it must refuse
pub fn conversion(s: &Scen, p: &Proc, text: &[u8]) -> Result<(), String> {
    let cmp = |got: Vec<u8>, want: Vec<u8>| if got == want { Ok(()) } else { let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len())); Err(format!("{} bytes instead of {}, first difference at {}: {:?} instead of {:?}", got.len(), want.len(), i, got.get(i), want.get(i))) };
    match &p.cmd {
        Cmd::Icon { img, speed, eye } => {
            let i = img_of(s, p, img).ok_or("no image file")?;
            let e = match eye { Some(e) => Some(img_of(s, p, e).ok_or("no eyecatch file")?), None => None };
            let want = icon_bytes(&i, speed.as_ref().map(|s| s.parse().unwrap_or(0)).unwrap_or(10), e.as_ref()).ok_or("images that make no icon")?;
            cmp(data_bytes(&data_lines(&String::from_utf8_lossy(text))?)?, want)
        }
        Cmd::Image { img, fmt, .. } => {
            let i = img_of(s, p, img).ok_or("no image file")?;
            match fmt.as_deref() {
                Some("json") | Some("json-pretty") => json_ok(&i, text),
                f => {
                    let want: Vec<u32> = sprite_rows(&i, f == Some("1bit-asm-masked"), true).concat();
                    let got: Vec<i64> = data_lines(&String::from_utf8_lossy(text))?.into_iter().flat_map(|s| s.vals).collect();
                    let k = got.iter().zip(&want).position(|(a, b)| *a != *b as i64);
                    if got.len() != want.len() || k.is_some() { Err(format!("{} values instead of {}, first difference {:?}", got.len(), want.len(), k)) } else { Ok(()) }
                }
            }
        }
        _ => Err("command".into()),
    }
}
/// other measures or more colours, mostly just over what is allowed
pub fn misfits(r: &mut Rng, i: &mut ImgSpec) {
    match r.us(8) {
        0 => i.w += 1, 1 => i.h += 1, 2 => i.w -= (i.w > 1) as u32, 3 => i.h -= (i.h > 1) as u32,
        4 => std::mem::swap(&mut i.w, &mut i.h),
        5 => { let (w, h) = *r.pick(&[(64, 64), (16, 16), (32, 1), (256, 1), (255, 2), (1, 256), (257, 3), (300, 2), (32, 64), (64, 32), (72, 56), (56, 72), (32, 32)]); i.w = w; i.h = h; }
        _ => { i.colors = *r.pick(&[16, 17, 17, 18, 20, 33, 100, 256, 257]); i.patch = 1; }
    }
}
pub fn g16(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = Scen::default();
    let k = r.us(4);
    for i in 0.. {
        s = match if i < 60 { k } else { 0 } { 0 => anycmd(r, "icon", ALL), 1 | 2 => anycmd(r, "image", ALL), _ => { let s = asm(r, W { spell: true, fallback: true, imgs: true, small: false, stress: false }); let p = &s.procs[0]; match s.model(cmd_main(p), &p.cwd) { Ok(m) if m.bins.iter().any(|b| s.files.iter().any(|f| f.path == *b && matches!(f.c, Content::Img(_)))) => s, _ => continue } } };
        break;
    }
    for f in s.files.iter_mut() { if let Content::Img(i) = &mut f.c { if r.chance(1, 8) && !matches!(i.fmt, Fmt::Png(..) | Fmt::Bmp) { i.frames = 4 + r.below(6) as u32; } } }
    let w = s.procs[0].cmd.name();
    // images that make no icon, eyecatch or sprite
    let misfit = r.chance(1, 7);
    if misfit {
        let mut k: Vec<&mut ImgSpec> = s.files.iter_mut().filter_map(|f| match &mut f.c { Content::Img(i) => Some(i), _ => None }).collect();
        if !k.is_empty() { let j = r.us(k.len()); misfits(r, k[j]); }
    }
    let imgs: Vec<String> = s.files.iter().filter(|f| matches!(f.c, Content::Img(_))).map(|f| f.path.clone()).collect();
    if imgs.is_empty() { return s; }
    if misfit && r.chance(2, 3) { s.tag = format!("{} unsuitable image", w); if r.chance(1, 3) { soft(r, &mut s.procs[0].m); } return s; }
    let p = r.pick(&imgs).clone();
    let whole = s.file(&p).unwrap().bytes();
    let len = whole.len();
    // places where one part of the file ends and the next begins
    let mut seams: Vec<usize> = vec![];
    for k in 0..len { let b = &whole[k..]; if b.starts_with(b"\x21\xf9\x04") || b.starts_with(b"\x2c\0\0\0\0") { seams.push(k); } if [b"IDAT", b"fdAT", b"fcTL", b"IEND", b"PLTE", b"tRNS"].iter().any(|t| b.starts_with(*t)) && k >= 4 { seams.push(k - 4); seams.push(k + 4); } }
    let cut = |r: &mut Rng| -> u32 { (match r.us(5) {
        2 if !seams.is_empty() => (*r.pick(&seams) + r.us(3)).saturating_sub(1).min(len - 1),
        0 => r.us(60.min(len)), 1 => len.saturating_sub(1 + r.us(30.min(len))), _ => r.us(len) }) as u32 };
    match r.us(12) {
        0 => s.tag = format!("{} healthy", w),
        1..=3 => { s.tag = format!("{} pieces", w); soft(r, &mut s.procs[0].m); if r.chance(1, 4) { s.procs[0].m.eintr = 2 + r.below(9) as u32; } }
        4..=6 => { s.tag = format!("{} cut short", w); let n = cut(r); s.file(&p).unwrap().cut = Some(n); if r.bool() { soft(r, &mut s.procs[0].m); } }
        7 => {
            s.tag = format!("{} cut short while it is read", w);
            if r.chance(3, 4) { soft(r, &mut s.procs[0].m); if s.procs[0].m.read_cap == 0 { s.procs[0].m.read_cap = 16 + r.below(800) as u32; } }
            let mut q = s.procs[0].healthy(); q.m = s.procs[0].m.clone();
            let o = c.exec(&s.vfs(), &q);
            if let Some(i) = place(r, &o.ops, &|_, x| x.path == p) { let (cls, path, nth) = target(&o.ops, i); let n = cut(r); s.procs[0].faults.push(Fault { cls, path, nth, cnt: 1, kind: FK::Trunc(p.clone(), n) }); }
        }
        8 => { s.tag = format!("{} wrong sizes", w); s.procs[0].m.size_lie = *r.pick(&[-1, 1, -100, 1000, -1_000_000, 5000]); }
        9 => { s.tag = format!("{} memory", w); starve(r, c, &mut s, 0); }
        _ => {
            s.tag = format!("{} read faults", w);
            if r.chance(3, 4) { s.procs[0].m.read_cap = *r.pick(&[32, 100, 500, 4096]); }
            let mut q = s.procs[0].healthy(); q.m = s.procs[0].m.clone();
            let o = c.exec(&s.vfs(), &q);
            for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, x| imgs.contains(&x.path)) { let f = if r.chance(1, 6) && o.ops[i].cls == READ { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; s.procs[0].faults.push(f); } }
        }
    }
    s
}
pub fn j16(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let o = c.exec(&v, p);
    let mut whole = s.clone();
    for f in whole.files.iter_mut() { f.cut = None; f.torn.clear(); }
    let text = match &p.cmd {
        Cmd::Icon { .. } | Cmd::Image { out: None, .. } => Some(o.out.clone()),
        _ => match outfile(s, p) { Some(f) if s.files.iter().any(|x| x.path == f) => return Verdict::Skip("output is an input".into()), Some(f) => o.vfs.get(&f).cloned(), None => return Verdict::Skip("output path".into()) },
    };
    let hurt = s.files.iter().any(|f| f.cut.is_some()) || p.faults.iter().any(|f| matches!(f.kind, FK::Trunc(..)));
    let mut fine = true;
    let judged = if matches!(p.cmd, Cmd::Asm { .. }) {
        match whole.model(cmd_main(p), &p.cwd) { Ok(m) => text.map(|t| if t == m.image { Ok(()) } else { Err("the image holds something else".to_string()) }), Err(b) => { fine = false; Some(Err(b.what)) } }
    } else { text.map(|t| conversion(&whole, p, &t)) };
    if o.success() {
        c.hits += 1;
        c.reached(if hurt { "success though a file was cut short: complete all the same" } else { "complete conversion" });
        return match judged { Some(Ok(())) => Verdict::Pass, Some(Err(e)) => viol(if hurt { "incomplete-image-converted" } else { "wrong-conversion" }, format!("{}: {}", p.cmd.name(), e)), None => viol("no-output", "success without output") };
    }
    if hurt { c.hits += 1; c.reached("image cut short refused"); }
    else if s.tag.contains("unsuitable") && (!fine || matches!(p.cmd, Cmd::Icon { .. })) { c.hits += 1; c.reached("unsuitable image refused"); }
    // a refusal comes before the first byte of the output: nothing stands in for what is missing
    if matches!(p.cmd, Cmd::Icon { .. } | Cmd::Image { out: None, .. }) && !o.out.is_empty() && p.m.out == Sink::Ok && matches!(o.exit, Exit::Code(_)) && !o.ops.iter().any(|x| x.cls == OUT && (x.fault || x.ret < 0)) { return viol("partial-output", format!("{} {:?} with {} bytes put out", p.cmd.name(), o.exit, o.out.len())); }
    if hurt { return Verdict::Pass; }
    // a conversion that the complete file allows and that met nothing but pieces
    let able = match &p.cmd {
        Cmd::Icon { img, eye, .. } => match (img_of(s, p, img), eye.as_ref().map(|e| img_of(s, p, e))) { (Some(i), None) => icon_bytes(&i, 0, None).is_some(), (Some(i), Some(Some(e))) => icon_bytes(&i, 0, Some(&e)).is_some(), _ => false },
        Cmd::Image { img, .. } => img_of(s, p, img).is_some(),
        _ => fine,
    };
    if able && s.fair(p) && p.faults.is_empty() && only_short(p, &o) && p.m.eintr == 0 && p.m.size_lie == 0 { return viol("refused", format!("{} {:?}: {}", p.cmd.name(), o.exit, strip_ansi(&o.errs()).chars().take(200).collect::<String>())); }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C17
pub fn g17(r: &mut Rng, c: &mut Ctx) -> Scen {
    let small = r.chance(2, 3);
    let stress = r.chance(1, 40);
    let mut s = anycmd(r, "expand", W { small, stress, ..ALL });
    let cwd = s.procs[0].cwd.clone();
    match r.us(12) {
        0..=3 => s.tag = "healthy".into(),
        4 | 5 => { s.tag = "pieces".into(); soft(r, &mut s.procs[0].m); if r.chance(1, 4) { s.procs[0].m.eintr = 2 + r.below(9) as u32; } }
        6 => { s.tag = "memory".into(); starve(r, c, &mut s, 0); }
        7 => { s.tag = "random numbers".into(); s.procs[0].rng = match r.us(4) { 0 => RngMode::Counter, 1 => RngMode::Low(r.next() >> 12), 2 => RngMode::Const(r.next() as u8), _ => RngMode::Repeat(r.next() >> 12) }; }
        8 | 9 => {
            s.tag = "listing cannot be written".into();
            let o = c.exec(&s.vfs(), &s.procs[0].healthy());
            let n = o.out.len() as u64;
            let k = match r.us(4) { 0 => n.saturating_sub(1 + r.below(3)), 1 => r.below(n.min(100) + 1), _ => r.below(n + 1) };
            s.procs[0].m.out = match r.us(5) { 0 => Sink::Closed(k), 1 => Sink::Again(k), 2 => Sink::Eio, _ => Sink::Full(k) };
            if r.bool() { soft(r, &mut s.procs[0].m); }
        }
        _ => { s.tag = "faults".into(); hurt(r, c, &mut s, 0, &|_, _| true, true); }
    }
    let at = *r.pick(&["/listing/all.s", "/w/listing.s", "/home/u/x.s"]);
    let mut q = Proc::new(Cmd::Asm { main: spelling(r, &cwd, at), out: "/out/listing.vms".into() }, &cwd);
    q.env = env(r, &cwd); q.rng = rng_mode(r); q.clk = clk(r); q.spell = r.next() as u32;
    if r.chance(1, 6) { soft(r, &mut q.m); }
    s.dirs.push("/out".into());
    s.txt = vec![at.into()];
    s.procs.push(q);
    s
}
pub fn j17(s: &Scen, c: &mut Ctx) -> Verdict {
    if s.procs.len() < 2 || s.txt.is_empty() { return Verdict::Skip("no second run".into()); }
    let (p, q) = (&s.procs[0], &s.procs[1]);
    let v = s.vfs();
    if v.nodes.contains_key(&s.txt[0]) { return Verdict::Skip("listing in the way of a source".into()); }
    let o = c.exec(&v, p);
    let m = s.model(cmd_main(p), &p.cwd);
    // the same random numbers twice may be refused
    let odd = !matches!(p.rng, RngMode::Seeded(_));
    if !o.success() {
        if m.is_ok() && !odd && p.faults.is_empty() && only_short(p, &o) && p.m.out == Sink::Ok && p.m.eintr == 0 && !matches!(o.exit, Exit::StepCap | Exit::Cpu) { return viol("refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(300).collect::<String>())); }
        c.reached("listing refused");
        return Verdict::Pass;
    }
    let m = match m { Ok(m) => m, Err(b) => return if b.what.starts_with("no such") || b.what.starts_with("unreadable") { viol("incomplete-source-expanded", b.what) } else { Verdict::Skip("no model".into()) } };
    // nothing of the listing got lost
    if p.m.out != Sink::Ok || p.faults.iter().any(|f| f.cls == OUT) {
        let mut h = p.healthy(); h.rng = p.rng.clone();
        let h = c.exec(&v, &h);
        if h.success() && mask(&h.out) != mask(&o.out) { c.hits += 1; return viol("lost-listing", format!("success with {} of {} bytes of the listing", o.out.len(), h.out.len())); }
        c.reached("listing complete though standard output is limited");
    }
    if !s.fair(q) || !v.is_dir("/out") { return Verdict::Skip("second run not fair".into()); }
    let mut w = v.clone();
    w.put(&s.txt[0], &o.out);
    let b = c.exec(&w, q);
    if !b.success() { return if !odd && q.faults.is_empty() && only_short(q, &b) && !matches!(b.exit, Exit::StepCap | Exit::Cpu) { viol("listing-refused", format!("{:?}: {}", b.exit, strip_ansi(&b.errs()).chars().take(400).collect::<String>())) } else { Verdict::Skip("second run".into()) }; }
    c.hits += 1;
    c.reached("image of the listing compared");
    if let Some(x) = same("listing-differs", b.vfs.get("/out/listing.vms"), &m.image) { return x; }
    Verdict::Pass
}

// ------------------------------------------------------------------------------------- C18
fn numval(t: &str, names: &BTreeMap<String, i64>) -> Option<i64> {
    let t = t.trim();
    if let Some(h) = t.strip_prefix('$') { return i64::from_str_radix(h, 16).ok(); }
    if let Some(b) = t.strip_prefix('%') { return i64::from_str_radix(b, 2).ok(); }
    if let Some(b) = t.strip_prefix("0x") { return i64::from_str_radix(b, 16).ok(); }
    if let Ok(v) = t.parse::<i64>() { return Some(v); }
    if let Some(v) = names.get(t) { return Some(*v); }
    // a label names its place
    t.strip_prefix("label_").and_then(|h| u64::from_str_radix(h, 16).ok()).map(|v| v as i64)
}
/// compares a listing with positions with the file: Ok(some instructions share bytes, some labels are not defined)
pub fn relist(t: &str, file: &[u8]) -> Result<(bool, bool), String> {
    let mut lines: Vec<(Option<usize>, String)> = vec![];
    let mut rest = String::new();
    for l in t.lines() {
        let (p, x) = match l.find("| ") { Some(k) if k <= 8 && l[..k].chars().all(|c| c == ' ' || c.is_ascii_hexdigit()) => (usize::from_str_radix(l[..k].trim(), 16).ok(), &l[k + 2..]), _ => (None, l) };
        let x = x.split(';').next().unwrap_or("").trim().to_string();
        if !x.is_empty() { lines.push((p, x)); }
    }
    let mut names = BTreeMap::new();
    for (p, l) in &lines { if p.is_none() { let w: Vec<&str> = l.split_whitespace().collect(); if w.len() == 3 && (w[1].eq_ignore_ascii_case("equ") || w[1] == "=") { let v = numval(w[2], &BTreeMap::new()).ok_or(format!("bad definition {}", l))?; if names.insert(w[0].to_string(), v).is_some() { return Err(format!("{} defined twice", w[0])); } } } }
    let mut covered = vec![0u8; file.len()];
    let mut due: Vec<String> = vec![];
    let mut labels: Vec<String> = vec![];
    let mut cnop = None;
    for (p, l) in &lines {
        let (head, tail) = match l.find(char::is_whitespace) { Some(k) => (&l[..k], l[k..].trim()), None => (l.as_str(), "") };
        let p = match p {
            None => {
                if let Some(n) = l.strip_suffix(':') { due.push(n.to_string()); }
                else if head == ".cnop" { cnop = Some(tail.split(',').map(|x| numval(x, &names)).collect::<Option<Vec<_>>>().ok_or("bad .cnop")?); }
                else if !l.to_lowercase().contains(" equ ") && !l.contains(" = ") { return Err(format!("line without a place: {}", l)); }
                continue;
            }
            Some(p) => *p,
        };
        if head == ".org" { if numval(tail, &names) != Some(p as i64) { return Err(format!("{} at {:X}", l, p)); } continue; }
        let args: Vec<&str> = if tail.is_empty() { vec![] } else { tail.split(',').map(|x| x.trim()).collect() };
        let put: Vec<u8> = if head == ".byte" { args.iter().map(|a| numval(a, &names).and_then(|v| u8::try_from(v).ok())).collect::<Option<_>>().ok_or(format!("bad line {}", l))? } else {
            for d in due.drain(..) { if numval(&d, &BTreeMap::new()) != Some(p as i64) { return Err(format!("label {} before {:X}", d, p)); } labels.push(d); }
            let f = FORMS.iter().find(|f| f.name == head && f.ops.len() == args.len() && f.ops.iter().zip(&args).all(|(k, a)| match k { K::Imm => a.starts_with('#'), K::R => a.starts_with('@'), _ => !a.starts_with('#') && !a.starts_with('@') })).ok_or(format!("no such instruction: {}", l))?;
            let next = p as i64 + f.size as i64;
            let mut v = vec![];
            for (k, a) in f.ops.iter().zip(&args) {
                let x = numval(a.trim_start_matches('#'), &names);
                v.push(match k {
                    K::R => (match a.to_lowercase().as_str() { "@r0" => Some(0), "@r1" => Some(1), "@r2" => Some(2), "@r3" => Some(3), _ => None }),
                    K::Imm => x.filter(|v| (0..256).contains(v)), K::D9 => x.filter(|v| (0..512).contains(v)), K::B3 => x.filter(|v| (0..8).contains(v)),
                    K::A12 => x, K::A16 => x, K::R8 => x.map(|v| v.wrapping_sub(next)).filter(|d| (-128..128).contains(d)), K::R16 => x.map(|v| v.wrapping_sub(next) + 1).filter(|d| (-0x1_0000..0x1_0000).contains(d)),
                }.ok_or(format!("operand of {} at {:X}", l, p))? as i32);
            }
            encode(f, &v)
        };
        for (k, b) in put.iter().enumerate() {
            match file.get(p + k) { None => return Err(format!("{:X}: {} reaches beyond the end", p, l)), Some(x) if x != b => return Err(format!("{:X}: {} is {:02X?}, the file has {:02X?}", p, l, put, &file[p..(p + put.len()).min(file.len())])), _ => covered[p + k] = covered[p + k].saturating_add(1) }
        }
        if head != ".byte" { rest.push_str(tail); rest.push(','); }
    }
    if let Some(k) = (0..file.len()).find(|k| covered[*k] == 0 && file[*k] != 0) { return Err(format!("byte {:02X} at {:X} is missing", file[k], k)); }
    if let Some(d) = due.first() { return Err(format!("label {} at the end", d)); }
    match cnop { Some(v) if v.len() == 2 && v[1] > 0 => { let n = v[0]; if (file.len() as i64 - n) % v[1] != 0 { return Err(format!("padding to {:?}, length {}", v, file.len())); } } _ => return Err("the padding line is missing".into()) }
    if names.len() < 200 { return Err("definitions are missing".into()); }
    let undefined = rest.split(',').map(|x| x.trim()).any(|x| x.starts_with("label_") && !labels.iter().any(|l| l == x));
    Ok((covered.iter().any(|c| *c > 1), undefined))
}
fn placeless(t: &[u8]) -> Vec<u8> {
    // lines of a comment of more than one line have no prefix after the first
    let mut o = vec![];
    for l in t.split_inclusive(|b| *b == b'\n') { let k = l.iter().position(|b| *b == b'|').filter(|k| *k >= 4 && *k <= 8 && l.get(k + 1) == Some(&b' ') && l[..*k].iter().all(|c| *c == b' ' || c.is_ascii_hexdigit())); o.extend_from_slice(match k { Some(k) => &l[k + 2..], None => l }); }
    o
}
pub fn g18(r: &mut Rng, c: &mut Ctx) -> Scen {
    let mut s = anycmd(r, "disassemble", ALL);
    if r.chance(1, 25) { let to = *r.pick(&[0x1000usize, 0x8000, 0xFFF0, 0x10000, 0x10200]) + r.us(0x300); if let Content::Bin(b) = &mut s.files[0].c { if b.0.len() < to { b.0.resize(to, 0); for _ in 0..r.us(40) { let i = 0x140 + r.us(to - 0x140); b.0[i] = r.next() as u8; } } } }
    let f = s.files[0].path.clone();
    let len = s.files[0].bytes().len();
    match r.us(14) {
        0..=3 => s.tag = "healthy".into(),
        4 | 5 => { s.tag = "pieces".into(); soft(r, &mut s.procs[0].m); if r.chance(1, 4) { s.procs[0].m.eintr = 2 + r.below(9) as u32; } }
        6 => { s.tag = "memory".into(); starve(r, c, &mut s, 0); }
        7 => { s.tag = "wrong sizes".into(); s.procs[0].m.size_lie = *r.pick(&[-1, 1, -100, 1000, -1_000_000, 5000]); }
        8 => {
            s.tag = "replaced".into();
            let o = c.exec(&s.vfs(), &s.procs[0].healthy());
            let g = FileSpec::new(f.clone(), Content::Bin(Blob(match r.us(5) { 0 | 1 => code(r), 2 => program(r), _ => binary(r) })));
            let i = if r.bool() { place(r, &o.ops, &|_, x| x.path == f).unwrap_or(0) } else { r.us(o.ops.len()) };
            let (cls, path, nth) = target(&o.ops, i);
            s.vers.push(g.clone());
            s.procs[0].faults.push(Fault { cls, path, nth, cnt: 1, kind: FK::Edit(f, Some(Blob(g.bytes()))) });
            if r.bool() { soft(r, &mut s.procs[0].m); }
        }
        9 => {
            s.tag = "input cannot be read".into();
            let cap = *r.pick(&[0u32, 20, 100, 500]);
            s.procs[0].m.read_cap = cap;
            let mut q = s.procs[0].healthy(); q.m = s.procs[0].m.clone();
            let o = c.exec(&s.vfs(), &q);
            for _ in 0..1 + r.us(2) { if let Some(i) = place(r, &o.ops, &|_, x| x.path == f) { let y = if r.chance(1, 6) && o.ops[i].cls == READ { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; s.procs[0].faults.push(y); } }
        }
        10..=12 => {
            s.tag = "listing cannot be written".into();
            let o = c.exec(&s.vfs(), &s.procs[0].healthy());
            let out = outfile(&s, &s.procs[0]);
            let n = out.as_ref().and_then(|f| o.vfs.get(f)).map(|b| b.len()).unwrap_or(0) as u64;
            if r.bool() { s.procs[0].m.disk_free = Some(match r.us(4) { 0 => n.saturating_sub(1 + r.below(3)), _ => r.below(n + 1) }); }
            else if let Some(out) = out { for _ in 0..1 + r.us(3) { if let Some(i) = place(r, &o.ops, &|_, x| x.path == out) { let y = if r.chance(1, 4) && o.ops[i].cls == WRITE { short(r, &o.ops, i) } else { hard(r, &o.ops, i) }; s.procs[0].faults.push(y); } } }
            if r.chance(1, 4) { soft(r, &mut s.procs[0].m); }
        }
        _ => { s.tag = "faults".into(); hurt(r, c, &mut s, 0, &|_, _| true, true); }
    }
    let _ = len;
    s
}
pub fn j18(s: &Scen, c: &mut Ctx) -> Verdict {
    let p = &s.procs[0];
    let v = s.vfs();
    let (input, pos) = match &p.cmd { Cmd::Dis { input, pos, .. } => (input.clone(), *pos), _ => return Verdict::Skip("command".into()) };
    let file = match v.resolve(&p.cwd, &input, true) { Ok(f) => f, Err(_) => return Verdict::Skip("no input".into()) };
    let data = match v.get(&file) { Some(d) => d.clone(), None => return Verdict::Skip("no input".into()) };
    let out = match outfile(s, p) { Some(f) => f, None => return Verdict::Skip("output path".into()) };
    let o = c.exec(&v, p);
    let able = s.fair(p) && out != file;
    let mut vers = vec![data];
    vers.extend(s.vers.iter().map(|g| g.bytes()));
    let mut why = String::new();
    let mut some = false;
    for (i, d) in vers.iter().enumerate() {
        // the same disassembly on a healthy machine, with places, from another hash seed
        let mut w = s.vfs();
        w.put("/ref/in", d);
        w.mkdirs("/ref");
        let mut q = p.healthy();
        q.rng = RngMode::Seeded(1 + i as u64);
        if let Cmd::Dis { input, out, pos, .. } = &mut q.cmd { *input = "/ref/in".into(); *out = "/ref/out".into(); *pos = true; }
        let h = c.exec(&w, &q);
        if !h.success() { if i == 0 && !o.success() { c.reached("file refused"); } why = "the file is refused on a healthy machine".into(); continue; }
        some = true;
        let listing = h.vfs.get("/ref/out").cloned().unwrap_or_default();
        let (shared, undef) = match relist(&String::from_utf8_lossy(&listing), d) { Ok(x) => x, Err(e) => return viol("listing-wrong", e) };
        if shared { c.reached("instructions that share bytes"); }
        if !o.success() { continue; }
        let want = if pos { listing.clone() } else { placeless(&listing) };
        let got = o.vfs.get(&out).cloned().unwrap_or_default();
        if got != want { why = diff(&got, &want); continue; }
        c.hits += 1;
        c.reached("listing compared with the file");
        if !shared && !undef && d.len() < 0x10000 && s.idx % 4 == 0 {
            let mut w = s.vfs();
            w.put("/ref/x.s", &placeless(&listing));
            let mut q = Proc::new(Cmd::Asm { main: "/ref/x.s".into(), out: "/ref/x.vms".into() }, &p.cwd);
            q.clk = p.clk.clone();
            let b = c.exec(&w, &q);
            if b.success() {
                c.reached("listing assembled again");
                let bin = b.vfs.get("/ref/x.vms").cloned().unwrap_or_default();
                let n = bin.len().max(d.len());
                if let Some(k) = (0..n).find(|k| bin.get(*k).unwrap_or(&0) != d.get(*k).unwrap_or(&0)) { return viol("listing-assembles-differently", format!("byte {:X} of {:X}", k, d.len())); }
            } else { c.reached("listing not accepted by the assembler"); }
        }
        return Verdict::Pass;
    }
    if o.success() { c.hits += 1; return viol(if some { "incomplete-listing" } else { "refused-file-listed" }, why); }
    if some { c.hits += 1; c.reached("failure reported"); }
    if able && some && s.vers.is_empty() && p.faults.is_empty() && only_short(p, &o) && p.m.size_lie == 0 { return viol("refused", format!("{:?}: {}", o.exit, strip_ansi(&o.errs()).chars().take(200).collect::<String>())); }
    Verdict::Pass
}
