//! Time zones: a writer and an independent reader of TZif files and POSIX TZ strings, and the
//! conversion of an instant to local date and time.
use crate::rng::Rng;
use crate::vfs::Vfs;

#[derive(Clone, Debug, PartialEq)]
pub enum Day { M(i64, i64, i64), J(i64), N(i64) }
#[derive(Clone, Debug, PartialEq)]
pub struct Dst { pub off: i64, pub name: String, pub start: (Day, i64), pub end: (Day, i64) }
#[derive(Clone, Debug, PartialEq)]
pub struct Rule { pub off: i64, pub name: String, pub dst: Option<Dst> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Zone { /** instant, type */ pub trans: Vec<(i64, usize)>, /** offset, daylight saving, name */ pub types: Vec<(i64, bool, String)>, pub rule: Option<Rule> }

pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(n: i64) -> (i64, i64, i64) {
    let z = n + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}
pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
impl Day {
    /// day number of the rule in a year
    fn at(&self, y: i64) -> i64 {
        match self {
            Day::J(n) => days(y, 1, 1) + n - 1 + (leap(y) && *n >= 60) as i64,
            Day::N(n) => days(y, 1, 1) + n,
            Day::M(m, w, d) => {
                let first = days(y, *m, 1);
                let wd = (first + 4).rem_euclid(7);
                let mut n = first + (d - wd).rem_euclid(7) + (w - 1) * 7;
                let next = if *m == 12 { days(y + 1, 1, 1) } else { days(y, m + 1, 1) };
                while n >= next { n -= 7; }
                n
            }
        }
    }
}
impl Rule {
    /// changes around an instant: (instant, daylight saving from then on)
    pub fn changes(&self, y: i64) -> Vec<(i64, bool)> {
        let d = match &self.dst { Some(d) => d, None => return vec![] };
        vec![(d.start.0.at(y) * 86400 + d.start.1 - self.off, true), (d.end.0.at(y) * 86400 + d.end.1 - d.off, false)]
    }
    pub fn at(&self, t: i64) -> (i64, bool, String) {
        let std = (self.off, false, self.name.clone());
        let d = match &self.dst { Some(d) => d, None => return std };
        let y = civil(t.div_euclid(86400)).0;
        let mut ev: Vec<(i64, bool)> = (y - 2..=y + 1).flat_map(|y| self.changes(y)).collect();
        ev.sort();
        match ev.iter().rev().find(|e| e.0 <= t) { Some((_, true)) => (d.off, true, d.name.clone()), _ => std }
    }
    pub fn parse(s: &str) -> Option<Rule> {
        let mut p = P(s.as_bytes(), 0);
        let name = p.name()?;
        let off = -p.offset()?;
        if p.done() { return Some(Rule { off, name, dst: None }); }
        let dn = p.name()?;
        let doff = if p.peek() == Some(b',') { off + 3600 } else { -p.offset()? };
        p.eat(b',')?;
        let start = p.rule()?;
        p.eat(b',')?;
        let end = p.rule()?;
        if !p.done() { return None; }
        Some(Rule { off, name, dst: Some(Dst { off: doff, name: dn, start, end }) })
    }
}
struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> { self.0.get(self.1).copied() }
    fn done(&self) -> bool { self.1 >= self.0.len() }
    fn eat(&mut self, c: u8) -> Option<()> { if self.peek() == Some(c) { self.1 += 1; Some(()) } else { None } }
    fn name(&mut self) -> Option<String> {
        let q = self.eat(b'<').is_some();
        let a = self.1;
        while let Some(c) = self.peek() { if q && c != b'>' || !q && c.is_ascii_alphabetic() { self.1 += 1 } else { break } }
        let s = String::from_utf8(self.0[a..self.1].to_vec()).ok()?;
        if q { self.eat(b'>')?; }
        if (3..=7).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'+' || c == b'-') { Some(s) } else { None }
    }
    fn num(&mut self, max: i64) -> Option<i64> {
        let a = self.1;
        while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) { self.1 += 1; }
        let n: i64 = std::str::from_utf8(&self.0[a..self.1]).ok()?.parse().ok()?;
        if n <= max { Some(n) } else { None }
    }
    fn hms(&mut self) -> Option<i64> {
        let mut t = self.num(24)? * 3600;
        if self.eat(b':').is_some() { t += self.num(59)? * 60; if self.eat(b':').is_some() { t += self.num(59)?; } }
        Some(t)
    }
    fn offset(&mut self) -> Option<i64> {
        let neg = match self.peek() { Some(b'-') => { self.1 += 1; true } Some(b'+') => { self.1 += 1; false } _ => false };
        let t = self.hms()?;
        Some(if neg { -t } else { t })
    }
    fn rule(&mut self) -> Option<(Day, i64)> {
        let d = match self.peek()? {
            b'M' => { self.1 += 1; let m = self.num(12)?; self.eat(b'.')?; let w = self.num(5)?; self.eat(b'.')?; let d = self.num(6)?; if m == 0 || w == 0 { return None; } Day::M(m, w, d) }
            b'J' => { self.1 += 1; let n = self.num(365)?; if n == 0 { return None; } Day::J(n) }
            _ => Day::N(self.num(365)?),
        };
        let t = if self.eat(b'/').is_some() { self.hms()? } else { 7200 };
        Some((d, t))
    }
}
impl Zone {
    pub fn utc() -> Zone { Zone { trans: vec![], types: vec![(0, false, "UTC".into())], rule: None } }
    pub fn of(r: Rule) -> Zone { Zone { trans: vec![], types: vec![], rule: Some(r) } }
    /// seconds east of Greenwich; None if the zone does not say
    pub fn offset(&self, t: i64) -> Option<i64> {
        match self.trans.last() {
            None => match &self.rule { Some(r) => Some(r.at(t).0), None => self.types.first().map(|x| x.0) },
            Some((l, _)) if t >= *l => self.rule.as_ref().map(|r| r.at(t).0),
            _ => Some(match self.trans.iter().rev().find(|x| x.0 <= t) { Some((_, k)) => self.types[*k].0, None => self.types[0].0 }),
        }
    }
    pub fn parse(b: &[u8]) -> Option<Zone> {
        let (_, n, v) = block(b, 0, 4)?;
        if v == 0 { return if n == b.len() { block(b, 0, 4).map(|x| x.0) } else { None }; }
        let (mut z, n, _) = block(b, n, 8)?;
        let f = std::str::from_utf8(&b[n..]).ok()?;
        if f.is_empty() || !f.starts_with('\n') || !f.ends_with('\n') { return None; }
        let f = f.trim();
        if !f.is_empty() { z.rule = Some(Rule::parse(f)?); }
        if let (Some(r), Some((t, k))) = (&z.rule, z.trans.last()) { if r.at(*t) != z.types[*k] { return None; } }
        Some(z)
    }
    pub fn write(&self, ver: u8, footer: &str, full1: bool) -> Vec<u8> {
        let mut o = vec![];
        let one = |o: &mut Vec<u8>, wide: bool, trans: &[(i64, usize)]| {
            let mut names: Vec<u8> = vec![];
            let mut at = vec![];
            for (_, _, n) in &self.types { at.push(names.len() as u8); names.extend(n.as_bytes()); names.push(0); }
            o.extend(b"TZif"); o.push(if ver == 1 { 0 } else { b'0' + ver }); o.extend([0; 15]);
            for n in [0, 0, 0, trans.len(), self.types.len(), names.len()] { o.extend((n as u32).to_be_bytes()); }
            for (t, _) in trans { if wide { o.extend(t.to_be_bytes()) } else { o.extend((*t as i32).to_be_bytes()) } }
            for (_, k) in trans { o.push(*k as u8); }
            for (i, (off, d, _)) in self.types.iter().enumerate() { o.extend((*off as i32).to_be_bytes()); o.push(*d as u8); o.push(at[i]); }
            o.extend(names);
        };
        let small: Vec<(i64, usize)> = self.trans.iter().filter(|x| x.0.abs() < i32::MAX as i64).cloned().collect();
        one(&mut o, false, if full1 || ver == 1 { &small } else { &[] });
        if ver > 1 { one(&mut o, true, &self.trans); o.extend(format!("\n{}\n", footer).as_bytes()); }
        o
    }
    /// (zone, footer)
    pub fn random(r: &mut Rng) -> (Zone, String) {
        let f = posix(r);
        let rule = Rule::parse(&f).unwrap();
        let mut z = Zone { trans: vec![], types: vec![], rule: Some(rule.clone()) };
        let mut ty = |z: &mut Zone, t: (i64, bool, String)| -> usize { match z.types.iter().position(|x| *x == t) { Some(i) => i, None => { z.types.push(t); z.types.len() - 1 } } };
        ty(&mut z, (r.range(-43_200, 43_200), false, "LMT".into()));
        let n = r.us(8);
        let mut t = r.range(-2_000_000_000, 900_000_000);
        for i in 0..n {
            t += r.range(86_400 * 20, 86_400 * 900);
            let dst = r.chance(1, 3);
            let k = ty(&mut z, (r.range(-56, 56) * 900 + if r.chance(1, 6) { r.range(-800, 800) } else { 0 }, dst, format!("AA{}", (b'A' + i as u8) as char)));
            z.trans.push((t, k));
        }
        if n > 0 || r.bool() {
            // the rule's own changes from some year to another
            let y0 = civil(t.div_euclid(86400)).0 + 1;
            let mut ev: Vec<(i64, bool)> = (y0 + 1..y0 + 2 + r.range(0, 30)).flat_map(|y| rule.changes(y)).collect();
            ev.sort();
            ev.retain(|e| e.0 > t + 86400);
            if ev.is_empty() { ev.push((t + 86_400 * 400, false)); }
            for (t, _) in ev { let k = ty(&mut z, rule.at(t)); z.trans.push((t, k)); }
        }
        (z, f)
    }
}
pub const POSIX: &[&str] = &["UTC0", "JST-9", "<+0530>-5:30", "<-03>3", "ABC-13:59:59", "<+1245>-12:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0/2,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-1GMT0,M10.5.0,M3.5.0/1",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "AAA3BBB,J60,J300", "XXX0YYY,59,300/0:30:15", "<-0330>3:30<-0230>,M3.2.0/0:01,M11.1.0/0:01", "CLT4CLST,M9.1.6/24,M4.1.6/24", "LLL0:01:15MMM-3,J1/12,J200/23:59:59", "QQQ-11RRR,M6.3.3/5:30,M12.4.2"];
pub fn posix(r: &mut Rng) -> String { r.pick(POSIX).to_string() }

fn block(b: &[u8], at: usize, w: usize) -> Option<(Zone, usize, u8)> {
    let h = b.get(at..at + 44)?;
    if &h[..4] != b"TZif" { return None; }
    let v = match h[4] { 0 => 0, b'2' => 2, b'3' => 3, _ => return None };
    let n: Vec<usize> = (0..6).map(|i| u32::from_be_bytes(h[20 + i * 4..24 + i * 4].try_into().unwrap()) as usize).collect();
    if n.iter().any(|x| *x > 100_000) || n[4] == 0 || n[5] == 0 { return None; }
    let mut p = at + 44;
    let mut take = |k: usize| -> Option<&[u8]> { let s = b.get(p..p + k)?; p += k; Some(s) };
    let times = take(n[3] * w)?; let idx = take(n[3])?; let ty = take(n[4] * 6)?; let names = take(n[5])?;
    take(n[2] * (w + 4))?; take(n[1])?; take(n[0])?;
    let types: Option<Vec<(i64, bool, String)>> = ty.chunks(6).map(|c| { let s = names.get(c[5] as usize..)?; let e = s.iter().position(|x| *x == 0)?; Some((i32::from_be_bytes(c[..4].try_into().unwrap()) as i64, c[4] != 0, String::from_utf8(s[..e].to_vec()).ok()?)) }).collect();
    let trans: Vec<(i64, usize)> = times.chunks(w).zip(idx).map(|(t, k)| (if w == 8 { i64::from_be_bytes(t.try_into().unwrap()) } else { i32::from_be_bytes(t.try_into().unwrap()) as i64 }, *k as usize)).collect();
    let types = types?;
    if trans.iter().any(|x| x.1 >= types.len()) || trans.windows(2).any(|w| w[0].0 >= w[1].0) { return None; }
    Some((Zone { trans, types, rule: None }, p, v))
}
const DIRS: [&str; 3] = ["/usr/share/zoneinfo", "/share/zoneinfo", "/etc/zoneinfo"];
/// the zones the settings denote: one if they are in order, otherwise those that may be fallen back to
pub fn zones(v: &Vfs, env: &[(String, String)]) -> (Option<Zone>, Vec<Zone>) {
    let file = |p: &str| -> Option<Zone> { let f = v.resolve("/", p, true).ok()?; Zone::parse(v.get(&f)?) };
    let named = |n: &str| -> Option<Option<Zone>> { if n.starts_with('/') { return Some(file(n)); } DIRS.iter().map(|d| format!("{}/{}", d, n)).find(|p| v.resolve("/", p, true).map(|f| v.nodes.contains_key(&f)).unwrap_or(false)).map(|p| file(&p)) };
    let sys = file("/etc/localtime");
    let mut other = vec![Zone::utc()];
    other.extend(sys.clone());
    if let Some(b) = v.get("/etc/timezone") { if let Some(Some(z)) = named(String::from_utf8_lossy(b).trim()) { other.push(z); } }
    let first = match env.iter().find(|e| e.0 == "TZ").map(|e| e.1.as_str()) {
        None | Some("localtime") => sys,
        Some("") => None,
        Some(s) if s.starts_with(':') => named(&s[1..]).unwrap_or(None),
        Some(s) => match named(s) { Some(x) => x, None => Rule::parse(s.trim()).map(Zone::of) },
    };
    (first, other)
}
/// the eight bytes of a time stamp
pub fn stamp(t: i64, off: i64) -> [u8; 8] {
    let l = t + off;
    let d = l.div_euclid(86400);
    let s = l.rem_euclid(86400);
    let (y, m, day) = civil(d);
    [y as u8, (y >> 8) as u8, m as u8, day as u8, (s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, (d + 4).rem_euclid(7) as u8]
}
