//! Images: descriptions small enough for a replay file, encoders written for this harness
//! (nothing of the decoders under test is used) and the model of every conversion.
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt { /** colour type 0 grey, 2 rgb, 3 indexed, 4 grey+alpha, 6 rgba; bit depth */ Png(u8, u8), Apng(u8), Gif, Bmp }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ImgSpec {
    pub fmt: Fmt, pub w: u32, pub h: u32,
    #[serde(default = "one")] pub frames: u32,
    pub colors: u32, pub seed: u64,
    /// some palette entries are (partly) transparent
    #[serde(default)] pub alpha: bool,
    /// size of the patches of one colour
    #[serde(default = "one")] pub patch: u32,
    /// size of the pieces the compressed data is divided into
    #[serde(default)] pub piece: u32,
}
fn one() -> u32 { 1 }
pub type Px = [u8; 4];

impl ImgSpec {
    pub fn ext(&self) -> &'static str { match self.fmt { Fmt::Png(..) | Fmt::Apng(_) => "png", Fmt::Gif => "gif", Fmt::Bmp => "bmp" } }
    pub fn nframes(&self) -> u32 { match self.fmt { Fmt::Apng(_) | Fmt::Gif => self.frames.max(1), _ => 1 } }
    fn ctype(&self) -> u8 { match self.fmt { Fmt::Png(c, _) | Fmt::Apng(c) => c, _ => 2 } }
    /// the colours used; distinct also after reduction to four bits as long as there are at most 4096 of them
    pub fn palette(&self) -> Vec<Px> {
        let mut r = Rng::new(self.seed ^ 0x9a1);
        let n = self.colors.max(1);
        let n = if self.fmt == Fmt::Gif { n.min(255) } else if self.ctype() == 3 { n.min(if let Fmt::Png(_, 4) = self.fmt { 16 } else { 256 }) } else { n };
        let has_alpha = matches!(self.ctype(), 3 | 4 | 6) && self.alpha && !matches!(self.fmt, Fmt::Bmp);
        let grey = matches!(self.ctype(), 0 | 4);
        let off = r.below(4096);
        let mul = r.below(2048) * 2 + 1;
        let mut v = vec![];
        for i in 0..n as u64 {
            let k = (off + i * mul) % 4096;
            let ch = |r: &mut Rng, q: u64| (q as i64 * 17 + r.range(-7, 7)).clamp(0, 255) as u8;
            let mut p = if grey { let g = ((off + i * 37) % 256) as u8; [g, g, g, 255] } else { [ch(&mut r, k >> 8), ch(&mut r, k >> 4 & 15), ch(&mut r, k & 15), 255] };
            if has_alpha && r.chance(1, 3) { p[3] = *r.pick(&[0u8, 8, 9, 127, 128, 200]); }
            if self.fmt == Fmt::Gif && self.alpha && i == 1 { p = [0, 0, 0, 0]; }
            v.push(p);
        }
        v
    }
    fn index(&self, n: usize, f: u32, x: u32, y: u32) -> usize {
        let p = self.patch.max(1);
        let h = mix(self.seed ^ mix((f as u64) << 40 | ((x / p) as u64) << 20 | (y / p) as u64));
        // the first pixels of the first frame go through the palette so that small pictures use it
        if f == 0 && h % 3 == 0 { ((x / p + y / p * (self.w / p + 1)) as usize) % n } else { (h >> 8) as usize % n }
    }
    /// frames as decoded
    pub fn pixels(&self) -> Vec<Vec<Vec<Px>>> {
        let pal = self.palette();
        let mut out: Vec<Vec<Vec<Px>>> = vec![];
        for f in 0..self.nframes() {
            let mut rows = vec![];
            for y in 0..self.h {
                rows.push((0..self.w).map(|x| {
                    let p = pal[self.index(pal.len(), f, x, y)];
                    if self.fmt == Fmt::Gif && p[3] == 0 && f > 0 { out[f as usize - 1][y as usize][x as usize] } else { p }
                }).collect());
            }
            out.push(rows);
        }
        out
    }
    pub fn delay(&self, f: u32) -> (u16, u16) { let mut r = Rng::new(self.seed ^ 0xde1a ^ f as u64); (1 + r.below(50) as u16, 1 + r.below(100) as u16) }
    /// delay of a frame as numerator and denominator of milliseconds
    pub fn delay_ms(&self, f: u32) -> (u32, u32) {
        fn gcd(a: u32, b: u32) -> u32 { if b == 0 { a } else { gcd(b, a % b) } }
        let (n, d) = self.delay(f);
        match self.fmt { Fmt::Gif => (n as u32 * 10, 1), Fmt::Apng(_) => { let (a, b) = (n as u32 * 1000, d as u32); let g = gcd(a, b); (a / g, b / g) } _ => (0, 0) }
    }
    pub fn encode(&self) -> Vec<u8> { match self.fmt { Fmt::Bmp => self.bmp(), Fmt::Gif => self.gif(), _ => self.png() } }

    fn bmp(&self) -> Vec<u8> {
        let px = &self.pixels()[0];
        let row = (self.w as usize * 3 + 3) / 4 * 4;
        let size = 54 + row * self.h as usize;
        let mut o = b"BM".to_vec();
        for v in [size as u32, 0, 54, 40, self.w, self.h, 1 | 24 << 16, 0, (row * self.h as usize) as u32, 2835, 2835, 0, 0] { o.extend(v.to_le_bytes()); }
        for r in px.iter().rev() {
            let n = o.len();
            for p in r { o.extend([p[2], p[1], p[0]]); }
            while o.len() - n < row { o.push(0); }
        }
        o
    }
    fn gif(&self) -> Vec<u8> {
        let pal = self.palette();
        let mut bits = 1;
        while (1 << bits) < pal.len() + 1 { bits += 1; }
        let mut o = b"GIF89a".to_vec();
        o.extend((self.w as u16).to_le_bytes());
        o.extend((self.h as u16).to_le_bytes());
        o.extend([0x80 | 0x70 | (bits - 1) as u8, 0, 0]);
        for i in 0..1 << bits { let p = pal.get(i).copied().unwrap_or([1, 2, 3, 4]); o.extend([p[0], p[1], p[2]]); }
        if self.frames > 1 { o.extend(b"\x21\xff\x0bNETSCAPE2.0\x03\x01\x00\x00\x00"); }
        let trans = pal.iter().position(|p| p[3] == 0);
        for f in 0..self.nframes() {
            let (d, _) = self.delay(f);
            o.extend([0x21, 0xf9, 4, 4 * (f % 2) as u8 | trans.is_some() as u8]);
            o.extend(d.to_le_bytes());
            o.extend([trans.unwrap_or(0) as u8, 0, 0x2c, 0, 0, 0, 0]);
            o.extend((self.w as u16).to_le_bytes());
            o.extend((self.h as u16).to_le_bytes());
            o.push(0);
            let min = (bits as u8).max(2);
            o.push(min);
            // codes of constant width: the table is cleared before it grows
            let (clear, end) = (1u32 << min, (1u32 << min) + 1);
            let mut data = vec![];
            let (mut acc, mut n) = (0u32, 0);
            let mut put = |c: u32, data: &mut Vec<u8>| { acc |= c << n; n += min as u32 + 1; while n >= 8 { data.push(acc as u8); acc >>= 8; n -= 8; } };
            let mut k = 0;
            for y in 0..self.h { for x in 0..self.w {
                if k % ((1 << min) - 2) == 0 { put(clear, &mut data); }
                put(self.index(pal.len(), f, x, y) as u32, &mut data);
                k += 1;
            } }
            put(end, &mut data);
            if n > 0 { data.push(acc as u8); }
            let piece = if self.piece == 0 { 255 } else { (self.piece as usize).min(255) };
            for c in data.chunks(piece) { o.push(c.len() as u8); o.extend(c); }
            o.push(0);
        }
        o.push(0x3b);
        o
    }
    fn png(&self) -> Vec<u8> {
        let (ct, depth) = match self.fmt { Fmt::Png(c, d) => (c, d), Fmt::Apng(c) => (c, 8), _ => unreachable!() };
        let pal = self.palette();
        let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
        let mut h = vec![];
        h.extend(self.w.to_be_bytes()); h.extend(self.h.to_be_bytes()); h.extend([depth, ct, 0, 0, 0]);
        chunk(&mut o, b"IHDR", &h);
        let apng = matches!(self.fmt, Fmt::Apng(_));
        if apng { let mut a = vec![]; a.extend(self.nframes().to_be_bytes()); a.extend(0u32.to_be_bytes()); chunk(&mut o, b"acTL", &a); }
        if self.seed % 5 == 0 { chunk(&mut o, b"tEXt", b"Comment\0made for a test"); }
        if ct == 3 {
            let mut p = vec![];
            for c in &pal { p.extend(&c[..3]); }
            chunk(&mut o, b"PLTE", &p);
            if pal.iter().any(|c| c[3] != 255) { chunk(&mut o, b"tRNS", &pal.iter().map(|c| c[3]).collect::<Vec<u8>>()); }
        }
        let mut seq = 0u32;
        for f in 0..self.nframes() {
            if apng {
                let mut c = vec![];
                c.extend(seq.to_be_bytes()); seq += 1;
                c.extend(self.w.to_be_bytes()); c.extend(self.h.to_be_bytes()); c.extend([0; 8]);
                let (a, b) = self.delay(f);
                c.extend(a.to_be_bytes()); c.extend(b.to_be_bytes()); c.extend([(self.seed % 3) as u8 % 2, 0]);
                chunk(&mut o, b"fcTL", &c);
            }
            let bpp = match (ct, depth) { (0, 8) | (3, _) => 1, (4, 8) => 2, (2, 8) => 3, (6, 8) => 4, (2, _) => 6, (6, _) => 8, (0, _) => 2, _ => 4 };
            let mut raw = vec![];
            let mut prev: Vec<u8> = vec![];
            for y in 0..self.h {
                let mut row = vec![];
                for x in 0..self.w {
                    let i = self.index(pal.len(), f, x, y);
                    let p = pal[i];
                    let v: Vec<u8> = match ct { 0 => vec![p[0]], 2 => p[..3].to_vec(), 3 => vec![i as u8], 4 => vec![p[0], p[3]], _ => p.to_vec() };
                    for b in v { row.push(b); if depth == 16 { row.push(b); } }
                }
                if depth == 4 { row = row.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect(); }
                let ft = if self.seed % 2 == 0 || depth == 4 { 0 } else { (mix(self.seed ^ y as u64) % 5) as u8 };
                raw.push(ft);
                for k in 0..row.len() {
                    let a = if k >= bpp { row[k - bpp] } else { 0 };
                    let b = prev.get(k).copied().unwrap_or(0);
                    let c = if k >= bpp { prev.get(k - bpp).copied().unwrap_or(0) } else { 0 };
                    let pred = match ft { 0 => 0, 1 => a, 2 => b, 3 => ((a as u16 + b as u16) / 2) as u8, _ => {
                        let (ai, bi, ci) = (a as i32, b as i32, c as i32);
                        let p = ai + bi - ci;
                        let (pa, pb, pc) = ((p - ai).abs(), (p - bi).abs(), (p - ci).abs());
                        if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }
                    } };
                    raw.push(row[k].wrapping_sub(pred));
                }
                prev = row;
            }
            let z = zlib(&raw, if self.piece == 0 { 65535 } else { (self.piece as usize * 7).min(65535) });
            let piece = if self.piece == 0 { z.len() } else { self.piece as usize };
            for c in z.chunks(piece.max(1)) {
                if f == 0 { chunk(&mut o, b"IDAT", c); } else { let mut d = seq.to_be_bytes().to_vec(); seq += 1; d.extend(c); chunk(&mut o, b"fdAT", &d); }
            }
        }
        chunk(&mut o, b"IEND", &[]);
        o
    }
}
fn zlib(d: &[u8], block: usize) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let n = (d.len() + block - 1) / block;
    for (i, c) in d.chunks(block).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((c.len() as u16).to_le_bytes()); o.extend((!(c.len() as u16)).to_le_bytes()); o.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    o.extend((b << 16 | a).to_be_bytes());
    o
}
fn chunk(o: &mut Vec<u8>, t: &[u8], d: &[u8]) {
    o.extend((d.len() as u32).to_be_bytes());
    let n = o.len();
    o.extend(t); o.extend(d);
    let c = crc(&o[n..]);
    o.extend(c.to_be_bytes());
}
pub fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { c >> 1 ^ 0xEDB88320 } else { c >> 1 }; } }
    !c
}

// ------------------------------------------------------------------------- conversions
/// round(15 * c / 255), exact
fn four(c: u8) -> u8 { ((c as u32 * 15 * 2 + 255) / 510) as u8 }
fn word4(p: &Px) -> u16 { (p[3] as u16) << 12 | (p[0] as u16) << 8 | (p[1] as u16) << 4 | p[2] as u16 }
fn scaled(i: &ImgSpec) -> (Vec<Vec<Vec<Px>>>, Vec<Px>) {
    let f: Vec<Vec<Vec<Px>>> = i.pixels().iter().map(|f| f.iter().map(|r| r.iter().map(|p| [four(p[0]), four(p[1]), four(p[2]), four(p[3])]).collect()).collect()).collect();
    (f, vec![])
}
fn seen(f: &[Vec<Vec<Px>>]) -> (Vec<Px>, std::collections::BTreeMap<Px, usize>) {
    let mut pal = vec![];
    let mut ix = std::collections::BTreeMap::new();
    for fr in f { for r in fr { for p in r { if !ix.contains_key(p) { ix.insert(*p, pal.len()); pal.push(*p); } } } }
    (pal, ix)
}
fn picture(o: &mut Vec<u8>, f: &[Vec<Vec<Px>>]) {
    let (mut pal, ix) = seen(f);
    let n = pal.len();
    if n > 256 { for fr in f { for r in fr { for p in r { o.extend(word4(p).to_le_bytes()); } } } return; }
    pal.resize(if n <= 16 { 16 } else { 256 }, [0; 4]);
    for p in &pal { o.extend(word4(p).to_le_bytes()); }
    for fr in f { for r in fr {
        if n <= 16 { for c in r.chunks(2) { o.push((ix[&c[0]] << 4 | ix[&c[1]]) as u8); } } else { for p in r { o.push(ix[p] as u8); } }
    } }
}
pub fn icon_bytes(i: &ImgSpec, speed: i64, eye: Option<&ImgSpec>) -> Option<Vec<u8>> {
    let (f, _) = scaled(i);
    if seen(&f).0.len() > 16 || i.w != 32 || i.h != 32 { return None; }
    let e = eye.map(|e| scaled(e).0[..1].to_vec());
    let mut o = vec![];
    o.extend((f.len() as u16).to_le_bytes());
    o.extend((speed as u16).to_le_bytes());
    let t: u16 = match &e { None => 0, Some(e) => { let n = seen(e).0.len(); if n <= 16 { 3 } else if n <= 256 { 2 } else { 1 } } };
    o.extend(t.to_le_bytes());
    o.extend([0; 26]);
    picture(&mut o, &f);
    if let Some(e) = e {
        if eye.map(|e| (e.w, e.h)) != Some((72, 56)) { return None; }
        picture(&mut o, &e);
    }
    Some(o)
}
/// one-bit pictures; the lists are the rows as `.byte` lines would have them
pub fn sprite_rows(i: &ImgSpec, masked: bool, hdr: bool) -> Vec<Vec<u32>> {
    let mut o = vec![];
    for f in i.pixels() {
        if hdr { o.push(vec![i.w, i.h]); }
        let bits = |r: &Vec<Px>, pad: u8, g: &dyn Fn(&Px) -> u8| -> Vec<u32> {
            r.chunks(8).map(|c| { let mut b = 0u8; for k in 0..8 { b = b << 1 | c.get(k).map(|p| g(p)).unwrap_or(pad); } b as u32 }).collect()
        };
        if masked { for r in &f { o.push(bits(r, 1, &|p| (p[3] <= 127) as u8)); } }
        for r in &f { o.push(bits(r, 0, &|p| ((0.3f64 * p[0] as f64 + 0.59f64 * p[1] as f64 + 0.11f64 * p[2] as f64).round() as u8 <= 127) as u8)); }
    }
    o
}
pub fn sprite_bytes(i: &ImgSpec, masked: bool, hdr: bool) -> Option<Vec<u8>> {
    let r = sprite_rows(i, masked, hdr);
    if hdr && (i.w > 255 || i.h > 255) { return None; }
    Some(r.into_iter().flatten().map(|v| v as u8).collect())
}
/// what the json formats hold
pub fn json_ok(i: &ImgSpec, text: &[u8]) -> Result<(), String> {
    let v: serde_json::Value = serde_json::from_slice(text).map_err(|e| format!("not JSON: {}", e))?;
    let fr = v["frames"].as_array().ok_or("no frames")?;
    let want = i.pixels();
    if fr.len() != want.len() { return Err(format!("{} frames instead of {}", fr.len(), want.len())); }
    for (k, (g, w)) in fr.iter().zip(&want).enumerate() {
        let (n, d) = i.delay_ms(k as u32);
        if g["delay"][0].as_u64() != Some(n as u64) || g["delay"][1].as_u64() != Some(d as u64) { return Err(format!("delay of frame {}: {} instead of {}/{}", k, g["delay"], n, d)); }
        let rows = g["rows"].as_array().ok_or("no rows")?;
        if rows.len() != w.len() { return Err(format!("frame {}: {} rows instead of {}", k, rows.len(), w.len())); }
        for (y, (a, b)) in rows.iter().zip(w).enumerate() {
            let a = a.as_array().ok_or("no row")?;
            if a.len() != b.len() { return Err(format!("frame {} row {}: {} pixels", k, y, a.len())); }
            for (x, (p, q)) in a.iter().zip(b).enumerate() {
                let got = [p["red"].as_u64(), p["green"].as_u64(), p["blue"].as_u64(), p["alpha"].as_u64()];
                for c in 0..4 { if got[c] != Some(q[c] as u64) { return Err(format!("frame {} pixel {},{}: {} instead of {:?}", k, x, y, p, q)); } }
            }
        }
    }
    Ok(())
}
