//! Minimises a failing scenario: anything is taken out or simplified as long as the same kind of
//! violation remains.
use crate::img::Fmt;
use crate::model::*;
use crate::props;
use crate::scen::*;
use crate::sim::*;

pub struct Shrink<'a> { c: &'a mut Ctx, kind: String, pub best: Scen, left: u32, until: std::time::Instant }
impl<'a> Shrink<'a> {
    fn attempt(&mut self, s: Scen) -> bool {
        if self.left == 0 || s == self.best || std::time::Instant::now() > self.until { return false; }
        self.left -= 1;
        self.c.start();
        match props::judge(&s, self.c) { Verdict::Violation { kind, .. } if kind == self.kind && self.c.trouble.is_none() => { self.best = s; true } _ => false }
    }
    fn each(&mut self, n: impl Fn(&Scen) -> usize, cut: impl Fn(&mut Scen, usize)) -> bool {
        let mut any = false;
        let mut i = n(&self.best);
        while i > 0 { i -= 1; if i >= n(&self.best) { continue; } let mut s = self.best.clone(); cut(&mut s, i); any |= self.attempt(s); }
        any
    }
    fn lines(&mut self, fi: usize) -> bool {
        let mut any = false;
        let len = |s: &Scen| match s.files.get(fi).map(|f| &f.c) { Some(Content::Asm(l) | Content::Cpp(l)) => l.len(), _ => 0 };
        let mut size = len(&self.best).max(1);
        loop {
            size = (size + 1) / 2;
            let mut at = len(&self.best);
            while at > 0 {
                let from = at.saturating_sub(size);
                let mut s = self.best.clone();
                if let Content::Asm(l) | Content::Cpp(l) = &mut s.files[fi].c { l.drain(from..at.min(l.len())); }
                any |= self.attempt(s);
                at = from.min(len(&self.best));
                if self.left == 0 { return any; }
            }
            if size <= 1 { return any; }
        }
    }
    fn pass(&mut self) -> bool {
        let mut any = false;
        any |= self.each(|s| if s.procs.len() > 1 { s.procs.len() } else { 0 }, |s, i| { s.procs.remove(i); });
        for p in 0..self.best.procs.len() {
            any |= self.each(|s| s.procs[p].faults.len(), |s, i| { s.procs[p].faults.remove(i); });
            any |= self.each(|s| s.procs[p].pre.len(), |s, i| { s.procs[p].pre.remove(i); });
            any |= self.each(|s| s.procs[p].env.len(), |s, i| { s.procs[p].env.remove(i); });
            let simple: [fn(&mut Proc); 19] = [|p| p.m = Modes { max_ops: p.m.max_ops, ..Modes::default() }, |p| p.m.ragged = 0, |p| p.m.read_cap = 0, |p| p.m.write_cap = 0, |p| p.m.eintr = 0, |p| { p.m.tty = false; p.m.tty_of = 0 }, |p| p.m.tty_of = 0, |p| p.m.inp = 0, |p| p.m.heap = 0, |p| p.m.size_lie = 0, |p| p.m.disk_free = None,
                |p| { p.m.alloc_fail = 0; p.m.alloc_max = 0 }, |p| p.m.out = Sink::Ok, |p| p.m.err = Sink::Ok, |p| p.m.fd_limit = 64, |p| p.clk = Clk::default(), |p| p.clk.step = 0, |p| p.rng = RngMode::Seeded(1), |p| p.spell = 0];
            for f in simple { let mut s = self.best.clone(); f(&mut s.procs[p]); any |= self.attempt(s); }
            for k in 0..self.best.procs[p].faults.len() {
                for w in 0..4 {
                    let mut s = self.best.clone();
                    let f = &mut s.procs[p].faults[k];
                    match w { 0 => f.cnt = 1, 1 => f.nth = 0, 2 => f.nth /= 2, _ => if let FK::Errno(e) = &mut f.kind { if f.cls != RNGC { *e = libc::EIO } } else if let FK::Short(n) = &mut f.kind { *n = 1.min(*n) } }
                    any |= self.attempt(s);
                }
            }
            if let Cmd::Lib(_) | Cmd::Threads(_) = &self.best.procs[p].cmd {
                let jobs = |s: &mut Scen, i: usize| { if let Cmd::Lib(j) | Cmd::Threads(j) = &mut s.procs[p].cmd { j.remove(i); } };
                any |= self.each(|s| if let Cmd::Lib(j) | Cmd::Threads(j) = &s.procs[p].cmd { if j.len() > 1 { j.len() } else { 0 } } else { 0 }, jobs);
            }
            // a concrete list of thread switches instead of a seed, as short as possible
            if let (Cmd::Threads(_), Plan::Seeded(..)) = (&self.best.procs[p].cmd, &self.best.procs[p].plan) {
                let o = self.c.exec(&self.best.vfs(), &self.best.procs[p].clone());
                let mut s = self.best.clone();
                s.procs[p].plan = Plan::List(o.switches.clone());
                any |= self.attempt(s);
            }
            if let ("C25", 0, Plan::Seeded(..)) = (self.best.prop.as_str(), p, &self.best.procs[p].plan) {
                let ps = self.best.procs.clone();
                let o = self.c.exec(&self.best.vfs(), &Proc { cmd: Cmd::Calls(ps.clone(), true), pre: vec![], ..ps[0].clone() });
                let mut s = self.best.clone();
                s.procs[p].plan = Plan::List(o.switches.clone());
                any |= self.attempt(s);
            }
            if let ("C20", 0, Plan::Seeded(..)) = (self.best.prop.as_str(), p, &self.best.procs[p].plan) {
                let (_, _, sw) = self.c.exec_many(&self.best.vfs(), &self.best.procs.clone(), &self.best.procs[0].plan.clone());
                let mut s = self.best.clone();
                s.procs[p].plan = Plan::List(sw);
                any |= self.attempt(s);
            }
            if let Plan::List(_) = &self.best.procs[p].plan {
                let n = |s: &Scen| if let Plan::List(l) = &s.procs[p].plan { l.len() } else { 0 };
                let mut size = n(&self.best);
                while size > 0 { let mut at = n(&self.best); while at > 0 { let from = at.saturating_sub(size); let mut s = self.best.clone(); if let Plan::List(l) = &mut s.procs[p].plan { l.drain(from..at.min(l.len())); } any |= self.attempt(s); at = from.min(n(&self.best)); } size /= 2; }
            }
        }
        any |= self.each(|s| s.files.len(), |s, i| { s.files.remove(i); });
        any |= self.each(|s| s.raw.len(), |s, i| { s.raw.remove(i); });
        any |= self.each(|s| s.hard.len(), |s, i| { s.hard.remove(i); });
        any |= self.each(|s| s.pipes.len(), |s, i| { s.pipes.remove(i); });
        any |= self.each(|s| s.modes.len(), |s, i| { s.modes.remove(i); });
        any |= self.each(|s| s.links.len(), |s, i| { let k = s.links.keys().nth(i).unwrap().clone(); s.links.remove(&k); });
        any |= self.each(|s| s.dirs.len(), |s, i| { s.dirs.remove(i); });
        for i in 0..self.best.files.len() {
            any |= self.lines(i);
            if i >= self.best.files.len() { break; }
            let mut s = self.best.clone();
            let f = &mut s.files[i];
            f.crlf = false; f.nonl = false;
            if let Content::Asm(l) | Content::Cpp(l) = &mut f.c { for x in l.iter_mut() { x.st = 0; } }
            any |= self.attempt(s);
            loop {
                let mut s = self.best.clone();
                if let Content::Bin(b) = &mut s.files[i].c { let n = b.0.len() / 2; b.0.truncate(n); } else { break; }
                if !self.attempt(s) { break; }
                any = true;
            }
            let mut s = self.best.clone();
            if let Content::Bin(b) = &mut s.files[i].c { for x in b.0.iter_mut() { *x = 0; } any |= self.attempt(s); }
            for w in 0..6 {
                let mut s = self.best.clone();
                if let Content::Img(m) = &mut s.files[i].c { match w { 0 => m.frames = 1, 1 => { m.piece = 0; m.patch = 8 } 2 => m.colors = 2, 3 => m.alpha = false, 4 => { m.w = (m.w / 2).max(1); m.h = (m.h / 2).max(1) } _ => m.fmt = Fmt::Bmp } any |= self.attempt(s); }
            }
        }
        any
    }
}
pub fn shrink(c: &mut Ctx, s: Scen, kind: &str, secs: u64) -> Scen {
    let mut k = Shrink { c, kind: kind.into(), best: s, left: 3000, until: std::time::Instant::now() + std::time::Duration::from_secs(secs) };
    for _ in 0..4 { if !k.pass() || k.left == 0 { break; } }
    k.best
}
