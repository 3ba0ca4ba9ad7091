//! In-memory file system that replaces the kernel's for the simulated process.
//! It is deterministic, and every change goes through `apply`, so that the worker can
//! rebuild the state of a dead child from its journal.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node { Dir, File(usize), Link(String) }

#[derive(Clone, Debug, PartialEq, Default)]
/// `mtime` is in nanoseconds of simulated time since the simulated disk was made
pub struct Inode { pub data: Vec<u8>, pub mode: u32, pub dev: u8, pub mtime: u64 }
pub const DEV_NONE: u8 = 0;
pub const DEV_NULL: u8 = 1;
pub const DEV_RANDOM: u8 = 2;
pub const DEV_FULL: u8 = 3;
/// the standard output of whoever opens it
pub const DEV_OUT: u8 = 4;
/// a pipe somebody else has written `data` to and closed
pub const DEV_PIPE: u8 = 5;

#[derive(Clone, Debug, Default)]
pub struct Vfs { pub nodes: BTreeMap<String, Node>, pub inodes: Vec<Inode>, pub tick: u64 }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Create { path: String, mode: u32 },
    Truncate { ino: u32, len: u64 },
    Write { ino: u32, off: u64, data: Vec<u8> },
    Unlink { path: String },
    Rename { from: String, to: String },
    Mkdir { path: String },
    Rmdir { path: String },
    Symlink { path: String, target: String },
    Chmod { ino: u32, mode: u32 },
    Link { from: String, to: String },
    /// an outside process atomically puts a new file at `path`
    Replace { path: String, data: Vec<u8> },
    /// an outside process removes the file
    Remove { path: String },
    /// the data of the file is on stable storage from here on
    Sync { ino: u32 },
}

pub type R<T> = Result<T, i32>;

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs::default();
        v.nodes.insert("/".into(), Node::Dir);
        v.mkdirs("/dev");
        for (n, d) in [("/dev/null", DEV_NULL), ("/dev/urandom", DEV_RANDOM), ("/dev/random", DEV_RANDOM), ("/dev/full", DEV_FULL), ("/dev/stdout", DEV_OUT)] {
            v.put(n, b"");
            if let Some(Node::File(i)) = v.nodes.get(n) { let i = *i; v.inodes[i].dev = d; v.inodes[i].mode = 0o666; }
        }
        v.mkdirs("/tmp");
        v
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur.push('/'); cur.push_str(c);
            self.nodes.entry(cur.clone()).or_insert(Node::Dir);
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        if let Some(p) = parent(path) { self.mkdirs(&p); }
        let mtime = self.mtime_of(path, data);
        self.inodes.push(Inode { data: data.to_vec(), mode: 0o644, dev: 0, mtime });
        self.nodes.insert(path.to_string(), Node::File(self.inodes.len() - 1));
    }
    /// time of the next change: three changes share a second
    fn now(&mut self) -> u64 { self.tick += 1; (10_000 + self.tick / 3) * 1_000_000_000 + self.tick % 3 * 300_000_000 }
    /// time of a file somebody else puts at `path`: mostly now, but an outsider may also restore
    /// an older file, or keep the time of the one that was there
    fn mtime_of(&mut self, path: &str, data: &[u8]) -> u64 {
        let now = self.now();
        let old = match self.nodes.get(path) { Some(Node::File(i)) => Some(self.inodes[*i].mtime), _ => None };
        match (crate::rng::hash_str(path) ^ crate::rng::hash_bytes(data)) % 5 { 0 => old.unwrap_or(now), 1 => old.unwrap_or(now).saturating_sub(3_700_000_000), _ => now }
    }
    pub fn symlink(&mut self, path: &str, target: &str) {
        if let Some(p) = parent(path) { self.mkdirs(&p); }
        self.nodes.insert(path.to_string(), Node::Link(target.to_string()));
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        match self.nodes.get(path) { Some(Node::File(i)) => Some(&self.inodes[*i].data), _ => None }
    }
    pub fn is_dir(&self, path: &str) -> bool { matches!(self.nodes.get(path), Some(Node::Dir)) }
    pub fn chmod(&mut self, path: &str, mode: u32) {
        if let Some(Node::File(i)) = self.nodes.get(path) { let i = *i; self.inodes[i].mode = mode; }
    }
    /// every regular file with its contents
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (p, n) in &self.nodes {
            if let Node::File(i) = n { if self.inodes[*i].dev == 0 { m.insert(p.clone(), self.inodes[*i].data.clone()); } }
        }
        m
    }
    /// names of everything that is not a regular file (directories, links)
    pub fn others(&self) -> Vec<(String, String)> {
        self.nodes.iter().filter_map(|(p, n)| match n {
            Node::Dir => Some((p.clone(), "dir".into())), Node::Link(t) => Some((p.clone(), t.clone())), _ => None }).collect()
    }

    /// Resolves `path` (absolute or relative to `cwd`) to the canonical absolute name of its
    /// last component, whether or not that exists. With `follow`, a final symlink is followed.
    pub fn resolve(&self, cwd: &str, path: &str, follow: bool) -> R<String> {
        if path.is_empty() { return Err(libc::ENOENT); }
        if path.len() > 4095 { return Err(libc::ENAMETOOLONG); }
        let must_dir = path.ends_with('/') || path.ends_with("/.");
        let mut todo: Vec<String> = path.split('/').filter(|c| !c.is_empty() && *c != ".").map(|c| c.to_string()).rev().collect();
        let mut cur: String = if path.starts_with('/') { "/".into() } else { cwd.to_string() };
        let mut links = 0;
        while let Some(c) = todo.pop() {
            match self.nodes.get(&cur) {
                Some(Node::Dir) => {}
                Some(Node::File(_)) => return Err(libc::ENOTDIR),
                _ => return Err(libc::ENOENT),
            }
            if c == ".." { cur = parent(&cur).unwrap_or("/".into()); continue; }
            if c.len() > 255 { return Err(libc::ENAMETOOLONG); }
            let next = join(&cur, &c);
            match self.nodes.get(&next) {
                Some(Node::Link(t)) if follow || !todo.is_empty() || must_dir => {
                    links += 1;
                    if links > 40 { return Err(libc::ELOOP); }
                    for k in t.split('/').filter(|c| !c.is_empty() && *c != ".").rev() { todo.push(k.to_string()); }
                    if t.starts_with('/') { cur = "/".into(); }
                }
                None if !todo.is_empty() => return Err(libc::ENOENT),
                _ => cur = next,
            }
        }
        if must_dir { match self.nodes.get(&cur) { Some(Node::File(_)) => return Err(libc::ENOTDIR), _ => {} } }
        Ok(cur)
    }

    pub fn apply(&mut self, m: &Mut) {
        match m {
            Mut::Create { path, mode } => {
                let mtime = self.now();
                self.inodes.push(Inode { data: vec![], mode: *mode, dev: 0, mtime });
                self.nodes.insert(path.clone(), Node::File(self.inodes.len() - 1));
            }
            Mut::Truncate { ino, len } => { let t = self.now(); let n = &mut self.inodes[*ino as usize]; n.mtime = t; n.data.resize(*len as usize, 0) }
            Mut::Write { ino, off, data } => {
                let t = self.now();
                self.inodes[*ino as usize].mtime = t;
                let d = &mut self.inodes[*ino as usize].data;
                let end = *off as usize + data.len();
                if d.len() < end { d.resize(end, 0); }
                d[*off as usize..end].copy_from_slice(data);
            }
            Mut::Unlink { path } | Mut::Remove { path } | Mut::Rmdir { path } => { self.nodes.remove(path); }
            Mut::Rename { from, to } => {
                let pre = format!("{}/", from);
                let moved: Vec<(String, Node)> = self.nodes.iter().filter(|(p, _)| *p == from || p.starts_with(&pre)).map(|(p, n)| (p.clone(), n.clone())).collect();
                for (p, _) in &moved { self.nodes.remove(p); }
                for (p, n) in moved { self.nodes.insert(format!("{}{}", to, &p[from.len()..]), n); }
            }
            Mut::Mkdir { path } => { self.nodes.insert(path.clone(), Node::Dir); }
            Mut::Symlink { path, target } => { self.nodes.insert(path.clone(), Node::Link(target.clone())); }
            Mut::Chmod { ino, mode } => self.inodes[*ino as usize].mode = *mode,
            Mut::Sync { .. } => {}
            Mut::Link { from, to } => { if let Some(n) = self.nodes.get(from).cloned() { self.nodes.insert(to.clone(), n); } }
            Mut::Replace { path, data } => {
                let mode = match self.nodes.get(path) { Some(Node::File(i)) => self.inodes[*i].mode, _ => 0o644 };
                let mtime = self.mtime_of(path, data);
                self.inodes.push(Inode { data: data.clone(), mode, dev: 0, mtime });
                self.nodes.insert(path.clone(), Node::File(self.inodes.len() - 1));
            }
        }
    }
    /// drops inodes nobody names any more (between processes)
    pub fn compact(&mut self) {
        let mut map = BTreeMap::new();
        let mut inodes = vec![];
        for n in self.nodes.values_mut() {
            if let Node::File(i) = n {
                let j = *map.entry(*i).or_insert_with(|| { inodes.push(self.inodes[*i].clone()); inodes.len() - 1 });
                *i = j;
            }
        }
        self.inodes = inodes;
    }
}

pub fn parent(p: &str) -> Option<String> {
    if p == "/" { return None; }
    match p.rfind('/') { Some(0) => Some("/".into()), Some(i) => Some(p[..i].to_string()), None => None }
}
pub fn join(a: &str, b: &str) -> String { if a == "/" { format!("/{}", b) } else { format!("{}/{}", a, b) } }
