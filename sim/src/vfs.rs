//! The simulated disk: an in-memory tree under `/simws` (the workspace, which
//! is also the working directory of the simulated server process), with
//! injected faults.  The server reaches it through the libc symbols in
//! `interpose.rs`, so its own std::fs / walkdir code runs unchanged.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const ROOT: &str = "/simws";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    File { data: Vec<u8>, unreadable: bool },
    Dir { unreadable: bool },
    Link { target: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskOp {
    Write { path: String, text: String },
    WriteBytes { path: String, data: Vec<u8> },
    Mkdir { path: String },
    Link { path: String, target: String },
    Remove { path: String },
    Rename { from: String, to: String },
    Chmod { path: String, unreadable: bool },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FsOp {
    Open,
    OpenDir,
    Read,
    Stat,
    ReadDir,
    Realpath,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultAct {
    /// Fail with this errno.
    Errno(i32),
    /// `read` returns at most this many bytes.
    Short(usize),
    /// The call takes this long (virtual milliseconds).
    Stall(u64),
    /// Another process changes the disk just before the call.
    Mutate(DiskOp),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// None: any operation.
    pub op: Option<FsOp>,
    /// Substring of the path ("" matches all).
    pub path: String,
    /// Matching calls to let through first.
    pub skip: u32,
    /// How many calls to hit (0 = all).
    pub count: u32,
    pub act: FaultAct,
}

#[derive(Default)]
pub struct Vfs {
    pub nodes: BTreeMap<String, Node>,
    pub faults: Vec<Fault>,
    /// Scheduling steps that called realpath, by fault and path: how many and the last.
    pub seen: BTreeMap<(usize, String), (u32, u64)>,
    pub dir_rng: Option<Rng>,
    /// Injected faults that fired, by kind.
    pub fired: BTreeMap<String, u64>,
    /// Paths on which a fault fired (error or mutation).
    pub fired_paths: Vec<(String, String)>,
    pub ops: BTreeMap<FsOp, u64>,
    /// Attempts of the server to modify the file system.
    pub writes: Vec<String>,
    /// Time of the last change, in nanoseconds.
    pub mtimes: BTreeMap<String, u64>,
    /// What time stamps are multiples of.
    pub grain: u64,
    /// Whoever changes files keeps their time stamps (as rsync, tar and cp -p do).
    pub keep_times: bool,
}

pub fn norm(path: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let full;
    let p = if path.starts_with('/') {
        path
    } else {
        full = format!("{ROOT}/{path}");
        &full
    };
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

pub fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) => "/",
        Some(i) => &p[..i],
        None => "/",
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs::default();
        v.nodes.insert(ROOT.into(), Node::Dir { unreadable: false });
        v
    }

    pub fn mkdirs(&mut self, p: &str) {
        if p == "/" || p == ROOT || !p.starts_with(ROOT) {
            return;
        }
        let par = parent(p).to_string();
        self.mkdirs(&par);
        self.nodes
            .entry(p.to_string())
            .or_insert(Node::Dir { unreadable: false });
    }

    pub fn apply(&mut self, op: &DiskOp) {
        match op {
            DiskOp::Write { path, text } => self.put(path, text.as_bytes().to_vec()),
            DiskOp::WriteBytes { path, data } => self.put(path, data.clone()),
            DiskOp::Mkdir { path } => {
                self.touch(path);
                self.mkdirs(&norm(path))
            }
            DiskOp::Link { path, target } => {
                self.touch(path);
                let p = norm(path);
                let par = parent(&p).to_string();
                self.mkdirs(&par);
                self.nodes.insert(p, Node::Link { target: target.clone() });
            }
            DiskOp::Remove { path } => {
                self.touch(path);
                let p = norm(path);
                let pre = format!("{p}/");
                self.nodes.retain(|k, _| k != &p && !k.starts_with(&pre));
            }
            DiskOp::Rename { from, to } => {
                let (f, t) = (norm(from), norm(to));
                let m = self.mtime(&f);
                self.touch(from);
                self.touch(to);
                self.mtimes.insert(f.clone(), m);
                let par = parent(&t).to_string();
                self.mkdirs(&par);
                let pre = format!("{f}/");
                let keys: Vec<String> = self
                    .nodes
                    .keys()
                    .filter(|k| **k == f || k.starts_with(&pre))
                    .cloned()
                    .collect();
                for k in keys {
                    // a file takes its time stamp along
                    let n = self.nodes.remove(&k).unwrap();
                    let m = self.mtime(&k);
                    let to = format!("{t}{}", &k[f.len()..]);
                    self.mtimes.insert(to.clone(), m);
                    self.nodes.insert(to, n);
                }
            }
            DiskOp::Chmod { path, unreadable: u } => match self.nodes.get_mut(&norm(path)) {
                Some(Node::File { unreadable, .. }) | Some(Node::Dir { unreadable }) => {
                    *unreadable = *u
                }
                _ => {}
            },
        }
    }

    /// Time stamps of a path and its directory.
    fn touch(&mut self, path: &str) {
        let now = crate::interpose::BASE + crate::interpose::NOW.load(std::sync::atomic::Ordering::SeqCst);
        let now = now - now % self.grain.max(1);
        let p = norm(path);
        for q in [parent(&p).to_string(), p] {
            if !(self.keep_times && self.nodes.contains_key(&q)) {
                self.mtimes.insert(q, now);
            }
        }
    }

    pub fn mtime(&self, real: &str) -> u64 {
        self.mtimes.get(real).copied().unwrap_or(crate::interpose::BASE - 1_000_000_000_000)
    }

    fn put(&mut self, path: &str, data: Vec<u8>) {
        self.touch(path);
        let p = norm(path);
        let par = parent(&p).to_string();
        self.mkdirs(&par);
        self.nodes.insert(p, Node::File { data, unreadable: false });
    }

    /// Resolves symlinks; the result exists.
    pub fn resolve(&self, path: &str, follow: bool) -> Result<String, i32> {
        self.resolve_n(path, follow, 0)
    }

    fn resolve_n(&self, path: &str, follow: bool, depth: u32) -> Result<String, i32> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let full = if path.starts_with('/') {
            path.to_string()
        } else {
            format!("{ROOT}/{path}")
        };
        let comps: Vec<&str> = full.split('/').filter(|c| !c.is_empty()).collect();
        let trailing = full.ends_with('/');
        let mut cur = String::new();
        for (i, c) in comps.iter().enumerate() {
            // every intermediate component must be a directory
            if !cur.is_empty() && cur != "/" {
                match self.node(&cur) {
                    Some(Node::Dir { .. }) => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                if let Some(Node::Dir { unreadable: true }) = self.nodes.get(&cur) {
                    return Err(libc::EACCES);
                }
            }
            match *c {
                "." => continue,
                ".." => {
                    cur = parent(&cur).to_string();
                    if cur == "/" {
                        cur.clear();
                    }
                    continue;
                }
                _ => {}
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let next = format!("{cur}/{c}");
            match self.node(&next) {
                None => return Err(libc::ENOENT),
                Some(Node::Link { target }) if follow || i + 1 < comps.len() || trailing => {
                    let t = if target.starts_with('/') {
                        target.clone()
                    } else {
                        format!("{}/{}", cur, target)
                    };
                    cur = self.resolve_n(&t, true, depth + 1)?;
                }
                Some(_) => cur = next,
            }
        }
        if cur.is_empty() {
            cur.push('/');
        }
        if trailing && !matches!(self.node(&cur), Some(Node::Dir { .. })) {
            return Err(libc::ENOTDIR);
        }
        Ok(cur)
    }

    fn node(&self, p: &str) -> Option<Node> {
        if p == "/" || p.is_empty() {
            return Some(Node::Dir { unreadable: false });
        }
        self.nodes.get(p).cloned()
    }

    pub fn get(&self, path: &str) -> Option<&Node> {
        self.nodes.get(&self.resolve(path, true).ok()?)
    }

    pub fn list(&self, dir: &str) -> Vec<(String, Node)> {
        let pre = format!("{dir}/");
        self.nodes
            .iter()
            .filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/'))
            .map(|(k, n)| (k[pre.len()..].to_string(), n.clone()))
            .collect()
    }

    /// Called at the start of every simulated system call. Returns the error
    /// to fail with, or the cap on bytes for a short read.
    pub fn enter(&mut self, op: FsOp, path: &str) -> (Option<i32>, Option<usize>, u64) {
        *self.ops.entry(op).or_default() += 1;
        let mut err = None;
        let mut short = None;
        let mut stall = 0;
        let mut muts = vec![];
        let mut i = 0;
        while i < self.faults.len() {
            let f = &mut self.faults[i];
            let hit = f.op.map_or(true, |o| o == op) && path.contains(f.path.as_str());
            if !hit {
                i += 1;
                continue;
            }
            let act = f.act.clone();
            let mut spent = false;
            if op == FsOp::Realpath {
                // The server resolves the templates of a file in no particular
                // order: which calls are hit may not depend on it.
                let step = crate::interpose::POLL.load(std::sync::atomic::Ordering::SeqCst);
                let n = self.seen.entry((i, path.to_string())).or_default();
                if n.0 == 0 || n.1 != step {
                    *n = (n.0 + 1, step);
                }
                if n.0 <= f.skip || (f.count > 0 && n.0 > f.skip + f.count) {
                    i += 1;
                    continue;
                }
            } else {
                if f.skip > 0 {
                    f.skip -= 1;
                    i += 1;
                    continue;
                }
                spent = f.count == 1;
                if f.count > 1 {
                    f.count -= 1;
                }
            }
            let kind = match &act {
                FaultAct::Errno(e) => {
                    err = Some(*e);
                    format!("{op:?}:errno{e}")
                }
                FaultAct::Short(n) => {
                    short = Some(*n);
                    format!("{op:?}:short")
                }
                FaultAct::Stall(ms) => {
                    stall += ms;
                    format!("{op:?}:stall")
                }
                FaultAct::Mutate(m) => {
                    muts.push(m.clone());
                    format!("{op:?}:race")
                }
            };
            *self.fired.entry(kind.clone()).or_default() += 1;
            self.fired_paths.push((kind, path.to_string()));
            if spent {
                f.path = "\0".into(); // matches nothing any more
            }
            i += 1;
        }
        for m in muts {
            self.apply(&m);
        }
        (err, short, stall)
    }
}
