//! Reference model of the whole session: what the editor, the disk and the
//! configuration imply the server should know and answer.  It replays the
//! recorded history (messages the editor sent, disk changes) and never looks
//! at what the server did.
use crate::exec::{Ev, Snapshot};
use crate::jinja::{parse_backend, parse_template, Def, Doc, Kind, Role};
use crate::plan::{path_of, uri};
use crate::text;
use crate::vfs::{norm, DiskOp, Node, Vfs};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Config {
    pub templates: String,
    pub backend: Vec<String>,
    pub lang: String,
    pub hide: bool,
}

/// A configuration object: the three keys are required.
pub fn parse_config(v: &Value) -> Option<Config> {
    let o = v.as_object()?;
    let hide = match o.get("hide_undefined") {
        None | Some(Value::Null) => false,
        Some(b) => b.as_bool()?,
    };
    Some(Config {
        templates: o.get("templates")?.as_str()?.to_string(),
        backend: o
            .get("backend")?
            .as_array()?
            .iter()
            .map(|x| x.as_str().map(String::from))
            .collect::<Option<_>>()?,
        lang: o.get("lang")?.as_str()?.to_string(),
        hide,
    })
}

/// The `[jinja-lsp]` table of a TOML file, in the simple forms the generators
/// write. Err: outside those forms.
fn parse_toml(t: &str) -> Result<Option<Config>, ()> {
    let mut sect = String::new();
    let mut m = serde_json::Map::new();
    let mut any = false;
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l.starts_with("<<<") {
            return Ok(None); // not TOML
        }
        if l.starts_with('[') && l.ends_with(']') {
            sect = l[1..l.len() - 1].to_string();
            any |= sect == "jinja-lsp";
            continue;
        }
        let (k, v) = l.split_once(" = ").ok_or(())?;
        let v: Value = serde_json::from_str(v).map_err(|_| ())?;
        if sect == "jinja-lsp" {
            m.insert(k.to_string(), v);
        }
    }
    Ok(if any { parse_config(&Value::Object(m)) } else { None })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lang {
    Template,
    Backend,
}

pub fn lang_of(path: &str) -> Option<Lang> {
    let name = path.rsplit('/').next()?;
    let (stem, ext) = name.rsplit_once('.')?;
    if stem.is_empty() {
        return None;
    }
    match ext {
        "html" | "jinja" | "j2" => Some(Lang::Template),
        "rs" | "py" => Some(Lang::Backend),
        _ => None,
    }
}

#[derive(Clone)]
pub struct Entry {
    pub text: Rc<String>,
    pub doc: Option<Rc<Doc>>,
    pub lang: Lang,
}

#[derive(Clone, Default)]
struct Basis {
    /// When the document's diagnostics were (or will be) last computed.
    at: u64,
    /// Position in the history of what triggered it.
    seq: usize,
    /// Computed by a timer some time later.
    timer: bool,
    /// Number of quiescent points before it.
    phase: u32,
}

struct Change {
    at: u64,
    seq: usize,
    phase: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// Not determined by the model.
    Skip,
    Nothing,
    Hover(String),
    HoverFilter(String),
    HoverTest(String),
    Locations(BTreeSet<String>),
    /// Labels that must be offered exactly (label -> acceptable details).
    Names { exact: BTreeMap<String, BTreeSet<String>>, edit: Option<Value> },
    Filters,
    Tests,
    /// Template names; the edit range.
    Templates { names: BTreeSet<String>, edit: Value },
    /// The statements; the edit range.
    Snippets { edit: Value },
    Symbols(Vec<String>),
    /// `Generate new template` creating this URI.
    Create(String),
    NoCreate,
    /// Reset commands are offered (and nothing is created).
    ResetOffered,
}

#[derive(Clone, Debug)]
pub struct Diags {
    /// "l:c-l:c message"
    pub strict: bool,
    pub with_refs: bool,
    pub items: Vec<(String, &'static str)>,
    /// Ranges not judged.
    pub skip: BTreeSet<String>,
}

pub const UNDEF: &str = "Undefined variable";
pub const ELSEWHERE: &str = "Variable is defined in other file.";
pub const NOTFOUND: &str = "Template not found";

pub struct World {
    pub disk: Vfs,
    pub cfg: Option<Config>,
    pub live: Option<Config>,
    pub open: BTreeMap<String, String>,
    pub index: BTreeMap<String, Entry>,
    basis: BTreeMap<String, Basis>,
    /// When a document's content last changed.
    changed: BTreeMap<String, Change>,
    phase: u32,
    /// The server's output is held up at times, so timers say little.
    fuzzy: bool,
    disk_seq: usize,
    disk_time: u64,
    pub initialized: bool,
    pub shutdown: bool,
    /// No message or disk change since the last quiescent point.
    pub settled: bool,
    scan_pending: bool,
    /// The model lost track (racing scan and disk change).
    pub ambiguous: bool,
    /// Files on which a fault fired.
    pub unsure: BTreeSet<String>,
    /// Of those, the files that only failed with an error that says nothing
    /// about their existence.
    pub only_errors: BTreeSet<String>,
    cache: BTreeMap<(String, bool), Option<Rc<Doc>>>,
    pub scans: usize,
}

pub fn rng(t: &str, a: usize, b: usize) -> Value {
    let (l1, c1) = text::pos16(t, a);
    let (l2, c2) = text::pos16(t, b);
    json!({"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}})
}

pub fn rkey(r: &Value) -> String {
    format!(
        "{}:{}-{}:{}",
        r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]
    )
}

impl World {
    pub fn new(disk: &BTreeMap<String, Node>, fuzzy: bool) -> Self {
        let mut v = Vfs::new();
        for (k, n) in disk {
            let par = crate::vfs::parent(k).to_string();
            v.mkdirs(&par);
            v.nodes.insert(k.clone(), n.clone());
        }
        World {
            disk: v,
            cfg: None,
            live: None,
            open: BTreeMap::new(),
            index: BTreeMap::new(),
            basis: BTreeMap::new(),
            changed: BTreeMap::new(),
            phase: 1,
            fuzzy,
            disk_seq: 0,
            disk_time: 0,
            initialized: false,
            shutdown: false,
            settled: true,
            scan_pending: false,
            ambiguous: false,
            unsure: BTreeSet::new(),
            only_errors: BTreeSet::new(),
            cache: BTreeMap::new(),
            scans: 0,
        }
    }

    fn parse(&mut self, path: &str, t: &str) -> Option<Rc<Doc>> {
        let lang = lang_of(path)?;
        let py = self.parser_lang() == "python";
        if lang == Lang::Backend {
            // a grammar for another language is never judged
            if path.ends_with(".py") != py {
                return None;
            }
        }
        let key = (t.to_string(), lang == Lang::Backend);
        if let Some(d) = self.cache.get(&key) {
            return d.clone();
        }
        let d = match lang {
            Lang::Template => parse_template(t),
            Lang::Backend => parse_backend(t, if py { "python" } else { "rust" }),
        }
        .map(Rc::new);
        self.cache.insert(key, d.clone());
        d
    }

    fn parser_lang(&self) -> String {
        self.live.as_ref().map_or("rust".into(), |c| c.lang.clone())
    }

    fn put(&mut self, path: &str, t: &str) {
        if let Some(lang) = lang_of(path) {
            let doc = self.parse(path, t);
            self.index.insert(path.to_string(), Entry { text: Rc::new(t.to_string()), doc, lang });
        }
    }

    fn search_config(&mut self) -> Option<Config> {
        for f in ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"] {
            if let Some(Node::File { data, unreadable: false }) = self.disk.get(&norm(f)) {
                if let Ok(t) = String::from_utf8(data.clone()) {
                    match parse_toml(&t) {
                        Ok(Some(c)) => return Some(c),
                        Ok(None) => {}
                        Err(()) => {
                            self.ambiguous = true;
                            return None;
                        }
                    }
                }
            }
        }
        None
    }

    fn walk(&self, dir: &str, out: &mut Vec<String>) {
        for (name, n) in self.disk.list(dir) {
            let p = format!("{dir}/{name}");
            match n {
                Node::Dir { unreadable: false } => self.walk(&p, out),
                Node::File { unreadable: false, .. } => out.push(p),
                _ => {}
            }
        }
    }

    /// Paths a scan with this configuration should read, or None when that
    /// is not decidable. Directories that are missing only cost themselves.
    pub fn scan_paths(&self, c: &Config) -> Option<Vec<String>> {
        let mut out = vec![];
        let mut dirs = vec![c.templates.clone()];
        dirs.extend(c.backend.iter().cloned());
        for d in dirs {
            if d.is_empty() {
                return None;
            }
            let Ok(root) = self.disk.resolve(&d, true) else { continue };
            match self.disk.nodes.get(&root) {
                Some(Node::Dir { unreadable: false }) => self.walk(&root, &mut out),
                Some(Node::File { .. }) => return None,
                _ => {}
            }
        }
        out.retain(|p| lang_of(p).is_some());
        out.sort();
        out.dedup();
        Some(out)
    }

    fn scan(&mut self, t: u64, seq: usize) {
        if !self.scan_pending {
            self.ambiguous = false;
        }
        self.scan_pending = true;
        let phase = self.phase;
        let c = match &self.cfg {
            Some(c) => c.clone(),
            None => return,
        };
        if !["rust", "python"].contains(&c.lang.as_str()) {
            return;
        }
        let Some(paths) = self.scan_paths(&c) else { return };
        if self.live.as_ref().map(|l| &l.lang) != Some(&c.lang) {
            self.cache.retain(|k, _| !k.1);
        }
        self.live = Some(c);
        self.index.clear();
        self.scans += 1;
        for p in paths {
            if let Some(Node::File { data, .. }) = self.disk.nodes.get(&p).cloned() {
                if let Ok(t) = String::from_utf8(data) {
                    self.put(&p, &t);
                }
            }
        }
        for (p, t) in self.open.clone() {
            self.put(&p, &t);
        }
        // all files are checked again
        self.changed.clear();
        for p in self.index.keys() {
            self.basis.insert(p.clone(), Basis { at: t, seq, timer: false, phase });
        }
        let keep: BTreeSet<String> = self.index.keys().cloned().collect();
        self.basis.retain(|p, _| keep.contains(p));
    }

    /// Feeds one event of the history; `seq` is its position.
    pub fn step(&mut self, t: u64, seq: usize, e: &Ev) {
        match e {
            Ev::Disk(op) => {
                self.settled = false;
                self.disk_seq = seq;
                self.disk_time = t;
                let rewrite = matches!(op, DiskOp::Write { path, .. } if self.open.contains_key(path)
                    && matches!(self.disk.get(path), Some(Node::File { .. })));
                if self.scan_pending && !rewrite {
                    self.ambiguous = true;
                }
                self.disk.apply(op);
            }
            Ev::Settled(_) => {
                self.settled = true;
                self.scan_pending = false;
                self.phase += 1;
            }
            Ev::Killed => {
                self.cfg = None;
                self.live = None;
                self.open.clear();
                self.index.clear();
                self.basis.clear();
                self.changed.clear();
                self.initialized = false;
                self.shutdown = false;
                self.settled = false;
                self.scan_pending = false;
                self.cache.retain(|k, _| !k.1);
            }
            Ev::Sent { body, .. } => self.message(t, seq, body),
            _ => {}
        }
    }

    fn message(&mut self, t: u64, seq: usize, b: &Value) {
        let m = b["method"].as_str().unwrap_or("");
        let p = &b["params"];
        let doc_uri = p["textDocument"]["uri"].as_str().unwrap_or("");
        let path = path_of(doc_uri).unwrap_or_default();
        if m == "shutdown" {
            self.shutdown = true;
            return;
        }
        if self.shutdown {
            return;
        }
        if m == "initialize" {
            if !self.initialized {
                self.initialized = true;
                self.cfg = parse_config(&p["initializationOptions"]).or_else(|| self.search_config());
            }
            return;
        }
        if !self.initialized {
            return;
        }
        match m {
            "initialized" => {
                self.settled = false;
                self.scan(t, seq);
            }
            "workspace/executeCommand" if p["command"] == "reset_variables" => {
                self.settled = false;
                self.scan(t, seq);
            }
            "workspace/didChangeConfiguration" => {
                self.settled = false;
                if let Some(c) = parse_config(&p["settings"]) {
                    self.cfg = Some(c);
                }
                if self.cfg.is_some() {
                    self.scan(t, seq);
                }
            }
            "textDocument/didOpen" => {
                self.settled = false;
                let txt = p["textDocument"]["text"].as_str().unwrap_or("").to_string();
                self.open.insert(path.clone(), txt.clone());
                self.put(&path, &txt);
                self.changed.insert(path.clone(), Change { at: t, seq, phase: self.phase });
                self.basis.insert(path, Basis { at: t, seq, timer: false, phase: self.phase });
            }
            "textDocument/didChange" => {
                self.settled = false;
                if let Some(old) = self.open.get(&path).cloned() {
                    let mut txt = old;
                    for c in p["contentChanges"].as_array().unwrap_or(&vec![]) {
                        txt = text::apply(&txt, c);
                    }
                    self.open.insert(path.clone(), txt.clone());
                    self.put(&path, &txt);
                    self.changed.insert(path.clone(), Change { at: t, seq, phase: self.phase });
                    self.basis.insert(path, Basis { at: t + 200, seq, timer: true, phase: self.phase });
                }
            }
            "textDocument/didSave" => {
                self.settled = false;
                if self.open.contains_key(&path) {
                    let b = self.basis.get(&path).cloned().unwrap_or_default();
                    // a pending timer computes again, later
                    if b.at <= t {
                        self.basis.insert(path, Basis { at: t, seq, timer: false, phase: self.phase });
                    }
                }
            }
            "textDocument/didClose" => {
                self.settled = false;
                self.open.remove(&path);
            }
            _ => {}
        }
    }

    /// A code action was requested where a template can be created: the
    /// server checks the document again after 1400 ms.
    pub fn recheck(&mut self, path: &str, t: u64, seq: usize) {
        if let Some(b) = self.basis.get_mut(path) {
            *b = Basis { at: t + 1400, seq, timer: true, phase: self.phase };
        }
        self.settled = false;
    }

    /// The disk did not change after the document was last checked.
    fn refs_clean(&self, path: &str) -> bool {
        match self.basis.get(path) {
            None => false,
            Some(b) => {
                self.disk_seq < b.seq || (b.timer && !self.fuzzy && self.disk_time + 1 < b.at)
            }
        }
    }

    /// No other document changed after this one was last checked.
    fn names_clean(&self, path: &str) -> bool {
        let Some(b) = self.basis.get(path) else { return false };
        self.changed.iter().all(|(p, c)| {
            p == path || c.phase < b.phase || c.seq < b.seq || (b.timer && !self.fuzzy && c.at + 1 < b.at)
        })
    }

    /// The configuration selects templates.
    pub fn selects(&self, c: &Config) -> bool {
        let dir = || self.disk.resolve(&c.templates, true).map_or(false, |d| matches!(self.disk.nodes.get(&d), Some(Node::Dir { .. })));
        !c.templates.is_empty() && ["rust", "python"].contains(&c.lang.as_str()) && dir()
    }

    pub fn usable(&self) -> bool {
        self.initialized && !self.shutdown && !self.ambiguous && self.live.is_some() && self.live == self.cfg
    }

    fn cross_known(&self) -> bool {
        self.index.values().all(|e| e.doc.is_some()) && !self.index.keys().any(|p| self.is_unsure(p))
    }

    /// A fault may have hidden this file or a directory above it.
    pub fn is_unsure(&self, path: &str) -> bool {
        self.unsure.contains(path) || self.unsure.iter().any(|u| path.starts_with(&format!("{u}/")))
    }

    pub fn entry(&self, path: &str) -> Option<(&Entry, Rc<Doc>)> {
        let e = self.index.get(path)?;
        if self.is_unsure(path) {
            return None;
        }
        Some((e, e.doc.clone()?))
    }

    /// Does a template of this name exist? None: not decidable.
    pub fn exists(&self, name: &str) -> Option<Option<String>> {
        let c = self.live.as_ref()?;
        if leads_out(name) {
            return Some(None);
        }
        let full = norm(&format!("{}/{}", c.templates, name));
        if self.unsure.iter().any(|u| u == &full || full.starts_with(&format!("{u}/"))) {
            return None;
        }
        match self.disk.resolve(&format!("{}/{}", c.templates, name), true) {
            Ok(p) => Some(Some(p)),
            Err(libc::ENOENT) => Some(None),
            Err(_) => None,
        }
    }

    /// The template is on the disk, and looking for it only ever failed with
    /// an error that says nothing about its existence.
    fn only_failed(&self, name: &str) -> bool {
        let Some(c) = self.live.as_ref() else { return false };
        let p = format!("{}/{}", c.templates, name);
        let full = norm(&p);
        self.disk.resolve(&p, true).is_ok()
            && self.unsure.iter().all(|u| {
                !(u == &full || full.starts_with(&format!("{u}/"))) || self.only_errors.contains(u)
            })
    }

    /// The definition a use refers to, in its own document.
    fn resolve<'a>(&self, d: &'a Doc, name: &str, off: usize) -> Option<&'a Def> {
        d.defs
            .iter()
            .filter(|x| x.kind != Kind::Block && x.name == name && x.start <= off && x.in_scope(off))
            .max_by_key(|x| x.start)
    }

    fn elsewhere(&self, path: &str, name: &str) -> Vec<(String, Def)> {
        let mut v = vec![];
        for (p, e) in &self.index {
            if p != path {
                if let Some(d) = &e.doc {
                    for x in d.defs.iter().filter(|x| x.kind != Kind::Block && x.name == name) {
                        v.push((p.clone(), x.clone()));
                    }
                }
            }
        }
        v
    }

    /// What should be published for this document.
    pub fn diags(&self, path: &str) -> Option<Diags> {
        if !self.usable() {
            return None;
        }
        let b = self.basis.get(path)?;
        let _ = b;
        let (e, d) = self.entry(path)?;
        let hide = self.live.as_ref()?.hide;
        let mut items = vec![];
        let mut skip = BTreeSet::new();
        let strict = self.names_clean(path) && self.cross_known();
        if e.lang == Lang::Template {
            for u in d.uses.iter().filter(|u| u.role == Role::Var) {
                let key = rkey(&rng(&e.text, u.start, u.end));
                if u.skip {
                    skip.insert(key);
                    continue;
                }
                let local: Vec<&Def> = d.defs.iter().filter(|x| x.name == u.name && x.kind != Kind::Block).collect();
                if local.iter().any(|x| u.end >= x.start && x.scope_end.map_or(true, |s| u.start < s)) {
                    continue;
                }
                if hide {
                    continue;
                }
                if !local.is_empty() {
                    items.push((key, UNDEF));
                } else if self.elsewhere(path, &u.name).is_empty() {
                    items.push((key, UNDEF));
                } else {
                    items.push((key, ELSEWHERE));
                }
            }
        }
        let mut with_refs = self.refs_clean(path);
        for r in &d.refs {
            let key = rkey(&rng(&e.text, r.start, r.end));
            if r.name.is_empty() {
                if e.lang == Lang::Template {
                    items.push((key, NOTFOUND));
                } else {
                    skip.insert(key);
                }
                continue;
            }
            match self.exists(&r.name) {
                Some(Some(_)) => {}
                Some(None) => items.push((key, NOTFOUND)),
                // not being allowed to look does not mean it is missing
                None if self.only_failed(&r.name) => {}
                None => {
                    skip.insert(key);
                }
            }
        }
        if d.refs.is_empty() {
            with_refs = true;
        }
        items.sort();
        Some(Diags { strict, with_refs, items, skip })
    }

    fn loc(&self, path: &str, a: usize, b: usize) -> Option<String> {
        let e = self.index.get(path)?;
        Some(format!("{} {}", uri(path), rkey(&rng(&e.text, a, b))))
    }

    /// What a request sent now should be answered with.
    pub fn expect(&self, method: &str, p: &Value) -> Expect {
        if !self.usable() {
            return Expect::Skip;
        }
        let u = p["textDocument"]["uri"].as_str().unwrap_or("");
        let Some(path) = path_of(u) else { return Expect::Skip };
        if uri(&path) != u {
            return Expect::Skip;
        }
        if self.is_unsure(&path) {
            return Expect::Skip;
        }
        if !self.index.contains_key(&path) {
            return Expect::Nothing;
        }
        if method == "textDocument/completion" {
            if let Some(edit) = self.begun(&path, &p["position"]) {
                return Expect::Snippets { edit };
            }
        }
        let Some((e, d)) = self.entry(&path) else { return Expect::Skip };
        if method == "textDocument/documentSymbol" {
            let mut v = vec![];
            for x in &d.defs {
                v.push(format!("{} {} {}", x.name, x.kind.symbol(), rkey(&rng(&e.text, x.start, x.end))));
            }
            if e.lang == Lang::Backend {
                for r in &d.refs {
                    v.push(format!("{} 1 {}", r.name, rkey(&rng(&e.text, r.start, r.end))));
                }
            }
            v.sort();
            return Expect::Symbols(v);
        }
        let pos = if method == "textDocument/codeAction" { &p["range"]["start"] } else { &p["position"] };
        let (Some(l), Some(c)) = (pos["line"].as_u64(), pos["character"].as_u64()) else {
            return Expect::Skip;
        };
        if l > u32::MAX as u64 || c > u32::MAX as u64 {
            return Expect::Skip;
        }
        let off = text::offset16(&e.text, l as u32, c as u32);
        if text::pos16(&e.text, off) != (l as u32, c as u32) {
            return Expect::Skip;
        }
        match method {
            "textDocument/definition" => self.goto(&path, e, &d, off),
            "textDocument/hover" => self.hover(&path, e, &d, off),
            "textDocument/completion" => self.completion(&path, e, &d, off),
            "textDocument/codeAction" => self.action(&path, e, &d, off),
            _ => Expect::Skip,
        }
    }

    /// What is replaced by a snippet, if a statement is begun there.
    fn begun(&self, path: &str, pos: &Value) -> Option<Value> {
        let e = self.index.get(path)?;
        if e.lang != Lang::Template || e.doc.is_some() {
            return None;
        }
        let (l, c) = (pos["line"].as_u64()?, pos["character"].as_u64()?);
        let off = text::offset16(&e.text, u32::try_from(l).ok()?, u32::try_from(c).ok()?);
        let closed = e.text[off..].starts_with('}');
        crate::jinja::begun(&e.text, off).then(|| rng(&e.text, off, off + closed as usize))
    }

    fn goto(&self, path: &str, e: &Entry, d: &Doc, off: usize) -> Expect {
        // inside a template name: where that template is
        if let Some(r) = d.refs.iter().find(|r| r.start < off && off < r.end) {
            return match self.exists(&r.name) {
                Some(Some(p)) if !r.name.is_empty() => {
                    Expect::Locations([format!("{} 0:0-0:0", uri(&p))].into_iter().collect())
                }
                Some(None) => Expect::Nothing,
                _ => Expect::Skip,
            };
        }
        if e.lang == Lang::Backend {
            return if d.refs.iter().any(|r| r.start <= off && off <= r.end) { Expect::Skip } else { Expect::Nothing };
        }
        if d.on_nothing(off) {
            return Expect::Nothing;
        }
        let Some(u) = d.uses.iter().find(|u| u.start <= off && off < u.end) else { return Expect::Skip };
        if u.skip || u.role != Role::Var {
            return Expect::Skip;
        }
        if let Some(x) = self.resolve(d, &u.name, u.start) {
            return Expect::Locations(self.loc(path, x.start, x.end).into_iter().collect());
        }
        if !self.cross_known() {
            return Expect::Skip;
        }
        let v = self.elsewhere(path, &u.name);
        if v.is_empty() {
            return Expect::Nothing;
        }
        Expect::Locations(v.iter().filter_map(|(p, x)| self.loc(p, x.start, x.end)).collect())
    }

    fn hover(&self, path: &str, e: &Entry, d: &Doc, off: usize) -> Expect {
        if e.lang == Lang::Backend {
            return Expect::Nothing;
        }
        if d.on_nothing(off) {
            return Expect::Nothing;
        }
        let Some(u) = d.uses.iter().find(|u| u.start <= off && off < u.end) else { return Expect::Skip };
        if u.skip {
            return Expect::Skip;
        }
        match u.role {
            Role::Filter => Expect::HoverFilter(u.name.clone()),
            Role::Test => Expect::HoverTest(u.name.clone()),
            Role::Var => {
                if u.is_def {
                    return Expect::Skip;
                }
                if let Some(x) = self.resolve(d, &u.name, u.start) {
                    return Expect::Hover(x.kind.detail().into());
                }
                if !self.cross_known() {
                    return Expect::Skip;
                }
                if self.elsewhere(path, &u.name).is_empty() {
                    Expect::Nothing
                } else {
                    Expect::Hover("Backend variable".into())
                }
            }
        }
    }

    fn template_names(&self) -> Option<BTreeSet<String>> {
        let c = self.live.as_ref()?;
        let root = self.disk.resolve(&c.templates, true).ok()?;
        let pre = format!("{root}/");
        Some(
            self.index
                .iter()
                .filter(|(p, e)| e.lang == Lang::Template && p.starts_with(&pre))
                .map(|(p, _)| p[pre.len()..].to_string())
                .collect(),
        )
    }

    fn completion(&self, _path: &str, e: &Entry, d: &Doc, off: usize) -> Expect {
        // between the quotes of a template name
        if let Some(r) = d.refs.iter().find(|r| r.start < off && off < r.end) {
            let Some(all) = self.template_names() else { return Expect::Skip };
            if !self.unsure.is_empty() {
                return Expect::Skip;
            }
            let typed = &e.text[r.start + 1..off];
            let names = all.iter().filter(|n| n.contains(typed)).cloned().collect();
            return Expect::Templates { names, edit: rng(&e.text, r.start, r.end) };
        }
        if e.lang == Lang::Backend {
            return if d.refs.iter().any(|r| r.start <= off && off <= r.end) { Expect::Skip } else { Expect::Nothing };
        }
        // inside `{{ }}` the names in scope are offered on keywords too
        if d.on_nothing(off) && !d.exprs.iter().any(|x| x.start <= off && off <= x.end) {
            return Expect::Nothing;
        }
        if d.uses.iter().any(|u| u.role == Role::Filter && u.start == off && e.text[..off].ends_with('|')) {
            return Expect::Filters;
        }
        if d.tests.iter().any(|(a, b)| *a <= off && off <= *b && !e.text[*a..off].contains('\n')) {
            return Expect::Tests;
        }
        if !self.cross_known() {
            return Expect::Skip;
        }
        let Some(x) = d.exprs.iter().find(|x| x.start + 3 <= off && off + 2 < x.end) else { return Expect::Skip };
        let mut prefix = "";
        let mut edit = None;
        let u = d.uses.iter().find(|u| u.start < off && off <= u.end);
        if let Some(u) = u {
            if u.role != Role::Var || u.fields || !u.in_expr {
                return Expect::Skip;
            }
            prefix = &e.text[u.start..off];
            edit = Some(rng(&e.text, u.start, u.end));
        } else if !x.empty && !d.gaps.iter().any(|(a, b)| *a <= off && off <= *b) {
            return Expect::Skip;
        }
        let mut exact: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for x in d.defs.iter() {
            if x.kind != Kind::Block && x.end <= off && x.in_scope(off) && x.name.starts_with(prefix) {
                exact.entry(x.name.clone()).or_default().insert(x.kind.detail().into());
            }
        }
        for e in self.index.values().filter(|e| e.lang == Lang::Backend) {
            for x in &e.doc.as_ref().unwrap().defs {
                exact.entry(x.name.clone()).or_default().insert(Kind::Backend.detail().into());
            }
        }
        Expect::Names { exact, edit }
    }

    fn action(&self, path: &str, e: &Entry, d: &Doc, off: usize) -> Expect {
        if !self.settled || !self.refs_clean(path) {
            return Expect::Skip;
        }
        if let Some(r) = d.refs.iter().find(|r| r.start < off && off < r.end) {
            if r.name.is_empty() {
                return Expect::Skip;
            }
            if leads_out(&r.name) {
                return Expect::NoCreate;
            }
            // nothing can be created to make these exist
            let c = self.live.as_ref().map(|c| c.templates.clone()).unwrap_or_default();
            if r.name.ends_with('/') {
                return Expect::Skip;
            }
            if r.name.rmatch_indices("..").any(|(i, _)| self.disk.resolve(&format!("{c}/{}", &r.name[..i]), true).is_err()) {
                return Expect::Skip;
            }
            return match self.exists(&r.name) {
                Some(Some(_)) => Expect::NoCreate,
                Some(None) => match self.live.as_ref().and_then(|c| self.disk.resolve(&c.templates, true).ok()) {
                    Some(root) => Expect::Create(uri(&norm(&format!("{root}/{}", r.name)))),
                    None => Expect::Skip,
                },
                None => Expect::Skip,
            };
        }
        if e.lang == Lang::Template {
            if let Some(x) = d.exprs.iter().find(|x| x.start < off && off < x.end) {
                if let Some((a, b)) = x.lone {
                    if a < off && off <= b {
                        return Expect::ResetOffered;
                    }
                }
            }
        }
        Expect::NoCreate
    }
}

/// Templates are looked for below their directory only.
pub fn leads_out(name: &str) -> bool {
    let mut depth = 0;
    name.split('/').any(|c| {
        match c {
            "" | "." => {}
            ".." => depth -= 1,
            _ => depth += 1,
        }
        depth < 0
    })
}

/// Compares an answer with what was expected; Some: what is wrong.
pub fn compare(want: &Expect, got: &Value, docs: &Docs) -> Option<String> {
    let r = &got["result"];
    if got.get("error").is_some() {
        return if *want == Expect::Skip { None } else { Some(format!("error {}", got["error"])) };
    }
    let bad = |s: String| Some(s);
    match want {
        Expect::Skip => None,
        Expect::Nothing => {
            let empty = r.is_null() || r.as_array().map_or(false, |a| a.is_empty());
            if empty {
                None
            } else {
                bad(format!("expected no answer, got {}", short(r)))
            }
        }
        Expect::Hover(s) => {
            let v = r["contents"]["value"].as_str().unwrap_or("");
            if v == s {
                None
            } else {
                bad(format!("expected hover {s:?}, got {}", short(r)))
            }
        }
        Expect::HoverFilter(n) | Expect::HoverTest(n) => {
            let filter = matches!(want, Expect::HoverFilter(_));
            match docs.wrong(filter, n, r["contents"]["value"].as_str().unwrap_or("")) {
                false => None,
                true => bad(format!("expected the documentation of {n:?}, got {}", short(r))),
            }
        }
        Expect::Locations(set) => {
            let list: Vec<Value> = match r {
                Value::Array(a) => a.clone(),
                Value::Null => vec![],
                o => vec![o.clone()],
            };
            let have: BTreeSet<String> = list
                .iter()
                .map(|l| format!("{} {}", l["uri"].as_str().unwrap_or("?"), rkey(&l["range"])))
                .collect();
            if &have == set {
                None
            } else {
                bad(format!("expected locations {set:?}, got {have:?}"))
            }
        }
        Expect::Names { exact, edit } => {
            let Some(items) = r.as_array() else {
                return bad(format!("expected completions {:?}, got {}", exact.keys(), short(r)));
            };
            let mut have: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for it in items {
                let l = it["label"].as_str().unwrap_or("?").to_string();
                let dt = it["detail"].as_str().unwrap_or("?").to_string();
                if let Some(edit) = edit {
                    if let Some(e) = wrong_edit(it, edit, &l) {
                        return bad(format!("completion {l:?} would {e}"));
                    }
                }
                have.entry(l).or_default().insert(dt);
            }
            for (l, dt) in exact {
                match have.get(l) {
                    None => return bad(format!("completion does not offer {l:?} (offers {:?})", have.keys().collect::<Vec<_>>())),
                    Some(h) if h.is_disjoint(dt) => return bad(format!("completion describes {l:?} as {h:?}, not {dt:?}")),
                    _ => {}
                }
            }
            for l in have.keys() {
                if !exact.contains_key(l) {
                    return bad(format!("completion offers {l:?}, which is not in scope"));
                }
            }
            None
        }
        Expect::Tests | Expect::Filters => {
            let filter = *want == Expect::Filters;
            let what = if filter { "filter" } else { "test" };
            let mut have: BTreeSet<&str> = BTreeSet::new();
            let none = vec![];
            for i in r.as_array().unwrap_or(&none) {
                let l = i["label"].as_str().unwrap_or("?");
                if docs.wrong(filter, l, i["documentation"]["value"].as_str().unwrap_or("")) {
                    return bad(format!("{what} completion offers {l:?} as {}", short(i)));
                }
                have.insert(l);
            }
            let all: &[&str] = if filter { &crate::docgen::FILTERS } else { &crate::docgen::TESTS };
            for f in all {
                if !have.contains(f) {
                    return bad(format!("{what} completion does not offer {f:?}: {}", short(r)));
                }
            }
            None
        }
        Expect::Snippets { edit } => {
            let mut have = BTreeSet::new();
            for it in r.as_array().into_iter().flatten() {
                have.insert(it["label"].as_str().unwrap_or("?").trim_end_matches(char::is_numeric));
                if it["kind"] != 15 {
                    return bad(format!("after `{{%` the offer {} is no snippet", short(it)));
                }
                for k in ["range", "insert", "replace"] {
                    let mut r = it["textEdit"][k].clone();
                    if r.is_null() {
                        continue;
                    }
                    // positions behind the end of the line mean its end
                    let open = edit["start"] == edit["end"];
                    if open && r["end"]["line"] == edit["end"]["line"] && r["end"]["character"].as_u64() > edit["end"]["character"].as_u64() {
                        r["end"] = edit["end"].clone();
                    }
                    if rkey(&r) != rkey(edit) {
                        return bad(format!("snippet {} would not replace {}", short(it), rkey(edit)));
                    }
                }
            }
            for s in ["for", "with", "set", "include", "from", "import", "extends", "if"] {
                if !have.contains(s) {
                    return bad(format!("where a statement is begun {s:?} is not offered: {}", short(r)));
                }
            }
            None
        }
        Expect::Templates { names, edit } => {
            let mut have = BTreeSet::new();
            for it in r.as_array().unwrap_or(&vec![]) {
                let l = it["label"].as_str().unwrap_or("?").to_string();
                if let Some(e) = wrong_edit(it, edit, &format!("\"{l}\"")) {
                    return bad(format!("template completion {l:?} would {e}"));
                }
                if !have.insert(l.clone()) {
                    return bad(format!("template completion offers {l:?} twice"));
                }
            }
            if let Some(m) = names.difference(&have).next() {
                return bad(format!("template completion does not offer {m:?} (offers {have:?})"));
            }
            if let Some(m) = have.difference(names).next() {
                return bad(format!("template completion offers {m:?}, which does not exist or does not contain what is typed"));
            }
            None
        }
        Expect::Symbols(v) => {
            let Some(items) = r.as_array() else {
                return bad(format!("expected symbols {v:?}, got {}", short(r)));
            };
            let mut have: Vec<String> = items
                .iter()
                .map(|i| format!("{} {} {}", i["name"].as_str().unwrap_or("?"), i["kind"], rkey(&i["selectionRange"])))
                .collect();
            have.sort();
            if &have != v {
                return bad(format!("expected symbols {v:?}, got {have:?}"));
            }
            // the protocol wants it so; clients refuse the outline otherwise
            for i in items {
                let at = |r: &str, e: &str| {
                    let p = &i[r][e];
                    (p["line"].as_u64(), p["character"].as_u64())
                };
                if at("range", "start") > at("selectionRange", "start") || at("range", "end") < at("selectionRange", "end") {
                    return bad(format!("the range of symbol {} does not contain its selection range", i["name"]));
                }
            }
            None
        }
        Expect::Create(u) => {
            let creates = creates(r);
            // editors resolve dots in URIs
            let plain = |u: &str| match u.strip_prefix("file:///") {
                Some(p) => format!("file://{}", norm(&format!("/{p}"))),
                None => u.to_string(),
            };
            if creates.len() == 1 && plain(&creates[0].0) == *u && creates[0].1 {
                None
            } else {
                bad(format!("expected an action creating {u}, got {}", short(r)))
            }
        }
        Expect::NoCreate => {
            if creates(r).is_empty() {
                None
            } else {
                bad(format!("an action creates {:?} although nothing is missing here", creates(r)))
            }
        }
        Expect::ResetOffered => {
            let has = r.as_array().map_or(false, |a| a.iter().any(|x| x["command"]["command"] == "reset_variables"));
            if has && creates(r).is_empty() {
                None
            } else {
                bad(format!("expected the reset action, got {}", short(r)))
            }
        }
    }
}

/// What accepting a completion does to the text, if not to replace `range`
/// with `want`.
fn wrong_edit(item: &Value, range: &Value, want: &str) -> Option<String> {
    let mut edits = vec![];
    let te = &item["textEdit"];
    for r in ["range", "insert", "replace"] {
        if te.get(r).is_some() {
            edits.push((rkey(&te[r]), te["newText"].as_str().unwrap_or("?").to_string()));
        }
    }
    for e in item["additionalTextEdits"].as_array().unwrap_or(&vec![]) {
        edits.push((rkey(&e["range"]), e["newText"].as_str().unwrap_or("?").to_string()));
    }
    if edits.is_empty() {
        // the editor replaces the word
        return None;
    }
    // inserting nothing
    edits.retain(|(r, t)| !(t.is_empty() && r.split_once('-').map_or(false, |(a, b)| a == b)));
    edits.dedup();
    if edits == [(rkey(range), want.to_string())] {
        return None;
    }
    Some(format!("make the edits {edits:?}, not replace {} with {want:?}", rkey(range)))
}

/// URIs of files that the offered actions create, and whether they keep an
/// existing file.
fn creates(r: &Value) -> Vec<(String, bool)> {
    let mut v = vec![];
    for a in r.as_array().unwrap_or(&vec![]) {
        for c in a["edit"]["documentChanges"].as_array().unwrap_or(&vec![]) {
            if c["kind"] == "create" {
                v.push((
                    c["uri"].as_str().unwrap_or("?").to_string(),
                    c["options"]["overwrite"] != json!(true),
                ));
            }
        }
    }
    v
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

/// Hover texts of built-in filters and tests, as a fresh server gives them.
#[derive(Clone, Default, Debug)]
pub struct Docs {
    pub filters: BTreeMap<String, String>,
    pub tests: BTreeMap<String, String>,
}

/// The documentation when this was written.
fn written() -> &'static BTreeMap<String, BTreeMap<String, String>> {
    static W: std::sync::OnceLock<BTreeMap<String, BTreeMap<String, String>>> = std::sync::OnceLock::new();
    W.get_or_init(|| serde_json::from_str(include_str!("docs.json")).unwrap())
}

impl Docs {
    /// This is not the documentation of the filter or test.  It may be worded
    /// anew, then it is the same in a fresh server.
    fn wrong(&self, filter: bool, name: &str, got: &str) -> bool {
        let (kind, fresh) = if filter { ("filters", &self.filters) } else { ("tests", &self.tests) };
        let w = written();
        if w[kind].get(name).map_or(false, |d| d == got) {
            return false;
        }
        let others = w.iter().any(|(k, t)| t.iter().any(|(n, d)| (k != kind || n != name) && d == got));
        got.trim().is_empty() || others || fresh.get(name).map_or(false, |d| d != got)
    }
}

/// Compares published diagnostics with the model's. `vars`/`refs`: which
/// kinds are judged.
pub fn compare_diags(want: &Diags, got: Option<&Value>, vars: bool, refs: bool) -> Option<String> {
    let Some(got) = got else { return Some("no diagnostics were published".into()) };
    let refs = refs && want.with_refs;
    let norm = |k: &str| -> String {
        if !want.strict && k == ELSEWHERE {
            UNDEF.into()
        } else {
            k.into()
        }
    };
    let wanted = |k: &str| if k == NOTFOUND { refs } else { vars };
    let mut w: Vec<(String, String)> = want
        .items
        .iter()
        .filter(|(_, k)| wanted(k))
        .map(|(r, k)| (r.clone(), norm(k)))
        .collect();
    let mut h: Vec<(String, String)> = got
        .as_array()
        .unwrap_or(&vec![])
        .iter()
        .map(|d| (rkey(&d["range"]), norm(d["message"].as_str().unwrap_or("?"))))
        .filter(|(r, k)| wanted(k) && !want.skip.contains(r))
        .collect();
    w.sort();
    h.sort();
    if w == h {
        return None;
    }
    let miss: Vec<_> = w.iter().filter(|x| !h.contains(x)).take(3).collect();
    let extra: Vec<_> = h.iter().filter(|x| !w.contains(x)).take(3).collect();
    Some(format!("missing {miss:?}, unexpected {extra:?} ({} expected, {} published)", w.len(), h.len()))
}

pub fn snapshot_diag<'a>(s: &'a Snapshot, path: &str) -> Option<&'a Value> {
    s.diags.get(&uri(path)).map(|x| &x.0)
}
