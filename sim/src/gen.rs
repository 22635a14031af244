//! Workloads: from a property and a seed to a plan.
use crate::docgen::{DocGen, Style as DocStyle, VARS};
use crate::jinja;
use crate::plan::*;
use crate::rng::Rng;
use crate::vfs::{DiskOp, Fault, FaultAct, FsOp, Node, ROOT};
use crate::world;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const PROPERTIES: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C24",
];

const TNAMES: [&str; 14] = [
    "a.html", "b.jinja", "c.j2", "sub/d.html", "sub/deep/e.jinja", "with space.html", "dots.v2.html", "été.html",
    "base_layout.html", "sub/a.html", "100%.html",
    "(group)/p.html", "a+b@c.html", "sub/x=1,y&z.jinja",
];
const MISSING: [&str; 12] = [
    "readme", "new/LICENSE", "mail.txt", "x/.part.html",
    "gone.html", "new/page.html", "no.such.v3.jinja", "sub/none.j2", "été/žádný.html", "x y.html", "a.htm", "(new)/+.html",
];

pub struct B {
    pub r: Rng,
    pub steps: Vec<Step>,
    pub disk: BTreeMap<String, Node>,
    /// Content of every document as the editor (or else the disk) has it.
    pub texts: BTreeMap<String, Vec<String>>,
    pub open: BTreeSet<String>,
    pub dirty: BTreeSet<String>,
    pub st: DocStyle,
    pub py: bool,
    pub tdir: String,
    pub bdirs: Vec<String>,
    pub sched: Sched,
    pub shuffle: bool,
    pub hide: bool,
    pub client: Option<String>,
    pub caps: Value,
    absent: Vec<String>,
    fresh: u32,
}

/// What an editor may say it supports.
fn client_caps(r: &mut Rng) -> Value {
    let mut yes = |p| r.chance(p);
    let dynamic = yes(50);
    let mut d = |mut v: Value| {
        if dynamic || yes(10) {
            v["dynamicRegistration"] = json!(true);
        }
        v
    };
    let mut text = json!({
        "synchronization": d(json!({"didSave": true, "willSave": true, "willSaveWaitUntil": true})),
        "hover": d(json!({"contentFormat": ["markdown", "plaintext"]})),
        "definition": d(json!({"linkSupport": true})),
        "documentSymbol": d(json!({"hierarchicalDocumentSymbolSupport": true})),
        "completion": d(json!({"contextSupport": true, "completionItem": {"snippetSupport": true,
            "insertReplaceSupport": true, "commitCharactersSupport": true, "deprecatedSupport": true,
            "documentationFormat": ["markdown", "plaintext"]}})),
        "codeAction": d(json!({"isPreferredSupport": true, "dataSupport": true,
            "codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "quickfix", "refactor", "source"]}},
            "resolveSupport": {"properties": ["edit"]}})),
        "publishDiagnostics": {"relatedInformation": true, "versionSupport": true, "tagSupport": {"valueSet": [1, 2]}},
        "diagnostic": d(json!({"relatedDocumentSupport": true})),
    });
    for k in ["synchronization", "hover", "definition", "documentSymbol", "completion", "codeAction", "publishDiagnostics", "diagnostic"] {
        if r.chance(12) {
            text.as_object_mut().unwrap().remove(k);
        }
    }
    let mut c = json!({
        "textDocument": text,
        "workspace": {
            "applyEdit": r.chance(70),
            "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create", "rename", "delete"]},
            "configuration": r.chance(50),
            "workspaceFolders": r.chance(50),
            "didChangeConfiguration": {"dynamicRegistration": dynamic},
            "didChangeWatchedFiles": {"dynamicRegistration": dynamic, "relativePatternSupport": r.chance(50)},
            "executeCommand": {"dynamicRegistration": dynamic},
        },
    });
    if r.chance(50) {
        c["window"] = json!({"workDoneProgress": r.chance(50), "showMessage": {}});
    }
    if r.chance(60) {
        let e = *r.pick(&["utf-16", "utf-8", "utf-32"]);
        c["general"] = json!({"positionEncodings": if e == "utf-16" { vec![e] } else { vec![e, "utf-16"] }});
    }
    if r.chance(40) {
        let e = *r.pick(&["utf-16", "utf-8", "utf-32"]);
        c["offsetEncoding"] = if e == "utf-16" { json!([e]) } else { json!([e, "utf-16"]) };
    }
    for k in ["workspace", "general"] {
        if r.chance(10) {
            c.as_object_mut().unwrap().remove(k);
        }
    }
    c
}

/// The name of another template that resembles this one.
fn relative(r: &mut Rng, name: &str) -> String {
    let (dir, file) = match name.rsplit_once('/') {
        Some((d, f)) => (format!("{d}/"), f),
        None => (String::new(), name),
    };
    let (stem, ext) = file.rsplit_once('.').unwrap_or((file, "html"));
    match r.below(6) {
        0 => format!("{name}.{}", *r.pick(&["j2", "html"])),
        1 => format!("{dir}x{file}"),
        2 => format!("x/{name}"),
        3 => format!("{dir}{}.{ext}", stem.to_uppercase()),
        4 => format!("{dir}{stem}.{}", if ext == "j2" { "jinja" } else { "j2" }),
        _ => format!("{dir}{stem}2.{ext}"),
    }
}

/// The same name, or nearly, spelled in another way.
fn spelled(r: &mut Rng, name: &str, names: &[String], tdir: &str) -> String {
    let dirs: Vec<&str> = names.iter().filter_map(|n| n.rsplit_once('/').map(|x| x.0)).collect();
    let dir = if dirs.is_empty() || r.chance(15) { "sub" } else { *r.pick(&dirs) };
    let base = crate::vfs::norm(tdir);
    let base = base.rsplit('/').next().unwrap();
    match r.below(10) {
        0 => format!("./{name}"),
        1 => format!("/{name}"),
        2..=4 => format!("{dir}/{}{name}", "../".repeat(dir.split('/').count())),
        5 => format!("../{base}/{name}"),
        6 => (*r.pick(&["../src/mod00.rs", "../gone.html", "../../etc/passwd", "sub/../../Cargo.toml", ".."])).to_string(),
        7 => name.replace('/', "//"),
        8 => format!("{dir}/./{name}"),
        _ => format!("{name}/"),
    }
}

/// Delivery and scheduling varied in every dimension.
pub fn any_sched(r: &mut Rng, seed: u64, timing: bool) -> Sched {
    let strategy = match r.below(10) {
        0..=1 => Strategy::Fifo,
        2..=4 => Strategy::Uniform,
        5..=7 => Strategy::Priority(*r.pick(&[5, 30, 150])),
        _ => Strategy::Starve(r.below(12) as u32, *r.pick(&[0, 20, 200])),
    };
    let mut s = Sched {
        seed,
        strategy,
        interval: *r.pick(&[1, 2, 7, 31, 61]),
        budget: *r.pick(&[1, 2, 5, 20, 128, 128]),
        chunk: *r.pick(&[3, 17, 100, 65536, 65536]),
        out_cap: 65536,
        read_delay: 0,
        torn: 0,
        enc: *r.pick(&[0, 0, 1, 1, 2, 3, 4, 5]),
    };
    if timing {
        s.out_cap = *r.pick(&[24, 200, 1500, 65536, 65536, 65536]);
        s.read_delay = *r.pick(&[0, 0, 0, 0, 5, 60]);
        s.torn = *r.pick(&[0, 0, 0, 8, 30]);
    }
    s
}

impl B {
    pub fn new(property: &str, seed: u64, timing: bool) -> B {
        let mut r = Rng::fork(seed, property);
        let sched = any_sched(&mut r, seed, timing);
        let nv = r.range(3, VARS.len());
        let mut vars: Vec<&'static str> = VARS.to_vec();
        r.shuffle(&mut vars);
        vars.truncate(nv);
        let mut templates: Vec<String> = vec![];
        let mut absent: Vec<String> = vec![];
        let style = DocStyle {
            vars,
            templates: {
                let mut t: Vec<&str> = TNAMES.to_vec();
                r.shuffle(&mut t);
                t.truncate(r.range(2, 5));
                templates.extend(t.iter().map(|s| s.to_string()));
                let mut m: Vec<&str> = MISSING.to_vec();
                r.shuffle(&mut m);
                m.truncate(r.range(1, 3));
                absent.extend(m.iter().map(|s| s.to_string()));
                // names that could be taken for one another
                if r.chance(35) {
                    for _ in 0..r.range(1, 2) {
                        let n = relative(&mut r, t[0]);
                        if templates.contains(&n) || absent.contains(&n) {
                            continue;
                        }
                        if r.chance(70) {
                            templates.insert(0, n);
                        } else {
                            absent.push(n);
                        }
                    }
                }
                templates.extend(absent.iter().cloned());
                templates.clone()
            },
            depth: r.range(1, 4) as u32,
            text: *r.pick(&[5, 15, 30]),
            refs: *r.pick(&[0, 8, 20]),
            scopes: *r.pick(&[15, 35, 50]),
            crlf: r.chance(15),
            ascii: r.chance(25),
            trim: r.chance(35),
        };
        let py = r.chance(35);
        let tdir = r.pick(&["./templates", "templates", "/simws/templates", "web/tpl", "./templates/"]).to_string();
        let dirs = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let bdirs = match r.below(15) {
            0..=2 => dirs(&["./src", "lib/more"]),
            3..=5 => vec![],
            // some are in others, some only seem to be
            6 => match r.below(5) {
                0 => dirs(&["./src", "./src2"]),
                1 => dirs(&["./src/api", "./src"]),
                2 => dirs(&["src", "src/", "./src/core"]),
                3 => vec!["./src".to_string(), format!("{}-src", tdir.trim_end_matches('/'))],
                _ => dirs(&["./lib/more", "./lib/more_", "./lib/mor"]),
            },
            _ => dirs(&["./src"]),
        };
        let mut style = style;
        if r.chance(if matches!(property, "C10" | "C14" | "C15") { 25 } else { 10 }) {
            for _ in 0..r.range(1, 2) {
                let t = r.pick(&templates).clone();
                let n = spelled(&mut r, &t, &templates, &tdir);
                if !style.templates.contains(&n) {
                    style.templates.push(n.clone());
                    absent.push(n);
                }
            }
        }
        let hide = false;
        B {
            steps: vec![],
            disk: BTreeMap::new(),
            texts: BTreeMap::new(),
            open: BTreeSet::new(),
            dirty: BTreeSet::new(),
            st: style,
            py,
            tdir,
            bdirs,
            sched,
            shuffle: r.chance(50),
            hide,
            client: r.chance(20).then(|| "Visual Studio Code".to_string()),
            caps: if r.chance(50) { client_caps(&mut r) } else { Value::Null },
            absent,
            fresh: 0,
            r,
        }
    }

    pub fn finish(self, property: &str, scenario: &str) -> Plan {
        Plan {
            property: property.into(),
            scenario: scenario.into(),
            disk: self.disk,
            shuffle_dirs: self.shuffle,
            sched: self.sched,
            steps: self.steps,
        }
    }

    pub fn g(&mut self) -> DocGen<'_> {
        DocGen { r: &mut self.r, st: &self.st }
    }

    pub fn troot(&self) -> String {
        crate::vfs::norm(&self.tdir)
    }

    pub fn tpath(&self, name: &str) -> String {
        // nothing is written elsewhere
        let root = self.troot();
        let p = crate::vfs::norm(&format!("{root}/{name}"));
        if p.starts_with(&format!("{root}/")) {
            p
        } else {
            format!("{root}/{}", name.replace("..", "up"))
        }
    }

    pub fn put_disk(&mut self, path: &str, chunks: Vec<String>) {
        self.disk.insert(path.into(), Node::File { data: chunks.concat().into_bytes(), unreadable: false });
        self.texts.insert(path.into(), chunks);
    }

    /// A workspace: the templates named in the style, backend files.
    pub fn workspace(&mut self) {
        let names: Vec<String> =
            self.st.templates.iter().filter(|t| !self.absent.contains(t)).cloned().collect();
        for n in names {
            let k = self.r.range(1, 7);
            let d = self.g().doc(k);
            let p = self.tpath(&n);
            self.put_disk(&p, d);
        }
        let ext = if self.py { "py" } else { "rs" };
        for (i, d) in self.bdirs.clone().iter().enumerate() {
            let root = crate::vfs::norm(d);
            for k in 0..self.r.range(1, 2) {
                let n = self.r.range(0, 5);
                let py = self.py;
                let d = self.g().backend(py, n);
                self.put_disk(&format!("{root}/mod{i}{k}.{ext}"), d);
            }
        }
        self.outsize();
        // a directory that is configured always exists
        let troot = self.troot();
        if !self.disk.keys().any(|k| k.starts_with(&format!("{troot}/"))) {
            self.disk.insert(troot, Node::Dir { unreadable: false });
        }
    }

    /// Now and then something is much larger than usual.
    fn outsize(&mut self) {
        let mut r = Rng::fork(self.sched.seed, "outsize");
        let py = self.py;
        let pick = |b: &B, r: &mut Rng, template: bool| {
            let v = b.docs(template);
            (!v.is_empty()).then(|| r.pick(&v).clone())
        };
        if r.chance(5) {
            // a long document
            if let Some(p) = pick(self, &mut r, true) {
                let n = r.range(4_000, 12_000);
                let line = *r.pick(&["<p>some text that goes on and on</p>\n", "<li>é😀 ž</li>\n", "\n", "{# note #}<br>\n"]);
                let filler = self.g().fix(line.repeat(n / line.len()));
                let mut c = self.texts[&p].clone();
                let at = r.below(c.len() + 1);
                c.insert(at, filler);
                self.put_disk(&p, c);
            }
        }
        if r.chance(4) {
            if let Some(p) = pick(self, &mut r, false) {
                let n = r.range(4_000, 10_000);
                let line = if py { "# a note that says little\n" } else { "// a note that says little\n" };
                let mut c = self.texts[&p].clone();
                let (lo, hi) = if py { (0, c.len()) } else { (1, c.len() - 1) };
                c.insert(r.range(lo, hi), line.repeat(n / line.len()));
                self.put_disk(&p, c);
            }
        }
        if r.chance(6) {
            // sources among the templates, templates among the sources
            let ext = if py { "py" } else { "rs" };
            let n = r.range(1, 5);
            if r.chance(60) {
                let d = self.g().backend(py, n);
                let p = self.tpath(*r.pick(&[&format!("views.{ext}"), &format!("sub/mixed.{ext}")]));
                self.put_disk(&p, d);
            }
            if let Some(dir) = self.bdirs.first().map(|d| crate::vfs::norm(d)) {
                let d = self.g().doc(n);
                self.put_disk(&format!("{dir}/{}", *r.pick(&["mail.html", "tpl/inline.j2"])), d);
            }
        }
        if r.chance(4) {
            // many names
            if let Some(p) = pick(self, &mut r, false) {
                let mut c = self.texts[&p].clone();
                let at = if py { c.len() } else { c.len() - 1 };
                for i in 0..r.range(30, 150) {
                    let l = if py {
                        format!("jinja_env.globals[\"name{i}\"] = {i}\n")
                    } else {
                        format!("    jinja.add_global(\"name{i}\", fun);\n")
                    };
                    c.insert(at, l);
                }
                self.put_disk(&p, c);
            }
        }
        if r.chance(4) {
            // many files
            if let Some(p) = pick(self, &mut r, true) {
                let n = r.range(40, 150);
                let troot = self.troot();
                for i in 0..n {
                    let p = format!("{troot}/crowd/c{i}.html");
                    let data = format!("{{% set crowd{i} = {i} %}}\n").into_bytes();
                    self.disk.insert(p, Node::File { data, unreadable: false });
                }
                let mut c = self.texts[&p].clone();
                for _ in 0..8 {
                    let at = r.below(c.len() + 1);
                    c.insert(at, format!("{{{{ crowd{} }}}}\n", r.below(n + 1)));
                }
                self.put_disk(&p, c);
            }
        }
        if r.chance(3) {
            if let Some(p) = pick(self, &mut r, true) {
                let mut c = self.texts[&p].clone();
                let n = r.range(30, 90);
                c.insert(0, (0..n).map(|i| format!("{{% set many{i} = {i} %}}\n")).collect());
                c.push(format!("{{{{ many{} }}}}", r.below(n)));
                self.put_disk(&p, c);
            }
        }
    }

    pub fn config(&self) -> Value {
        let mut c = json!({
            "templates": self.tdir,
            "backend": self.bdirs,
            "lang": if self.py { "python" } else { "rust" },
        });
        if self.hide {
            c["hide_undefined"] = json!(true);
        }
        c
    }

    pub fn init(&mut self) {
        self.steps.push(Step::Initialize { options: Some(self.config()), client: self.client.clone(), caps: self.caps.clone() });
        self.steps.push(Step::Initialized);
    }

    pub fn is_template(p: &str) -> bool {
        world::lang_of(p) == Some(world::Lang::Template)
    }

    pub fn docs(&self, template: bool) -> Vec<String> {
        self.texts.keys().filter(|p| B::is_template(p) == template).cloned().collect()
    }

    pub fn pick_doc(&mut self) -> Option<String> {
        let all: Vec<String> = self.texts.keys().cloned().collect();
        if all.is_empty() {
            return None;
        }
        let t = self.docs(true);
        if !t.is_empty() && self.r.chance(80) {
            return Some(self.r.pick(&t).clone());
        }
        Some(self.r.pick(&all).clone())
    }

    pub fn pick_open(&mut self) -> Option<String> {
        let v: Vec<String> = self.open.iter().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }

    pub fn text(&self, doc: &str) -> String {
        self.texts.get(doc).map(|c| c.concat()).unwrap_or_default()
    }

    pub fn fresh_name(&mut self) -> String {
        self.fresh += 1;
        let ext = *self.r.pick(&["html", "jinja", "j2"]);
        format!("fresh{}.{ext}", self.fresh)
    }

    pub fn open_doc(&mut self, doc: &str) {
        if self.open.insert(doc.to_string()) {
            // usually what is on the disk
            let text = self.text(doc);
            self.steps.push(Step::Open { doc: doc.into(), text });
        }
    }

    /// Opens a document with content the disk does not have.
    pub fn open_new(&mut self, doc: &str, n: usize) {
        let d = self.gen_content(doc, n);
        self.texts.insert(doc.into(), d);
        self.dirty.insert(doc.into());
        self.open_doc(doc);
    }

    pub fn gen_content(&mut self, doc: &str, n: usize) -> Vec<String> {
        let py = self.py;
        if B::is_template(doc) {
            self.g().doc(n)
        } else {
            self.g().backend(py, n)
        }
    }

    pub fn any_style(&mut self) -> Style {
        *self.r.pick(&[
            Style::Diff,
            Style::Diff,
            Style::Diff,
            Style::DelIns,
            Style::Typed,
            Style::Keys,
            Style::Lines,
            Style::Full,
            Style::WholeRange,
            Style::Mixed,
        ])
    }

    /// New content of a document: pieces inserted, replaced, removed, moved.
    pub fn mutate(&mut self, doc: &str) {
        let mut c = self.texts.get(doc).cloned().unwrap_or_default();
        if B::is_template(doc) {
            for _ in 0..self.r.range(1, 3) {
                let n = c.len();
                match self.r.below(10) {
                    0..=3 => {
                        let x = self.g().doc(1);
                        let at = self.r.below(n + 1);
                        c.splice(at..at, x);
                    }
                    4..=6 if n > 0 => {
                        let x = self.g().doc(1);
                        let at = self.r.below(n);
                        c.splice(at..at + 1, x);
                    }
                    7..=8 if n > 0 => {
                        let at = self.r.below(n);
                        c.remove(at);
                    }
                    _ if n > 1 => {
                        let a = self.r.below(n);
                        let b = self.r.below(n);
                        c.swap(a, b);
                    }
                    _ => {
                        let x = self.g().doc(2);
                        c = x;
                    }
                }
            }
            if c.len() > 12 {
                c.truncate(6);
            }
            if self.r.chance(2) {
                c.clear();
            }
        } else if self.r.chance(20) {
            // everything is new, or gone
            let py = self.py;
            let n = self.r.below(6);
            c = if self.r.chance(30) {
                vec![]
            } else if self.r.chance(30) {
                vec![(if py { "# nothing\n" } else { "// nothing\n" }).into()]
            } else {
                self.g().backend(py, n)
            };
        } else {
            let py = self.py;
            let x = self.g().backend(py, 1);
            let body: Vec<String> = if py { x } else { vec![x[1].clone()] };
            let (lo, hi) = if py { (0, c.len()) } else { (1, c.len().saturating_sub(1).max(1)) };
            let hi = hi.min(c.len());
            let lo = lo.min(hi);
            let at = self.r.range(lo, hi);
            if c.is_empty() || c.len() == 1 && !py {
                let x = self.g().backend(py, 2);
                c = x;
            } else if self.r.chance(30) && at < hi && !(py && c[at].contains("def ")) {
                c.remove(at);
            } else {
                c.splice(at..at, body);
            }
        }
        self.texts.insert(doc.into(), c);
    }

    pub fn edit(&mut self, doc: &str) {
        self.mutate(doc);
        self.push_change(doc);
    }

    pub fn push_change(&mut self, doc: &str) {
        let style = self.any_style();
        let text = self.text(doc);
        self.dirty.insert(doc.into());
        self.steps.push(Step::Change { doc: doc.into(), text, style });
    }

    /// A text that is not well-formed, near the current one.
    pub fn splice(&mut self, doc: &str) -> String {
        // (the server's queries take seconds on long texts full of errors, which is no failure)
        let mut t = self.text(doc);
        let mut end = t.len().min(3_000);
        while !t.is_char_boundary(end) {
            end -= 1;
        }
        t.truncate(end);
        let cut = |r: &mut Rng, t: &str| {
            let mut i = r.below(t.len() + 1);
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        let junk = ["{{", "{%", "%}", "}}", "{% if", "{% for a in", "\"", "'", "{#", "#}", "}", "{", "%", "|", ".", "(",
            "{% endfor %}", "{{ a1.", "{% block", "é", "\r\n", "{% raw %}", "\u{1F600}{{", "fn (", "def"];
        let a = cut(&mut self.r, &t);
        let b = cut(&mut self.r, &t);
        let (a, b) = (a.min(b), a.max(b));
        match self.r.below(4) {
            0 => format!("{}{}", &t[..a], &t[b..]),
            1 => t[..a].to_string(),
            2 => format!("{}{}{}", &t[..a], self.r.pick(&junk), &t[b..]),
            _ => format!("{}{}{}", &t[..a], self.r.pick(&junk), &t[a..]),
        }
    }

    /// Changes a document to a text that is not well-formed.
    pub fn spoil(&mut self, doc: &str) {
        let text = self.splice(doc);
        self.texts.insert(doc.into(), vec![text.clone()]);
        let style = self.any_style();
        self.dirty.insert(doc.into());
        self.steps.push(Step::Change { doc: doc.into(), text, style });
    }

    pub fn save(&mut self, doc: &str) {
        if self.open.contains(doc) {
            self.dirty.remove(doc);
            self.steps.push(Step::Save { doc: doc.into() });
        }
    }

    pub fn close(&mut self, doc: &str) {
        if self.open.contains(doc) {
            if self.dirty.contains(doc) {
                self.save(doc);
            }
            self.open.remove(doc);
            self.steps.push(Step::Close { doc: doc.into() });
        }
    }

    pub fn settle(&mut self) {
        self.steps.push(Step::Settle);
    }

    pub fn gap(&mut self) {
        match self.r.below(12) {
            0 => self.steps.push(Step::Sleep { ms: *self.r.pick(&[1, 30, 150, 199, 200, 201, 350, 1399, 1401]) }),
            1 => self.steps.push(Step::Yield { n: self.r.range(1, 20) as u32 }),
            2 => self.steps.push(Step::Barrier),
            _ => {}
        }
    }

    pub fn write_disk(&mut self, path: &str, text: String) {
        self.steps.push(Step::Disk(DiskOp::Write { path: path.into(), text }));
    }

    // ------------------------------------------------------------ probes ---
    pub fn at(&self, text: &str, off: usize) -> At {
        at_of(text, off)
    }

    pub fn ask(&mut self, doc: &str, req: Req, wait: bool) {
        self.steps.push(Step::Ask { doc: doc.into(), req, wait });
    }

    fn model(&self, doc: &str) -> Option<jinja::Doc> {
        let t = self.text(doc);
        if B::is_template(doc) {
            jinja::parse_template(&t)
        } else {
            jinja::parse_backend(&t, if self.py { "python" } else { "rust" })
        }
    }

    /// Requests whose answers come from the text alone.
    pub fn probe_text(&mut self, doc: &str, n: usize, wait: u32) {
        let Some(d) = self.model(doc) else { return };
        let t = self.text(doc);
        for _ in 0..n {
            let w = self.r.chance(wait);
            let marks: Vec<&jinja::Use> = d.uses.iter().filter(|u| u.role != jinja::Role::Var).collect();
            if !d.refs.is_empty() && (marks.is_empty() || self.r.chance(50)) {
                let r = self.r.pick(&d.refs).clone();
                if self.r.chance(60) {
                    let off = inside(&mut self.r, &t, r.start + 1, r.end);
                    let at = at_of(&t, off);
                    self.ask(doc, Req::Goto(at), w);
                } else {
                    let off = if self.r.chance(40) { r.end - 1 } else { inside(&mut self.r, &t, r.start + 1, r.end) };
                    let at = at_of(&t, off);
                    self.ask(doc, Req::Completion(at), w);
                }
            } else if !marks.is_empty() {
                let u = (*self.r.pick(&marks)).clone();
                let off = inside(&mut self.r, &t, u.start, u.end);
                let at = at_of(&t, off);
                self.ask(doc, Req::Hover(at), w);
            }
        }
    }

    /// Requests where nothing is.
    pub fn probe_blank(&mut self, doc: &str, n: usize, wait: u32) {
        let Some(d) = self.model(doc) else { return };
        let t = self.text(doc);
        for _ in 0..n {
            let w = self.r.chance(wait);
            let off = if B::is_template(doc) && !d.blank.is_empty() {
                let (a, b) = *self.r.pick(&d.blank);
                self.r.range(a, b)
            } else {
                self.r.below(t.len() + 1)
            };
            if !t.is_char_boundary(off) {
                continue;
            }
            let at = at_of(&t, off);
            let req = match self.r.below(3) {
                0 => Req::Goto(at),
                1 => Req::Hover(at),
                _ => Req::Completion(at),
            };
            self.ask(doc, req, w);
        }
    }

    pub fn probe_names(&mut self, doc: &str, n: usize, wait: u32) {
        let Some(d) = self.model(doc) else { return };
        let t = self.text(doc);
        for _ in 0..n {
            let w = self.r.chance(wait);
            if d.uses.is_empty() {
                return;
            }
            let u = self.r.pick(&d.uses).clone();
            let off = inside(&mut self.r, &t, u.start, u.end);
            let at = at_of(&t, off);
            if self.r.chance(55) {
                self.ask(doc, Req::Goto(at), w);
            } else {
                self.ask(doc, Req::Hover(at), w);
            }
        }
    }

    pub fn probe_completion(&mut self, doc: &str, n: usize, wait: u32) {
        let Some(d) = self.model(doc) else { return };
        let t = self.text(doc);
        // by what is offered
        let mut kinds: [Vec<usize>; 6] = Default::default();
        for x in d.exprs.iter().filter(|x| x.empty && x.end - x.start >= 6) {
            kinds[0].push(x.start + 3);
        }
        for u in &d.uses {
            if u.role == jinja::Role::Filter && t[..u.start].ends_with('|') {
                kinds[1].push(u.start);
            } else if u.role == jinja::Role::Var && u.in_expr {
                kinds[2].extend(u.start + 1..=u.end);
            }
        }
        for r in &d.refs {
            kinds[3].extend((r.start + 1..r.end).filter(|o| t.is_char_boundary(*o)));
        }
        for (a, b) in &d.gaps {
            kinds[4].extend(*a..=*b);
        }
        for (a, b) in &d.tests {
            kinds[5].extend(*a..=*b);
        }
        let kinds: Vec<Vec<usize>> = kinds.into_iter().filter(|k| !k.is_empty()).collect();
        if kinds.is_empty() {
            return;
        }
        for _ in 0..n {
            let w = self.r.chance(wait);
            let k = self.r.below(kinds.len());
            let o = *self.r.pick(&kinds[k]);
            let at = at_of(&t, o);
            self.ask(doc, Req::Completion(at), w);
        }
    }

    /// Begins a statement at the end of a line, asks what is offered there, and
    /// (mostly) takes it back.
    pub fn begin_statement(&mut self, doc: &str) {
        if !B::is_template(doc) || self.model(doc).is_none() {
            return;
        }
        let t = self.text(doc);
        let ends: Vec<usize> = (0..=t.len())
            .filter(|&i| t.is_char_boundary(i) && (i == t.len() || t[i..].starts_with('\n') || t[i..].starts_with("\r\n")))
            .collect();
        let tag = if self.r.chance(50) { "{%}" } else { "{%" };
        for _ in 0..4 {
            let i = *self.r.pick(&ends);
            let u = format!("{}{tag}{}", &t[..i], &t[i..]);
            if !jinja::begun(&u, i + 2) {
                continue;
            }
            self.open_doc(doc);
            let before = self.texts[doc].clone();
            let style = self.any_style();
            self.texts.insert(doc.into(), vec![u.clone()]);
            self.dirty.insert(doc.into());
            self.steps.push(Step::Change { doc: doc.into(), text: u.clone(), style });
            if self.r.chance(30) {
                self.settle();
            }
            self.ask(doc, Req::Completion(at_of(&u, i + 2)), true);
            if self.r.chance(80) {
                let style = self.any_style();
                self.texts.insert(doc.into(), before);
                self.steps.push(Step::Change { doc: doc.into(), text: t, style });
            }
            return;
        }
    }

    /// Quick fixes; each may start a later check of the document.
    pub fn probe_actions(&mut self, doc: &str, n: usize) {
        let Some(d) = self.model(doc) else { return };
        let t = self.text(doc);
        for _ in 0..n {
            let off = if !d.refs.is_empty() && self.r.chance(75) {
                let r = self.r.pick(&d.refs).clone();
                inside(&mut self.r, &t, r.start + 1, r.end)
            } else if let Some(x) = d.exprs.iter().find(|x| x.lone.is_some()) {
                x.lone.unwrap().1
            } else {
                continue;
            };
            let at = at_of(&t, off);
            self.ask(doc, Req::CodeAction(at), false);
        }
    }

    pub fn probe_all(&mut self, n: usize) {
        let all: Vec<String> = self.texts.keys().cloned().collect();
        for d in all {
            self.ask(&d, Req::Symbols, false);
            self.probe_text(&d, n, 20);
            self.probe_names(&d, n, 20);
            self.probe_completion(&d, n, 20);
        }
    }

    pub fn transparent_fault(&mut self) {
        let f = match self.r.below(4) {
            0 => Fault { op: Some(FsOp::Read), path: String::new(), skip: 0, count: 0, act: FaultAct::Short(self.r.range(1, 40)) },
            1 => Fault { op: Some(FsOp::Read), path: String::new(), skip: self.r.below(6) as u32, count: self.r.range(1, 3) as u32, act: FaultAct::Errno(libc::EINTR) },
            2 => Fault { op: Some(FsOp::Open), path: String::new(), skip: self.r.below(6) as u32, count: self.r.range(1, 3) as u32, act: FaultAct::Errno(libc::EINTR) },
            _ => Fault { op: None, path: String::new(), skip: self.r.below(20) as u32, count: self.r.range(1, 5) as u32, act: FaultAct::Stall(*self.r.pick(&[10, 250, 3000])) },
        };
        self.steps.push(Step::Inject(f));
    }
}

/// Byte offset of a character in [a, b).
fn inside(r: &mut Rng, t: &str, a: usize, b: usize) -> usize {
    if a >= b {
        return a.min(b);
    }
    let mut o = r.range(a, b - 1);
    while !t.is_char_boundary(o) {
        o -= 1;
    }
    o
}

/// A position described by the word around it, so that it survives when a
/// replay is made smaller.
pub fn at_of(t: &str, off: usize) -> At {
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '"' || c == '\'' || c == '.' || c == '/';
    let mut a = off;
    while let Some(c) = t[..a].chars().next_back() {
        if !word(c) {
            break;
        }
        a -= c.len_utf8();
    }
    let mut b = off;
    while let Some(c) = t[b..].chars().next() {
        if !word(c) {
            break;
        }
        b += c.len_utf8();
    }
    if a == b {
        // the two characters around
        if let Some(c) = t[..a].chars().next_back() {
            a -= c.len_utf8();
        }
        if let Some(c) = t[b..].chars().next() {
            b += c.len_utf8();
        }
    }
    if a < b {
        let needle = &t[a..b];
        if let Some(n) = t.match_indices(needle).position(|m| m.0 == a) {
            return At::Find(needle.into(), n, t[a..off].chars().count());
        }
    }
    let (l, c) = crate::text::pos16(t, off);
    At::Pos(l, c)
}

pub fn plan(property: &str, seed: u64) -> Plan {
    match property {
        "C01" => c01(seed),
        "C02" => c02(seed),
        "C03" => c03(seed),
        "C04" => c04(seed),
        "C05" => c05(seed),
        "C06" => c06(seed),
        "C07" => c07(seed),
        "C08" => c08(seed),
        "C09" => c09(seed),
        "C10" => c10(seed),
        "C11" => c11(seed),
        "C12" => c12(seed),
        "C13" => c13(seed),
        "C14" => c14(seed),
        "C15" => c15(seed),
        "C16" => c16(seed),
        "C17" => c17(seed),
        "C18" => c18(seed),
        "C19" => c19(seed),
        "C20" => c20(seed),
        "C21" => c21(seed),
        "C24" => c24(seed),
        p => panic!("unknown property {p}"),
    }
}

/// A session of ordinary use, the common part of many workloads.
fn activity(b: &mut B, n: usize, resets: bool) {
    // now and then a long session
    let n = if b.r.chance(2) { n * 10 } else { n };
    for _ in 0..n {
        match b.r.below(20) {
            0..=2 => {
                if let Some(d) = b.pick_doc() {
                    b.open_doc(&d);
                }
            }
            3 => {
                let n = b.fresh_name();
                let p = b.tpath(&n);
                let k = b.r.range(1, 5);
                b.open_new(&p, k);
            }
            4..=12 => {
                if b.open.is_empty() {
                    if let Some(d) = b.pick_doc() {
                        b.open_doc(&d);
                    }
                }
                if let Some(d) = b.pick_open() {
                    b.edit(&d);
                }
            }
            13..=14 => {
                if let Some(d) = b.pick_open() {
                    b.save(&d);
                }
            }
            15 => {
                if let Some(d) = b.pick_open() {
                    b.close(&d);
                }
            }
            16 if resets => {
                if b.r.chance(25) {
                    let value = b.config();
                    b.steps.push(Step::Config { value });
                } else {
                    b.steps.push(Step::Reset);
                }
            }
            17 if b.r.chance(30) => {
                if let Some(d) = b.pick_doc() {
                    b.probe_actions(&d, 1);
                }
            }
            17 => {
                if let Some(d) = b.pick_doc() {
                    b.probe_text(&d, 1, 20);
                }
            }
            18 => {
                if let Some(d) = b.pick_doc() {
                    b.ask(&d, Req::Symbols, false);
                }
            }
            _ if b.r.chance(12) => {
                if let Some(d) = b.pick_doc() {
                    b.begin_statement(&d);
                }
            }
            _ => b.gap(),
        }
        b.gap();
    }
}

fn pause_around(b: &mut B) -> bool {
    if b.sched.out_cap < 65536 && b.r.chance(50) {
        b.steps.push(Step::Pause);
        return true;
    }
    false
}

fn c03(seed: u64) -> Plan {
    let mut b = B::new("C03", seed, true);
    b.workspace();
    b.init();
    if b.r.chance(70) {
        b.settle();
    }
    let d = b.pick_doc().unwrap_or_else(|| b.tpath("a.html"));
    if !b.texts.contains_key(&d) {
        b.open_new(&d, 3);
    }
    b.open_doc(&d);
    for _ in 0..b.r.range(1, 3) {
        for _ in 0..b.r.range(1, 5) {
            match b.r.below(10) {
                0..=3 => {
                    // through ill-formed text
                    for _ in 0..b.r.range(1, 3) {
                        let text = b.splice(&d);
                        let style = b.any_style();
                        b.steps.push(Step::Change { doc: d.clone(), text, style });
                        b.gap();
                    }
                    b.mutate(&d);
                    b.push_change(&d);
                }
                4 => {
                    // undo and redo
                    let before = b.texts[&d].clone();
                    b.edit(&d);
                    b.gap();
                    b.texts.insert(d.clone(), before);
                    b.push_change(&d);
                }
                5 => {
                    b.save(&d);
                    b.close(&d);
                    b.gap();
                    b.open_doc(&d);
                }
                _ => b.edit(&d),
            }
            b.gap();
        }
        match b.r.below(6) {
            0 => b.probe_text(&d, 2, 0),
            1 => b.ask(&d, Req::Symbols, false),
            2 => b.probe_names(&d, 2, 0),
            3 => b.probe_completion(&d, 2, 0),
            _ => {}
        }
        b.settle();
        b.ask(&d, Req::Symbols, false);
        b.probe_names(&d, 4, 10);
        b.probe_text(&d, 2, 10);
        b.probe_completion(&d, 2, 10);
    }
    b.finish("C03", "edits")
}

fn c05(seed: u64) -> Plan {
    let mut b = B::new("C05", seed, true);
    b.st.refs = 25;
    b.workspace();
    b.init();
    if b.r.chance(60) {
        b.settle();
    }
    for _ in 0..b.r.range(4, 14) {
        let paused = b.r.chance(8) && pause_around(&mut b);
        match b.r.below(12) {
            0 => {
                let n = b.fresh_name();
                let p = b.tpath(&n);
                b.open_new(&p, 3);
            }
            1 => b.steps.push(Step::Reset),
            2 => {
                if let Some(d) = b.pick_open() {
                    b.close(&d);
                }
            }
            _ => {
                if let Some(d) = b.pick_doc() {
                    b.open_doc(&d);
                    if b.r.chance(20) {
                        let text = b.splice(&d);
                        b.steps.push(Step::Change { doc: d.clone(), text, style: Style::Diff });
                    }
                    b.edit(&d);
                    if b.r.chance(15) {
                        b.save(&d);
                    }
                    // also about what other documents know of this one
                    let d = if b.r.chance(25) { b.pick_open().unwrap_or(d) } else { d };
                    match b.r.below(5) {
                        0 => {
                            let k = b.r.range(1, 4);
                            b.probe_text(&d, k, 25);
                        }
                        1 => b.ask(&d, Req::Symbols, false),
                        2 => {
                            let k = b.r.range(1, 3);
                            b.probe_completion(&d, k, 25);
                        }
                        _ => {
                            let k = b.r.range(1, 4);
                            b.probe_names(&d, k, 25);
                        }
                    }
                }
            }
        }
        if paused {
            b.steps.push(Step::Resume);
        }
        b.gap();
    }
    b.finish("C05", "edit then ask")
}

fn c06(seed: u64) -> Plan {
    let mut b = B::new("C06", seed, true);
    b.workspace();
    b.init();
    for _ in 0..b.r.range(1, 3) {
        let paused = b.r.chance(25) && pause_around(&mut b);
        if b.r.chance(20) {
            b.transparent_fault();
        }
        let n = b.r.range(3, 14);
        activity(&mut b, n, true);
        if paused {
            b.steps.push(Step::Resume);
        }
        b.settle();
        b.steps.push(Step::ClearFaults);
    }
    // one document at a time, so that the rest is known exactly
    if let Some(d) = b.pick_doc() {
        b.open_doc(&d);
        b.edit(&d);
        b.settle();
    }
    // texts that are half-written or that nothing can be made of
    if b.r.chance(40) {
        for _ in 0..b.r.range(1, 5) {
            let Some(d) = b.pick_doc() else { break };
            b.open_doc(&d);
            b.spoil(&d);
            b.gap();
            if b.r.chance(40) {
                b.settle();
            }
        }
        b.settle();
    }
    b.finish("C06", "converge")
}

fn c07(seed: u64) -> Plan {
    let mut b = B::new("C07", seed, true);
    let nd = b.r.range(1, 3);
    let mut docs = vec![];
    let what = *b.r.pick(&["{{ nope }}", "{% include \"nope.html\" %}"]);
    let root = b.troot();
    b.disk.insert(root, Node::Dir { unreadable: false });
    for d in b.bdirs.clone() {
        b.disk.insert(crate::vfs::norm(&d), Node::Dir { unreadable: false });
    }
    for i in 0..nd {
        let p = b.tpath(&format!("v{i}.html"));
        b.put_disk(&p, vec![what.into()]);
        docs.push((p, 0usize));
    }
    b.init();
    if b.r.chance(50) {
        b.settle();
    }
    for (d, _) in docs.clone() {
        b.open_doc(&d);
    }
    for _ in 0..b.r.range(3, 25) {
        let i = b.r.below(nd);
        match b.r.below(18) {
            0 => b.save(&docs[i].0.clone()),
            1 => b.steps.push(Step::Reset),
            2 => {
                let d = docs[i].0.clone();
                b.ask(&d, Req::Symbols, false);
            }
            3 if b.sched.out_cap < 65536 => {
                b.steps.push(Step::Pause);
                b.steps.push(Step::Sleep { ms: *b.r.pick(&[10, 250, 700]) });
                b.steps.push(Step::Resume);
            }
            4 => b.settle(),
            5 => b.close(&docs[i].0.clone()),
            6 => {
                let value = b.config();
                b.steps.push(Step::Config { value });
            }
            7..=8 => {
                // a missing template is looked for again later
                let d = docs[i].0.clone();
                let at = At::Find("nope".into(), 0, 2);
                b.ask(&d, Req::CodeAction(at), false);
            }
            _ => {
                docs[i].1 += 1;
                let (d, v) = docs[i].clone();
                b.open_doc(&d);
                // some with many diagnostics, some with none
                let k = *b.r.pick(&[1, 1, 1, 0, 2, 12, 60]);
                b.texts.insert(d.clone(), vec!["\n".repeat(v), what.repeat(k)]);
                let style = *b.r.pick(&[Style::Diff, Style::Diff, Style::Full, Style::WholeRange, Style::DelIns]);
                let text = b.text(&d);
                b.dirty.insert(d.clone());
                b.steps.push(Step::Change { doc: d.clone(), text, style });
                if b.r.chance(20) {
                    b.save(&d);
                }
            }
        }
        if b.r.chance(50) {
            b.steps.push(Step::Sleep { ms: *b.r.pick(&[0, 1, 50, 120, 199, 200, 201, 260, 500]) });
        }
    }
    b.settle();
    b.finish("C07", "versions")
}

fn c08(seed: u64) -> Plan {
    let mut b = B::new("C08", seed, false);
    let nd = b.r.range(1, 4);
    let mut docs = vec![];
    let root = b.troot();
    b.disk.insert(root, Node::Dir { unreadable: false });
    for d in b.bdirs.clone() {
        b.disk.insert(crate::vfs::norm(&d), Node::Dir { unreadable: false });
    }
    for i in 0..nd {
        let ext = *b.r.pick(&["html", "j2", "jinja"]);
        let p = b.tpath(&format!("v{i}.{ext}"));
        b.put_disk(&p, vec!["{{ nope }}".into()]);
        docs.push(p);
    }
    let side = b.tpath("side.html");
    b.put_disk(&side, vec!["{% set a1 = 1 %}".into()]);
    b.init();
    b.settle();
    for d in docs.clone() {
        b.open_doc(&d);
    }
    b.settle();
    // what else goes on meanwhile
    let busy = Rng::fork(seed, "busy").chance(40);
    for _ in 0..b.r.range(1, 4) {
        // some bursts last for seconds
        let long = b.r.chance(25);
        let k = if long { b.r.range(15, 45) } else { b.r.range(1, 12) };
        let many = !long && b.r.chance(60);
        let one = b.r.below(nd);
        // every document that takes part is edited at least once per 150 ms
        let mut t = 0u64;
        for _ in 0..k {
            let who: Vec<usize> = if many {
                let mut v: Vec<usize> = (0..nd).collect();
                b.r.shuffle(&mut v);
                v
            } else {
                vec![one]
            };
            for i in who {
                let d = docs[i].clone();
                if b.r.chance(15) {
                    let t = b.splice(&d);
                    b.texts.insert(d.clone(), vec![t]);
                } else {
                    let c = b.g().doc(2);
                    b.texts.insert(d.clone(), c);
                }
                let style = *b.r.pick(&[Style::Diff, Style::Full, Style::DelIns, Style::Typed, Style::Keys]);
                let text = b.text(&d);
                b.dirty.insert(d.clone());
                b.steps.push(Step::Change { doc: d.clone(), text, style });
                if b.r.chance(15) {
                    b.ask(&d, Req::Symbols, false);
                }
                if busy {
                    meanwhile(&mut b, &d, &side);
                }
            }
            let ms = if long { *b.r.pick(&[40, 90, 120, 150]) } else { *b.r.pick(&[0, 0, 10, 60, 120]) };
            t += ms;
            b.steps.push(Step::Sleep { ms });
        }
        let _ = t;
        b.settle();
    }
    b.finish("C08", "bursts")
}

/// Anything but an edit, while a document is being edited.
fn meanwhile(b: &mut B, doc: &str, side: &str) {
    match b.r.below(24) {
        0 => b.steps.push(Step::Reset),
        1 => {
            let value = b.config();
            b.steps.push(Step::Config { value });
        }
        2 => b.save(doc),
        3 => {
            b.close(doc);
            b.open_doc(doc);
        }
        4 => {
            b.open_doc(side);
        }
        5 => b.close(side),
        6 => b.save(side),
        7..=10 => {
            let t = b.text(doc);
            let off = inside(&mut b.r, &t, 0, t.len());
            let at = at_of(&t, off);
            let req = match b.r.below(3) {
                0 => Req::Hover(at),
                1 => Req::Goto(at),
                _ => Req::Completion(at),
            };
            b.ask(doc, req, false);
        }
        _ => {}
    }
}

fn c09(seed: u64) -> Plan {
    let mut b = B::new("C09", seed, true);
    b.st.scopes = 55;
    b.st.depth = b.r.range(2, 5) as u32;
    b.hide = b.r.chance(12);
    b.workspace();
    b.init();
    if b.r.chance(60) {
        b.settle();
    }
    for _ in 0..b.r.range(1, 3) {
        for _ in 0..b.r.range(1, 3) {
            if let Some(d) = b.pick_doc() {
                b.open_doc(&d);
                if b.r.chance(70) {
                    b.edit(&d);
                }
                if b.r.chance(20) {
                    b.save(&d);
                }
            }
            b.gap();
        }
        if b.r.chance(25) {
            b.steps.push(Step::Reset);
        }
        b.settle();
    }
    // the last word on one document alone
    if let Some(d) = b.pick_doc() {
        b.open_doc(&d);
        b.edit(&d);
        b.settle();
    }
    b.finish("C09", "scopes")
}

fn c10(seed: u64) -> Plan {
    let mut b = B::new("C10", seed, false);
    b.st.refs = 45;
    b.st.scopes = 10;
    if b.r.chance(30) {
        b.sched.torn = 10;
    }
    b.workspace();
    b.init();
    b.settle();
    let names = b.st.templates.clone();
    for _ in 0..b.r.range(2, 6) {
        for _ in 0..b.r.range(0, 2) {
            let n = b.r.pick(&names).clone();
            let p = b.tpath(&n);
            let op = match b.r.below(9) {
                0..=2 => DiskOp::Write { path: p, text: "{{ a1 }}".into() },
                3..=4 => DiskOp::Remove { path: p },
                5 => {
                    let m = b.r.pick(&names).clone();
                    DiskOp::Rename { from: p, to: b.tpath(&m) }
                }
                6 => DiskOp::Mkdir { path: p },
                7 => {
                    let m = b.r.pick(&names).clone();
                    DiskOp::Link { path: p, target: b.tpath(&m) }
                }
                _ => DiskOp::Chmod { path: crate::vfs::parent(&p).to_string(), unreadable: b.r.chance(50) },
            };
            // the model of the tree must stay a tree
            let skip = match &op {
                DiskOp::Write { path, .. } | DiskOp::Link { path, .. } | DiskOp::Mkdir { path } => b.open.contains(path),
                DiskOp::Remove { path } => b.open.contains(path),
                DiskOp::Rename { from, to } => from == to || b.open.contains(from) || b.open.contains(to),
                DiskOp::Chmod { path, .. } => *path == b.troot(),
                _ => false,
            };
            if !skip {
                b.steps.push(Step::Disk(op));
            }
        }
        if b.r.chance(25) {
            let n = b.r.pick(&names).clone();
            let act = match b.r.below(4) {
                0 => FaultAct::Errno(libc::EACCES),
                1 => FaultAct::Errno(libc::EIO),
                2 => FaultAct::Errno(*b.r.pick(&[libc::ELOOP, libc::EMFILE, libc::ENOMEM, libc::EINTR])),
                _ => FaultAct::Stall(*b.r.pick(&[20, 400])),
            };
            b.steps.push(Step::Inject(Fault {
                op: Some(FsOp::Realpath),
                path: n,
                skip: b.r.below(3) as u32,
                count: b.r.range(1, 3) as u32,
                act,
            }));
        }
        if b.r.chance(25) {
            b.steps.push(Step::Reset);
        }
        for _ in 0..b.r.range(1, 3) {
            if let Some(d) = b.pick_doc() {
                b.open_doc(&d);
                match b.r.below(4) {
                    0 => b.save(&d),
                    1 => {}
                    _ => b.edit(&d),
                }
            }
        }
        b.settle();
        b.steps.push(Step::ClearFaults);
    }
    b.finish("C10", "missing templates")
}

fn c11(seed: u64) -> Plan {
    let mut b = B::new("C11", seed, true);
    b.st.refs = 8;
    b.workspace();
    if b.r.chance(15) {
        // directories that do not exist, or cannot be listed
        let i = b.r.below(b.bdirs.len() + 1);
        let d = b.r.pick(&["gone/src", "/simws/nothing/here", "locked"]).to_string();
        if d == "locked" {
            b.disk.insert(format!("{ROOT}/locked"), Node::Dir { unreadable: true });
        }
        b.bdirs.insert(i, d);
    }
    // more of a tree, and odd entries in it
    let troot = b.troot();
    for i in 0..b.r.range(0, 14) {
        let dir = *b.r.pick(&["", "/x", "/x/y", "/sub", "/dir.html", "/z", "/.hidden", "/x/node_modules/m", "/target", "/a b/c+d", "/1/2/3/4/5/6/7/8/9"]);
        let stem = *b.r.pick(&["f", "f", "f", ".f", "_f", "f.v", "f-x.min", "F "]);
        let p = format!("{troot}{dir}/{stem}{i}.{}", *b.r.pick(&["html", "html", "jinja", "j2", "txt", "HTML", "html.j2", "html.bak"]));
        let k = b.r.range(1, 4);
        let d = b.g().doc(k);
        b.put_disk(&p, d);
    }
    for i in 0..b.r.range(0, 4) {
        let p = format!("{troot}{}/odd{i}.html", *b.r.pick(&["", "/x", "/sub"]));
        let n = match b.r.below(6) {
            0 => Node::File { data: vec![b'{', 0xff, 0xfe, b'x'], unreadable: false },
            1 => Node::File { data: b"{{ a1 }}".to_vec(), unreadable: true },
            2 => Node::Link { target: "nowhere.html".into() },
            3 => Node::Link { target: p.clone() },
            4 => Node::Dir { unreadable: true },
            _ => Node::File { data: vec![], unreadable: false },
        };
        if matches!(n, Node::Dir { .. }) {
            b.disk.insert(format!("{p}/inner.html"), Node::File { data: b"{% set a1 = 1 %}".to_vec(), unreadable: false });
        }
        b.disk.insert(p, n);
    }
    if b.r.chance(6) {
        // many of them
        for i in 0..b.r.range(60, 300) {
            b.disk.insert(format!("{troot}/many/m{i}.html"), Node::File { data: format!("{{% set many{i} = 1 %}}").into_bytes(), unreadable: false });
        }
        b.texts.insert(format!("{troot}/many/m59.html"), vec!["{% set many59 = 1 %}".into()]);
    }
    if b.r.chance(6) {
        // a large one
        let p = format!("{troot}/large.html");
        let n = *b.r.pick(&[300, 4000, 40000]);
        let mut d: Vec<String> = vec!["<p>some text of a large file</p>\n".repeat(b.r.range(300, n))];
        let more = b.g().doc(4);
        d.extend(more);
        b.put_disk(&p, d);
    }
    let files: Vec<String> = b.texts.keys().cloned().collect();
    let faults = |b: &mut B| {
        for _ in 0..b.r.range(0, 4) {
            let f = b.r.pick(&files).clone();
            let base = f.rsplit('/').next().unwrap().to_string();
            let f = match b.r.below(10) {
                0..=3 => Fault {
                    op: Some(*b.r.pick(&[FsOp::Open, FsOp::Read, FsOp::Stat, FsOp::Realpath])),
                    path: format!("/{base}"),
                    skip: 0,
                    count: *b.r.pick(&[0, 1, 2]),
                    act: FaultAct::Errno(*b.r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::EMFILE, libc::ENOMEM, libc::ESTALE])),
                },
                4 => Fault {
                    op: Some(FsOp::ReadDir),
                    path: (*b.r.pick(&["/x", "/sub", "/x/y", "/z"])).into(),
                    skip: b.r.below(3) as u32,
                    count: 1,
                    act: FaultAct::Errno(*b.r.pick(&[libc::EIO, libc::EACCES])),
                },
                5 => Fault {
                    op: Some(*b.r.pick(&[FsOp::Open, FsOp::Stat, FsOp::Realpath])),
                    path: format!("/{base}"),
                    skip: 0,
                    count: 1,
                    act: FaultAct::Mutate(DiskOp::Remove { path: f }),
                },
                _ => {
                    b.transparent_fault();
                    continue;
                }
            };
            b.steps.push(Step::Inject(f));
        }
    };
    if b.r.chance(70) {
        faults(&mut b);
    }
    b.init();
    b.settle();
    for _ in 0..b.r.range(0, 1) {
        b.steps.push(Step::ClearFaults);
        faults(&mut b);
        b.steps.push(Step::Reset);
        b.settle();
    }
    b.steps.push(Step::ClearFaults);
    let all: Vec<String> = b.texts.keys().cloned().collect();
    for d in all {
        b.ask(&d, Req::Symbols, false);
        if b.r.chance(30) {
            b.probe_names(&d, 1, 0);
            b.probe_completion(&d, 1, 0);
        }
    }
    b.finish("C11", "scan")
}

fn c12(seed: u64) -> Plan {
    let mut b = B::new("C12", seed, true);
    b.workspace();
    b.init();
    if b.r.chance(80) {
        b.settle();
    }
    for _ in 0..b.r.range(1, 3) {
        if let Some(d) = b.pick_doc() {
            b.open_doc(&d);
        }
    }
    if b.r.chance(25) {
        let n = b.fresh_name();
        let p = b.tpath(&n);
        b.open_new(&p, 3);
    }
    for _ in 0..b.r.range(1, 3) {
        for _ in 0..b.r.range(1, 4) {
            if let Some(d) = b.pick_open() {
                b.edit(&d);
            }
            b.gap();
        }
        if b.r.chance(35) {
            // somebody else changes the file on the disk
            b.settle();
            if let Some(d) = b.pick_open() {
                if b.r.chance(70) {
                    let n = b.r.range(1, 4);
                    let t = b.gen_content(&d, n).concat();
                    b.write_disk(&d, t);
                } else {
                    b.steps.push(Step::Disk(DiskOp::Remove { path: d.clone() }));
                }
                b.dirty.insert(d);
            }
        }
        let n = b.r.range(1, 2);
        for _ in 0..n {
            match b.r.below(4) {
                0 => {
                    let value = b.config();
                    b.steps.push(Step::Config { value });
                }
                1 => b.steps.push(Step::Initialized),
                _ => b.steps.push(Step::Reset),
            }
            b.gap();
            if b.r.chance(40) {
                if let Some(d) = b.pick_open() {
                    b.edit(&d);
                }
            }
        }
        b.settle();
        b.probe_all(1);
        b.steps.push(Step::Barrier);
    }
    b.finish("C12", "rescan")
}

fn c13(seed: u64) -> Plan {
    let mut b = B::new("C13", seed, true);
    b.workspace();
    b.init();
    b.settle();
    for _ in 0..b.r.range(1, 3) {
        for _ in 0..b.r.range(1, 4) {
            let all: Vec<String> = b.texts.keys().filter(|k| !b.open.contains(*k)).cloned().collect();
            match b.r.below(8) {
                0..=1 => {
                    let n = b.fresh_name();
                    let p = if b.r.chance(70) { b.tpath(&n) } else { b.tpath(&format!("newdir/{n}")) };
                    let n = b.r.range(1, 4);
                    let d = b.gen_content(&p, n);
                    b.write_disk(&p, d.concat());
                    b.texts.insert(p, d);
                }
                2..=3 if !all.is_empty() => {
                    let p = b.r.pick(&all).clone();
                    let n = b.r.range(1, 4);
                    let d = b.gen_content(&p, n);
                    b.write_disk(&p, d.concat());
                    b.texts.insert(p, d);
                }
                4..=5 if !all.is_empty() => {
                    let p = b.r.pick(&all).clone();
                    b.steps.push(Step::Disk(DiskOp::Remove { path: p.clone() }));
                }
                6 if !all.is_empty() => {
                    let p = b.r.pick(&all).clone();
                    if B::is_template(&p) {
                        let n = b.fresh_name();
                        let q = b.tpath(&n);
                        b.steps.push(Step::Disk(DiskOp::Rename { from: p.clone(), to: q.clone() }));
                        let d = b.texts[&p].clone();
                        b.texts.insert(q, d);
                    }
                }
                _ => {
                    if let Some(d) = b.pick_doc() {
                        b.open_doc(&d);
                        b.edit(&d);
                    }
                }
            }
            if b.r.chance(20) {
                if let Some(d) = b.pick_open() {
                    b.close(&d);
                }
            }
        }
        if b.r.chance(8) {
            // a whole directory goes away, perhaps to come back
            let mut dirs: Vec<String> = b.bdirs.iter().map(|d| crate::vfs::norm(d)).collect();
            dirs.push(b.troot());
            let from = b.r.pick(&dirs).clone();
            let to = format!("{ROOT}/away");
            b.steps.push(Step::Disk(DiskOp::Rename { from: from.clone(), to: to.clone() }));
            if b.r.chance(60) {
                b.settle();
                b.steps.push(Step::Reset);
                b.settle();
                b.probe_all(1);
                b.steps.push(Step::Barrier);
                b.steps.push(Step::Disk(DiskOp::Rename { from: to, to: from }));
            }
        }
        if b.r.chance(30) {
            b.settle();
        }
        match b.r.below(4) {
            0 => {
                let value = b.config();
                b.steps.push(Step::Config { value });
            }
            _ => b.steps.push(Step::Reset),
        }
        b.settle();
        b.probe_all(1);
        b.steps.push(Step::Barrier);
    }
    b.finish("C13", "disk changes")
}

fn c14(seed: u64) -> Plan {
    let mut b = B::new("C14", seed, false);
    b.st.refs = 55;
    b.st.scopes = 10;
    if b.r.chance(25) {
        // missing names that resemble one another
        let n = b.r.pick(&b.absent.clone()).clone();
        for _ in 0..b.r.range(1, 2) {
            let n = relative(&mut b.r, &n);
            if !b.st.templates.contains(&n) {
                b.st.templates.push(n.clone());
                b.absent.push(n);
            }
        }
    }
    b.workspace();
    b.init();
    b.settle();
    for _ in 0..b.r.range(1, 3) {
        let Some(d) = b.pick_doc() else { break };
        b.open_doc(&d);
        b.edit(&d);
        b.settle();
        let Some(m) = b.model(&d) else { continue };
        let t = b.text(&d);
        if m.refs.is_empty() {
            continue;
        }
        let r = b.r.pick(&m.refs).clone();
        let off = inside(&mut b.r, &t, r.start + 1, r.end);
        let at = at_of(&t, off);
        b.ask(&d, Req::CodeAction(at), true);
        if b.r.chance(75) {
            // the editor creates the file
            b.steps.push(Step::Sleep { ms: *b.r.pick(&[0, 5, 300, 1000]) });
            let p = b.tpath(&r.name);
            if b.r.chance(20) {
                b.edit(&d);
            }
            b.write_disk(&p, String::new());
            b.texts.entry(p).or_insert(vec![]);
        }
        b.settle();
        b.probe_actions(&d, 3);
        b.settle();
    }
    // the fixes that were on offer survive a rescan
    if b.r.chance(50) {
        b.steps.push(Step::Reset);
        b.settle();
        for d in b.texts.keys().cloned().collect::<Vec<_>>() {
            b.probe_actions(&d, 2);
        }
        b.settle();
    }
    b.finish("C14", "quick fix")
}

fn c15(seed: u64) -> Plan {
    let mut b = B::new("C15", seed, true);
    b.st.scopes = 40;
    b.workspace();
    b.init();
    if b.r.chance(30) {
        b.transparent_fault();
    }
    for _ in 0..b.r.range(1, 2) {
        let n = b.r.range(0, 5);
        activity(&mut b, n, true);
        b.settle();
        let all: Vec<String> = b.texts.keys().cloned().collect();
        for d in all {
            b.probe_names(&d, 5, 15);
            b.probe_text(&d, 3, 15);
            b.probe_blank(&d, 4, 15);
        }
        b.steps.push(Step::Barrier);
    }
    b.finish("C15", "navigation")
}

fn c16(seed: u64) -> Plan {
    let mut b = B::new("C16", seed, true);
    b.st.scopes = 40;
    b.workspace();
    b.init();
    for _ in 0..b.r.range(1, 2) {
        let n = b.r.range(0, 5);
        activity(&mut b, n, true);
        b.settle();
        let all: Vec<String> = b.texts.keys().cloned().collect();
        for d in all {
            b.probe_completion(&d, 5, 15);
            b.probe_blank(&d, 3, 15);
            if b.r.chance(30) {
                b.begin_statement(&d);
            }
        }
        b.steps.push(Step::Barrier);
    }
    b.finish("C16", "completion")
}

fn c20(seed: u64) -> Plan {
    let mut b = B::new("C20", seed, true);
    b.st.scopes = 50;
    b.workspace();
    b.init();
    for _ in 0..b.r.range(1, 3) {
        let n = b.r.range(0, 8);
        activity(&mut b, n, true);
        b.settle();
        let all: Vec<String> = b.texts.keys().cloned().collect();
        for d in all {
            b.ask(&d, Req::Symbols, false);
        }
        b.steps.push(Step::Barrier);
    }
    b.finish("C20", "outline")
}

fn c21(seed: u64) -> Plan {
    let mut b = B::new("C21", seed, true);
    b.bdirs = if b.r.chance(60) { vec!["./src".into()] } else { vec!["./src".into(), "lib/more".into()] };
    b.st.vars.truncate(5);
    b.workspace();
    b.init();
    b.settle();
    for _ in 0..b.r.range(1, 4) {
        let d = if b.r.chance(50) {
            let v = b.docs(false);
            if v.is_empty() { b.pick_doc() } else { Some(b.r.pick(&v).clone()) }
        } else {
            b.pick_doc()
        };
        let Some(d) = d else { break };
        b.open_doc(&d);
        b.edit(&d);
        if b.r.chance(70) {
            b.settle();
        }
        // another document is checked afterwards
        if let Some(e) = b.pick_doc() {
            if e != d {
                b.open_doc(&e);
                if b.r.chance(40) {
                    b.save(&e);
                } else {
                    b.edit(&e);
                }
                b.settle();
            }
        }
        let all: Vec<String> = b.docs(true);
        for e in all {
            b.probe_names(&e, 2, 10);
            b.probe_completion(&e, 1, 10);
        }
        b.steps.push(Step::Barrier);
    }
    b.finish("C21", "cross-file")
}

fn c17(seed: u64) -> Plan {
    let mut b = B::new("C17", seed, true);
    b.workspace();
    // a second tree to switch to
    let mut alt = vec![];
    for (i, dir) in ["views", "other/tpl"].iter().enumerate() {
        for k in 0..2 {
            let p = format!("{ROOT}/{dir}/alt{i}{k}.html");
            let d = b.g().doc(3);
            b.put_disk(&p, d);
        }
        alt.push(dir.to_string());
    }
    let ext = if b.py { "py" } else { "rs" };
    let py = b.py;
    let d = b.g().backend(py, 3);
    b.put_disk(&format!("{ROOT}/back2/m.{ext}"), d);
    let lang = if b.py { "python" } else { "rust" };
    // and the other language
    let (other, ext) = if py { ("rust", "rs") } else { ("python", "py") };
    let d = b.g().backend(!py, 3);
    b.put_disk(&format!("{ROOT}/back3/m.{ext}"), d);
    let config = |b: &mut B| -> Value {
        let mut dirs = alt.clone();
        dirs.push(b.tdir.clone());
        if b.r.chance(15) {
            dirs = vec!["./nowhere/templates".into()];
        }
        let mut c = json!({
            "templates": b.r.pick(&dirs),
            "backend": match b.r.below(10) {
                0..=2 => json!([]),
                3..=5 => json!(["back2"]),
                6 => json!(["nowhere", "back2"]),
                _ => json!(b.bdirs),
            },
            "lang": lang,
        });
        if b.r.chance(30) {
            c["hide_undefined"] = json!(b.r.chance(70));
        }
        if b.r.chance(10) {
            c["unknown_key"] = json!(1);
        }
        match b.r.below(10) {
            0..=2 => {
                c["lang"] = json!(other);
                c["backend"] = json!(["back3"]);
            }
            3 => c["lang"] = json!(*b.r.pick(&["cobol", "", "Rust"])),
            _ => {}
        }
        c
    };
    let bad = |b: &mut B| -> Value {
        match b.r.below(5) {
            0 => json!({"templates": "views"}),
            1 => json!({"templates": "views", "backend": "src", "lang": lang}),
            2 => json!(null),
            3 => json!({"templates": 5, "backend": [], "lang": lang}),
            _ => json!({}),
        }
    };
    for f in ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"] {
        if b.r.chance(50) {
            let t = match b.r.below(5) {
                0 => "[package]\nname = \"x\"\n".to_string(),
                1 => "<<< not toml\n".to_string(),
                2 => "[jinja-lsp]\ntemplates = \"views\"\n".to_string(),
                _ => {
                    let c = config(&mut b);
                    let mut t = String::from("[other]\nk = 1\n\n[jinja-lsp]\n");
                    for (k, v) in c.as_object().unwrap() {
                        if k != "unknown_key" {
                            t += &format!("{k} = {v}\n");
                        }
                    }
                    t
                }
            };
            b.disk.insert(format!("{ROOT}/{f}"), Node::File { data: t.into_bytes(), unreadable: b.r.chance(8) });
        }
    }
    let options = match b.r.below(4) {
        0 => None,
        1 => Some(bad(&mut b)),
        _ => Some(config(&mut b)),
    };
    let client = b.client.clone();
    b.steps.push(Step::Initialize { options, client, caps: b.caps.clone() });
    b.steps.push(Step::Initialized);
    let n = b.r.range(0, 3);
    if b.r.chance(50) {
        if let Some(d) = b.pick_doc() {
            b.open_doc(&d);
        }
    }
    for _ in 0..n {
        match b.r.below(5) {
            0 => {
                let v = bad(&mut b);
                b.steps.push(Step::Config { value: v });
            }
            1 => b.steps.push(Step::Reset),
            2 => b.settle(),
            _ => {
                let v = config(&mut b);
                b.steps.push(Step::Config { value: v });
            }
        }
        b.gap();
        if b.r.chance(30) {
            if let Some(d) = b.pick_doc() {
                b.open_doc(&d);
                b.edit(&d);
            }
        }
    }
    b.settle();
    b.probe_all(1);
    b.settle();
    if let Some(d) = b.pick_doc() {
        b.open_doc(&d);
        b.edit(&d);
        b.settle();
    }
    b.finish("C17", "configuration")
}

/// Sessions of all kinds of clients; they do what they are told they can.
fn c24(seed: u64) -> Plan {
    let mut b = B::new("C24", seed, false);
    b.workspace();
    for _ in 0..b.r.range(1, 2) {
        let mut p = json!({"processId": *b.r.pick(&[1u32, 4711]), "rootUri": uri(ROOT), "capabilities": {}});
        match b.r.below(6) {
            0 => {}
            1 => p["initializationOptions"] = json!(null),
            2 => p["initializationOptions"] = json!({"templates": 1}),
            _ => p["initializationOptions"] = b.config(),
        }
        if b.r.chance(60) {
            p["clientInfo"] = json!({"name": *b.r.pick(&["Visual Studio Code", "Neovim", "helix", "Emacs", ""]), "version": "1"});
        }
        if b.r.chance(30) {
            p["workspaceFolders"] = json!([{"uri": uri(ROOT), "name": "w"}]);
            p["rootUri"] = json!(null);
        }
        if b.r.chance(60) {
            p["capabilities"] = client_caps(&mut b.r);
        }
        b.steps.push(Step::Raw { body: json!({"jsonrpc": "2.0", "method": "initialize", "params": p}), request: true });
        b.steps.push(Step::Barrier);
    }
    b.steps.push(Step::Initialized);
    if b.r.chance(70) {
        b.settle();
    }
    for _ in 0..b.r.range(1, 4) {
        let n = b.r.range(1, 6);
        activity(&mut b, n, true);
        if let Some(d) = b.pick_doc() {
            b.open_doc(&d);
            let n = b.r.range(1, 6);
            b.probe_text(&d, n, 60);
            b.probe_actions(&d, 3);
        }
        if let Some(d) = b.pick_doc() {
            for _ in 0..b.r.below(4) {
                let at = json!({"line": b.r.below(4), "character": b.r.below(20)});
                let mut p = json!({"textDocument": {"uri": uri(&d)}, "position": at, "range": {"start": at, "end": at}});
                let (_, m) = *b.r.pick(&crate::check::PROVIDERS);
                match m {
                    "textDocument/references" => p["context"] = json!({"includeDeclaration": true}),
                    "textDocument/rename" => p["newName"] = json!("renamed"),
                    "textDocument/formatting" => p["options"] = json!({"tabSize": 2, "insertSpaces": true}),
                    "completionItem/resolve" => p = json!({"label": "upper"}),
                    "codeAction/resolve" => p = json!({"title": "x"}),
                    "workspace/symbol" => p = json!({"query": ""}),
                    _ => {}
                }
                b.steps.push(Step::Raw { body: json!({"jsonrpc": "2.0", "method": m, "params": p}), request: true });
            }
        }
        for name in ["reset_variables", "warn"] {
            if b.r.chance(40) {
                b.steps.push(Step::Command { name: name.into() });
            }
        }
        if b.r.chance(40) {
            b.settle();
        }
    }
    b.settle();
    b.finish("C24", "announcement")
}

fn c18(seed: u64) -> Plan {
    let mut b = B::new("C18", seed, true);
    b.st.refs = 20;
    b.workspace();
    b.init();
    for _ in 0..b.r.range(1, 3) {
        let n = b.r.range(2, 8);
        activity(&mut b, n, true);
        if b.r.chance(30) {
            let v = b.config();
            b.steps.push(Step::Config { value: v });
        }
        if b.r.chance(30) {
            b.steps.push(Step::Command { name: (*b.r.pick(&["warn", "reset_variables", "other"])).into() });
        }
        b.settle();
        b.probe_all(1);
        if let Some(d) = b.pick_doc() {
            b.probe_actions(&d, 3);
        }
        b.settle();
    }
    if b.r.chance(50) {
        b.steps.push(Step::Shutdown);
        b.steps.push(Step::Exit);
    }
    b.finish("C18", "read only")
}

/// A request of any kind at any position.
fn wild_ask(b: &mut B, doc: &str) {
    let t = b.text(doc);
    let at = match b.r.below(8) {
        0 => At::Pos(b.r.below(40) as u32, b.r.below(200) as u32),
        1 => At::Pos(*b.r.pick(&[0, 1, u32::MAX, 100000]), *b.r.pick(&[0, 1, u32::MAX, 70000])),
        _ => {
            let mut o = b.r.below(t.len() + 1);
            while !t.is_char_boundary(o) {
                o -= 1;
            }
            let (l, c) = crate::text::pos16(&t, o);
            At::Pos(l, c)
        }
    };
    let req = match b.r.below(5) {
        0 => Req::Hover(at),
        1 => Req::Goto(at),
        2 => Req::Completion(at),
        3 => Req::CodeAction(at),
        _ => Req::Symbols,
    };
    let w = b.r.chance(15);
    b.ask(doc, req, w);
}

fn c01(seed: u64) -> Plan {
    let mut b = B::new("C01", seed, true);
    b.workspace();
    if b.r.chance(30) {
        // before initialisation
        for _ in 0..b.r.range(1, 3) {
            let u = uri(&b.tpath("a.html"));
            b.steps.push(Step::Raw {
                body: json!({"jsonrpc": "2.0", "method": "textDocument/documentSymbol", "params": {"textDocument": {"uri": u}}}),
                request: true,
            });
        }
    }
    b.init();
    let paused = b.r.chance(30) && pause_around(&mut b);
    for _ in 0..b.r.range(4, 30) {
        match b.r.below(16) {
            0 => {
                let m = *b.r.pick(&["textDocument/foldingRange", "nope/unknown", "workspace/symbol"]);
                b.steps.push(Step::Raw { body: json!({"jsonrpc": "2.0", "method": m, "params": {}}), request: true });
            }
            1 => {
                let (m, p) = match b.r.below(4) {
                    0 => ("textDocument/hover", json!({})),
                    1 => ("textDocument/definition", json!({"textDocument": 5})),
                    2 => ("textDocument/completion", json!({"textDocument": {"uri": "not a uri"}, "position": {"line": 0, "character": 0}})),
                    _ => ("textDocument/documentSymbol", json!([1, 2])),
                };
                b.steps.push(Step::Raw { body: json!({"jsonrpc": "2.0", "method": m, "params": p}), request: true });
            }
            2 => b.steps.push(Step::Cancel { back: b.r.below(3) }),
            3 => b.steps.push(Step::Reset),
            4 => b.steps.push(Step::Command { name: (*b.r.pick(&["warn", "no_such_command"])).into() }),
            5..=6 => activity(&mut b, 1, false),
            7 => {
                let v = if b.r.chance(50) { b.config() } else { json!(3) };
                b.steps.push(Step::Config { value: v });
            }
            8 => b.gap(),
            _ => {
                if let Some(d) = b.pick_doc() {
                    let d = match b.r.below(10) {
                        0 => b.tpath("never_heard_of.html"),
                        1 => format!("{ROOT}/readme.txt"),
                        _ => d,
                    };
                    wild_ask(&mut b, &d);
                }
            }
        }
    }
    if paused {
        b.steps.push(Step::Sleep { ms: 300 });
        b.steps.push(Step::Resume);
    }
    b.steps.push(Step::Barrier);
    if b.r.chance(40) {
        b.steps.push(Step::Shutdown);
        b.steps.push(Step::Barrier);
        if let Some(d) = b.pick_doc() {
            wild_ask(&mut b, &d);
            wild_ask(&mut b, &d);
        }
        b.steps.push(Step::Barrier);
    }
    b.finish("C01", "requests")
}

fn c02(seed: u64) -> Plan {
    let mut b = B::new("C02", seed, true);
    b.workspace();
    // odd content on the disk
    for i in 0..b.r.range(0, 4) {
        let base = b.pick_doc().unwrap_or_default();
        let t = b.splice(&base);
        let ext = *b.r.pick(&["html", "j2", "rs", "py"]);
        let dir = if ext.len() == 2 && ext != "j2" { format!("{ROOT}/src") } else { b.troot() };
        b.disk.insert(format!("{dir}/odd{i}.{ext}"), Node::File { data: t.into_bytes(), unreadable: false });
    }
    if b.r.chance(3) {
        // very deep nesting
        let n = *b.r.pick(&[300, 4_000, 20_000]);
        let backend = b.r.chance(50);
        let t = if backend && !b.py {
            format!("fn main() {{ let a = {}1{}; }}\n", "(".repeat(n), ")".repeat(n))
        } else if backend {
            format!("a = {}1{}\n", "[".repeat(n), "]".repeat(n))
        } else {
            match b.r.below(3) {
                0 => format!("{{{{ {}a1{} }}}}", "(".repeat(n), ")".repeat(n)),
                1 => format!("{}x{}", "{% if a1 %}".repeat(n / 10), "{% endif %}".repeat(n / 10)),
                _ => format!("{{{{ a1{} }}}}", "|upper".repeat(n / 5)),
            }
        };
        let p = if backend { format!("{ROOT}/src/deep.{}", if b.py { "py" } else { "rs" }) } else { b.tpath("deep.html") };
        if b.r.chance(50) {
            b.put_disk(&p, vec![t]);
        } else {
            b.texts.insert(p.clone(), vec![t]);
            b.dirty.insert(p);
        }
    }
    b.init();
    let paused = b.r.chance(20) && pause_around(&mut b);
    for _ in 0..b.r.range(4, 25) {
        let Some(d) = b.pick_doc() else { break };
        match b.r.below(20) {
            0..=5 => {
                b.open_doc(&d);
                let text = b.splice(&d);
                b.texts.insert(d.clone(), vec![text.clone()]);
                let style = b.any_style();
                b.steps.push(Step::Change { doc: d, text, style });
            }
            6..=11 => wild_ask(&mut b, &d),
            12 => {
                // a change with positions that do not exist
                b.open_doc(&d);
                let mut p = |b: &mut B| json!({"line": *b.r.pick(&[0u32, 1, 7, 900, u32::MAX]), "character": *b.r.pick(&[0u32, 3, 80, 9000, u32::MAX])});
                let (s, e) = (p(&mut b), p(&mut b));
                b.steps.push(Step::Raw {
                    body: json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                        "textDocument": {"uri": uri(&d), "version": 7},
                        "contentChanges": [{"range": {"start": s, "end": e}, "text": *b.r.pick(&["", "x", "{{ é😀", "{% for"])}]}}),
                    request: false,
                });
                // the editor's own copy is authoritative again
                let text = b.text(&d);
                b.steps.push(Step::Change { doc: d, text, style: Style::Full });
            }
            13 => {
                // messages about documents nobody opened, or no file at all
                let u = (*b.r.pick(&[
                    "file:///simws/templates/ghost.html",
                    "untitled:Untitled-1",
                    "untitled:Untitled-1.html",
                    "untitled:/simws/templates/a.html",
                    "git:/simws/templates/a.html?ref.html",
                    "file:///simws/templates/a.html#x.html",
                    "file://server/share/x.html",
                    "file:///C%3A/work/x.html",
                    "file:///",
                    "file:///simws/templates/%FF%FE.html",
                    "http://x/y.html",
                    "data:text/html,x.html",
                    "file:///simws/src/x.rs",
                    "untitled:m.py",
                    "file:///simws/no_ext",
                ]))
                .to_string();
                if b.r.chance(40) {
                    b.steps.push(Step::Raw {
                        body: json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "jinja", "version": 1, "text": "{% set a1 = 1 %}{{ a1|upper }}{{ b }}{% include \"x.html\" %}"}}}),
                        request: false,
                    });
                }
                let m = match b.r.below(4) {
                    0 => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": 1}, "contentChanges": [{"text": "{{ a }}"}]}}),
                    1 => json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}}}),
                    2 => json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": u}}}),
                    _ => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "jinja", "version": 1, "text": "{{ a|upper }}{% include \"x.html\" %}"}}}),
                };
                b.steps.push(Step::Raw { body: m, request: false });
                for m in ["textDocument/hover", "textDocument/definition", "textDocument/completion", "textDocument/documentSymbol", "textDocument/codeAction"] {
                    if b.r.chance(40) {
                        let pos = json!({"line": 0, "character": b.r.below(60)});
                        let context = if m.ends_with("codeAction") { json!({"diagnostics": []}) } else { json!({"triggerKind": 1}) };
                        b.steps.push(Step::Raw {
                            body: json!({"jsonrpc": "2.0", "method": m, "params": {"textDocument": {"uri": u}, "position": pos, "range": {"start": pos, "end": pos}, "context": context}}),
                            request: true,
                        });
                    }
                }
            }
            14 => b.steps.push(Step::Reset),
            15 => {
                let v = match b.r.below(5) {
                    0 => json!({"templates": "", "backend": [], "lang": "rust"}),
                    1 => json!({"templates": "./nowhere", "backend": [], "lang": "rust"}),
                    2 => json!({"templates": b.tdir, "backend": b.bdirs, "lang": "cobol"}),
                    3 => json!({"templates": b.tdir, "backend": b.bdirs, "lang": if b.r.chance(50) { "python" } else { "rust" }}),
                    _ => json!("x"),
                };
                b.steps.push(Step::Config { value: v });
            }
            16 => b.transparent_fault(),
            17 => {
                b.save(&d);
                if b.r.chance(40) {
                    b.close(&d);
                }
            }
            18 => b.steps.push(Step::Cancel { back: b.r.below(3) }),
            _ => b.gap(),
        }
        b.gap();
    }
    if paused {
        b.steps.push(Step::Resume);
    }
    b.steps.push(Step::ClearFaults);
    b.steps.push(Step::Barrier);
    b.settle();
    // it still works
    let value = b.config();
    b.steps.push(Step::Config { value });
    let p = b.tpath("alive.html");
    b.texts.insert(p.clone(), vec!["{% set zz = 1 %}".into(), "{{ zz|upper }}".into()]);
    b.steps.push(Step::Mark("alive".into()));
    b.open_doc(&p);
    b.ask(&p, Req::Hover(At::Find("upper".into(), 0, 1)), true);
    b.settle();
    b.ask(&p, Req::Symbols, true);
    b.ask(&p, Req::Goto(At::Find("zz".into(), 1, 1)), true);
    b.finish("C02", "anything")
}

fn c04(seed: u64) -> Plan {
    let mut b = B::new("C04", seed, true);
    b.workspace();
    b.init();
    if b.r.chance(50) {
        b.settle();
    }
    let mut scanning = true;
    for _ in 0..b.r.range(3, 16) {
        let Some(d) = b.pick_doc() else { break };
        match b.r.below(20) {
            0..=5 => {
                b.open_doc(&d);
                b.edit(&d);
            }
            6..=9 => {
                b.open_doc(&d);
                b.spoil(&d);
            }
            10 => b.save(&d),
            11 => b.close(&d),
            12 => {
                b.steps.push(Step::Reset);
                scanning = true;
            }
            13 => {
                if !b.open.contains(&d) {
                    if scanning {
                        b.settle();
                        scanning = false;
                    }
                    let n = b.r.range(1, 4);
                    let c = b.gen_content(&d, n);
                    b.write_disk(&d, c.concat());
                    b.texts.insert(d, c);
                }
            }
            14 => {
                if !b.open.contains(&d) {
                    b.steps.push(Step::Disk(DiskOp::Remove { path: d }));
                }
            }
            15 if b.r.chance(40) => {
                // the server dies; the editor starts it again and reopens
                let open: Vec<String> = b.open.iter().cloned().collect();
                b.steps.push(Step::Crash { after: b.r.below(40) as u32 });
                b.init();
                scanning = true;
                b.open.clear();
                for d in open {
                    b.open_doc(&d);
                }
            }
            16..=17 => wild_ask(&mut b, &d),
            _ => b.gap(),
        }
        b.gap();
    }
    b.settle();
    b.steps.push(Step::Reset);
    b.settle();
    b.steps.push(Step::Mark("compare".into()));
    let all: Vec<String> = b.texts.keys().cloned().collect();
    for d in all {
        b.ask(&d, Req::Symbols, false);
        for _ in 0..5 {
            wild_ask_valid(&mut b, &d);
        }
    }
    b.finish("C04", "history")
}

/// Like `wild_ask`, at a position that exists in the document.
fn wild_ask_valid(b: &mut B, doc: &str) {
    let t = b.text(doc);
    let mut o = b.r.below(t.len() + 1);
    while !t.is_char_boundary(o) {
        o -= 1;
    }
    let (l, c) = crate::text::pos16(&t, o);
    let at = At::Pos(l, c);
    let req = match b.r.below(4) {
        0 => Req::Hover(at),
        1 => Req::Goto(at),
        2 => Req::Completion(at),
        _ => Req::CodeAction(at),
    };
    b.ask(doc, req, false);
}

/// `exit`, and the editor closes its end of the connection (rarely not).
fn exit(b: &mut B) {
    b.steps.push(Step::Exit);
    if b.r.chance(50) {
        let ms = *b.r.pick(&[0u64, 10, 2000]);
        b.steps.push(Step::Sleep { ms });
    }
    if b.r.chance(92) {
        b.steps.push(Step::Eof { mid_frame: false });
    }
}

fn c19(seed: u64) -> Plan {
    let mut b = B::new("C19", seed, true);
    b.workspace();
    if b.r.chance(8) {
        // never initialised
        if b.r.chance(50) {
            exit(&mut b);
        } else {
            let mid_frame = b.r.chance(50);
            b.steps.push(Step::Eof { mid_frame });
        }
        b.steps.push(Step::Sleep { ms: 5000 });
        return b.finish("C19", "end");
    }
    b.init();
    if b.r.chance(50) {
        b.settle();
    }
    let n = b.r.range(0, 8);
    activity(&mut b, n, true);
    if b.r.chance(40) {
        if let Some(d) = b.pick_doc() {
            for _ in 0..b.r.range(1, 6) {
                wild_ask(&mut b, &d);
            }
        }
    }
    match b.r.below(4) {
        0 => b.steps.push(Step::Eof { mid_frame: b.r.chance(40) }),
        1 => exit(&mut b),
        _ => {
            b.steps.push(Step::Shutdown);
            b.steps.push(Step::Barrier);
            if b.r.chance(40) {
                if let Some(d) = b.pick_doc() {
                    wild_ask(&mut b, &d);
                    b.steps.push(Step::Barrier);
                }
            }
            if b.r.chance(75) {
                exit(&mut b);
            } else {
                b.steps.push(Step::Eof { mid_frame: false });
            }
        }
    }
    b.steps.push(Step::Sleep { ms: 5000 });
    b.finish("C19", "end")
}
