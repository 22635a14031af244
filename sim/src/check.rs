//! Oracles: from a plan and the recorded history of its run to findings.
use crate::exec::{self, canon, Ev, RunResult};
use crate::plan::*;
use crate::vfs::Node;
use crate::world::{self, compare, compare_diags, Docs, Expect, World};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Finding {
    pub tag: String,
    pub detail: String,
    pub t: u64,
    /// Position in the history.
    pub at: usize,
}

impl Finding {
    /// What a smaller plan must still show.
    pub fn class(&self) -> String {
        if !["time", "life", "answer", "burst", "panic"].contains(&self.tag.as_str()) {
            let none = self.detail.ends_with("no diagnostics were published");
            return format!("{}{}", self.tag, if none { " none" } else { "" });
        }
        // the words of the message, without numbers, names and values
        let mut s = String::new();
        let mut depth = 0;
        for c in self.detail.chars() {
            match c {
                '{' | '[' | '(' => depth += 1,
                '}' | ']' | ')' => depth -= 1,
                c if depth == 0 && !c.is_ascii_digit() => s.push(c),
                _ => {}
            }
        }
        let words: Vec<&str> = s.split(' ').filter(|w| !w.contains('/') && !w.is_empty()).collect();
        format!("{} {}", self.tag, words.join(" "))
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// Judged observations by kind.
    pub judged: BTreeMap<String, u64>,
    pub skipped: u64,
}

impl Stats {
    fn add(&mut self, k: &str) {
        *self.judged.entry(k.to_string()).or_default() += 1;
    }
    pub fn total(&self) -> u64 {
        self.judged.values().sum()
    }
}

fn finding(tag: &str, t: u64, detail: String) -> Finding {
    Finding { tag: tag.into(), detail, t, at: usize::MAX }
}

/// Which findings count against which property.
pub fn tags(property: &str) -> &'static [&'static str] {
    match property {
        "C01" => &["answer", "stuck"],
        "C02" => &["panic", "stuck", "alive", "ended"],
        "C03" => &["vars", "refs", "symbols", "hover", "goto", "completion", "early"],
        "C04" => &["history"],
        "C05" => &["early", "hover", "goto", "completion", "symbols"],
        "C06" => &["vars", "refs", "caught"],
        "C07" => &["time"],
        "C08" => &["burst"],
        "C09" => &["vars"],
        "C10" => &["refs"],
        "C11" => &["symbols", "goto", "hover", "completion", "early", "refs", "vars"],
        "C12" => &["symbols", "goto", "hover", "completion", "early", "vars", "refs"],
        "C13" => &["symbols", "goto", "hover", "completion", "early", "vars", "refs"],
        "C14" => &["action", "refs"],
        "C15" => &["goto", "hover", "early"],
        "C16" => &["completion", "early"],
        "C17" => &["symbols", "goto", "hover", "completion", "early", "vars", "refs", "told"],
        "C18" => &["write"],
        "C19" => &["life"],
        "C20" => &["symbols"],
        "C21" => &["vars", "goto", "hover", "completion"],
        "C24" => &["announce"],
        _ => &[],
    }
}

fn fuzzy(p: &Plan) -> bool {
    p.sched.out_cap < 65536
        || p.sched.read_delay > 0
        || p.steps.iter().any(|s| match s {
            Step::Pause => true,
            Step::Inject(f) => matches!(f.act, crate::vfs::FaultAct::Stall(_)),
            _ => false,
        })
}

fn new_world(p: &Plan, r: &RunResult) -> World {
    let mut w = World::new(&p.disk, fuzzy(p));
    let mut soft: BTreeSet<String> = BTreeSet::new();
    let mut hard: BTreeSet<String> = BTreeSet::new();
    for (kind, path) in &r.fired_paths {
        let transparent = kind.ends_with(":short")
            || kind.ends_with(":stall")
            || ((kind.starts_with("Read:") || kind.starts_with("Open:")) && kind.ends_with("errno4"));
        if transparent {
            continue;
        }
        let q = w.disk.resolve(path, true).unwrap_or_else(|_| crate::vfs::norm(path));
        for x in [q, crate::vfs::norm(path)] {
            if kind.ends_with(":race") || kind.ends_with("errno2") {
                hard.insert(x);
            } else {
                soft.insert(x);
            }
        }
    }
    for s in &p.steps {
        if let Step::Inject(f) = s {
            if let crate::vfs::FaultAct::Mutate(op) = &f.act {
                use crate::vfs::DiskOp::*;
                match op {
                    Write { path, .. } | WriteBytes { path, .. } | Mkdir { path } | Link { path, .. } | Remove { path } | Chmod { path, .. } => {
                        hard.insert(crate::vfs::norm(path));
                    }
                    Rename { from, to } => {
                        hard.insert(crate::vfs::norm(from));
                        hard.insert(crate::vfs::norm(to));
                    }
                }
            }
        }
    }
    w.only_errors = soft.difference(&hard).cloned().collect();
    w.unsure = soft.union(&hard).cloned().collect();
    w
}

struct Asked {
    expect: Expect,
    method: String,
    params: Value,
    early: bool,
    mark: bool,
}

/// Replays the history through the reference model and compares.
pub fn judge(p: &Plan, r: &RunResult, docs: &Docs) -> (Vec<Finding>, Stats) {
    let mut out: Vec<Finding> = vec![];
    let mut st = Stats::default();
    let mut w = new_world(p, r);
    let mut asked: BTreeMap<i64, Asked> = BTreeMap::new();
    let mut alive = false;
    // changed since their diagnostics were last published
    let mut uncaught: BTreeSet<String> = BTreeSet::new();
    for (seq, (t, e)) in r.events.iter().enumerate() {
        let seq = seq + 1;
        match e {
            Ev::Sent { body, .. } => {
                let m = body["method"].as_str().unwrap_or("").to_string();
                if let (Some(id), true) = (body.get("id").and_then(|i| i.as_i64()), !m.is_empty()) {
                    let early = !w.settled;
                    let expect = w.expect(&m, &body["params"]);
                    if m == "textDocument/codeAction" && w.usable() {
                        // may start a later check of the document
                        if let Some(path) = path_of(body["params"]["textDocument"]["uri"].as_str().unwrap_or("")) {
                            let x = expect.clone();
                            if matches!(x, Expect::Create(_) | Expect::Skip) {
                                let s = w.settled;
                                if matches!(x, Expect::Create(_)) {
                                    w.recheck(&path, *t, seq);
                                    w.settled = s;
                                }
                            }
                        }
                    }
                    asked.insert(id, Asked { expect, method: m.clone(), params: body["params"].clone(), early, mark: alive });
                }
                w.step(*t, seq, e);
                if m == "textDocument/didChange" {
                    if let Some(path) = path_of(body["params"]["textDocument"]["uri"].as_str().unwrap_or("")) {
                        if w.open.contains_key(&path) {
                            uncaught.insert(path);
                        }
                    }
                }
            }
            Ev::Disk(_) => {
                for a in asked.values_mut() {
                    a.expect = Expect::Skip;
                }
                w.step(*t, seq, e);
            }
            Ev::Recv { body } => {
                if body["method"] == "textDocument/publishDiagnostics" {
                    if let Some(path) = path_of(body["params"]["uri"].as_str().unwrap_or("")) {
                        if uncaught.remove(&path) {
                            st.add("caught");
                        }
                    }
                }
                if body.get("method").is_some() {
                    continue;
                }
                let Some(id) = body.get("id").and_then(|i| i.as_i64()) else { continue };
                let Some(a) = asked.remove(&id) else { continue };
                if a.expect == Expect::Skip {
                    st.skipped += 1;
                    continue;
                }
                let short = a.method.rsplit('/').next().unwrap_or("");
                let tag = match short {
                    "definition" => "goto",
                    "documentSymbol" => "symbols",
                    "codeAction" => "action",
                    s => s,
                };
                st.add(tag);
                if a.early {
                    st.add("early");
                }
                if a.mark {
                    st.add("alive");
                }
                if let Some(d) = compare(&a.expect, body, docs) {
                    let detail = format!("{} {}: {d}", a.method, a.params);
                    if a.mark {
                        out.push(finding("alive", *t, detail.clone()));
                    }
                    if a.early {
                        out.push(finding("early", *t, detail.clone()));
                    }
                    out.push(finding(tag, *t, detail));
                }
            }
            Ev::Settled(i) => {
                w.step(*t, seq, e);
                let snap = &r.snaps[*i];
                // whatever the text is, it does not stay unjudged
                for path in std::mem::take(&mut uncaught) {
                    if w.usable() && w.open.contains_key(&path) && w.index.contains_key(&path) && !w.is_unsure(&path) {
                        st.add("caught");
                        out.push(finding("caught", *t, format!("no diagnostics of {path} were published since it changed")));
                    }
                }
                let paths: Vec<String> = w.index.keys().cloned().collect();
                for path in paths {
                    let Some(want) = w.diags(&path) else { continue };
                    let got = world::snapshot_diag(snap, &path);
                    st.add("vars");
                    if want.with_refs {
                        st.add("refs");
                    }
                    if want.strict {
                        st.add("vars-strict");
                    }
                    if let Some(d) = compare_diags(&want, got, true, false) {
                        out.push(finding("vars", *t, format!("diagnostics of {path}: {d}")));
                    }
                    if got.is_some() {
                        if let Some(d) = compare_diags(&want, got, false, true) {
                            out.push(finding("refs", *t, format!("diagnostics of {path}: {d}")));
                        }
                    }
                }
            }
            Ev::Mark(m) => alive = m == "alive",
            Ev::Killed => {
                asked.clear();
                w.step(*t, seq, e);
            }
            Ev::Stuck(ids) => {
                out.push(finding("stuck", *t, format!("requests {ids:?} were never answered")));
            }
            e => w.step(*t, seq, e),
        }
        for f in out.iter_mut().filter(|f| f.at == usize::MAX) {
            f.at = seq;
        }
    }
    for x in &r.panics {
        out.push(finding("panic", r.virtual_ms, x.clone()));
    }
    if r.runaway {
        out.push(finding("runaway", r.virtual_ms, "the server keeps running without end".into()));
    }
    for x in &r.writes {
        out.push(finding("write", r.virtual_ms, x.clone()));
    }
    st.add("write");
    match p.property.as_str() {
        "C01" => answers(r, &mut out, &mut st),
        "C02" => {
            st.add("panic");
            if r.ended && !p.steps.iter().any(|s| matches!(s, Step::Exit | Step::Eof { .. })) {
                out.push(finding("ended", r.virtual_ms, "the server ended by itself".into()));
            }
        }
        "C07" => versions(p, r, &mut out, &mut st),
        "C08" => bursts(r, &mut out, &mut st),
        "C19" => lifecycle(p, r, &mut out, &mut st),
        "C17" => told(p, r, &mut out, &mut st),
        "C24" => announced(r, &mut out, &mut st),
        _ => {}
    }
    (out, st)
}

/// The user is warned of a configuration that cannot be used, and only then.
fn told(p: &Plan, r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    if fuzzy(p) || p.steps.iter().any(|s| matches!(s, Step::Inject(_) | Step::Crash { .. })) {
        return;
    }
    let mut w = new_world(p, r);
    let (mut good, mut bad, mut warned) = (0, 0, 0);
    for (seq, (t, e)) in r.events.iter().enumerate() {
        w.step(*t, seq + 1, e);
        match e {
            Ev::Sent { body, .. } if w.initialized => {
                let scans = match body["method"].as_str().unwrap_or("") {
                    "initialized" => true,
                    "workspace/didChangeConfiguration" => w.cfg.is_some(),
                    "workspace/executeCommand" => body["params"]["command"] == "reset_variables",
                    _ => false,
                };
                if scans {
                    let usable = w.cfg.as_ref().map_or(false, |c| w.selects(c));
                    *(if usable { &mut good } else { &mut bad }) += 1;
                }
            }
            Ev::Recv { body } if body["method"] == "window/logMessage" || body["method"] == "window/showMessage" => {
                warned += (body["params"]["type"].as_i64().map_or(false, |t| t == 1 || t == 2)) as u32;
            }
            Ev::Settled(_) => {
                if good + bad > 0 && !w.ambiguous {
                    st.add("told");
                    if bad > 0 && warned == 0 {
                        out.push(finding("told", *t, "the configuration cannot be used, and the user is not warned".into()));
                    }
                    if bad == 0 && warned > 0 {
                        out.push(finding("told", *t, "the user is warned of a usable configuration".into()));
                    }
                }
                (good, bad, warned) = (0, 0, 0);
            }
            _ => {}
        }
    }
}

/// Capabilities and the requests they announce.
pub const PROVIDERS: [(&str, &str); 19] = [
    ("hoverProvider", "textDocument/hover"),
    ("definitionProvider", "textDocument/definition"),
    ("completionProvider", "textDocument/completion"),
    ("documentSymbolProvider", "textDocument/documentSymbol"),
    ("completionProvider/resolveProvider", "completionItem/resolve"),
    ("codeActionProvider/resolveProvider", "codeAction/resolve"),
    ("referencesProvider", "textDocument/references"),
    ("renameProvider", "textDocument/rename"),
    ("documentHighlightProvider", "textDocument/documentHighlight"),
    ("documentFormattingProvider", "textDocument/formatting"),
    ("foldingRangeProvider", "textDocument/foldingRange"),
    ("signatureHelpProvider", "textDocument/signatureHelp"),
    ("typeDefinitionProvider", "textDocument/typeDefinition"),
    ("implementationProvider", "textDocument/implementation"),
    ("declarationProvider", "textDocument/declaration"),
    ("codeLensProvider", "textDocument/codeLens"),
    ("documentLinkProvider", "textDocument/documentLink"),
    ("inlayHintProvider", "textDocument/inlayHint"),
    ("workspaceSymbolProvider", "workspace/symbol"),
];

/// What the server announces suffices for all it does, and nothing is offered
/// or asked for that was not agreed on.
fn announced(r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    let mut commands: BTreeSet<String> = BTreeSet::new();
    let mut asked: BTreeMap<i64, (String, String)> = BTreeMap::new();
    let yes = |v: &Value| v.is_object() || v == &json!(true);
    let mut offered: BTreeSet<&str> = BTreeSet::new();
    let mut caps = Value::Null;
    for (t, e) in &r.events {
        let mut bad = |s: String| out.push(finding("announce", *t, s));
        match e {
            Ev::Sent { body, .. } => {
                if let (Some(id), Some(m)) = (body["id"].as_i64(), body["method"].as_str()) {
                    if m == "initialize" {
                        caps = body["params"]["capabilities"].clone();
                    }
                    asked.insert(id, (m.into(), body["params"]["command"].as_str().unwrap_or("").into()));
                }
            }
            Ev::Recv { body } => {
                if let Some(m) = body["method"].as_str() {
                    if body.get("id").is_some() && !may_ask(&caps, m) {
                        bad(format!("the server asks for {m}, which the client did not offer"));
                    }
                    continue;
                }
                let Some((m, command)) = body["id"].as_i64().and_then(|i| asked.get(&i)) else { continue };
                let res = &body["result"];
                if offered.contains(m.as_str()) {
                    st.add("announce");
                    if body["error"]["code"] == json!(-32601) {
                        bad(format!("{m} is announced, but not served"));
                    }
                }
                match m.as_str() {
                    "initialize" if !res.is_null() => {
                        st.add("announce");
                        let c = &res["capabilities"];
                        offered = PROVIDERS.iter().filter(|(k, _)| c.pointer(&format!("/{k}")).map_or(false, yes)).map(|x| x.1).collect();
                        for k in ["hoverProvider", "definitionProvider", "documentSymbolProvider", "codeActionProvider"] {
                            if !yes(&c[k]) {
                                bad(format!("{k} is not announced"));
                            }
                        }
                        if !c["completionProvider"].is_object() {
                            bad("completionProvider is not announced".into());
                        }
                        let sync = &c["textDocumentSync"];
                        let change = if sync.is_object() { sync["change"].as_i64() } else { sync.as_i64() };
                        if !matches!(change, Some(1 | 2)) {
                            bad(format!("changes of documents are not asked for: {sync}"));
                        }
                        if sync.is_object() && sync["openClose"] != json!(true) {
                            bad(format!("opened and closed documents are not asked for: {sync}"));
                        }
                        if sync.is_object() && !yes(&sync["save"]) {
                            bad(format!("saved documents are not asked for: {sync}"));
                        }
                        for k in ["positionEncoding", "offsetEncoding"] {
                            let e = &c[k];
                            let f = &res[k];
                            if ![e, f].iter().all(|v| v.is_null() || *v == "utf-16") {
                                bad(format!("{k} is {e} {f}, and was not offered"));
                            }
                        }
                        commands = c["executeCommandProvider"]["commands"].as_array().unwrap_or(&vec![]).iter().filter_map(|v| v.as_str().map(String::from)).collect();
                        if !commands.contains("reset_variables") {
                            bad("the command reset_variables is not announced".into());
                        }
                    }
                    "textDocument/codeAction" => {
                        for a in res.as_array().unwrap_or(&vec![]) {
                            let c = a["command"]["command"].as_str().or(a["command"].as_str());
                            st.add("announce");
                            if let Some(c) = c {
                                if !commands.contains(c) {
                                    bad(format!("the command {c} is offered, but not announced"));
                                }
                            }
                        }
                    }
                    "workspace/executeCommand" if commands.contains(command) => {
                        st.add("announce");
                        if body.get("error").is_some() {
                            bad(format!("the announced command {command} fails: {}", world::short(body)));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

/// The client offers to answer this request.
fn may_ask(caps: &Value, method: &str) -> bool {
    let on = |p: &str| caps.pointer(p) == Some(&json!(true));
    match method {
        "client/registerCapability" | "client/unregisterCapability" => caps.to_string().contains("\"dynamicRegistration\":true"),
        "workspace/applyEdit" => on("/workspace/applyEdit"),
        "workspace/configuration" => on("/workspace/configuration"),
        "workspace/workspaceFolders" => on("/workspace/workspaceFolders"),
        "window/workDoneProgress/create" => on("/window/workDoneProgress"),
        "window/showMessageRequest" => caps.pointer("/window/showMessage").is_some(),
        _ => false,
    }
}

/// Every request is answered exactly once, with the right kind of answer.
fn answers(r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    #[derive(Clone)]
    struct Q {
        method: String,
        params: Value,
        init: bool,
        down: bool,
        cancelled: bool,
        n: u32,
    }
    let mut qs: BTreeMap<i64, Q> = BTreeMap::new();
    let (mut init, mut down) = (false, false);
    let known = [
        "initialize",
        "shutdown",
        "textDocument/hover",
        "textDocument/definition",
        "textDocument/completion",
        "textDocument/codeAction",
        "textDocument/documentSymbol",
        "workspace/executeCommand",
    ];
    for (t, e) in &r.events {
        match e {
            Ev::Sent { body, .. } => {
                let m = body["method"].as_str().unwrap_or("").to_string();
                if m == "$/cancelRequest" {
                    if let Some(q) = body["params"]["id"].as_i64().and_then(|i| qs.get_mut(&i)) {
                        q.cancelled = true;
                    }
                    continue;
                }
                let Some(id) = body.get("id").and_then(|i| i.as_i64()) else { continue };
                if m.is_empty() {
                    continue;
                }
                qs.insert(id, Q { method: m.clone(), params: body["params"].clone(), init, down, cancelled: false, n: 0 });
                if m == "shutdown" {
                    down = true;
                }
            }
            Ev::Recv { body } if body.get("method").is_none() => {
                let Some(id) = body.get("id").and_then(|i| i.as_i64()) else {
                    out.push(finding("answer", *t, format!("answer without a request id: {}", world::short(body))));
                    continue;
                };
                let Some(q) = qs.get_mut(&id) else {
                    out.push(finding("answer", *t, format!("answer to a request never sent: {}", world::short(body))));
                    continue;
                };
                q.n += 1;
                st.add("answer");
                if body["jsonrpc"] != "2.0" || body.get("result").is_some() == body.get("error").is_some() {
                    out.push(finding("answer", *t, format!("malformed answer {}", world::short(body))));
                }
                if q.method == "initialize" && body.get("result").is_some() {
                    init = true;
                }
                let code = body["error"]["code"].as_i64();
                let pos = &q.params["position"];
                let good_params = match q.method.as_str() {
                    "textDocument/hover" | "textDocument/definition" | "textDocument/completion" => {
                        q.params["textDocument"]["uri"].as_str().map_or(false, |u| u.starts_with("file:///"))
                            && pos["line"].as_u64().map_or(false, |v| v <= u32::MAX as u64)
                            && pos["character"].as_u64().map_or(false, |v| v <= u32::MAX as u64)
                    }
                    "textDocument/documentSymbol" | "textDocument/codeAction" => {
                        q.params["textDocument"]["uri"].as_str().map_or(false, |u| u.starts_with("file:///"))
                    }
                    _ => true,
                };
                let want: &[Option<i64>] = if q.method == "initialize" {
                    &[None]
                } else if q.down {
                    &[Some(-32600)]
                } else if !q.init {
                    &[Some(-32002)]
                } else if !known.contains(&q.method.as_str()) {
                    &[Some(-32601), Some(-32602)]
                } else if !good_params {
                    &[Some(-32602)]
                } else {
                    &[None]
                };
                let ok = want.contains(&code) || (q.cancelled && code == Some(-32800));
                if !ok {
                    out.push(finding("answer", *t, format!("{} answered with error {code:?}, expected {want:?}", q.method)));
                }
            }
            _ => {}
        }
    }
    for (id, q) in &qs {
        if q.n != 1 && !r.ended {
            out.push(finding("answer", r.virtual_ms, format!("request {id} {} was answered {} times", q.method, q.n)));
        }
    }
}

/// The version of a document is the line of all of its diagnostics, and every
/// version has a number of them.
fn versions(p: &Plan, r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    let version = |t: &str| (t.matches('\n').count() as u64, t.matches("nope").count());
    let mut sent: BTreeMap<String, BTreeSet<(u64, usize)>> = BTreeMap::new();
    let mut cur: BTreeMap<String, (u64, usize)> = BTreeMap::new();
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let mut opened: BTreeSet<String> = BTreeSet::new();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    // a scan may find on the disk what the editor has saved meanwhile
    let mut saved: BTreeMap<String, BTreeSet<(u64, usize)>> = BTreeMap::new();
    let mut scanning = false;
    let mut latest: BTreeMap<String, (u64, usize)> = BTreeMap::new();
    for (path, n) in &p.disk {
        if let Node::File { data, .. } = n {
            let v = version(&String::from_utf8_lossy(data));
            cur.insert(uri(path), v);
            sent.entry(uri(path)).or_default().insert(v);
        }
    }
    for (t, e) in &r.events {
        match e {
            Ev::Sent { body, .. } => {
                let u = body["params"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                match body["method"].as_str().unwrap_or("") {
                    "initialized" | "workspace/executeCommand" | "workspace/didChangeConfiguration" => scanning = true,
                    "textDocument/didOpen" => {
                        let t = body["params"]["textDocument"]["text"].as_str().unwrap_or("").to_string();
                        let v = version(&t);
                        sent.entry(u.clone()).or_default().insert(v);
                        cur.insert(u.clone(), v);
                        opened.insert(u.clone());
                        texts.insert(u, t);
                    }
                    "textDocument/didChange" => {
                        let mut t = texts.get(&u).cloned().unwrap_or_default();
                        for c in body["params"]["contentChanges"].as_array().unwrap_or(&vec![]) {
                            t = crate::text::apply(&t, c);
                        }
                        let v = version(&t);
                        sent.entry(u.clone()).or_default().insert(v);
                        cur.insert(u.clone(), v);
                        texts.insert(u, t);
                    }
                    _ => {}
                }
            }
            Ev::Recv { body } if body["method"] == "textDocument/publishDiagnostics" => {
                let u = body["params"]["uri"].as_str().unwrap_or("").to_string();
                if !cur.contains_key(&u) {
                    continue;
                }
                let d = body["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                st.add("time");
                let last = seen.get(&u).copied().unwrap_or(0);
                let lines: BTreeSet<u64> = d.iter().map(|x| x["range"]["start"]["line"].as_u64().unwrap_or(0)).collect();
                if lines.len() > 1 {
                    out.push(finding("time", *t, format!("diagnostics for {u} on lines {lines:?}, every version has one line")));
                    continue;
                }
                let line = match lines.first() {
                    Some(l) => *l,
                    // any version without diagnostics
                    None => match sent[&u].iter().find(|(v, k)| *v >= last && *k == 0) {
                        Some(v) => v.0,
                        None => {
                            out.push(finding("time", *t, format!("no diagnostics for {u}, every version since {last} has some")));
                            continue;
                        }
                    },
                };
                let v = (line, d.len());
                if !sent[&u].contains(&v) {
                    out.push(finding("time", *t, format!("{} diagnostics of version {line} of {u}, which was never sent", v.1)));
                }
                if line < last {
                    out.push(finding("time", *t, format!("diagnostics of {u} went back from version {last} to {line}")));
                }
                latest.insert(u.clone(), v);
                let on_disk = saved.get(&u).map_or(false, |s| s.iter().any(|x| *x == v || (x.1 == 0 && v.1 == 0)));
                if !(scanning && on_disk) {
                    seen.insert(u, line.max(last));
                }
            }
            Ev::Disk(crate::vfs::DiskOp::Write { path, text }) => {
                saved.entry(uri(path)).or_default().insert(version(text));
            }
            Ev::Settled(_) => {
                scanning = false;
                for u in &opened {
                    st.add("final");
                    let same = match (latest.get(u), cur.get(u)) {
                        (Some(a), Some(b)) => a == b || (a.1 == 0 && b.1 == 0),
                        (a, b) => a == b,
                    };
                    if !same {
                        out.push(finding("time", *t, format!("last diagnostics of {u} are for version {:?}, the document is at {:?}", latest.get(u), cur.get(u))));
                    }
                }
            }
            _ => {}
        }
    }
}

/// A burst of edits makes one refresh, after its end and promptly. Opening and
/// saving a document and scanning the workspace refresh it at once besides.
fn bursts(r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    // first and last change, and how often there was a break; None if it is
    // too close to the delay to tell
    let mut last: BTreeMap<String, (u64, u64, Option<usize>)> = BTreeMap::new();
    let mut pubs: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut own: BTreeMap<String, usize> = BTreeMap::new();
    let mut scans = 0;
    let mut phase = 0;
    for (t, e) in &r.events {
        match e {
            Ev::Sent { body, .. } => {
                let u = body["params"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                match body["method"].as_str().unwrap_or("") {
                    "textDocument/didChange" => {
                        let x = last.entry(u).or_insert((*t, *t, Some(0)));
                        match *t - x.1 {
                            0..=150 => {}
                            151..=299 => x.2 = None,
                            _ => x.2 = x.2.map(|n| n + 1),
                        }
                        x.1 = *t;
                    }
                    "textDocument/didOpen" | "textDocument/didSave" => *own.entry(u).or_default() += 1,
                    "workspace/executeCommand" | "workspace/didChangeConfiguration" => scans += 1,
                    _ => {}
                }
            }
            Ev::Recv { body } if body["method"] == "textDocument/publishDiagnostics" => {
                let u = body["params"]["uri"].as_str().unwrap_or("").to_string();
                pubs.entry(u).or_default().push(*t);
            }
            Ev::Settled(_) => {
                phase += 1;
                if phase > 2 {
                    for (u, (a, b, breaks)) in &last {
                        let none = vec![];
                        let v = pubs.get(u).unwrap_or(&none);
                        let Some(breaks) = breaks else { continue };
                        st.add("burst");
                        let more = own.get(u).copied().unwrap_or(0) + scans;
                        if v.len() != 1 + breaks + more {
                            let n = if *breaks == 0 { "one burst".into() } else { format!("{} bursts", 1 + breaks) };
                            let m = if more == 0 { "".into() } else { format!(" and {more} more reasons") };
                            out.push(finding("burst", *t, format!("{} refreshes of {u} for {n} of edits ({a}..{b} ms){m}", v.len())));
                        } else if !v.iter().any(|at| (*b + 100..=*b + 1000).contains(at)) {
                            out.push(finding("burst", *t, format!("refresh of {u} at {v:?} ms, the last edit was at {b} ms")));
                        }
                    }
                    for (u, v) in &pubs {
                        let more = own.get(u).copied().unwrap_or(0) + scans;
                        if !last.contains_key(u) && v.len() != more {
                            out.push(finding("burst", *t, format!("{} refreshes of {u}, which was not edited, for {more} reasons", v.len())));
                        }
                    }
                }
                last.clear();
                pubs.clear();
                own.clear();
                scans = 0;
            }
            _ => {}
        }
    }
}

fn lifecycle(p: &Plan, r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    let mut shutdown: Option<i64> = None;
    let mut answered = false;
    let mut ended = None;
    let mut late: BTreeSet<i64> = BTreeSet::new();
    let mut initialized = false;
    for (t, e) in &r.events {
        match e {
            Ev::Sent { body, .. } => {
                if let Some(id) = body.get("id").and_then(|i| i.as_i64()) {
                    if body["method"] == "shutdown" && shutdown.is_none() {
                        shutdown = Some(id);
                    } else if shutdown.is_some() {
                        late.insert(id);
                    }
                }
                if body["method"] == "initialized" {
                    initialized = true;
                }
            }
            Ev::Recv { body } if body.get("method").is_none() => {
                let id = body.get("id").and_then(|i| i.as_i64());
                if id.is_some() && id == shutdown {
                    answered = true;
                    st.add("shutdown");
                    if !body["result"].is_null() || body.get("error").is_some() {
                        out.push(finding("life", *t, format!("shutdown answered with {}", world::short(body))));
                    }
                } else if id.map_or(false, |i| late.contains(&i)) {
                    st.add("late");
                    if body.get("error").is_none() {
                        out.push(finding("life", *t, format!("a request after shutdown was served: {}", world::short(body))));
                    }
                }
            }
            Ev::ServeEnded => ended = Some(*t),
            _ => {}
        }
    }
    let _ = initialized;
    if shutdown.is_some() && !answered {
        out.push(finding("life", r.virtual_ms, "shutdown was not answered".into()));
    }
    let ends = p.steps.iter().any(|s| matches!(s, Step::Exit | Step::Eof { .. }));
    st.add("end");
    if ends && ended.is_none() {
        let eof = p.steps.iter().any(|s| matches!(s, Step::Eof { .. }));
        let m = if eof { "the server did not end at the end of its input" } else { "the server did not end after exit, its input still open" };
        out.push(finding("life", r.virtual_ms, m.into()));
    }
    if !ends && ended.is_some() {
        out.push(finding("life", r.virtual_ms, "the server ended without being told to".into()));
    }
}

/// A fresh server given the same disk, configuration and open documents
/// answers the same.
pub fn differential(p: &Plan, r: &RunResult, out: &mut Vec<Finding>, st: &mut Stats) {
    let Some(mark) = p.steps.iter().position(|s| matches!(s, Step::Mark(m) if m == "compare")) else { return };
    let Some(snap) = r.snaps.last() else { return };
    if r.runaway {
        return;
    }
    let cfg = p.steps.iter().rev().find_map(|s| match s {
        Step::Initialize { options, client, .. } => Some((options.clone(), client.clone())),
        _ => None,
    });
    let Some((options, client)) = cfg else { return };
    let mut steps = vec![Step::Initialize { options, client, caps: Value::Null }, Step::Initialized];
    for (d, doc) in &snap.open {
        steps.push(Step::Open { doc: d.clone(), text: doc.text.clone() });
    }
    steps.push(Step::Settle);
    steps.push(Step::Reset);
    steps.push(Step::Settle);
    steps.extend(p.steps[mark..].iter().cloned());
    let fresh = Plan {
        property: p.property.clone(),
        scenario: "fresh".into(),
        disk: snap.disk.clone(),
        shuffle_dirs: p.shuffle_dirs,
        sched: Sched::plain(1),
        steps,
    };
    let f = exec::run(&fresh);
    let after = |r: &RunResult| -> Vec<(Value, Option<Value>)> {
        let from = r.events.iter().position(|(_, e)| matches!(e, Ev::Mark(m) if m == "compare")).unwrap_or(r.events.len());
        let mut v = vec![];
        for (_, e) in &r.events[from..] {
            if let Ev::Sent { body, .. } = e {
                if let Some(id) = body.get("id").and_then(|i| i.as_i64()) {
                    let mut q = body.clone();
                    q["id"] = json!(0);
                    let a = r.response(id).map(|(b, _)| {
                        let mut b = b.clone();
                        b["id"] = json!(0);
                        b
                    });
                    v.push((q, a));
                }
            }
        }
        v
    };
    let (a, b) = (after(r), after(&f));
    for ((q1, x), (q2, y)) in a.iter().zip(b.iter()) {
        if q1 != q2 {
            continue;
        }
        st.add("history");
        let (cx, cy) = (x.as_ref().map(canon), y.as_ref().map(canon));
        if cx != cy {
            out.push(finding(
                "history",
                r.virtual_ms,
                format!(
                    "{} {}: answered {}, a fresh server answers {}",
                    q1["method"],
                    q1["params"],
                    x.as_ref().map_or("nothing".into(), world::short),
                    y.as_ref().map_or("nothing".into(), world::short)
                ),
            ));
        }
    }
    // published for every file after the last rescan
    let fs = f.snaps.last();
    let live: BTreeSet<String> = snap.disk.keys().map(|p| uri(p)).chain(snap.open.keys().map(|p| uri(p))).collect();
    for (u, (d, _)) in &snap.diags {
        if !live.contains(u) {
            continue;
        }
        let Some(o) = fs.and_then(|s| s.diags.get(u)) else { continue };
        st.add("history");
        if canon(d) != canon(&o.0) {
            out.push(finding("history", r.virtual_ms, format!("diagnostics of {u} are {}, of a fresh server {}", world::short(d), world::short(&o.0))));
        }
    }
}

pub struct Case {
    pub plan: Plan,
    pub result: RunResult,
    pub findings: Vec<Finding>,
    pub stats: Stats,
}

/// Runs a plan and keeps what counts against its property.
pub fn run_case(p: &Plan, docs: &Docs) -> Case {
    let r = exec::run(p);
    let (mut fs, mut st) = judge(p, &r, docs);
    if p.property == "C04" {
        differential(p, &r, &mut fs, &mut st);
    }
    let keep = tags(&p.property);
    fs.retain(|f| keep.contains(&f.tag.as_str()) || f.tag == "runaway");
    fs.sort_by_key(|f| f.t);
    Case { plan: p.clone(), result: r, findings: fs, stats: st }
}

/// Every built-in filter and test used and hovered over once.
pub fn calibration_plan(property: &str) -> Plan {
    calibration(property).0
}

fn calibration(property: &str) -> (Plan, Vec<(bool, &'static str, String)>) {
    let mut disk = BTreeMap::new();
    disk.insert("/simws/templates".to_string(), Node::Dir { unreadable: false });
    let mut steps = vec![
        Step::Initialize { options: Some(json!({"templates": "./templates", "backend": [], "lang": "rust"})), client: None, caps: Value::Null },
        Step::Initialized,
    ];
    let doc = "/simws/templates/q.html".to_string();
    let mut names = vec![];
    for f in crate::docgen::FILTERS {
        names.push((true, f, format!("{{{{ a|{f} }}}}\n")));
    }
    for t in crate::docgen::TESTS {
        names.push((false, t, format!("{{% if a is {t} %}}{{% endif %}}\n")));
    }
    let text: String = names.iter().map(|n| n.2.clone()).collect();
    steps.push(Step::Open { doc: doc.clone(), text });
    steps.push(Step::Settle);
    for (i, n) in names.iter().enumerate() {
        let c = n.2.find(n.1).unwrap() as u32;
        let c = if n.0 { c } else { n.2.rfind(n.1).map_or(c, |_| n.2.find(&format!("is {}", n.1)).unwrap() as u32 + 3) };
        steps.push(Step::Ask { doc: doc.clone(), req: Req::Hover(At::Pos(i as u32, c + 1)), wait: true });
    }
    let p = Plan { property: property.into(), scenario: "calibrate".into(), disk, shuffle_dirs: false, sched: Sched::plain(1), steps };
    (p, names)
}

/// What a fresh server shows for built-in filters and tests.
pub fn calibrate() -> Docs {
    let mut docs = Docs::default();
    let (p, names) = calibration("");
    let r = exec::run(&p);
    let mut i = 0;
    for (_, e) in &r.events {
        if let Ev::Sent { body, .. } = e {
            if body["method"] == "textDocument/hover" {
                let id = body["id"].as_i64().unwrap();
                let v = r.response(id).and_then(|(b, _)| b["result"]["contents"]["value"].as_str().map(String::from));
                if let Some(v) = v {
                    if names[i].0 {
                        docs.filters.insert(names[i].1.into(), v);
                    } else {
                        docs.tests.insert(names[i].1.into(), v);
                    }
                }
                i += 1;
            }
        }
    }
    docs
}
