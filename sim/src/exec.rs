//! Executes a plan: the real server (tower-lsp transport, Backend, both actor
//! tasks, timers) inside one thread under the simulator's scheduler, clock,
//! disk and pipes, driven by a simulated editor.
use crate::interpose::{self, Env, ACTIVE, ENV, NOW};
use crate::pipe::Pipe;
use crate::plan::*;
use crate::rng::Rng;
use crate::text;
use crate::vfs::{Node, Vfs};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncReadExt;
use tokio::sync::Notify;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// Sent by the editor (parsed body, or garbage as a string).
    Sent { step: usize, body: Value },
    Recv { body: Value },
    Disk(crate::vfs::DiskOp),
    /// A server process started / ended (true: by itself).
    Start,
    ServeEnded,
    Killed,
    Settled(usize),
    Mark(String),
    /// Requests left unanswered when a barrier gave up.
    Stuck(Vec<i64>),
    Step(usize),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub version: i32,
}

/// The world as the editor and the disk have it, at a quiescent point.
#[derive(Clone, Debug)]
pub struct Snapshot {
    pub t: u64,
    pub at: usize,
    pub open: BTreeMap<String, Doc>,
    pub disk: BTreeMap<String, Node>,
    /// Last published diagnostics by URI, and when.
    pub diags: BTreeMap<String, (Value, u64)>,
}

#[derive(Default)]
pub struct RunResult {
    pub events: Vec<(u64, Ev)>,
    pub snaps: Vec<Snapshot>,
    pub panics: Vec<String>,
    pub writes: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    pub fired_paths: Vec<(String, String)>,
    pub polls: u64,
    pub virtual_ms: u64,
    pub sched_hash: u64,
    pub runaway: bool,
    pub full: u64,
    pub short_reads: u64,
    pub torn: u64,
    pub fs_ops: u64,
    pub restarts: u64,
    /// Virtual time the request with this id was answered.
    pub ended: bool,
}

impl RunResult {
    pub fn response(&self, id: i64) -> Option<(&Value, u64)> {
        self.events.iter().find_map(|(t, e)| match e {
            Ev::Recv { body } if body.get("id").and_then(|v| v.as_i64()) == Some(id) && body.get("method").is_none() => {
                Some((body, *t))
            }
            _ => None,
        })
    }
    /// A digest of everything observable, insensitive to the order inside
    /// lists that the server builds from pointer-keyed maps.
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |s: &str| {
            for b in s.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        };
        for (t, e) in &self.events {
            match e {
                Ev::Recv { body } => add(&format!("{t} R {}\n", canon(body))),
                e => add(&format!("{t} {e:?}\n")),
            }
        }
        add(&format!("{:?}{:?}", self.panics, self.writes));
        h
    }
}

/// JSON with arrays sorted.
pub fn canon(v: &Value) -> String {
    match v {
        Value::Array(a) => {
            let mut s: Vec<String> = a.iter().map(canon).collect();
            s.sort();
            format!("[{}]", s.join(","))
        }
        Value::Object(o) => {
            let mut s: Vec<String> = o.iter().map(|(k, v)| format!("{k}:{}", canon(v))).collect();
            s.sort();
            format!("{{{}}}", s.join(","))
        }
        v => v.to_string(),
    }
}

// ------------------------------------------------------------- scheduler ---
struct SchedState {
    rng: Rng,
    strategy: Strategy,
    budget: u8,
    seen: HashMap<u64, u32>,
    prio: Vec<u64>,
    polls: u64,
    hash: u64,
    limit: u64,
}

static SCHED: Mutex<Option<SchedState>> = Mutex::new(None);
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
const RUNAWAY: &str = "simulator: scheduling step limit reached";

fn hook_pick(ids: &[u64]) -> usize {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    let Some(s) = g.as_mut() else { return 0 };
    s.polls += 1;
    interpose::POLL.store(s.polls, SeqCst);
    if s.polls > s.limit {
        drop(g);
        panic!("{RUNAWAY}");
    }
    let mut nums = vec![];
    for id in ids {
        let n = s.seen.len() as u32;
        let k = *s.seen.entry(*id).or_insert(n);
        while s.prio.len() <= k as usize {
            let p = s.rng.next() >> 8;
            s.prio.push(p);
        }
        nums.push(k);
    }
    let i = if ids.len() == 1 {
        0
    } else {
        match s.strategy {
            Strategy::Fifo => 0,
            Strategy::Uniform => s.rng.below(ids.len()),
            Strategy::Priority(ch) => {
                let mut best = 0;
                for (i, n) in nums.iter().enumerate() {
                    if s.prio[*n as usize] > s.prio[nums[best] as usize] {
                        best = i;
                    }
                }
                if s.rng.below(1000) < ch as usize {
                    let k = nums[best] as usize;
                    s.prio[k] = s.rng.next() >> 40;
                }
                best
            }
            Strategy::Starve(who, exc) => {
                let ok: Vec<usize> = (0..nums.len()).filter(|i| nums[*i] != who).collect();
                if ok.is_empty() || s.rng.below(1000) < exc as usize {
                    s.rng.below(ids.len())
                } else {
                    ok[s.rng.below(ok.len())]
                }
            }
        }
    };
    s.hash = (s.hash ^ (nums[i] as u64 + 1)).wrapping_mul(0x100000001b3);
    i
}

fn hook_budget() -> u8 {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    match g.as_mut() {
        Some(s) if s.budget < 128 => s.rng.range(1, s.budget.max(1) as usize) as u8,
        _ => 128,
    }
}

fn hook_advanced(d: Duration) {
    NOW.fetch_add(d.as_nanos() as u64, SeqCst);
}

pub fn install() {
    tokio::sim::install(tokio::sim::Hooks {
        pick: hook_pick,
        budget: hook_budget,
        advanced: hook_advanced,
    });
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if ACTIVE.load(SeqCst) {
            let mut g = PANICS.lock().unwrap_or_else(|e| e.into_inner());
            g.push(format!("{msg} at {at}"));
        } else {
            eprintln!("panic: {msg} at {at}");
        }
    }));
}

// ----------------------------------------------------------------- world ---
struct State {
    events: Vec<(u64, Ev)>,
    snaps: Vec<Snapshot>,
    docs: BTreeMap<String, Doc>,
    diags: BTreeMap<String, (Value, u64)>,
    pending: BTreeMap<i64, u64>,
    sent_ids: Vec<i64>,
    next_id: i64,
    last_activity: u64,
    /// When the editor last read anything from the server.
    last_bytes: u64,
    ended: bool,
    step: usize,
    inbox: Option<Pipe>,
    outbox: Option<Pipe>,
    rng: Rng,
    torn: u64,
}

pub struct World {
    st: Mutex<State>,
    wake: Notify,
    sched: Sched,
}

fn now() -> u64 {
    NOW.load(SeqCst) / 1_000_000
}

impl World {
    fn log(&self, e: Ev) {
        let mut g = self.st.lock().unwrap();
        g.events.push((now(), e));
    }

    fn ended(&self) -> bool {
        self.st.lock().unwrap().ended
    }

    async fn send(&self, body: Value) {
        let mut wire = body.clone();
        if let Some(Value::String(u)) = wire.pointer_mut("/params/textDocument/uri") {
            if let Some(p) = path_of(u) {
                if uri(&p) == *u {
                    *u = spell(&p, self.sched.enc);
                }
            }
        }
        let s = wire.to_string();
        let frame = format!("Content-Length: {}\r\n\r\n{}", s.len(), s).into_bytes();
        let (pipe, torn) = {
            let mut g = self.st.lock().unwrap();
            let torn = if g.rng.chance(self.sched.torn) {
                let cut = g.rng.range(1, frame.len() - 1);
                let ms = *g.rng.pick(&[0u64, 1, 50, 199, 200, 201, 400]);
                g.torn += 1;
                Some((cut, ms))
            } else {
                None
            };
            (g.inbox.clone().unwrap(), torn)
        };
        match torn {
            Some((cut, ms)) => {
                pipe.push(&frame[..cut]);
                tokio::time::sleep(Duration::from_millis(ms)).await;
                pipe.push(&frame[cut..]);
            }
            None => pipe.push(&frame),
        }
        let mut g = self.st.lock().unwrap();
        let step = g.step;
        g.events.push((now(), Ev::Sent { step, body }));
        g.last_activity = now();
    }

    async fn request(&self, method: &str, params: Value) -> i64 {
        let id = {
            let mut g = self.st.lock().unwrap();
            let id = g.next_id;
            g.next_id += 1;
            g.pending.insert(id, now());
            g.sent_ids.push(id);
            id
        };
        let mut body = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            body["params"] = params;
        }
        self.send(body).await;
        id
    }

    async fn notify(&self, method: &str, params: Value) {
        let mut body = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            body["params"] = params;
        }
        self.send(body).await;
    }

    /// Waits until no response is outstanding, at most 30 virtual seconds
    /// without a byte from the server.
    async fn barrier(&self) {
        let start = now();
        let stalled = interpose::stalled();
        loop {
            // not counting the time in which a system call blocked the server
            let blocked = interpose::stalled() - stalled;
            let deadline = start.max(self.st.lock().unwrap().last_bytes) + 30_000 + blocked;
            let left: Vec<i64> = {
                let g = self.st.lock().unwrap();
                if g.ended {
                    return;
                }
                g.pending.keys().copied().collect()
            };
            if left.is_empty() {
                return;
            }
            if now() >= deadline {
                let mut g = self.st.lock().unwrap();
                for id in &left {
                    g.pending.remove(id);
                }
                g.events.push((now(), Ev::Stuck(left)));
                return;
            }
            let _ = tokio::time::timeout(Duration::from_millis(500), self.wake.notified()).await;
        }
    }

    async fn settle(&self) {
        self.resume();
        self.barrier().await;
        let deadline = now() + 20_000_000;
        let mut stalled = interpose::stalled();
        let mut from = if stalled > 0 { now() } else { 0 };
        loop {
            if interpose::stalled() != stalled {
                // the clock jumped while the server could not run
                stalled = interpose::stalled();
                from = now();
            }
            let last = {
                let g = self.st.lock().unwrap();
                if g.ended {
                    break;
                }
                g.last_activity.max(g.last_bytes).max(from)
            };
            let quiet = now().saturating_sub(last);
            if quiet >= 2000 || now() >= deadline {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2000 - quiet)).await;
        }
    }

    fn paused(&self) -> bool {
        self.st.lock().unwrap().outbox.as_ref().map_or(false, |p| p.paused())
    }

    fn resume(&self) {
        if let Some(p) = &self.st.lock().unwrap().outbox {
            p.pause(false);
        }
    }

    fn snapshot(&self) {
        let disk = interpose::with_vfs(|v| v.nodes.clone());
        let mut g = self.st.lock().unwrap();
        let snap = Snapshot {
            t: now(),
            at: g.events.len(),
            open: g.docs.clone(),
            disk,
            diags: g.diags.clone(),
        };
        g.snaps.push(snap);
        let i = g.snaps.len() - 1;
        g.events.push((now(), Ev::Settled(i)));
    }

    /// Text of a document as the editor has it (open buffer or disk).
    fn text_of(&self, doc: &str) -> Option<String> {
        if let Some(d) = self.st.lock().unwrap().docs.get(doc) {
            return Some(d.text.clone());
        }
        interpose::with_vfs(|v| match v.get(doc) {
            Some(Node::File { data, .. }) => String::from_utf8(data.clone()).ok(),
            _ => None,
        })
    }

    /// The diagnostics an editor shows at a position.
    fn shown(&self, uri: &str, l: u32, c: u32) -> Vec<Value> {
        let g = self.st.lock().unwrap();
        let at = |p: &Value| (p["line"].as_u64().unwrap_or(0), p["character"].as_u64().unwrap_or(0));
        let all = g.diags.get(uri).and_then(|d| d.0.as_array().cloned()).unwrap_or_default();
        let here = (l as u64, c as u64);
        all.into_iter().filter(|d| at(&d["range"]["start"]) <= here && here <= at(&d["range"]["end"])).collect()
    }

    fn locate(&self, doc: &str, at: &At) -> (u32, u32) {
        match at {
            At::Pos(l, c) => (*l, *c),
            At::Find(s, n, k) => {
                let t = self.text_of(doc).unwrap_or_default();
                match text::find(&t, s, *n, *k) {
                    Some(off) => text::pos16(&t, off),
                    None => (0, 0),
                }
            }
        }
    }
}

/// What editors call the language of a document.
fn language(seed: u64, doc: &str) -> &'static str {
    match doc.rsplit('.').next().unwrap_or("") {
        "rs" => "rust",
        "py" => "python",
        _ => *Rng::fork(seed, doc).pick(&["html", "jinja", "jinja", "jinja-html", "django-html", "plaintext"]),
    }
}

/// What editors add to a request that changes nothing of what is asked.
fn dialect(r: &mut Rng, before: Option<char>, m: &str, p: &mut Value) {
    if m == "textDocument/completion" {
        let c = before.filter(|c| "-\" %{".contains(*c));
        match (c, r.below(8)) {
            (Some(c), 0..=3) => p["context"] = json!({"triggerKind": 2, "triggerCharacter": c.to_string()}),
            (_, 4) => {}
            _ => p["context"] = json!({"triggerKind": 1}),
        }
    }
    if r.chance(15) {
        p["workDoneToken"] = json!("w1");
    }
    if r.chance(8) {
        p["partialResultToken"] = json!(7);
    }
}

enum Flow {
    Done,
    Crash,
    Ended,
}

async fn reader(w: Arc<World>, mut pipe: Pipe, mut rng: Rng) {
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 8192];
    loop {
        if w.sched.read_delay > 0 {
            let d = rng.below(w.sched.read_delay as usize + 1) as u64;
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        let n = match pipe.read(&mut tmp).await {
            Ok(0) | Err(_) => return,
            Ok(n) => n,
        };
        buf.extend_from_slice(&tmp[..n]);
        w.st.lock().unwrap().last_bytes = now();
        loop {
            let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") else { break };
            let head = String::from_utf8_lossy(&buf[..h]).to_string();
            let len: usize = head
                .lines()
                .find_map(|l| l.strip_prefix("Content-Length: ").and_then(|v| v.trim().parse().ok()))
                .unwrap_or(0);
            if buf.len() < h + 4 + len {
                break;
            }
            let body: Vec<u8> = buf.drain(..h + 4 + len).skip(h + 4).collect();
            let mut v: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
            canonical(&mut v);
            let mut reply = None;
            {
                let mut g = w.st.lock().unwrap();
                g.last_activity = now();
                if v.get("method").is_none() {
                    if let Some(id) = v.get("id").and_then(|i| i.as_i64()) {
                        g.pending.remove(&id);
                    }
                } else if v.get("id").is_some() {
                    reply = Some(v["id"].clone());
                }
                if v["method"] == "textDocument/publishDiagnostics" {
                    let u = v["params"]["uri"].as_str().unwrap_or("").to_string();
                    g.diags.insert(u, (v["params"]["diagnostics"].clone(), now()));
                }
                g.events.push((now(), Ev::Recv { body: v }));
            }
            w.wake.notify_one();
            if let Some(id) = reply {
                w.send(json!({"jsonrpc": "2.0", "id": id, "result": null})).await;
            }
        }
    }
}

async fn drive(w: Arc<World>, steps: Arc<Vec<Step>>, from: usize) -> (Flow, usize) {
    let mut i = from;
    while i < steps.len() {
        if w.ended() {
            return (Flow::Ended, i);
        }
        {
            let mut g = w.st.lock().unwrap();
            g.step = i;
            g.events.push((now(), Ev::Step(i)));
        }
        match &steps[i] {
            Step::Initialize { options, client, caps } => {
                let mut p = json!({"processId": null, "rootUri": uri(crate::vfs::ROOT), "capabilities": {}});
                if !caps.is_null() {
                    p["capabilities"] = caps.clone();
                }
                if let Some(o) = options {
                    p["initializationOptions"] = o.clone();
                }
                if let Some(c) = client {
                    p["clientInfo"] = json!({"name": c});
                }
                w.request("initialize", p).await;
                w.barrier().await;
            }
            Step::Initialized => w.notify("initialized", json!({})).await,
            Step::Open { doc, text } => {
                w.st.lock().unwrap().docs.insert(doc.clone(), Doc { text: text.clone(), version: 1 });
                w.notify(
                    "textDocument/didOpen",
                    json!({"textDocument": {"uri": uri(doc), "languageId": language(w.sched.seed, doc), "version": 1, "text": text}}),
                )
                .await;
            }
            Step::Change { doc, text, style } => {
                let old = w.st.lock().unwrap().docs.get(doc).cloned();
                if let Some(old) = old {
                    for mut ch in text::changes(&old.text, text, *style) {
                        let version = {
                            let mut g = w.st.lock().unwrap();
                            let d = g.docs.get_mut(doc).unwrap();
                            for c in &mut ch {
                                if c.get("range").is_some() && w.sched.seed % 3 == 0 {
                                    c["rangeLength"] = json!(text::replaced16(&d.text, c));
                                }
                                d.text = text::apply(&d.text, c);
                            }
                            d.version += 1;
                            d.version
                        };
                        w.notify(
                            "textDocument/didChange",
                            json!({"textDocument": {"uri": uri(doc), "version": version}, "contentChanges": ch}),
                        )
                        .await;
                    }
                    debug_assert_eq!(&w.st.lock().unwrap().docs[doc].text, text);
                }
            }
            Step::Save { doc } => {
                let t = w.st.lock().unwrap().docs.get(doc).map(|d| d.text.clone());
                if let Some(t) = t {
                    let op = crate::vfs::DiskOp::Write { path: doc.clone(), text: t };
                    interpose::with_vfs(|v| v.apply(&op));
                    w.log(Ev::Disk(op));
                    w.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(doc)}})).await;
                }
            }
            Step::Close { doc } => {
                let was = w.st.lock().unwrap().docs.remove(doc).is_some();
                if was {
                    w.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(doc)}})).await;
                }
            }
            Step::Ask { doc, req, wait } => {
                let u = uri(doc);
                match req {
                    Req::Symbols => {
                        w.request("textDocument/documentSymbol", json!({"textDocument": {"uri": u}})).await;
                    }
                    Req::Hover(at) | Req::Goto(at) | Req::Completion(at) => {
                        let (l, c) = w.locate(doc, at);
                        let m = match req {
                            Req::Hover(_) => "textDocument/hover",
                            Req::Goto(_) => "textDocument/definition",
                            _ => "textDocument/completion",
                        };
                        let mut p = json!({"textDocument": {"uri": u}, "position": {"line": l, "character": c}});
                        let before = w.text_of(doc).and_then(|t| t[..text::offset16(&t, l, c)].chars().next_back());
                        let mut r = Rng::fork(w.sched.seed, &format!("{m}{p}"));
                        dialect(&mut r, before, m, &mut p);
                        w.request(m, p).await;
                    }
                    Req::CodeAction(at) => {
                        let (l, c) = w.locate(doc, at);
                        let pos = json!({"line": l, "character": c});
                        // with the diagnostics that are shown there
                        let shown = w.shown(&u, l, c);
                        let mut p = json!({"textDocument": {"uri": u}, "range": {"start": pos, "end": pos}, "context": {"diagnostics": shown}});
                        let mut r = Rng::fork(w.sched.seed, &p.to_string());
                        if r.chance(30) {
                            p["context"]["triggerKind"] = json!(r.range(1, 2));
                        }
                        if r.chance(15) {
                            p["context"]["only"] = json!(["quickfix", ""]);
                        }
                        if let Some(x) = shown.first().filter(|_| r.chance(30)) {
                            // from the cursor to the end of what is underlined
                            p["range"]["end"] = x["range"]["end"].clone();
                        }
                        dialect(&mut r, None, "textDocument/codeAction", &mut p);
                        w.request("textDocument/codeAction", p).await;
                    }
                }
                if *wait && !w.paused() {
                    w.barrier().await;
                }
            }
            Step::Reset => {
                w.request("workspace/executeCommand", json!({"command": "reset_variables", "arguments": []})).await;
            }
            Step::Command { name } => {
                w.request("workspace/executeCommand", json!({"command": name, "arguments": []})).await;
            }
            Step::Config { value } => {
                w.notify("workspace/didChangeConfiguration", json!({"settings": value})).await;
            }
            Step::Raw { body, request } => {
                let mut b = body.clone();
                if *request {
                    let mut g = w.st.lock().unwrap();
                    let id = g.next_id;
                    g.next_id += 1;
                    g.pending.insert(id, now());
                    g.sent_ids.push(id);
                    b["id"] = json!(id);
                }
                w.send(b).await;
            }
            Step::Garbage { bytes } => {
                let p = {
                    let mut g = w.st.lock().unwrap();
                    g.events.push((now(), Ev::Sent { step: i, body: json!(String::from_utf8_lossy(bytes)) }));
                    g.last_activity = now();
                    g.inbox.clone().unwrap()
                };
                p.push(bytes);
            }
            Step::Cancel { back } => {
                let id = {
                    let g = w.st.lock().unwrap();
                    let n = g.sent_ids.len();
                    (*back < n).then(|| g.sent_ids[n - 1 - back])
                };
                if let Some(id) = id {
                    w.notify("$/cancelRequest", json!({"id": id})).await;
                }
            }
            Step::Sleep { ms } => tokio::time::sleep(Duration::from_millis(*ms)).await,
            Step::Yield { n } => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Step::Barrier => {
                w.resume();
                w.barrier().await;
            }
            Step::Settle => {
                w.settle().await;
                w.snapshot();
            }
            Step::Pause => {
                if let Some(p) = &w.st.lock().unwrap().outbox {
                    p.pause(true);
                }
            }
            Step::Resume => w.resume(),
            Step::Disk(op) => {
                interpose::with_vfs(|v| v.apply(op));
                w.log(Ev::Disk(op.clone()));
            }
            Step::Inject(f) => interpose::with_vfs(|v| v.faults.push(f.clone())),
            Step::ClearFaults => interpose::with_vfs(|v| {
                v.faults.clear();
                v.seen.clear()
            }),
            Step::Shutdown => {
                w.request("shutdown", Value::Null).await;
            }
            Step::Exit => {
                w.notify("exit", Value::Null).await;
            }
            Step::Eof { mid_frame } => {
                let p = w.st.lock().unwrap().inbox.clone().unwrap();
                if *mid_frame {
                    p.push(b"Content-Length: 100\r\n\r\n{\"jsonrpc\":");
                }
                p.close();
            }
            Step::Crash { after } => {
                for _ in 0..*after {
                    tokio::task::yield_now().await;
                }
                return (Flow::Crash, i + 1);
            }
            Step::Mark(s) => w.log(Ev::Mark(s.clone())),
        }
        i += 1;
    }
    w.resume();
    w.barrier().await;
    if steps.iter().any(|s| matches!(s, Step::Exit | Step::Eof { .. })) {
        let t0 = now();
        while !w.ended() && now() < t0.max(w.st.lock().unwrap().last_bytes) + 5000 {
            tokio::time::sleep(Duration::from_millis(500)).await;
        }
    }
    (Flow::Done, i)
}

async fn serve(w: Arc<World>, inbox: Pipe, outbox: Pipe) {
    let (service, socket) =
        tower_lsp::LspService::build(jinja_lsp::backend::Backend::_new).finish();
    tower_lsp::Server::new(inbox, outbox, socket).serve(service).await;
    {
        let mut g = w.st.lock().unwrap();
        g.ended = true;
        g.events.push((now(), Ev::ServeEnded));
    }
    w.wake.notify_one();
}

fn run_on_this_thread(plan: &Plan) -> RunResult {
    let seed = plan.sched.seed;
    let w = Arc::new(World {
        st: Mutex::new(State {
            events: vec![],
            snaps: vec![],
            docs: BTreeMap::new(),
            diags: BTreeMap::new(),
            pending: BTreeMap::new(),
            sent_ids: vec![],
            next_id: 1,
            last_activity: 0,
            last_bytes: 0,
            ended: false,
            step: 0,
            inbox: None,
            outbox: None,
            rng: Rng::fork(seed, "editor"),
            torn: 0,
        }),
        wake: Notify::new(),
        sched: plan.sched.clone(),
    });
    let steps = Arc::new(plan.steps.clone());
    let mut at = 0;
    let mut inc = 0u64;
    let (mut full, mut short) = (0, 0);
    let mut runaway = false;
    let mut ended = false;
    loop {
        let s = &plan.sched;
        let inbox = Pipe::new(usize::MAX, s.chunk, Rng::fork(seed.wrapping_add(inc), "in"));
        let outbox = Pipe::new(s.out_cap, 65536, Rng::fork(seed.wrapping_add(inc), "out"));
        {
            let mut g = w.st.lock().unwrap();
            g.inbox = Some(inbox.clone());
            g.outbox = Some(outbox.clone());
            g.pending.clear();
            g.diags.clear();
            g.ended = false;
            g.events.push((now(), Ev::Start));
        }
        let (w2, steps2) = (w.clone(), steps.clone());
        let (ib, ob) = (inbox.clone(), outbox.clone());
        let interval = s.interval;
        let rrng = Rng::fork(seed.wrapping_add(inc), "reader");
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .event_interval(interval)
                .build()
                .unwrap();
            let r = rt.block_on(async move {
                tokio::spawn(serve(w2.clone(), ib, ob.clone()));
                tokio::spawn(reader(w2.clone(), ob, rrng));
                let h = tokio::spawn(drive(w2, steps2, at));
                h.await.ok()
            });
            drop(rt);
            r
        }));
        {
            let i = inbox.0.lock().unwrap();
            short += i.short;
            full += outbox.0.lock().unwrap().full;
        }
        match res {
            Ok(Some((Flow::Crash, next))) => {
                w.log(Ev::Killed);
                w.st.lock().unwrap().docs.clear();
                at = next;
                inc += 1;
            }
            Ok(Some((Flow::Done, _))) => break,
            Ok(Some((Flow::Ended, _))) => {
                ended = true;
                break;
            }
            _ => {
                runaway = true;
                break;
            }
        }
    }
    let mut g = w.st.lock().unwrap();
    RunResult {
        events: std::mem::take(&mut g.events),
        snaps: std::mem::take(&mut g.snaps),
        full,
        short_reads: short,
        torn: g.torn,
        restarts: inc,
        runaway,
        ended: ended || g.ended,
        ..Default::default()
    }
}

/// Runs a plan on a fresh thread. Not reentrant: one run per process at a time.
/// What is set up once per process (compiled queries, lazily made statics) is
/// set up by a run of its own, so that no run depends on being the first.
pub fn run(plan: &Plan) -> RunResult {
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let doc = "/simws/templates/w.html".to_string();
        let mut disk = std::collections::BTreeMap::new();
        disk.insert("/simws/templates".to_string(), crate::vfs::Node::Dir { unreadable: false });
        let options = serde_json::json!({"templates": "./templates", "backend": [], "lang": "rust"});
        let steps = vec![
            Step::Initialize { options: Some(options), client: None, caps: Value::Null },
            Step::Initialized,
            Step::Open { doc: doc.clone(), text: "{{ a }}{% include \"b\" %}\n".into() },
            Step::Ask { doc, req: crate::plan::Req::Hover(crate::plan::At::Pos(0, 4)), wait: true },
            Step::Settle,
        ];
        let sched = crate::plan::Sched::plain(1);
        run_plan(&Plan { property: "-".into(), scenario: "warm".into(), disk, shuffle_dirs: false, sched, steps });
    });
    run_plan(plan)
}

fn run_plan(plan: &Plan) -> RunResult {
    let mut vfs = Vfs::new();
    for (k, n) in &plan.disk {
        let par = crate::vfs::parent(k).to_string();
        vfs.mkdirs(&par);
        vfs.nodes.insert(k.clone(), n.clone());
    }
    let mut times = Rng::fork(plan.sched.seed, "times");
    vfs.grain = *times.pick(&[1, 1, 1_000_000_000, 2_000_000_000]);
    vfs.keep_times = times.chance(25);
    if plan.shuffle_dirs {
        vfs.dir_rng = Some(Rng::fork(plan.sched.seed, "dir"));
    }
    *ENV.lock().unwrap_or_else(|e| e.into_inner()) = Some(Env {
        vfs,
        rand: Rng::fork(plan.sched.seed, "getrandom"),
        fds: None,
        stall: 0,
        virtual_calls: 0,
    });
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *SCHED.lock().unwrap_or_else(|e| e.into_inner()) = Some(SchedState {
        rng: Rng::fork(plan.sched.seed, "sched"),
        strategy: plan.sched.strategy.clone(),
        budget: plan.sched.budget,
        seen: HashMap::new(),
        prio: vec![],
        polls: 0,
        hash: 0xcbf29ce484222325,
        limit: 1_500_000,
    });
    NOW.store(0, SeqCst);
    ACTIVE.store(true, SeqCst);
    let p = plan.clone();
    let res = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || run_on_this_thread(&p))
        .unwrap()
        .join();
    ACTIVE.store(false, SeqCst);
    let mut r = res.unwrap_or_else(|_| RunResult { runaway: true, ..Default::default() });
    r.panics = std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    if let Some(s) = SCHED.lock().unwrap_or_else(|e| e.into_inner()).take() {
        r.polls = s.polls;
        r.sched_hash = s.hash;
    }
    r.virtual_ms = now();
    if let Some(e) = ENV.lock().unwrap_or_else(|e| e.into_inner()).take() {
        r.writes = e.vfs.writes;
        r.fired = e.vfs.fired;
        r.fired_paths = e.vfs.fired_paths;
        r.fs_ops = e.virtual_calls;
    }
    r
}
