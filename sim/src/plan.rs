//! A plan is one complete simulated execution written down: the initial disk,
//! what the editor does, the faults, and the seed from which every scheduling
//! and delivery decision is drawn.  Running a plan twice gives the same run.
use crate::vfs::{DiskOp, Fault, Node};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strategy {
    /// Run-queue order.
    Fifo,
    /// Any runnable task, uniformly.
    Uniform,
    /// Priorities with this many change points (per mille of picks).
    Priority(u32),
    /// The task first seen as number n only runs when nothing else can
    /// (with the given probability of an exception, per mille).
    Starve(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub strategy: Strategy,
    /// tokio's event interval.
    pub interval: u32,
    /// Upper bound of the cooperative budget (1..=128).
    pub budget: u8,
    /// Largest number of bytes delivered to the server by one read.
    pub chunk: usize,
    /// Capacity of the server's output pipe.
    pub out_cap: usize,
    /// Virtual milliseconds the editor takes per read of server output (max).
    pub read_delay: u64,
    /// Percent of frames that are delivered in two parts with a pause.
    pub torn: u32,
    /// How the editor writes the URI of a file, see `spell`.
    #[serde(default)]
    pub enc: u8,
}

impl Sched {
    pub fn plain(seed: u64) -> Self {
        Sched {
            seed,
            strategy: Strategy::Fifo,
            interval: 61,
            budget: 128,
            chunk: 65536,
            out_cap: 65536,
            read_delay: 0,
            torn: 0,
            enc: 0,
        }
    }
}

/// How an edit to a new full text is sent.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    /// One ranged change (common prefix and suffix kept).
    Diff,
    /// Delete then insert, two changes in one notification.
    DelIns,
    /// The inserted part typed character by character, one notification.
    Typed,
    /// Same, one notification per character.
    Keys,
    /// Several ranged changes, from the end of the document to the start.
    Lines,
    /// Whole document replaced by a change without a range.
    Full,
    /// A ranged change covering the whole document.
    WholeRange,
    /// Ranged change, then whole document, then ranged change.
    Mixed,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    /// n-th occurrence of the needle, plus an offset in characters.
    Find(String, usize, usize),
    Pos(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Req {
    Hover(At),
    Goto(At),
    Completion(At),
    CodeAction(At),
    Symbols,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Initialize {
        options: Option<Value>,
        client: Option<String>,
        /// What the client says it supports.
        #[serde(default, skip_serializing_if = "Value::is_null")]
        caps: Value,
    },
    Initialized,
    Open { doc: String, text: String },
    Change { doc: String, text: String, style: Style },
    Save { doc: String },
    Close { doc: String },
    Ask { doc: String, req: Req, wait: bool },
    Reset,
    Command { name: String },
    Config { value: Value },
    /// Any JSON body; `id` is filled in when `request`.
    Raw { body: Value, request: bool },
    /// Bytes that are not a well-formed frame.
    Garbage { bytes: Vec<u8> },
    /// $/cancelRequest for the request sent `back` requests ago.
    Cancel { back: usize },
    Sleep { ms: u64 },
    Yield { n: u32 },
    /// Wait for every outstanding response.
    Barrier,
    /// Wait until nothing happens any more, and take a snapshot.
    Settle,
    Pause,
    Resume,
    Disk(DiskOp),
    Inject(Fault),
    ClearFaults,
    Shutdown,
    Exit,
    Eof { mid_frame: bool },
    /// Kill the server after this many scheduling steps and start a new one.
    Crash { after: u32 },
    /// Marks a point in the history.
    Mark(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// Which property's generator made it.
    pub property: String,
    /// Free-form scenario name.
    pub scenario: String,
    pub disk: BTreeMap<String, Node>,
    pub shuffle_dirs: bool,
    pub sched: Sched,
    pub steps: Vec<Step>,
}

/// `file://` URI of an absolute path, percent-encoded as RFC 3986 requires.
pub fn uri(path: &str) -> String {
    let mut s = String::from("file://");
    for b in path.bytes() {
        if b.is_ascii_alphanumeric() || b"/-._~".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}

/// Another way to write `uri(path)`: editors differ in what they encode.
pub fn spell(path: &str, enc: u8) -> String {
    let keep: &[u8] = match enc {
        // as the url crate
        1 => b"/-._~!$&'()*+,;=:@[]|^",
        // hardly anything
        3 => b"/-._~!$&'()*+,;=:@[]",
        // as neovim on some systems
        4 => b"/-._~!()*'",
        _ => b"/-._~",
    };
    let mut s = String::from(if enc == 5 { "file://localhost" } else { "file://" });
    for c in path.chars() {
        if c.is_ascii_alphanumeric() || c.is_ascii() && keep.contains(&(c as u8)) || enc == 3 && !c.is_ascii() {
            s.push(c);
            continue;
        }
        for b in c.to_string().bytes() {
            s.push_str(&if enc == 2 { format!("%{b:02x}") } else { format!("%{b:02X}") });
        }
    }
    s
}

/// Every file URI in `v` written as `uri` does.
pub fn canonical(v: &mut serde_json::Value) {
    use serde_json::Value;
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                match x {
                    Value::String(s) if k == "uri" || k == "targetUri" => {
                        if let Some(p) = path_of(s) {
                            if p.starts_with('/') && !p.contains(['?', '#']) {
                                *s = uri(&p);
                            }
                        }
                    }
                    _ => canonical(x),
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(canonical),
        _ => {}
    }
}

/// The path a `file://` URI names.
pub fn path_of(uri: &str) -> Option<String> {
    let rest = uri.strip_prefix("file://")?;
    let b = rest.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let Ok(v) = u8::from_str_radix(&rest[i + 1..i + 3], 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).ok()
}
