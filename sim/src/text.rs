//! The editor's side of text synchronisation: UTF-16 positions and how a new
//! text is sent as changes.  Independent of the server's rope code.
use crate::plan::Style;
use serde_json::{json, Value};

/// Byte offset of the start of every line; `\n`, `\r\n` and `\r` end lines.
pub fn line_starts(t: &str) -> Vec<usize> {
    let mut v = vec![0];
    let bytes = t.as_bytes();
    for (i, b) in bytes.iter().enumerate() {
        if *b == b'\n' || (*b == b'\r' && bytes.get(i + 1) != Some(&b'\n')) {
            v.push(i + 1);
        }
    }
    v
}

/// (line, UTF-16 column) of a byte offset.
pub fn pos16(t: &str, off: usize) -> (u32, u32) {
    let ls = line_starts(t);
    let line = ls.partition_point(|s| *s <= off) - 1;
    let col: usize = t[ls[line]..off].chars().map(|c| c.len_utf16()).sum();
    (line as u32, col as u32)
}

/// Byte offset of a (line, UTF-16 column), clamped.
pub fn offset16(t: &str, line: u32, col: u32) -> usize {
    let ls = line_starts(t);
    if line as usize >= ls.len() {
        return t.len();
    }
    let start = ls[line as usize];
    let mut n = 0;
    for (i, c) in t[start..].char_indices() {
        if n >= col as usize || c == '\n' || c == '\r' {
            return start + i;
        }
        n += c.len_utf16();
    }
    t.len()
}

fn p(t: &str, off: usize) -> Value {
    let (l, c) = pos16(t, off);
    json!({"line": l, "character": c})
}

fn ranged(t: &str, a: usize, b: usize, ins: &str) -> Value {
    json!({"range": {"start": p(t, a), "end": p(t, b)}, "text": ins})
}

/// Applies one LSP content change to a text.
pub fn apply(t: &str, ch: &Value) -> String {
    match ch.get("range") {
        None | Some(Value::Null) => ch["text"].as_str().unwrap_or("").to_string(),
        Some(r) => {
            let a = offset16(
                t,
                r["start"]["line"].as_u64().unwrap_or(0) as u32,
                r["start"]["character"].as_u64().unwrap_or(0) as u32,
            );
            let b = offset16(
                t,
                r["end"]["line"].as_u64().unwrap_or(0) as u32,
                r["end"]["character"].as_u64().unwrap_or(0) as u32,
            );
            format!("{}{}{}", &t[..a], ch["text"].as_str().unwrap_or(""), &t[b.max(a)..])
        }
    }
}

/// Common prefix and suffix lengths in bytes, never splitting a character or
/// a `\r\n` pair.
fn common(a: &str, b: &str) -> (usize, usize) {
    let mut pre = a
        .bytes()
        .zip(b.bytes())
        .take_while(|(x, y)| x == y)
        .count();
    while !a.is_char_boundary(pre) || !b.is_char_boundary(pre) || (pre > 0 && a.as_bytes()[pre - 1] == b'\r') {
        pre -= 1;
    }
    let max = a.len().min(b.len()) - pre;
    let mut suf = a
        .bytes()
        .rev()
        .zip(b.bytes().rev())
        .take_while(|(x, y)| x == y)
        .count()
        .min(max);
    while suf > 0
        && (!a.is_char_boundary(a.len() - suf)
            || !b.is_char_boundary(b.len() - suf)
            || a.as_bytes()[a.len() - suf] == b'\n'
            || b.as_bytes()[b.len() - suf] == b'\n')
    {
        suf -= 1;
    }
    (pre, suf)
}

/// Length of the text a change replaces, in UTF-16 units.
pub fn replaced16(t: &str, ch: &Value) -> usize {
    let at = |p: &Value| offset16(t, p["line"].as_u64().unwrap_or(0) as u32, p["character"].as_u64().unwrap_or(0) as u32);
    let (a, b) = (at(&ch["range"]["start"]), at(&ch["range"]["end"]));
    t.get(a..b).unwrap_or("").encode_utf16().count()
}

/// The notifications (each a list of content changes) that turn `old` into `new`.
pub fn changes(old: &str, new: &str, style: Style) -> Vec<Vec<Value>> {
    let (pre, suf) = common(old, new);
    let (a, b) = (pre, old.len() - suf);
    let ins = &new[pre..new.len() - suf];
    // nobody types that much, and it would take long
    let large = match style {
        Style::Typed | Style::Keys => ins.len() > 1500 || ins.len() * new.len() > 1_000_000,
        Style::Lines => old.lines().count().max(new.lines().count()) > 300,
        _ => false,
    };
    let style = if large { Style::Diff } else { style };
    match style {
        Style::Full => vec![vec![json!({"text": new})]],
        Style::WholeRange => vec![vec![ranged(old, 0, old.len(), new)]],
        Style::Diff => vec![vec![ranged(old, a, b, ins)]],
        Style::DelIns => {
            let mid = format!("{}{}", &old[..a], &old[b..]);
            vec![vec![ranged(old, a, b, ""), ranged(&mid, a, a, ins)]]
        }
        Style::Typed | Style::Keys => {
            let mut cur = format!("{}{}", &old[..a], &old[b..]);
            let mut out = vec![];
            if a != b {
                out.push(ranged(old, a, b, ""));
            }
            let mut at = a;
            let mut cs = ins.chars().peekable();
            while let Some(c) = cs.next() {
                let mut s = c.to_string();
                if c == '\r' && cs.peek() == Some(&'\n') {
                    s.push(cs.next().unwrap());
                }
                out.push(ranged(&cur, at, at, &s));
                cur.insert_str(at, &s);
                at += s.len();
            }
            if style == Style::Typed {
                vec![out]
            } else {
                out.into_iter().map(|c| vec![c]).collect()
            }
        }
        Style::Lines => {
            // line-wise replacement, from the last line to the first
            let ol: Vec<&str> = old.split_inclusive('\n').collect();
            let nl: Vec<&str> = new.split_inclusive('\n').collect();
            let mut cur: Vec<String> = ol.iter().map(|s| s.to_string()).collect();
            let mut out = vec![];
            // drop or add trailing lines first
            let k = ol.len().min(nl.len());
            let text = |c: &Vec<String>| c.concat();
            if ol.len() > k {
                let t = text(&cur);
                let s: usize = cur[..k].iter().map(|l| l.len()).sum();
                out.push(ranged(&t, s, t.len(), ""));
                cur.truncate(k);
            } else if nl.len() > k {
                let t = text(&cur);
                out.push(ranged(&t, t.len(), t.len(), &nl[k..].concat()));
                cur.push(nl[k..].concat());
            }
            for i in (0..k).rev() {
                if cur[i] != nl[i] {
                    let t = text(&cur);
                    let s: usize = cur[..i].iter().map(|l| l.len()).sum();
                    out.push(ranged(&t, s, s + cur[i].len(), nl[i]));
                    cur[i] = nl[i].to_string();
                }
            }
            vec![out]
        }
        Style::Mixed => {
            let t1 = format!("{}{}{}", &old[..a], ins, &old[b..]);
            let half = {
                let mut h = new.len() / 2;
                while !new.is_char_boundary(h) || (h > 0 && new.as_bytes()[h - 1] == b'\r') {
                    h -= 1;
                }
                h
            };
            let _ = t1;
            vec![vec![
                ranged(old, a, b, ins),
                json!({"text": &new[..half]}),
                ranged(&new[..half], half, half, &new[half..]),
            ]]
        }
    }
}

/// Byte offset of the n-th occurrence of `needle`, plus `plus` characters.
pub fn find(t: &str, needle: &str, n: usize, plus: usize) -> Option<usize> {
    let start = t.match_indices(needle).nth(n).map(|m| m.0)?;
    let mut off = start;
    for c in t[start..].chars().take(plus) {
        off += c.len_utf8();
    }
    Some(off)
}
