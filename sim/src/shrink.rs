//! Makes a failing plan smaller while it keeps failing the same way.
use crate::plan::*;
use crate::vfs::Node;
use std::time::Instant;

pub struct Shrinker<'a> {
    pub class: String,
    pub until: Instant,
    pub runs: u64,
    /// Does the plan still fail in this class?
    pub test: Box<dyn FnMut(&Plan, &str) -> bool + 'a>,
}

/// Steps that only make sense together stay together, so that a smaller plan
/// is still something an editor could do.
fn legal(before: &Plan, p: &Plan) -> bool {
    let first = |p: &Plan| p.steps.iter().take(2).map(|s| std::mem::discriminant(s)).collect::<Vec<_>>();
    if matches!(before.steps.first(), Some(Step::Initialize { .. })) && first(before) != first(p) {
        return false;
    }
    let crashes = |p: &Plan| p.steps.iter().filter(|s| matches!(s, Step::Crash { .. })).count();
    let inits = |p: &Plan| p.steps.iter().filter(|s| matches!(s, Step::Initialized)).count();
    if crashes(p) > 0 && inits(p) <= crashes(p) && inits(before) > crashes(before) {
        return false;
    }
    let mut open = std::collections::BTreeMap::new();
    for s in &p.steps {
        match s {
            Step::Open { doc, text } => {
                if open.contains_key(doc) {
                    return false;
                }
                let on_disk = matches!(p.disk.get(doc), Some(Node::File { data, .. }) if data == text.as_bytes());
                open.insert(doc.clone(), !on_disk);
            }
            Step::Change { doc, .. } => {
                if !open.contains_key(doc) {
                    return false;
                }
                open.insert(doc.clone(), true);
            }
            Step::Save { doc } => {
                if !open.contains_key(doc) {
                    return false;
                }
                open.insert(doc.clone(), false);
            }
            Step::Close { doc } => {
                let _ = doc;
                if open.remove(doc).is_none() {
                    return false;
                }
            }
            Step::Crash { .. } => open.clear(),
            _ => {}
        }
    }
    // documents closed with unsaved content only if the original did so
    true
}

impl Shrinker<'_> {
    fn fails(&mut self, base: &Plan, p: &Plan) -> bool {
        if Instant::now() > self.until || !legal(base, p) {
            return false;
        }
        self.runs += 1;
        (self.test)(p, &self.class)
    }

    fn steps(&mut self, p: &mut Plan) -> bool {
        let mut changed = false;
        let mut n = (p.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < p.steps.len() {
                let j = (i + n).min(p.steps.len());
                let mut q = p.clone();
                q.steps.drain(i..j);
                if self.fails(p, &q) {
                    *p = q;
                    changed = true;
                } else {
                    i = j;
                }
            }
            if n == 1 {
                return changed;
            }
            n /= 2;
        }
    }

    fn sched(&mut self, p: &mut Plan) {
        let plain = Sched::plain(p.sched.seed);
        let tries: Vec<Box<dyn Fn(&mut Sched)>> = vec![
            Box::new({
                let x = plain.clone();
                move |s| *s = x.clone()
            }),
            Box::new(|s| s.strategy = Strategy::Fifo),
            Box::new(|s| s.strategy = Strategy::Uniform),
            Box::new(|s| s.interval = 61),
            Box::new(|s| s.budget = 128),
            Box::new(|s| s.chunk = 65536),
            Box::new(|s| {
                s.out_cap = 65536;
                s.read_delay = 0;
            }),
            Box::new(|s| s.torn = 0),
            Box::new(|s| s.enc = 0),
        ];
        for t in tries {
            let mut q = p.clone();
            t(&mut q.sched);
            if q.sched != p.sched && self.fails(p, &q) {
                *p = q;
            }
        }
        if p.shuffle_dirs {
            let mut q = p.clone();
            q.shuffle_dirs = false;
            if self.fails(p, &q) {
                *p = q;
            }
        }
    }

    fn disk(&mut self, p: &mut Plan) {
        for k in p.disk.keys().cloned().collect::<Vec<_>>() {
            let mut q = p.clone();
            q.disk.remove(&k);
            // its directory stays
            let par = crate::vfs::parent(&k).to_string();
            q.disk.entry(par).or_insert(Node::Dir { unreadable: false });
            if self.fails(p, &q) {
                *p = q;
                continue;
            }
            if let Some(Node::File { data, unreadable: false }) = p.disk.get(&k).cloned() {
                if let Ok(t) = String::from_utf8(data) {
                    self.text(p, &t, &|q, t| {
                        q.disk.insert(k.clone(), Node::File { data: t.into_bytes(), unreadable: false });
                    });
                }
            }
        }
    }

    /// Removes pieces of a text.
    fn text(&mut self, p: &mut Plan, t: &str, put: &dyn Fn(&mut Plan, String)) {
        let mut parts = pieces(t);
        let mut n = (parts.len() / 2).max(1);
        while !parts.is_empty() && n >= 1 {
            let mut i = 0;
            while i < parts.len() {
                let j = (i + n).min(parts.len());
                let mut q = parts.clone();
                q.drain(i..j);
                let mut pl = p.clone();
                put(&mut pl, q.concat());
                if self.fails(p, &pl) {
                    *p = pl;
                    parts = q;
                } else {
                    i = j;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }

    fn texts(&mut self, p: &mut Plan) {
        for i in 0..p.steps.len() {
            match p.steps[i].clone() {
                Step::Open { text, .. } => self.text(p, &text, &|q, t| {
                    if let Step::Open { text, .. } = &mut q.steps[i] {
                        *text = t;
                    }
                }),
                Step::Change { text, style, .. } => {
                    self.text(p, &text, &|q, t| {
                        if let Step::Change { text, .. } = &mut q.steps[i] {
                            *text = t;
                        }
                    });
                    for s in [Style::Full, Style::Diff] {
                        if style != s && style != Style::Full {
                            let mut q = p.clone();
                            if let Step::Change { style, .. } = &mut q.steps[i] {
                                *style = s;
                            }
                            if self.fails(p, &q) {
                                *p = q;
                                break;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    pub fn run(&mut self, p: &Plan) -> Plan {
        let mut p = p.clone();
        self.steps(&mut p);
        self.sched(&mut p);
        for _ in 0..3 {
            let before = serde_json::to_string(&p).unwrap().len();
            self.disk(&mut p);
            self.texts(&mut p);
            self.steps(&mut p);
            if Instant::now() > self.until || serde_json::to_string(&p).unwrap().len() == before {
                break;
            }
        }
        p
    }
}

/// A text cut at delimiters, line ends and spaces.
fn pieces(t: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let two: String = c[i..(i + 2).min(c.len())].iter().collect();
        if ["{{", "{%", "{#"].contains(&two.as_str()) {
            v.push(String::new());
            v.last_mut().unwrap().push_str(&two);
            i += 2;
            continue;
        }
        if ["}}", "%}", "#}"].contains(&two.as_str()) {
            v.last_mut().unwrap().push_str(&two);
            v.push(String::new());
            i += 2;
            continue;
        }
        v.last_mut().unwrap().push(c[i]);
        if c[i] == '\n' {
            v.push(String::new());
        }
        i += 1;
    }
    v.retain(|s| !s.is_empty());
    v
}
