//! Reference model of one document: which names it defines and uses, and which
//! templates it refers to, read from the text alone.  Written from the Jinja
//! documentation and the properties, not from the server; it accepts only a
//! well-understood subset and answers None for anything else, so a document
//! outside the subset is never judged.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    ForKey,
    ForValue,
    Set,
    With,
    Macro,
    Param,
    Block,
    Backend,
}

impl Kind {
    pub fn detail(self) -> &'static str {
        match self {
            Kind::ForKey => "For loop key",
            Kind::ForValue => "For loop value",
            Kind::Set => "Set variable",
            Kind::With => "With variable",
            Kind::Macro => "Macro",
            Kind::Param => "Macro parameter",
            Kind::Block => "Template block",
            Kind::Backend => "Backend variable",
        }
    }
    /// LSP SymbolKind.
    pub fn symbol(self) -> u64 {
        match self {
            Kind::Macro => 12,
            Kind::Param => 8,
            Kind::Block => 2,
            _ => 13,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// Where the enclosing block ends; None: the end of the document.
    pub scope_end: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Var,
    Filter,
    Test,
}

#[derive(Clone, Debug)]
pub struct Use {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub role: Role,
    /// The use is the defining occurrence.
    pub is_def: bool,
    /// Has `.field` behind it.
    pub fields: bool,
    /// Names whose treatment is not part of any property.
    pub skip: bool,
    /// Inside `{{ }}`.
    pub in_expr: bool,
}

#[derive(Clone, Debug)]
pub struct TRef {
    pub name: String,
    /// Including the quotes.
    pub start: usize,
    pub end: usize,
}

/// `{{ ... }}`
#[derive(Clone, Debug)]
pub struct Expr {
    pub start: usize,
    pub end: usize,
    pub empty: bool,
    /// The only token, when that is a plain name.
    pub lone: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub defs: Vec<Def>,
    pub uses: Vec<Use>,
    pub refs: Vec<TRef>,
    pub exprs: Vec<Expr>,
    /// Offsets (first and last) in `{{ }}` where a new name can start.
    pub gaps: Vec<(usize, usize)>,
    /// Offsets where the name of a test can start.
    pub tests: Vec<(usize, usize)>,
    /// Offsets (first and last) that are on nothing that has a meaning: text
    /// between tags, the inside of comments, keywords, numbers, strings.
    pub blank: Vec<(usize, usize)>,
}

impl Doc {
    /// What is there has no meaning of its own.
    pub fn on_nothing(&self, off: usize) -> bool {
        self.blank.iter().any(|(a, b)| *a <= off && off <= *b)
    }
}

impl Def {
    pub fn in_scope(&self, off: usize) -> bool {
        self.scope_end.map_or(true, |e| off <= e)
    }
}

pub const VALID: [&str; 8] = ["loop", "true", "false", "not", "as", "module", "super", "url_for"];
const KEYWORDS: [&str; 37] = [
    "for", "in", "endfor", "if", "and", "or", "endif", "else", "elif", "raw", "endraw", "macro",
    "endmacro", "extends", "block", "endblock", "call", "endcall", "filter", "endfilter", "set",
    "endset", "include", "import", "from", "autoescape", "endautoescape", "trans", "endtrans",
    "pluralize", "with", "endwith", "debug", "do", "is", "none", "None",
];

const LITERALS: [&str; 6] = ["true", "false", "none", "True", "False", "None"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tk {
    Id,
    Num,
    Str,
    Op,
}

#[derive(Clone, Debug)]
struct Tok<'a> {
    k: Tk,
    s: &'a str,
    a: usize,
    b: usize,
}

fn lex(t: &str, mut i: usize, end: usize) -> Option<Vec<Tok<'_>>> {
    let by = t.as_bytes();
    let mut v: Vec<Tok> = vec![];
    while i < end {
        let c = by[i];
        if c == b' ' || c == b'\n' || c == b'\t' || (c == b'\r' && i + 1 < end && by[i + 1] == b'\n') {
            i += 1;
        } else if c.is_ascii_alphanumeric() || c == b'_' {
            let a = i;
            while i < end && (by[i].is_ascii_alphanumeric() || by[i] == b'_') {
                i += 1;
            }
            let s = &t[a..i];
            let k = if s.bytes().all(|b| b.is_ascii_digit()) {
                Tk::Num
            } else if s.as_bytes()[0].is_ascii_digit() {
                return None;
            } else {
                Tk::Id
            };
            v.push(Tok { k, s, a, b: i });
        } else if c == b'\'' || c == b'"' {
            let a = i;
            i += 1;
            while i < end && by[i] != b'\'' && by[i] != b'"' {
                i += 1;
            }
            if i >= end || by[i] != c {
                return None;
            }
            i += 1;
            v.push(Tok { k: Tk::Str, s: &t[a..i], a, b: i });
        } else if b"+-*,=|()[].~<>!/:".contains(&c) {
            v.push(Tok { k: Tk::Op, s: &t[i..i + 1], a: i, b: i + 1 });
            i += 1;
        } else {
            return None;
        }
    }
    Some(v)
}

impl Doc {
    fn meaningless(&mut self, ts: &[Tok]) {
        for t in ts {
            let word = t.k == Tk::Id && KEYWORDS.contains(&t.s);
            if (word || t.k == Tk::Num || t.k == Tk::Str) && t.b > t.a + 1 {
                self.blank.push((t.a + 1, t.b - 1));
            }
        }
    }

    fn push_use(&mut self, t: &Tok, role: Role, fields: bool) {
        self.uses.push(Use {
            name: t.s.into(),
            start: t.a,
            end: t.b,
            role,
            is_def: false,
            fields,
            skip: false,
            in_expr: false,
        });
    }

    /// Reads names out of an expression that ends (with spaces) at `end`.
    fn expr(&mut self, ts: &[Tok], end: usize) -> Option<()> {
        let mut i = 0;
        // open brackets
        let mut open: Vec<&str> = vec![];
        while i < ts.len() {
            let t = &ts[i];
            let prev = i.checked_sub(1).map(|p| &ts[p]);
            let next = ts.get(i + 1);
            let is = |n: Option<&Tok>, s: &str| n.map_or(false, |n| n.k == Tk::Op && n.s == s);
            match (t.k, t.s) {
                (Tk::Op, "(") | (Tk::Op, "[") => open.push(t.s),
                (Tk::Op, ")") => {
                    if open.pop() != Some("(") {
                        return None;
                    }
                }
                (Tk::Op, "]") => {
                    if open.pop() != Some("[") {
                        return None;
                    }
                }
                (Tk::Op, ".") => {
                    let (p, n) = (prev?, next?);
                    if p.k == Tk::Num && n.k == Tk::Num && p.b == t.a && n.a == t.b {
                        // a decimal number
                        if i >= 2 && is(ts.get(i - 2), ".") || is(ts.get(i + 2), ".") {
                            return None;
                        }
                        i += 2;
                        continue;
                    }
                    // attribute of whatever is before
                    if n.k != Tk::Id || KEYWORDS.contains(&n.s) || VALID.contains(&n.s) || LITERALS.contains(&n.s) {
                        return None;
                    }
                    let ok = match p.k {
                        Tk::Id => !KEYWORDS.contains(&p.s) && !LITERALS.contains(&p.s) && (p.s == "loop" || !VALID.contains(&p.s)),
                        Tk::Str => true,
                        Tk::Op => p.s == ")" || p.s == "]",
                        Tk::Num => false,
                    };
                    if !ok {
                        return None;
                    }
                    i += 2;
                    continue;
                }
                (Tk::Op, "|") => {
                    let n = next?;
                    prev?;
                    if n.k != Tk::Id || KEYWORDS.contains(&n.s) || VALID.contains(&n.s) {
                        return None;
                    }
                    self.push_use(n, Role::Filter, false);
                    if is(ts.get(i + 2), ".") {
                        return None;
                    }
                    i += 2;
                    continue;
                }
                (Tk::Op, "=") => {
                    // `==`, `!=`, `<=`, `>=`; argument names are below
                    let part = |x: Option<&Tok>, d: usize| {
                        x.map_or(false, |x| x.k == Tk::Op && "=!<>".contains(x.s) && x.a.abs_diff(t.a) == d)
                    };
                    if !part(prev, 1) && !(is(next, "=") && part(next, 1)) {
                        return None;
                    }
                }
                (Tk::Op, "!") => {
                    if !is(next, "=") || next?.a != t.b {
                        return None;
                    }
                }
                (Tk::Op, ":") => {
                    if open.last() != Some(&"[") {
                        return None;
                    }
                }
                (Tk::Op, _) => {}
                (Tk::Num, _) | (Tk::Str, _) => {
                    if prev.map_or(false, |p| p.s == ".") {
                        return None;
                    }
                }
                (Tk::Id, "is") => {
                    prev?;
                    let mut j = i + 1;
                    if ts.get(j).map_or(false, |t| t.s == "not") {
                        j += 1;
                    }
                    let from = ts[j - 1].b + 1;
                    match ts.get(j) {
                        None => {
                            self.tests.push((from, end));
                            return open.is_empty().then_some(());
                        }
                        Some(n) => {
                            let test = n.k == Tk::Id && (["none", "true", "false", "in", "filter"].contains(&n.s) || !KEYWORDS.contains(&n.s) && !VALID.contains(&n.s) && !LITERALS.contains(&n.s));
                            if !test || is(ts.get(j + 1), ".") {
                                return None;
                            }
                            if n.a > from {
                                self.tests.push((from, n.a - 1));
                            }
                            self.push_use(n, Role::Test, false);
                            i = j + 1;
                            continue;
                        }
                    }
                }
                (Tk::Id, "and" | "or" | "in" | "if" | "else") => {}
                (Tk::Id, s) if LITERALS.contains(&s) || VALID.contains(&s) => {}
                (Tk::Id, s) if KEYWORDS.contains(&s) => return None,
                (Tk::Id, _) => {
                    let named = is(next, "=") && !(is(ts.get(i + 2), "=") && ts[i + 2].a == next?.b);
                    if named {
                        // name of an argument
                        if open.last() != Some(&"(") || !(is(prev, "(") || is(prev, ",")) {
                            return None;
                        }
                        i += 2;
                        continue;
                    }
                    self.push_use(t, Role::Var, is(next, "."));
                }
            }
            if t.k == Tk::Op && "+-*(,[~".contains(t.s) {
                if let Some(n) = next {
                    if n.a > t.b {
                        self.gaps.push((t.b, n.a - 1));
                    } else if is(next, ")") {
                        self.gaps.push((t.b, t.b));
                    }
                }
            }
            i += 1;
        }
        open.is_empty().then_some(())
    }

    /// Names of variables, `a, (b, c)`.
    fn targets(&mut self, ts: &[Tok], kinds: [Kind; 2]) -> Option<Vec<usize>> {
        let mut v = vec![];
        let mut open = 0;
        let mut want = true;
        for t in ts {
            match (t.k, t.s) {
                (Tk::Id, _) if want => {
                    v.push(self.def(t, kinds[v.len() % 2])?);
                    want = false;
                }
                (Tk::Op, ",") if !want => want = true,
                (Tk::Op, "(") if want => open += 1,
                (Tk::Op, ")") if !want && open > 0 => open -= 1,
                _ => return None,
            }
        }
        (!want && open == 0).then_some(v)
    }

    fn def(&mut self, t: &Tok, kind: Kind) -> Option<usize> {
        if t.k != Tk::Id || KEYWORDS.contains(&t.s) || VALID.contains(&t.s) || LITERALS.contains(&t.s) {
            return None;
        }
        self.defs.push(Def {
            name: t.s.into(),
            kind,
            start: t.a,
            end: t.b,
            scope_end: None,
        });
        if kind != Kind::Block {
            self.uses.push(Use {
                name: t.s.into(),
                start: t.a,
                end: t.b,
                role: Role::Var,
                is_def: true,
                fields: false,
                skip: false,
                in_expr: false,
            });
        }
        Some(self.defs.len() - 1)
    }

    fn tref(&mut self, t: &Tok) -> Option<()> {
        if t.k != Tk::Str {
            return None;
        }
        self.refs.push(TRef {
            name: t.s[1..t.s.len() - 1].into(),
            start: t.a,
            end: t.b,
        });
        Some(())
    }
}

struct Open {
    kind: &'static str,
    defs: Vec<usize>,
}

pub fn parse_template(t: &str) -> Option<Doc> {
    let by = t.as_bytes();
    let mut d = Doc::default();
    let mut stack: Vec<Open> = vec![];
    let mut global: Vec<usize> = vec![];
    let mut i = 0;
    // where text began
    let mut text = Some(0);
    while i < by.len() {
        let c = by[i];
        if c == b'{' {
            if let Some(a) = text.take() {
                if i > a {
                    d.blank.push((a, i - 1));
                }
            }
            match by.get(i + 1) {
                Some(b'#') => {
                    let e = t[i + 2..].find("#}")? + i + 2;
                    if t[i + 2..e].contains('#') {
                        return None;
                    }
                    d.blank.push((i + 2, e));
                    i = e + 2;
                }
                Some(b'{') => {
                    let e = t[i + 2..].find("}}")? + i + 2;
                    let inner = &t[i + 2..e];
                    if inner.contains(['{', '}', '%', '#']) {
                        return None;
                    }
                    let ts = lex(t, i + 2, e)?;
                    d.meaningless(&ts);
                    // `{{-` and `-}}`
                    let mut s = &ts[..];
                    if s.first().map_or(false, |x| x.s == "-" && x.a == i + 2) {
                        s = &s[1..];
                    }
                    if s.last().map_or(false, |x| x.s == "-" && x.b == e) {
                        s = &s[..s.len() - 1];
                    }
                    let n = d.uses.len();
                    let end = s.last().map_or(e, |x| if x.b < ts.last().unwrap().b { ts.last().unwrap().a } else { e });
                    d.expr(s, end)?;
                    for u in &mut d.uses[n..] {
                        u.in_expr = true;
                    }
                    let lone = if ts.len() == 1 && ts[0].k == Tk::Id && !VALID.contains(&ts[0].s) {
                        Some((ts[0].a, ts[0].b))
                    } else {
                        None
                    };
                    d.exprs.push(Expr { start: i, end: e + 2, empty: ts.is_empty(), lone });
                    i = e + 2;
                }
                Some(b'%') => {
                    let e = t[i + 2..].find("%}")? + i + 2;
                    let (mut a, mut b) = (i + 2, e);
                    if t[a..b].contains(['{', '}', '%', '#']) {
                        return None;
                    }
                    if a < b && (by[a] == b'-' || by[a] == b'+') {
                        a += 1;
                    }
                    if a < b && (by[b - 1] == b'-' || by[b - 1] == b'+') {
                        b -= 1;
                    }
                    let ts = lex(t, a, b)?;
                    d.meaningless(&ts);
                    let (g, r) = (d.gaps.len(), statement(&mut d, &ts, i, b, &mut stack, &mut global));
                    r?;
                    d.gaps.truncate(g);
                    i = e + 2;
                }
                _ => return None,
            }
            text = Some(i + 1);
        } else if c == b'}' || c == b'#' || c == b'%' {
            return None;
        } else {
            i += 1;
        }
    }
    if !stack.is_empty() {
        return None;
    }
    if let Some(a) = text {
        if a <= by.len() {
            d.blank.push((a, by.len()));
        }
    }
    let Doc { blank, refs, uses, .. } = &mut d;
    blank.retain(|(a, b)| {
        !refs.iter().any(|r| r.start <= *b && *a <= r.end) && !uses.iter().any(|u| u.start <= *b && *a <= u.end)
    });
    Some(d)
}

fn close(d: &mut Doc, o: Open, at: usize) {
    for k in o.defs {
        d.defs[k].scope_end = Some(at);
    }
}

fn statement(d: &mut Doc, ts: &[Tok], at: usize, end: usize, stack: &mut Vec<Open>, global: &mut Vec<usize>) -> Option<()> {
    let kw = ts.first()?;
    if kw.k != Tk::Id {
        return None;
    }
    let rest = &ts[1..];
    let scoped = |stack: &mut Vec<Open>, global: &mut Vec<usize>, k: usize| match stack.last_mut() {
        Some(o) => o.defs.push(k),
        None => global.push(k),
    };
    match kw.s {
        "for" => {
            let j = rest.iter().position(|t| t.s == "in")?;
            let defs = d.targets(&rest[..j], [Kind::ForKey, Kind::ForValue])?;
            let mut what = &rest[j + 1..];
            if let [.., p, l] = what {
                if l.s == "recursive" && (p.k != Tk::Op || p.s == ")" || p.s == "]") {
                    what = &what[..what.len() - 1];
                }
            }
            if what.is_empty() {
                return None;
            }
            d.expr(what, end)?;
            stack.push(Open { kind: "for", defs });
        }
        "if" => {
            if rest.is_empty() {
                return None;
            }
            d.expr(rest, end)?;
            stack.push(Open { kind: "if", defs: vec![] });
        }
        "elif" | "else" => {
            let o = stack.pop()?;
            let ok = match (o.kind, kw.s) {
                ("if", "elif") => !rest.is_empty(),
                ("if", "else") | ("for", "else") => rest.is_empty(),
                _ => false,
            };
            if !ok {
                return None;
            }
            let kind = match (o.kind, kw.s) {
                ("if", "elif") => "if",
                ("if", _) => "if-else",
                _ => "for-else",
            };
            close(d, o, at);
            d.expr(rest, end)?;
            stack.push(Open { kind, defs: vec![] });
        }
        "set" => match rest.iter().position(|t| t.s == "=") {
            Some(j) => {
                if rest[..j].iter().any(|t| t.s == "(") || rest.len() == j + 1 {
                    return None;
                }
                for k in d.targets(&rest[..j], [Kind::Set, Kind::Set])? {
                    scoped(stack, global, k);
                }
                d.expr(&rest[j + 1..], end)?;
            }
            None => {
                let k = d.def(rest.first()?, Kind::Set)?;
                scoped(stack, global, k);
                if let Some(t) = rest.get(1) {
                    if t.s != "|" {
                        return None;
                    }
                    filters(d, &rest[2..], end)?;
                }
                stack.push(Open { kind: "set", defs: vec![] });
            }
        },
        "with" => {
            let mut defs = vec![];
            for part in split(rest) {
                defs.push(d.def(part.first()?, Kind::With)?);
                if part.get(1)?.s != "=" || part.len() < 3 {
                    return None;
                }
                d.expr(&part[2..], end)?;
            }
            stack.push(Open { kind: "with", defs });
        }
        "macro" => {
            let k = d.def(rest.first()?, Kind::Macro)?;
            scoped(stack, global, k);
            if rest.len() < 3 || rest[1].s != "(" || rest.last()?.s != ")" {
                return None;
            }
            let mut defs = vec![];
            for part in split(&rest[2..rest.len() - 1]) {
                defs.push(d.def(part.first()?, Kind::Param)?);
                if part.len() > 1 {
                    if part[1].s != "=" || part.len() < 3 {
                        return None;
                    }
                    d.expr(&part[2..], end)?;
                }
            }
            stack.push(Open { kind: "macro", defs });
        }
        "block" => {
            let k = d.def(rest.first()?, Kind::Block)?;
            if !rest[1..].iter().all(|t| t.s == "scoped" || t.s == "required") {
                return None;
            }
            stack.push(Open { kind: "block", defs: vec![k] });
        }
        "filter" => {
            filters(d, rest, end)?;
            stack.push(Open { kind: "filter", defs: vec![] });
        }
        "call" => {
            if rest.is_empty() || rest[0].s == "(" {
                return None;
            }
            d.expr(rest, end)?;
            stack.push(Open { kind: "call", defs: vec![] });
        }
        "autoescape" => {
            if rest.len() != 1 || !["true", "false"].contains(&rest[0].s) {
                return None;
            }
            stack.push(Open { kind: "autoescape", defs: vec![] });
        }
        "do" => d.expr(rest, end)?,
        "include" => {
            let n = if rest.first()?.s == "[" { rest.iter().position(|t| t.s == "]")? + 1 } else { 1 };
            let (what, mut words) = rest.split_at(n);
            if n == 1 {
                d.tref(&what[0])?;
            } else {
                if n < 3 {
                    return None;
                }
                for (n, x) in what[1..n - 1].iter().enumerate() {
                    if n % 2 == 0 {
                        d.tref(x)?;
                    } else if x.s != "," {
                        return None;
                    }
                }
            }
            if words.len() >= 2 && words[0].s == "ignore" && words[1].s == "missing" {
                words = &words[2..];
            }
            if !(words.is_empty() || with_context(words)) {
                return None;
            }
        }
        "extends" => {
            if rest.len() != 1 {
                return None;
            }
            d.tref(&rest[0])?;
        }
        "import" | "from" => {
            let last = rest.get(2)?;
            if rest.len() != 3 && !with_context(&rest[3..]) {
                return None;
            }
            let mid = if kw.s == "import" { "as" } else { "import" };
            if rest[1].s != mid || last.k != Tk::Id || KEYWORDS.contains(&last.s) || VALID.contains(&last.s) {
                return None;
            }
            d.tref(&rest[0])?;
            d.uses.push(Use {
                name: last.s.into(),
                start: last.a,
                end: last.b,
                role: Role::Var,
                is_def: false,
                fields: false,
                skip: true,
                in_expr: false,
            });
        }
        k => {
            let want: &[&str] = match k {
                "endfor" => &["for", "for-else"],
                "endif" => &["if", "if-else"],
                "endset" => &["set"],
                "endwith" => &["with"],
                "endmacro" => &["macro"],
                "endblock" => &["block"],
                "endcall" => &["call"],
                "endfilter" => &["filter"],
                "endautoescape" => &["autoescape"],
                _ => return None,
            };
            let o = stack.pop()?;
            if !want.contains(&o.kind) {
                return None;
            }
            // `endset` belongs to no scope of its own
            if o.kind == "set" {
                for k in o.defs {
                    scoped(stack, global, k);
                }
            } else {
                close(d, o, at);
            }
            // the optional name behind endblock
            if !(rest.is_empty() || k == "endblock" && rest.len() == 1 && rest[0].k == Tk::Id) {
                return None;
            }
        }
    }
    Some(())
}

fn with_context(ts: &[Tok]) -> bool {
    ts.len() == 2 && (ts[0].s == "with" || ts[0].s == "without") && ts[1].s == "context"
}

/// `name`, `name(arguments)|name ...`
fn filters(d: &mut Doc, ts: &[Tok], end: usize) -> Option<()> {
    let n = ts.first()?;
    if n.k != Tk::Id || KEYWORDS.contains(&n.s) || VALID.contains(&n.s) || ts.get(1).map_or(false, |t| t.s != "(" && t.s != "|") {
        return None;
    }
    d.push_use(n, Role::Filter, false);
    match ts.get(1) {
        Some(t) if t.s == "|" => filters(d, &ts[2..], end),
        Some(_) => d.expr(&ts[1..], end),
        None => Some(()),
    }
}

/// Parts between commas that are in no brackets.
fn split<'a, 'b>(ts: &'b [Tok<'a>]) -> Vec<&'b [Tok<'a>]> {
    let mut v = vec![];
    let (mut open, mut from) = (0, 0);
    for (i, t) in ts.iter().enumerate() {
        match (t.k, t.s) {
            (Tk::Op, "(" | "[") => open += 1,
            (Tk::Op, ")" | "]") => open -= 1,
            (Tk::Op, ",") if open == 0 => {
                v.push(&ts[from..i]);
                from = i + 1;
            }
            _ => {}
        }
    }
    if !ts.is_empty() {
        v.push(&ts[from..]);
    }
    v
}

fn name_ok(s: &str) -> bool {
    !s.is_empty()
        && !s.as_bytes()[0].is_ascii_digit()
        && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
        && s != "context"
}

fn str_ok(s: &str) -> bool {
    !s.contains(['"', '\'', '\\', '\n', '{', '}'])
}

/// Backend documents: a handful of line forms.
pub fn parse_backend(t: &str, lang: &str) -> Option<Doc> {
    let mut d = Doc::default();
    let mut off = 0;
    let mut open = false;
    for line in t.split_inclusive('\n') {
        let l = line.trim_end_matches(['\n', '\r']);
        let body = l.trim_start_matches(' ');
        // functions have to be closed
        if lang == "rust" && (body == "}" || body.starts_with("fn ")) {
            if open != (body == "}") {
                return None;
            }
            open = !open;
        }
        let at = off + (l.len() - body.len());
        off += line.len();
        match lang {
            "rust" => rust_line(&mut d, body, at)?,
            "python" => python_line(&mut d, body, at, l.len() - body.len())?,
            _ => return None,
        }
    }
    (!open).then_some(d)
}

fn push_ref(d: &mut Doc, s: &str, at: usize) -> Option<()> {
    // s: quoted string at `at`
    let n = s.strip_prefix('"')?.strip_suffix('"')?;
    if !str_ok(n) {
        return None;
    }
    d.refs.push(TRef { name: n.into(), start: at, end: at + s.len() });
    Some(())
}

fn rust_line(d: &mut Doc, b: &str, at: usize) -> Option<()> {
    if b.is_empty() || b == "}" || b.starts_with("// ") {
        return Some(());
    }
    if let Some(n) = b.strip_prefix("fn ").and_then(|r| r.strip_suffix("() {")) {
        return name_ok(n).then_some(());
    }
    for m in ["render_jinja(", "jinja.get_template("] {
        if let Some(r) = b.strip_prefix(m) {
            let s = r.strip_suffix(");")?;
            return push_ref(d, s, at + m.len());
        }
    }
    if let Some(r) = b.strip_prefix("let ") {
        let (n, r2) = r.split_once(" = context!{ ")?;
        if !name_ok(n) {
            return None;
        }
        let inner = r2.strip_suffix(" };")?;
        let mut o = at + "let ".len() + n.len() + " = context!{ ".len();
        for (k, part) in inner.split(", ").enumerate() {
            if k > 0 {
                o += 2;
            }
            let (key, val) = part.split_once(" => ")?;
            if !name_ok(key) || !val.bytes().all(|b| b.is_ascii_digit()) || val.is_empty() {
                return None;
            }
            d.defs.push(Def { name: key.into(), kind: Kind::Backend, start: o, end: o + key.len(), scope_end: None });
            o += part.len();
        }
        return Some(());
    }
    for m in ["jinja.add_global(", "jinja.add_function("] {
        if let Some(r) = b.strip_prefix(m) {
            let (s, v) = r.strip_suffix(");")?.split_once(", ")?;
            let n = s.strip_prefix('"')?.strip_suffix('"')?;
            if !name_ok(n) || !name_ok(v) {
                return None;
            }
            let o = at + m.len();
            d.defs.push(Def { name: n.into(), kind: Kind::Backend, start: o, end: o + s.len(), scope_end: None });
            return Some(());
        }
    }
    None
}

fn python_line(d: &mut Doc, b: &str, at: usize, indent: usize) -> Option<()> {
    if b.is_empty() || b.starts_with("# ") {
        return Some(());
    }
    if let Some(n) = b.strip_prefix("def ").and_then(|r| r.strip_suffix("():")) {
        return (indent == 0 && name_ok(n)).then_some(());
    }
    if let Some(r) = b.strip_prefix("jinja_env.globals[\"") {
        let (n, v) = r.split_once("\"] = ")?;
        if !name_ok(n) || v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let o = at + "jinja_env.globals[\"".len();
        d.defs.push(Def { name: n.into(), kind: Kind::Backend, start: o, end: o + n.len(), scope_end: None });
        return Some(());
    }
    for m in ["get_template(", "render_jinja(", "env.get_template("] {
        if let Some(r) = b.strip_prefix(m) {
            return push_ref(d, r.strip_suffix(')')?, at + m.len());
        }
    }
    for m in ["render_template(\"", "page.render(\""] {
        if let Some(r) = b.strip_prefix(m) {
            let inner = r.strip_suffix(')')?;
            let (tpl, args) = inner.split_once('"')?;
            if !str_ok(tpl) {
                return None;
            }
            let mut o = at + m.len() + tpl.len() + 1;
            let args = match args.strip_prefix(", ") {
                Some(a) => a,
                None => return args.is_empty().then_some(()),
            };
            o += 2;
            for (k, part) in args.split(", ").enumerate() {
                if k > 0 {
                    o += 2;
                }
                let (key, val) = part.split_once('=')?;
                if !name_ok(key) || val.is_empty() || !val.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                d.defs.push(Def { name: key.into(), kind: Kind::Backend, start: o, end: o + key.len(), scope_end: None });
                o += part.len();
            }
            return Some(());
        }
    }
    (b == "pass").then_some(())
}

/// Is `off` right behind the `{%` of a statement that has just been begun at
/// the end of a line of text, in an otherwise well-formed template?  The
/// editor may have added a `}`.
pub fn begun(t: &str, off: usize) -> bool {
    if !t[..off].ends_with("{%") {
        return false;
    }
    let before = &t[..off - 2];
    let after = t[off..].strip_prefix('}').unwrap_or(&t[off..]);
    if !(after.is_empty() || after.starts_with('\n') || after.starts_with("\r\n")) {
        return false;
    }
    // (the grammar reads a word that follows as the keyword)
    let next = after.trim_start();
    if !next.is_empty() && !next.starts_with("{%") && !t[off..].starts_with('}') {
        return false;
    }
    let Some(d) = parse_template(&format!("{before}{after}")) else { return false };
    // text: an expression could stand here
    parse_template(&format!("{before}{{{{ zz9 }}}}{after}")).map_or(false, |x| x.uses.len() == d.uses.len() + 1)
}
