//! Generates documents: lists of well-formed pieces, so that an edit that
//! inserts, replaces or removes a piece leaves a well-formed document.
use crate::rng::Rng;

/// Also names that begin like keywords, like each other, or are the names of
/// fields, filters, blocks and macros.
pub const VARS: [&str; 26] = [
    "user", "item", "total", "cfg", "val", "row", "a1", "name_x", "flag", "u", "us", "users", "island", "index",
    "format", "order", "_priv", "Upper", "CONST_2", "iffy", "size", "body", "mk", "upper", "string", "notes",
];
const FIELDS: [&str; 5] = ["email", "size", "f2", "user", "index"];
pub const FILTERS: [&str; 38] = [
    "abs", "attr", "batch", "bool", "capitalize", "default", "dictsort", "escape",
    "first", "float", "indent", "int", "items", "join", "last", "length",
    "list", "lower", "map", "max", "min", "pprint", "reject", "rejectattr",
    "replace", "reverse", "round", "safe", "select", "selectattr", "slice", "sort",
    "title", "tojson", "trim", "unique", "upper", "urlencode",
];
pub const TESTS: [&str; 31] = [
    "boolean", "defined", "divisibleby", "endingwith", "eq", "even", "false", "filter",
    "float", "ge", "gt", "in", "integer", "iterable", "le", "lower",
    "lt", "mapping", "ne", "none", "number", "odd", "safe", "sameas",
    "sequence", "startingwith", "string", "test", "true", "undefined", "upper",
];
const BLOCKS: [&str; 4] = ["body", "head", "foot", "side_bar"];
const TEXTS: [&str; 8] = [
    "<p>plain</p>\n",
    "text ",
    "\n",
    "žluťoučký kůň\n",
    "emoji 😀 and 👩‍👩‍👧 text ",
    "tab\tand \"quotes\" and 'more'\n",
    "<a href=\"x\">é</a>",
    "日本語 ",
];

/// What documents are made of in one run (varied per run).
#[derive(Clone)]
pub struct Style {
    pub vars: Vec<&'static str>,
    pub templates: Vec<String>,
    pub depth: u32,
    pub text: u32,
    pub refs: u32,
    pub scopes: u32,
    pub crlf: bool,
    pub ascii: bool,
    pub trim: bool,
}

pub struct DocGen<'a> {
    pub r: &'a mut Rng,
    pub st: &'a Style,
}

impl<'a> DocGen<'a> {
    fn var(&mut self) -> &'static str {
        let v = self.st.vars.clone();
        *self.r.pick(&v)
    }
    fn word(&mut self, v: &[&'static str]) -> &'static str {
        *self.r.pick(v)
    }
    fn open(&mut self) -> &'static str {
        if self.st.trim {
            *self.r.pick(&["{% ", "{%- ", "{% ", "{%\n"])
        } else {
            "{% "
        }
    }
    fn close(&mut self) -> &'static str {
        if self.st.trim {
            *self.r.pick(&[" %}", " -%}", " %}", "\n%}"])
        } else {
            " %}"
        }
    }
    fn tag(&mut self, s: &str) -> String {
        format!("{}{s}{}", self.open(), self.close())
    }

    /// An atom of an expression.
    fn atom(&mut self) -> String {
        match self.r.below(14) {
            0 => self.r.below(100).to_string(),
            10 => format!("{}.{}", self.r.below(9), self.r.below(99)),
            11 => (*self.r.pick(&["none", "true", "False", "None", "loop.index", "loop.index0"])).into(),
            12 => format!("{}[{}].{}", self.var(), self.r.below(3), self.word(&FIELDS)),
            1 => format!("\"{}\"", self.r.pick(&["s", "two words", "é😀", ""])),
            2 => "'q'".into(),
            3 => format!("{}.{}", self.var(), self.word(&FIELDS)),
            _ => self.var().into(),
        }
    }

    fn test(&mut self) -> String {
        let not = self.word(&["", "", "not "]);
        match self.r.below(6) {
            0 => match self.r.below(3) {
                0 => format!("{not}in {}", self.var()),
                1 => format!("{not}in [{}, 1]", self.var()),
                _ => format!("{not}divisibleby {}", self.r.range(2, 9)),
            },
            1 => format!("{not}divisibleby({})", self.var()),
            2 => format!("{not}sameas({})", self.atom()),
            _ => format!("{not}{}", self.word(&TESTS)),
        }
    }

    /// Arguments of a call.
    fn args(&mut self) -> String {
        let mut v = vec![];
        let n = self.r.below(4);
        for _ in 0..n {
            let a = self.atom();
            v.push(match self.r.below(5) {
                0 => format!("{}={a}", self.var()),
                1 => format!("{} = {a}", self.var()),
                2 => format!("{a}|{}", self.word(&FILTERS)),
                _ => a,
            });
        }
        v.join(self.word(&[", ", ", ", ",", " , "]))
    }

    pub fn simple(&mut self) -> String {
        let a = self.atom();
        match self.r.below(24) {
            0 => format!("{} | {}", a, self.word(&FILTERS)),
            1 => format!("{}|{}", self.var(), self.word(&FILTERS)),
            2 => format!("{}({}, {})", self.var(), a, self.atom()),
            3 => format!("{} {} {}", a, self.word(&["+", "~", "*", "/", "//", "**"]), self.atom()),
            4 => format!("{}[{}]", self.var(), self.r.below(4)),
            5 => format!("{}|join(\", \")|upper", self.var()),
            6 => format!("[{}, {}]", a, self.atom()),
            7 => format!("{}({})|{}", self.var(), a, self.word(&FILTERS)),
            8 => format!("{} - {}", self.var(), a),
            9 => format!("{}({})", self.var(), self.args()),
            10 => format!("{}|default({})", self.var(), self.args()),
            11 => format!("{a} if {} else {}", self.cond(), self.atom()),
            12 => self.cond(),
            13 => format!("{}({}).{}", self.var(), self.args(), self.word(&FIELDS)),
            14 => format!("{}[{}:{}]", self.var(), a, self.var()),
            15 => format!("({a} + {}) * {}", self.var(), self.atom()),
            16 => format!("{}.{}({})", self.var(), self.word(&FIELDS), self.args()),
            17 => format!("{}[{a}]", self.var()),
            _ => self.var().into(),
        }
    }

    fn cond(&mut self) -> String {
        let v = self.var();
        match self.r.below(12) {
            0 | 1 => format!("{v} is {}", self.test()),
            2 => format!("{v} {} {}", self.word(&["==", "!=", "<", ">=", "<=", ">"]), self.atom()),
            3 => format!("{v} and {}", self.atom()),
            4 => format!("not {v}"),
            5 => format!("{} in {v}", self.atom()),
            6 => format!("{v}|{} > {}", self.word(&["length", "first"]), self.r.below(9)),
            7 => format!("{v} or {} and not {}", self.atom(), self.var()),
            8 => format!("{} not in {v}", self.atom()),
            9 => format!("({v} == {}) or {} is {}", self.atom(), self.var(), self.test()),
            _ => v.into(),
        }
    }

    fn text(&mut self) -> String {
        loop {
            let t = *self.r.pick(&TEXTS);
            if t.is_ascii() || !self.st.ascii {
                return t.into();
            }
        }
    }

    pub fn template(&mut self) -> String {
        let t = self.st.templates.clone();
        self.r.pick(&t).clone()
    }

    pub fn reference(&mut self) -> String {
        let t = self.template();
        match self.r.below(12) {
            0 => self.tag(&format!("extends \"{t}\"")),
            1 => {
                let u = self.template();
                self.tag(&format!("include [\"{t}\", \"{u}\"]"))
            }
            2 => {
                let w = self.word(&["", "", " with context", " without context"]);
                self.tag(&format!("import \"{t}\" as mm{w}"))
            }
            3 => {
                let w = self.word(&["", "", " with context", " without context"]);
                self.tag(&format!("from \"{t}\" import mm{w}"))
            }
            5 => {
                let w = self.word(&["ignore missing", "with context", "without context", "ignore missing with context"]);
                self.tag(&format!("include \"{t}\" {w}"))
            }
            6 => {
                let u = self.template();
                self.tag(&format!("include [\"{t}\", '{u}'] ignore missing"))
            }
            4 => self.tag(&format!("include '{t}'")),
            _ => self.tag(&format!("include \"{t}\"")),
        }
    }

    pub fn expr(&mut self) -> String {
        let e = self.simple();
        match self.r.below(10) {
            0 if self.st.trim => format!("{{{{- {e} -}}}}"),
            1 => format!("{{{{{e}}}}}"),
            2 if self.st.trim => format!("{{{{\n  {e}\n}}}}"),
            3 => match self.r.below(4) {
                0 => format!("{{{{ {} is  }}}}", self.var()),
                1 => format!("{{{{ {} is  {} }}}}", self.var(), self.word(&TESTS)),
                _ => "{{  }}".to_string(),
            },
            4 | 5 => format!("{{{{ {} }}}}", self.var()),
            _ => format!("{{{{ {e} }}}}"),
        }
    }

    fn body(&mut self, depth: u32) -> String {
        let n = self.r.range(1, 3);
        (0..n).map(|_| self.chunk(depth)).collect()
    }

    pub fn scope(&mut self, depth: u32) -> String {
        let d = depth + 1;
        let (x, y) = (self.var(), self.var());
        match self.r.below(14) {
            13 => {
                let f = match self.r.below(3) {
                    0 => self.word(&FILTERS).to_string(),
                    1 => format!("{}|{}", self.word(&FILTERS), self.word(&FILTERS)),
                    _ => format!("join({})", self.atom()),
                };
                self.tag(&format!("filter {f}")) + &self.body(d) + &self.tag("endfilter")
            }
            0 | 1 => {
                let z = self.var();
                let rec = self.word(&["", "", "", " recursive"]);
                let head = match self.r.below(7) {
                    4 if x != y && y != z && x != z => format!("for {x}, {y}, {z} in {}{rec}", self.simple()),
                    5 if x != y && y != z && x != z => format!("for {x}, ({y}, {z}) in {}", self.var()),
                    6 => format!("for {x} in {}{rec}", self.var()),
                    0 if x != y => format!("for {x}, {y} in {}", self.var()),
                    1 if x != y => format!("for ({x}, {y}) in {}", self.var()),
                    2 => format!("for {x} in {} if {}", self.var(), self.cond()),
                    _ => format!("for {x} in {}", self.simple()),
                };
                let mut s = self.tag(&head) + &self.body(d);
                if self.r.chance(25) {
                    s += &self.tag("else");
                    s += &self.body(d);
                }
                s + &self.tag("endfor")
            }
            2 | 3 => {
                let c = self.cond();
                let mut s = self.tag(&format!("if {c}")) + &self.body(d);
                while self.r.chance(35) {
                    let c = self.cond();
                    s += &self.tag(&format!("elif {c}"));
                    s += &self.body(d);
                }
                if self.r.chance(50) {
                    s += &self.tag("else");
                    s += &self.body(d);
                }
                s + &self.tag("endif")
            }
            4 | 5 => {
                let e = self.simple();
                if self.r.chance(15) {
                    let c = self.cond();
                    let o = self.var();
                    self.tag(&format!("set {x} = {y} if {c} else {o}"))
                } else if self.r.chance(15) && x != y {
                    self.tag(&format!("set {x}, {y} = {e}"))
                } else {
                    self.tag(&format!("set {x} = {e}"))
                }
            }
            6 => {
                let b = self.body(d);
                let f = self.word(&["", "", " | upper", "|trim|lower"]);
                self.tag(&format!("set {x}{f}")) + &b + &self.tag("endset")
            }
            7 => {
                let e = self.simple();
                let head = match self.r.below(5) {
                    3 => format!("with {x} = {e}"),
                    4 if x != y => format!("with {x}={e}, {y} = {}", self.atom()),
                    0 => "with".to_string(),
                    1 if x != y => format!("with {x} = 1, {y} = \"s\""),
                    _ => format!("with {x} = 5"),
                };
                self.tag(&head) + &self.body(d) + &self.tag("endwith")
            }
            8 => {
                let name = self.word(&["mk", "btn"]);
                let a = self.atom();
                let head = match self.r.below(6) {
                    4 => format!("macro {name}({x}={a})"),
                    5 if x != y => format!("macro {name}({y}, {x} = {a})"),
                    0 => format!("macro {name}()"),
                    1 if x != y => format!("macro {name}({x}, {y}=3)"),
                    2 => format!("macro {name}({x}=\"d\")"),
                    _ => format!("macro {name}({x})"),
                };
                self.tag(&head) + &self.body(d) + &self.tag("endmacro")
            }
            9 | 10 => {
                let b = self.word(&BLOCKS);
                let end = if self.r.chance(30) { format!("endblock {b}") } else { "endblock".into() };
                let w = self.word(&["", "", "", " scoped", " required", " scoped required"]);
                self.tag(&format!("block {b}{w}")) + &self.body(d) + &self.tag(&end)
            }
            11 => {
                let call = format!("{}({})", self.word(&["mk", "btn"]), self.args());
                self.tag(&format!("call {call}")) + &self.body(d) + &self.tag("endcall")
            }
            _ => {
                let v = self.word(&["true", "false"]);
                self.tag(&format!("autoescape {v}")) + &self.body(d) + &self.tag("endautoescape")
            }
        }
    }

    pub fn chunk(&mut self, depth: u32) -> String {
        let x = self.r.below(100) as u32;
        let s = if x < self.st.text {
            self.text()
        } else if x < self.st.text + self.st.refs {
            self.reference()
        } else if x < self.st.text + self.st.refs + self.st.scopes && depth < self.st.depth {
            self.scope(depth)
        } else if x >= 97 {
            (*self.r.pick(&["{# note #}", "{# {{ hidden }} #}", "{# é\n #}"])).to_string()
        } else {
            self.expr()
        };
        let s = if self.st.ascii && !s.is_ascii() { "{{ a1 }}".to_string() } else { s };
        if self.r.chance(40) {
            s + "\n"
        } else {
            s
        }
    }

    pub fn fix(&self, s: String) -> String {
        if self.st.crlf {
            s.replace("\r\n", "\n").replace('\n', "\r\n")
        } else {
            s
        }
    }

    pub fn doc(&mut self, n: usize) -> Vec<String> {
        (0..n)
            .map(|_| {
                let c = self.chunk(0);
                self.fix(c)
            })
            .collect()
    }

    /// Lines of a backend file.
    pub fn backend(&mut self, py: bool, n: usize) -> Vec<String> {
        let mut v = vec![];
        if py {
            for _ in 0..n {
                let x = self.var();
                let t = self.template();
                v.push(match self.r.below(7) {
                    0 => format!("jinja_env.globals[\"{x}\"] = {}\n", self.r.below(50)),
                    1 => format!("get_template(\"{t}\")\n"),
                    2 => format!("env.get_template(\"{t}\")\n"),
                    3 => {
                        let y = self.var();
                        if x == y {
                            format!("render_template(\"{t}\", {x}=1)\n")
                        } else {
                            format!("render_template(\"{t}\", {x}=1, {y}=2)\n")
                        }
                    }
                    4 => format!("page.render(\"{t}\", {x}=7)\n"),
                    5 => format!("def view{}():\n    pass\n", self.r.below(9)),
                    _ => format!("# note {}\n", self.text().replace(['\n', '"', '\''], "")),
                });
            }
        } else {
            for _ in 0..n {
                let x = self.var();
                let t = self.template();
                v.push(match self.r.below(7) {
                    0 => format!("    jinja.add_global(\"{x}\", fun);\n"),
                    1 => format!("    jinja.add_function(\"{x}\", fun);\n"),
                    2 => format!("    render_jinja(\"{t}\");\n"),
                    3 => format!("    jinja.get_template(\"{t}\");\n"),
                    4 => {
                        let y = self.var();
                        if x == y {
                            format!("    let ctx = context!{{ {x} => 1 }};\n")
                        } else {
                            format!("    let ctx = context!{{ {x} => 1, {y} => 2 }};\n")
                        }
                    }
                    5 => "    // note ž\n".to_string(),
                    _ => "\n".to_string(),
                });
            }
            v.insert(0, "fn main() {\n".into());
            v.push("}\n".into());
        }
        v
    }
}
