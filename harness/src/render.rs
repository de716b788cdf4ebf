//! Reference AST -> tokens -> text, in canonical or randomised layout.
use crate::ast::*;
use crate::refparse::{block_value, T};
use crate::src::Src;

pub struct Out<'a> {
    pub toks: Vec<String>,
    pub src: Option<&'a mut Src>,
    /// which token belongs to which node (tag, address, path inside a value), when wanted
    pub marks: Option<Vec<(Id, usize)>>,
    vpath: Option<Id>,
}

pub type Id = (char, usize, String);

pub fn plain_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn u16esc(c: u16, src: &mut Src) -> String {
    if src.bool() {
        format!("\\u{c:04x}")
    } else {
        format!("\\u{c:04X}")
    }
}

/// a random spelling of the string literal with value `s`
pub fn string_literal(s: &str, src: &mut Src) -> String {
    match src.weighted(&[4, 3, 3]) {
        0 => plain_string(s),
        1 => {
            let mut o = String::from("\"");
            for c in s.chars() {
                let simple = match c {
                    '"' => Some("\\\""),
                    '\\' => Some("\\\\"),
                    '/' => Some("\\/"),
                    '\u{8}' => Some("\\b"),
                    '\u{c}' => Some("\\f"),
                    '\n' => Some("\\n"),
                    '\r' => Some("\\r"),
                    '\t' => Some("\\t"),
                    _ => None,
                };
                let raw_ok = !matches!(c, '"' | '\\' | '\n' | '\r');
                match src.weighted(&[5, 3, 2, 2]) {
                    0 if raw_ok => o.push(c),
                    0 | 1 if simple.is_some() => o.push_str(simple.unwrap()),
                    0 | 1 | 2 => {
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            let e = u16esc(*u, src);
                            o.push_str(&e);
                        }
                    }
                    _ => {
                        let pad = src.below(3);
                        let h = format!("{:x}", c as u32);
                        let h = format!("{}{}", "0".repeat(pad.min(8 - h.len())), h);
                        o.push_str(&format!("\\u{{{h}}}"));
                    }
                }
            }
            o.push('"');
            o
        }
        _ => block_literal(s, src).unwrap_or_else(|| plain_string(s)),
    }
}

/// a block string spelling of `s`, when there is one
pub fn block_literal(s: &str, src: &mut Src) -> Option<String> {
    let term = *src.pick(&["\n", "\r\n", "\r"]);
    let indent = " ".repeat(src.below(4));
    let mut body = String::new();
    let first_inline = src.chance(1, 3);
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 || !first_inline {
            body.push_str(term);
            if !l.is_empty() {
                body.push_str(&indent);
            }
        }
        body.push_str(&l.replace("\"\"\"", "\\\"\"\""));
    }
    if src.bool() {
        body.push_str(term);
        body.push_str(&indent);
    }
    if body.ends_with('"') || body.ends_with('\\') {
        body.push_str(term);
    }
    if block_value(&body) != s {
        return None;
    }
    let lit = format!("\"\"\"{body}\"\"\"");
    match crate::refparse::lex(&lit, false) {
        Ok(t) if t.len() == 1 && t[0].t == T::Str(s.to_string()) => Some(lit),
        _ => None,
    }
}

pub fn float_literal(f: f64, src: Option<&mut Src>) -> String {
    let base = format!("{f:?}");
    let Some(src) = src else { return base };
    let cand = match src.weighted(&[3, 1, 1, 1]) {
        0 => base.clone(),
        1 => format!("{f:e}").replace('e', "E"),
        2 => {
            let e = format!("{f:e}");
            if e.contains("e-") {
                e
            } else {
                e.replace('e', "e+")
            }
        }
        _ => {
            if f.abs() < 1e15 && f.abs() > 1e-5 {
                let s = format!("{f}");
                if s.contains('.') {
                    format!("{s}00")
                } else {
                    format!("{s}.0")
                }
            } else {
                base.clone()
            }
        }
    };
    if cand.parse::<f64>().map(|x| x.to_bits()) == Ok(f.to_bits()) {
        cand
    } else {
        base
    }
}

impl<'a> Out<'a> {
    pub fn new(src: Option<&'a mut Src>) -> Self {
        Out { toks: vec![], src, marks: None, vpath: None }
    }
    /// the next token belongs to this node
    fn mark<T: ?Sized>(&mut self, tag: char, node: &T) {
        let i = self.toks.len();
        if let Some(m) = &mut self.marks {
            m.push(((tag, node as *const T as *const u8 as usize, String::new()), i));
        }
    }
    fn mark_path(&mut self, suffix: &str) {
        let i = self.toks.len();
        if let (Some(m), Some((t, a, p))) = (&mut self.marks, &self.vpath) {
            m.push(((*t, *a, format!("{p}|{suffix}")), i));
        }
    }
    /// `val` inside the node
    fn val_of<T: ?Sized>(&mut self, v: &Val, tag: char, node: &T) {
        self.mark(tag, node);
        self.vpath = self.marks.is_some().then(|| (tag, node as *const T as *const u8 as usize, String::new()));
        self.val(v);
        self.vpath = None;
    }
    fn val_in(&mut self, v: &Val, step: impl std::fmt::Display) {
        let n = self.vpath.as_ref().map(|p| p.2.len());
        if let Some(p) = &mut self.vpath {
            p.2.push_str(&format!("/{step}"));
        }
        self.val(v);
        if let (Some(p), Some(n)) = (&mut self.vpath, n) {
            p.2.truncate(n);
        }
    }
    fn p(&mut self, s: &str) {
        self.toks.push(s.to_string())
    }
    fn name(&mut self, n: &String) {
        self.mark('N', n);
        self.p(n)
    }
    fn coin(&mut self) -> bool {
        self.src.as_mut().is_some_and(|s| s.chance(1, 3))
    }
    fn string(&mut self, s: &str) {
        let t = match &mut self.src {
            Some(src) => string_literal(s, src),
            None => plain_string(s),
        };
        self.toks.push(t)
    }
    pub fn val(&mut self, v: &Val) {
        self.mark_path("");
        match v {
            Val::Var(n) => {
                self.mark('V', v);
                self.p(&format!("${n}"))
            }
            Val::Int(i) => self.p(&i.to_string()),
            Val::Float(f) => {
                let t = float_literal(*f, self.src.as_deref_mut());
                self.toks.push(t)
            }
            Val::Str(s) => self.string(s),
            Val::Bool(b) => self.p(if *b { "true" } else { "false" }),
            Val::Null => self.p("null"),
            Val::Enum(e) => self.p(e),
            Val::List(l) => {
                self.p("[");
                l.iter().enumerate().for_each(|(i, v)| self.val_in(v, i));
                self.p("]");
            }
            Val::Obj(l) => {
                self.p("{");
                for (k, v) in l {
                    self.mark_path(k);
                    self.p(k);
                    self.p(":");
                    self.val_in(v, k);
                }
                self.p("}");
            }
        }
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Named(n, _) => {
                self.mark('N', n);
                self.p(n)
            }
            Ty::List(t, _) => {
                self.p("[");
                self.ty(t);
                self.p("]");
            }
        }
        if t.is_req() {
            self.p("!")
        }
    }
    fn args(&mut self, a: &Args) {
        if !a.is_empty() {
            self.p("(");
            for x in a {
                self.mark('A', x);
                self.p(&x.0);
                self.p(":");
                self.val_of(&x.1, 'A', x);
            }
            self.p(")");
        }
    }
    fn dirs(&mut self, d: &[Dir]) {
        for d in d {
            self.mark('D', d);
            self.p("@");
            self.mark('D', d);
            self.p(&d.name);
            self.args(&d.args);
        }
    }
    fn sels(&mut self, s: &[Sel]) {
        self.mark('L', s);
        self.p("{");
        for x in s {
            match x {
                Sel::Field(f) => {
                    self.mark('F', f);
                    if let Some(a) = &f.alias {
                        self.p(a);
                        self.p(":");
                    }
                    self.mark('F', f);
                    self.p(&f.name);
                    self.args(&f.args);
                    self.dirs(&f.dirs);
                    if let Some(s) = &f.sel {
                        self.mark('F', f);
                        self.sels(s)
                    }
                }
                Sel::Spread(n, d) => {
                    self.mark('S', x);
                    self.p("...");
                    self.mark('S', x);
                    self.p(n);
                    self.dirs(d);
                }
                Sel::Inline(c, d, s) => {
                    self.mark('S', x);
                    self.p("...");
                    if let Some(c) = c {
                        self.mark('S', x);
                        self.p("on");
                        self.mark('S', x);
                        self.p(c);
                    }
                    self.dirs(d);
                    self.mark('S', x);
                    self.sels(s);
                }
            }
        }
        self.p("}");
    }
    pub fn op(&mut self, o: &Op) {
        if !o.short {
            self.mark('O', o);
            self.p(o.kind.kw());
            if let Some(n) = &o.name {
                self.mark('O', o);
                self.p(n)
            }
            if !o.vars.is_empty() {
                self.p("(");
                for v in &o.vars {
                    self.mark('P', v);
                    self.p(&format!("${}", v.name));
                    self.p(":");
                    self.mark('P', v);
                    self.ty(&v.ty);
                    if let Some(d) = &v.default {
                        self.p("=");
                        self.val_of(d, 'P', v);
                    }
                    self.dirs(&v.dirs);
                }
                self.p(")");
            }
            self.dirs(&o.dirs);
        }
        self.mark('O', o);
        self.sels(&o.sel);
    }
    pub fn frag(&mut self, f: &Frag) {
        self.mark('G', f);
        self.p("fragment");
        self.mark('G', f);
        self.p(&f.name);
        self.mark('G', f);
        self.p("on");
        self.mark('G', f);
        self.p(&f.on);
        self.dirs(&f.dirs);
        self.mark('G', f);
        self.sels(&f.sel);
    }
    /// operations and fragments, interleaved at random (their relative order is not in the model)
    pub fn doc(&mut self, d: &Doc) {
        let (mut i, mut j) = (0, 0);
        while i < d.ops.len() || j < d.frags.len() {
            if i < d.ops.len() && (j >= d.frags.len() || !self.coin()) {
                self.op(&d.ops[i]);
                i += 1;
            } else {
                self.frag(&d.frags[j]);
                j += 1;
            }
        }
    }
    fn desc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.string(d)
        }
    }
    fn input_vals(&mut self, l: &[InputVal]) {
        for v in l {
            self.desc(&v.desc);
            self.name(&v.name);
            self.p(":");
            self.ty(&v.ty);
            if let Some(d) = &v.default {
                self.p("=");
                self.val(d);
            }
            self.dirs(&v.dirs);
        }
    }
    fn argdefs(&mut self, l: &[InputVal]) {
        if !l.is_empty() {
            self.p("(");
            self.input_vals(l);
            self.p(")");
        }
    }
    fn sep_list(&mut self, sep: &str, l: &[String]) {
        for (i, n) in l.iter().enumerate() {
            if i > 0 || self.coin() {
                self.p(sep)
            }
            self.name(n);
        }
    }
    fn fields(&mut self, l: &[FieldDef]) {
        self.p("{");
        for f in l {
            self.desc(&f.desc);
            self.name(&f.name);
            self.argdefs(&f.args);
            self.p(":");
            self.ty(&f.ty);
            self.dirs(&f.dirs);
        }
        self.p("}");
    }
    fn ifaces(&mut self, l: &[String]) {
        if !l.is_empty() {
            self.p("implements");
            self.sep_list("&", l);
        }
    }
    pub fn sdef(&mut self, d: &SDef) {
        match d {
            SDef::Schema(s) => {
                self.desc(&s.desc);
                self.mark('H', s);
                self.p("schema");
                self.dirs(&s.dirs);
                self.mark('H', s);
                self.p("{");
                for (k, n) in &s.ops {
                    self.mark('O', n);
                    self.p(k.kw());
                    self.p(":");
                    self.mark('O', n);
                    self.name(n);
                }
                self.p("}");
            }
            SDef::Directive(d) => {
                self.desc(&d.desc);
                self.p("directive");
                self.p("@");
                self.name(&d.name);
                self.argdefs(&d.args);
                if d.repeatable {
                    self.p("repeatable")
                }
                self.p("on");
                self.sep_list("|", &d.locs);
            }
            SDef::Type(t) => {
                self.desc(&t.desc);
                match &t.kind {
                    Kind::Scalar => {
                        self.p("scalar");
                        self.name(&t.name);
                        self.dirs(&t.dirs);
                    }
                    Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => {
                        self.p(if matches!(t.kind, Kind::Object { .. }) { "type" } else { "interface" });
                        self.name(&t.name);
                        self.ifaces(ifaces);
                        self.dirs(&t.dirs);
                        self.fields(fields);
                    }
                    Kind::Union { members } => {
                        self.p("union");
                        self.name(&t.name);
                        self.dirs(&t.dirs);
                        self.p("=");
                        self.sep_list("|", members);
                    }
                    Kind::Enum { values } => {
                        self.p("enum");
                        self.name(&t.name);
                        self.dirs(&t.dirs);
                        self.p("{");
                        for v in values {
                            self.desc(&v.desc);
                            self.name(&v.name);
                            self.dirs(&v.dirs);
                        }
                        self.p("}");
                    }
                    Kind::Input { fields } => {
                        self.p("input");
                        self.name(&t.name);
                        self.dirs(&t.dirs);
                        self.p("{");
                        self.input_vals(fields);
                        self.p("}");
                    }
                }
            }
        }
    }
    pub fn sdoc(&mut self, d: &SDoc) {
        d.defs.iter().for_each(|d| self.sdef(d))
    }
}

/// must some ignored text separate these two tokens?
pub fn needs_sep(a: &str, b: &str) -> bool {
    let word = |c: char| c == '_' || c.is_ascii_alphanumeric();
    let ac = a.chars().next_back().unwrap_or(' ');
    let bc = b.chars().next().unwrap_or(' ');
    // a is a name, $name or number; b begins with a name character
    if word(ac) && word(bc) {
        return true;
    }
    let a_num = a.chars().next().is_some_and(|c| c == '-' || c.is_ascii_digit());
    if a_num && (bc == '.' || word(bc)) {
        return true;
    }
    ac == '"' && bc == '"'
}

pub fn join_min(toks: &[String]) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && needs_sep(&toks[i - 1], t) {
            o.push(' ');
        }
        o.push_str(t);
    }
    o
}

pub fn join_space(toks: &[String]) -> String {
    let mut o = String::new();
    let mut depth = 0usize;
    for t in toks {
        match t.as_str() {
            "}" => {
                depth = depth.saturating_sub(1);
                o.push('\n');
                o.push_str(&"  ".repeat(depth));
                o.push('}');
                if depth == 0 {
                    o.push('\n');
                } else {
                    o.push(' ');
                }
                continue;
            }
            "{" => {
                depth += 1;
                o.push('{');
                o.push('\n');
                o.push_str(&"  ".repeat(depth));
                continue;
            }
            _ => {}
        }
        o.push_str(t);
        o.push(' ');
    }
    o
}

pub fn ignored(src: &mut Src) -> String {
    let n = src.weighted(&[6, 3, 1]) + 1;
    let mut o = String::new();
    for _ in 0..n {
        match src.below(9) {
            0 => o.push(' '),
            1 => o.push('\n'),
            2 => o.push('\t'),
            3 => o.push(','),
            4 => o.push('\r'),
            5 => o.push_str("\r\n"),
            6 => o.push('\u{FEFF}'),
            7 => {
                o.push('#');
                let junk = ["", "c", "\"", "\"\"\"", " { x }", "é🔥", "\u{FEFF}", "\\", "# #", "$", "\u{2028}x", "\u{85}", "\u{b}", "} fragment"];
                o.push_str(*src.pick(&junk));
                o.push_str(*src.pick(&["\n", "\r", "\r\n"]));
            }
            _ => o.push_str("  "),
        }
    }
    o
}

pub fn join_random(toks: &[String], src: &mut Src) -> String {
    let mut o = String::new();
    let rate = src.range(0, 4);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && needs_sep(&toks[i - 1], t) {
            if rate > 0 && src.bool() {
                o.push_str(&ignored(src));
            } else {
                o.push(' ');
            }
        } else if rate > 0 && src.chance(rate, 8) {
            o.push_str(&ignored(src));
        }
        o.push_str(t);
    }
    if rate > 0 && src.chance(rate, 8) {
        o.push_str(&ignored(src));
        if src.chance(1, 3) {
            o.push_str("# trailing comment without newline");
        }
    }
    o
}

pub fn doc_tokens(d: &Doc, src: Option<&mut Src>) -> Vec<String> {
    let mut o = Out::new(src);
    o.doc(d);
    o.toks
}
pub fn sdoc_tokens(d: &SDoc, src: Option<&mut Src>) -> Vec<String> {
    let mut o = Out::new(src);
    o.sdoc(d);
    o.toks
}
pub fn doc_text(d: &Doc) -> String {
    join_space(&doc_tokens(d, None))
}
pub fn sdoc_text(d: &SDoc) -> String {
    join_space(&sdoc_tokens(d, None))
}
pub fn val_text(v: &Val) -> String {
    let mut o = Out::new(None);
    o.val(v);
    join_space(&o.toks)
}
