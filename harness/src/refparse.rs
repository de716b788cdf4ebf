//! Reference lexer and parser, written from the GraphQL grammar.
use crate::ast::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    P(&'static str),
    Name(String),
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
}

pub const PUNCTS: [&str; 13] = ["...", "!", "&", "(", ")", ":", "=", "@", "[", "]", "{", "}", "|"];

pub fn block_value(raw: &str) -> String {
    // raw: text between the triple quotes, \""" not yet replaced
    let mut lines: Vec<String> = vec![String::new()];
    let b: Vec<char> = raw.chars().collect();
    let mut i = 0;
    // (char, is_escaped_quote_block): replacement happens before line splitting, which it cannot affect
    while i < b.len() {
        if b[i] == '\\' && b[i + 1..].starts_with(&['"', '"', '"']) {
            lines.last_mut().unwrap().push_str("\"\"\"");
            i += 4;
        } else if b[i] == '\r' {
            i += 1;
            if i < b.len() && b[i] == '\n' {
                i += 1;
            }
            lines.push(String::new());
        } else if b[i] == '\n' {
            i += 1;
            lines.push(String::new());
        } else {
            lines.last_mut().unwrap().push(b[i]);
            i += 1;
        }
    }
    let ws = |c: char| c == ' ' || c == '\t';
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        let indent = l.chars().take_while(|c| ws(*c)).count();
        if indent < l.chars().count() && common.map_or(true, |c| indent < c) {
            common = Some(indent);
        }
    }
    if let Some(c) = common {
        for l in lines.iter_mut().skip(1) {
            *l = l.chars().skip(c).collect();
        }
    }
    while lines.first().is_some_and(|l| l.chars().all(ws)) {
        lines.remove(0);
    }
    while lines.last().is_some_and(|l| l.chars().all(ws)) {
        lines.pop();
    }
    lines.join("\n")
}

/// Err carries a byte offset for diagnostics only
pub fn lex(s: &str, compat: bool) -> Result<Vec<Tok>, (usize, &'static str)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let name_start = |c: u8| c == b'_' || c.is_ascii_alphabetic();
    let name_cont = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
    while i < b.len() {
        let c = b[i];
        if s[i..].starts_with('\u{FEFF}') {
            i += 3;
            continue;
        }
        if matches!(c, b' ' | b'\t' | b'\n' | b'\r' | b',') {
            i += 1;
            continue;
        }
        if c == b'#' {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            continue;
        }
        let st = i;
        if name_start(c) {
            while i < b.len() && name_cont(b[i]) {
                i += 1;
            }
            out.push(Tok { t: T::Name(s[st..i].into()), start: st, end: i });
            continue;
        }
        if c == b'$' {
            i += 1;
            if i < b.len() && name_start(b[i]) {
                while i < b.len() && name_cont(b[i]) {
                    i += 1;
                }
                out.push(Tok { t: T::Var(s[st + 1..i].into()), start: st, end: i });
                continue;
            }
            return Err((st, "lone $"));
        }
        if c == b'-' || c.is_ascii_digit() {
            if c == b'-' {
                i += 1;
            }
            if i >= b.len() || !b[i].is_ascii_digit() {
                return Err((st, "lone -"));
            }
            if b[i] == b'0' {
                i += 1;
            } else {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            let mut float = false;
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                float = true;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    float = true;
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            if !compat && i < b.len() && (name_cont(b[i]) || b[i] == b'.') {
                return Err((st, "number followed by name start, digit or dot"));
            }
            let txt = &s[st..i];
            let t = if float {
                let f: f64 = txt.parse().map_err(|_| (st, "float"))?;
                if !f.is_finite() {
                    return Err((st, "float too large"));
                }
                T::Float(f)
            } else {
                T::Int(txt.parse().map_err(|_| (st, "int too large"))?)
            };
            out.push(Tok { t, start: st, end: i });
            continue;
        }
        if s[i..].starts_with("\"\"\"") {
            i += 3;
            let body = i;
            loop {
                if i >= b.len() {
                    return Err((st, "unterminated block string"));
                }
                if s.as_bytes()[i..].starts_with(b"\\\"\"\"") {
                    i += 4;
                } else if s.as_bytes()[i..].starts_with(b"\"\"\"") {
                    break;
                } else {
                    i += 1;
                }
            }
            let v = block_value(&s[body..i]);
            i += 3;
            out.push(Tok { t: T::Str(v), start: st, end: i });
            continue;
        }
        if c == b'"' {
            let mut v = String::new();
            let mut it = s[i + 1..].char_indices();
            let base = i + 1;
            let mut done = None;
            // returns value of exactly 4 hex digits at byte offset p
            let hex4 = |p: usize| -> Option<u32> {
                let h = s.get(p..p + 4)?;
                if h.bytes().all(|c| c.is_ascii_hexdigit()) {
                    u32::from_str_radix(h, 16).ok()
                } else {
                    None
                }
            };
            let mut skip_to = 0usize;
            while let Some((off, ch)) = it.next() {
                let p = base + off;
                if p < skip_to {
                    continue;
                }
                match ch {
                    '"' => {
                        done = Some(p + 1);
                        break;
                    }
                    '\n' | '\r' => {
                        if compat {
                            v.push(ch)
                        } else {
                            return Err((st, "line terminator in string"));
                        }
                    }
                    '\\' => {
                        let e = b.get(p + 1).copied();
                        let simple = match e {
                            Some(b'"') => Some('"'),
                            Some(b'\\') => Some('\\'),
                            Some(b'/') => Some('/'),
                            Some(b'b') => Some('\u{8}'),
                            Some(b'f') => Some('\u{c}'),
                            Some(b'n') => Some('\n'),
                            Some(b'r') => Some('\r'),
                            Some(b't') => Some('\t'),
                            _ => None,
                        };
                        if let Some(c) = simple {
                            v.push(c);
                            skip_to = p + 2;
                        } else if e == Some(b'u') {
                            if b.get(p + 2) == Some(&b'{') {
                                let close = s[p + 3..].find('}').ok_or((st, "bad escape"))? + p + 3;
                                let h = &s[p + 3..close];
                                if h.is_empty() || h.len() > 8 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                                    return Err((st, "bad escape"));
                                }
                                let c = u32::from_str_radix(h, 16).ok().and_then(char::from_u32).ok_or((st, "bad escape"))?;
                                v.push(c);
                                skip_to = close + 1;
                            } else {
                                let a = hex4(p + 2).ok_or((st, "bad escape"))?;
                                if (0xD800..0xDC00).contains(&a) {
                                    if b.get(p + 6) == Some(&b'\\') && b.get(p + 7) == Some(&b'u') {
                                        let l = hex4(p + 8).ok_or((st, "bad escape"))?;
                                        if !(0xDC00..0xE000).contains(&l) {
                                            return Err((st, "bad surrogate"));
                                        }
                                        v.push(char::from_u32(0x10000 + (a - 0xD800) * 0x400 + (l - 0xDC00)).unwrap());
                                        skip_to = p + 12;
                                    } else {
                                        return Err((st, "bad surrogate"));
                                    }
                                } else {
                                    v.push(char::from_u32(a).ok_or((st, "bad surrogate"))?);
                                    skip_to = p + 6;
                                }
                            }
                        } else {
                            return Err((st, "bad escape"));
                        }
                    }
                    c => v.push(c),
                }
            }
            match done {
                Some(e) => {
                    i = e;
                    out.push(Tok { t: T::Str(v), start: st, end: e });
                }
                None => return Err((st, "unterminated string")),
            }
            continue;
        }
        if let Some(p) = PUNCTS.iter().find(|p| s[i..].starts_with(**p)) {
            i += p.len();
            out.push(Tok { t: T::P(p), start: st, end: i });
            continue;
        }
        return Err((i, "unexpected character"));
    }
    Ok(out)
}

type R<X> = Result<X, usize>;

pub struct Ps<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> Ps<'a> {
    pub fn new(t: &'a [Tok]) -> Self {
        Ps { t, i: 0 }
    }
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i).map(|t| &t.t)
    }
    fn peekn(&self, n: usize) -> Option<&'a T> {
        self.t.get(self.i + n).map(|t| &t.t)
    }
    fn is_p(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is_p(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Name(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            _ => Err(self.i),
        }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Some(T::Name(n)) if n == k)
    }
    fn is_name(&self) -> bool {
        matches!(self.peek(), Some(T::Name(_)))
    }
    fn kw(&mut self, k: &str) -> R<()> {
        if self.is_kw(k) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    pub fn at_end(&self) -> bool {
        self.i >= self.t.len()
    }

    pub fn value(&mut self, konst: bool) -> R<Val> {
        let at = self.i;
        let t = self.peek().ok_or(at)?;
        self.i += 1;
        Ok(match t {
            T::Int(i) => Val::Int(*i),
            T::Float(f) => Val::Float(*f),
            T::Str(s) => Val::Str(s.clone()),
            T::Var(v) => {
                if konst {
                    return Err(at);
                }
                Val::Var(v.clone())
            }
            T::Name(n) => match n.as_str() {
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                "null" => Val::Null,
                _ => Val::Enum(n.clone()),
            },
            T::P("[") => {
                let mut l = vec![];
                while !self.eat("]") {
                    l.push(self.value(konst)?);
                }
                Val::List(l)
            }
            T::P("{") => {
                let mut l = vec![];
                while !self.eat("}") {
                    let n = self.name()?;
                    self.exp(":")?;
                    l.push((n, self.value(konst)?));
                }
                Val::Obj(l)
            }
            _ => return Err(at),
        })
    }

    pub fn ty(&mut self) -> R<Ty> {
        let t = if self.eat("[") {
            let t = self.ty()?;
            self.exp("]")?;
            t.list()
        } else {
            Ty::Named(self.name()?, false)
        };
        Ok(if self.eat("!") { t.req() } else { t })
    }

    fn args(&mut self, konst: bool) -> R<Args> {
        let mut l = vec![];
        if self.eat("(") {
            loop {
                let n = self.name()?;
                self.exp(":")?;
                l.push((n, self.value(konst)?));
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(l)
    }

    fn dirs(&mut self, konst: bool) -> R<Vec<Dir>> {
        let mut l = vec![];
        while self.eat("@") {
            let name = self.name()?;
            l.push(Dir { name, args: self.args(konst)? });
        }
        Ok(l)
    }

    fn sels(&mut self) -> R<Vec<Sel>> {
        self.exp("{")?;
        let mut l = vec![];
        loop {
            l.push(self.sel()?);
            if self.eat("}") {
                break;
            }
        }
        Ok(l)
    }

    fn sel(&mut self) -> R<Sel> {
        if self.eat("...") {
            if self.is_name() && !self.is_kw("on") {
                let n = self.name()?;
                return Ok(Sel::Spread(n, self.dirs(false)?));
            }
            let cond = if self.is_kw("on") {
                self.i += 1;
                Some(self.name()?)
            } else {
                None
            };
            let d = self.dirs(false)?;
            return Ok(Sel::Inline(cond, d, self.sels()?));
        }
        let first = self.name()?;
        let (alias, name) = if self.eat(":") { (Some(first), self.name()?) } else { (None, first) };
        let args = self.args(false)?;
        let dirs = self.dirs(false)?;
        let sel = if self.is_p("{") { Some(self.sels()?) } else { None };
        Ok(Sel::Field(Field { alias, name, args, dirs, sel }))
    }

    pub fn doc(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        if self.at_end() {
            return Err(0);
        }
        while !self.at_end() {
            if self.is_p("{") {
                d.ops.push(Op { kind: OpKind::Query, short: true, name: None, vars: vec![], dirs: vec![], sel: self.sels()? });
            } else if self.is_kw("fragment") {
                self.i += 1;
                if self.is_kw("on") {
                    return Err(self.i);
                }
                let name = self.name()?;
                self.kw("on")?;
                let on = self.name()?;
                let dirs = self.dirs(false)?;
                d.frags.push(Frag { name, on, dirs, sel: self.sels()? });
            } else {
                let kind = OpKind::ALL.into_iter().find(|k| self.is_kw(k.kw())).ok_or(self.i)?;
                self.i += 1;
                let name = if self.is_name() { Some(self.name()?) } else { None };
                let mut vars = vec![];
                if self.eat("(") {
                    loop {
                        let at = self.i;
                        let name = match self.peek() {
                            Some(T::Var(v)) => v.clone(),
                            _ => return Err(at),
                        };
                        self.i += 1;
                        self.exp(":")?;
                        let ty = self.ty()?;
                        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
                        let dirs = self.dirs(true)?;
                        vars.push(VarDef { name, ty, default, dirs });
                        if self.eat(")") {
                            break;
                        }
                    }
                }
                let dirs = self.dirs(false)?;
                d.ops.push(Op { kind, short: false, name, vars, dirs, sel: self.sels()? });
            }
        }
        Ok(d)
    }

    fn desc(&mut self) -> Option<String> {
        if let Some(T::Str(s)) = self.peek() {
            self.i += 1;
            Some(s.clone())
        } else {
            None
        }
    }

    fn input_vals(&mut self, close: &str) -> R<Vec<InputVal>> {
        let mut l = vec![];
        loop {
            let desc = self.desc();
            let name = self.name()?;
            self.exp(":")?;
            let ty = self.ty()?;
            let default = if self.eat("=") { Some(self.value(true)?) } else { None };
            let dirs = self.dirs(true)?;
            l.push(InputVal { desc, name, ty, default, dirs });
            if self.eat(close) {
                break;
            }
        }
        Ok(l)
    }

    fn argdefs(&mut self) -> R<Vec<InputVal>> {
        if self.eat("(") {
            self.input_vals(")")
        } else {
            Ok(vec![])
        }
    }

    fn ifaces(&mut self) -> R<Vec<String>> {
        let mut l = vec![];
        if self.is_kw("implements") {
            self.i += 1;
            self.eat("&");
            l.push(self.name()?);
            while self.eat("&") {
                l.push(self.name()?);
            }
        }
        Ok(l)
    }

    fn fields(&mut self) -> R<Vec<FieldDef>> {
        self.exp("{")?;
        let mut l = vec![];
        loop {
            let desc = self.desc();
            let name = self.name()?;
            let args = self.argdefs()?;
            self.exp(":")?;
            let ty = self.ty()?;
            let dirs = self.dirs(true)?;
            l.push(FieldDef { desc, name, args, ty, dirs });
            if self.eat("}") {
                break;
            }
        }
        Ok(l)
    }

    pub fn sdoc(&mut self) -> R<SDoc> {
        let mut d = SDoc::default();
        if self.at_end() {
            return Err(0);
        }
        while !self.at_end() {
            let desc = self.desc();
            let at = self.i;
            let kw = self.name()?;
            let def = match kw.as_str() {
                "schema" => {
                    let dirs = self.dirs(true)?;
                    self.exp("{")?;
                    let mut ops = vec![];
                    loop {
                        let k = OpKind::ALL.into_iter().find(|k| self.is_kw(k.kw())).ok_or(self.i)?;
                        self.i += 1;
                        self.exp(":")?;
                        ops.push((k, self.name()?));
                        if self.eat("}") {
                            break;
                        }
                    }
                    SDef::Schema(SchemaDef { desc, dirs, ops })
                }
                "directive" => {
                    self.exp("@")?;
                    let name = self.name()?;
                    let args = self.argdefs()?;
                    let repeatable = self.is_kw("repeatable");
                    if repeatable {
                        self.i += 1;
                    }
                    self.kw("on")?;
                    let mut locs = vec![];
                    self.eat("|");
                    loop {
                        let at = self.i;
                        let n = self.name()?;
                        if !EXEC_LOCS.contains(&n.as_str()) && !TYPE_LOCS.contains(&n.as_str()) {
                            return Err(at);
                        }
                        locs.push(n);
                        if !self.eat("|") {
                            break;
                        }
                    }
                    SDef::Directive(DirDef { desc, name, args, repeatable, locs })
                }
                k @ ("scalar" | "type" | "interface" | "union" | "enum" | "input") => {
                    let name = self.name()?;
                    let ifaces = if k == "type" || k == "interface" { self.ifaces()? } else { vec![] };
                    let dirs = self.dirs(true)?;
                    let kind = match k {
                        "scalar" => Kind::Scalar,
                        "type" => Kind::Object { ifaces, fields: self.fields()? },
                        "interface" => Kind::Interface { ifaces, fields: self.fields()? },
                        "union" => {
                            self.exp("=")?;
                            self.eat("|");
                            let mut members = vec![self.name()?];
                            while self.eat("|") {
                                members.push(self.name()?);
                            }
                            Kind::Union { members }
                        }
                        "enum" => {
                            self.exp("{")?;
                            let mut values = vec![];
                            loop {
                                let desc = self.desc();
                                let at = self.i;
                                let name = self.name()?;
                                if matches!(name.as_str(), "true" | "false" | "null") {
                                    return Err(at);
                                }
                                let dirs = self.dirs(true)?;
                                values.push(EnumVal { desc, name, dirs });
                                if self.eat("}") {
                                    break;
                                }
                            }
                            Kind::Enum { values }
                        }
                        _ => {
                            self.exp("{")?;
                            Kind::Input { fields: self.input_vals("}")? }
                        }
                    };
                    SDef::Type(TypeDef { desc, name, dirs, kind })
                }
                _ => return Err(at),
            };
            d.defs.push(def);
        }
        Ok(d)
    }
}

pub fn parse_doc(s: &str, compat: bool) -> Result<Doc, String> {
    let t = lex(s, compat).map_err(|e| format!("lex error at byte {}: {}", e.0, e.1))?;
    Ps::new(&t).doc().map_err(|i| format!("syntax error at token {i}"))
}
pub fn parse_sdoc(s: &str, compat: bool) -> Result<SDoc, String> {
    let t = lex(s, compat).map_err(|e| format!("lex error at byte {}: {}", e.0, e.1))?;
    Ps::new(&t).sdoc().map_err(|i| format!("syntax error at token {i}"))
}
