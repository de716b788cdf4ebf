//! Syntax-level generators: arbitrary (not schema-aware) documents and corruptions of them.
use crate::ast::*;
use crate::src::Src;

pub const NAMES: [&str; 34] = [
    "a", "b", "c", "foo", "Bar", "_", "__x", "x1", "A_b2", "on", "fragment", "query", "mutation", "subscription", "schema", "type", "input", "enum", "union",
    "interface", "scalar", "directive", "implements", "repeatable", "extend", "true", "false", "null", "e1", "E", "u0041", "FIELD", "QUERY", "longer_Name_99",
];

pub fn name(s: &mut Src) -> String {
    if s.chance(1, 12) {
        let n = s.range(1, 12);
        let mut o = String::new();
        for i in 0..n {
            let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
            let rest = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            o.push(if i == 0 { first[s.below(first.len())] } else { rest[s.below(rest.len())] } as char);
        }
        o
    } else {
        s.pick(&NAMES).to_string()
    }
}
fn name_not(s: &mut Src, not: &[&str]) -> String {
    let n = name(s);
    if not.contains(&n.as_str()) {
        "zz".into()
    } else {
        n
    }
}
pub fn enum_name(s: &mut Src) -> String {
    name_not(s, &["true", "false", "null"])
}

pub fn string(s: &mut Src) -> String {
    let n = s.weighted(&[2, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1]);
    let n = if s.chance(1, 30) { s.range(10, 60) } else { n };
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[8, 10, 2]) {
            0 => o.push(*s.pick(&['a', 'b', 'Z', '0', ' ', 'u'])),
            1 => o.push_str(*s.pick(&[
                "\"", "\\", "\n", "\"\"\"", "\r", "\r\n", "\t", "/", "\u{8}", "\u{c}", "#", ",", "é", "🔥", "\u{FEFF}", "\u{2028}", "\u{85}", "\u{b}", "\u{0}", "\u{7f}", "{", "}", "$x",
                "\\u0041", "  ", "\n  ", "\n\n", " \n", "\u{fffd}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "'",
            ])),
            _ => {
                let c = match s.below(4) {
                    0 => s.below(0x80) as u32,
                    1 => s.below(0x800) as u32,
                    2 => s.below(0xFFFF) as u32,
                    _ => s.below(0x110000) as u32,
                };
                o.push(char::from_u32(c).unwrap_or('x'));
            }
        }
    }
    o
}

pub fn int(s: &mut Src) -> i32 {
    match s.below(4) {
        0 => s.below(10) as i32,
        1 => *s.pick(&[0, -1, 1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 10, 100, -10]),
        2 => (s.below(1 << 32) as u32) as i32,
        _ => s.below(2000) as i32 - 1000,
    }
}

pub fn float(s: &mut Src) -> f64 {
    let f = match s.below(5) {
        0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 1e10, 1e21, 1e22, 1e300, -1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 123456789.123456789, 1e-7, 1e-11, 2.5e-11, 16777217.0, 9007199254740993.0, 1.0000000000000002, 3.00000000001, 4.999999999999999]),
        1 => s.below(100000) as f64 / 100.0,
        2 => f64::from_bits(s.u64()),
        3 => (s.below(20000) as f64 - 10000.0) / 8.0,
        _ => s.below(1000) as f64 * 10f64.powi(s.below(40) as i32 - 20),
    };
    if f.is_finite() {
        f
    } else {
        1.25
    }
}

pub fn val(s: &mut Src, konst: bool, depth: usize) -> Val {
    let w: &[usize] = if depth == 0 { &[4, 3, 3, 5, 2, 2, 3] } else { &[4, 3, 3, 5, 2, 2, 3, 4, 4] };
    match s.weighted(w) {
        0 => Val::Int(int(s)),
        1 => {
            if konst {
                Val::Int(3)
            } else {
                Val::Var(name(s))
            }
        }
        2 => Val::Float(float(s)),
        3 => Val::Str(string(s)),
        4 => Val::Bool(s.bool()),
        5 => Val::Null,
        6 => Val::Enum(enum_name(s)),
        7 => {
            let n = s.weighted(&[2, 3, 3, 1, 1]);
            Val::List((0..n).map(|_| val(s, konst, depth - 1)).collect())
        }
        _ => {
            let n = s.weighted(&[2, 3, 3, 1]);
            Val::Obj((0..n).map(|_| (name(s), val(s, konst, depth - 1))).collect())
        }
    }
}

pub fn ty(s: &mut Src) -> Ty {
    let mut t = Ty::Named(name(s), s.chance(1, 3));
    let d = s.weighted(&[5, 3, 2, 1]);
    for _ in 0..d {
        t = Ty::List(Box::new(t), s.chance(1, 3));
    }
    t
}

fn args(s: &mut Src, konst: bool) -> Args {
    let n = s.weighted(&[6, 3, 2, 1]);
    (0..n).map(|_| (name(s), val(s, konst, 3))).collect()
}
fn dirs(s: &mut Src, konst: bool) -> Vec<Dir> {
    let n = s.weighted(&[7, 2, 1]);
    (0..n).map(|_| Dir { name: name(s), args: args(s, konst) }).collect()
}

pub fn sels(s: &mut Src, depth: usize, budget: &mut usize) -> Vec<Sel> {
    let n = s.weighted(&[4, 3, 2, 1]) + 1;
    (0..n)
        .map(|_| {
            *budget = budget.saturating_sub(1);
            let leaf = depth == 0 || *budget == 0;
            match s.weighted(&[6, 1, 2]) {
                1 => Sel::Spread(name_not(s, &["on"]), dirs(s, false)),
                2 if !leaf => {
                    let c = if s.bool() { Some(name(s)) } else { None };
                    let d = dirs(s, false);
                    Sel::Inline(c, d, sels(s, depth - 1, budget))
                }
                _ => Sel::Field(Field {
                    alias: if s.chance(1, 4) { Some(name(s)) } else { None },
                    name: name(s),
                    args: args(s, false),
                    dirs: dirs(s, false),
                    sel: if !leaf && s.chance(1, 3) { Some(sels(s, depth - 1, budget)) } else { None },
                }),
            }
        })
        .collect()
}

pub fn doc(s: &mut Src) -> Doc {
    let mut d = Doc::default();
    let n = s.weighted(&[5, 3, 2, 1]) + 1;
    for _ in 0..n {
        let mut budget = 25;
        if s.chance(1, 3) {
            d.frags.push(Frag { name: name_not(s, &["on"]), on: name(s), dirs: dirs(s, false), sel: sels(s, 4, &mut budget) });
        } else if s.chance(1, 3) {
            d.ops.push(Op { kind: OpKind::Query, short: true, name: None, vars: vec![], dirs: vec![], sel: sels(s, 4, &mut budget) });
        } else {
            let kind = *s.pick(&OpKind::ALL);
            let name_ = if s.bool() { Some(name(s)) } else { None };
            let nv = s.weighted(&[5, 3, 2, 1]);
            let vars = (0..nv)
                .map(|_| VarDef { name: name(s), ty: ty(s), default: if s.chance(1, 3) { Some(val(s, true, 2)) } else { None }, dirs: dirs(s, true) })
                .collect();
            let dirs = dirs(s, false);
            d.ops.push(Op { kind, short: false, name: name_, vars, dirs, sel: sels(s, 4, &mut budget) });
        }
    }
    d
}

fn desc(s: &mut Src) -> Option<String> {
    if s.chance(1, 4) {
        Some(string(s))
    } else {
        None
    }
}
fn input_vals(s: &mut Src, min: usize) -> Vec<InputVal> {
    let n = s.weighted(&[5, 3, 1]) + min;
    (0..n)
        .map(|_| InputVal { desc: desc(s), name: name(s), ty: ty(s), default: if s.chance(1, 3) { Some(val(s, true, 2)) } else { None }, dirs: dirs(s, true) })
        .collect()
}
fn fields(s: &mut Src) -> Vec<FieldDef> {
    let n = s.weighted(&[5, 3, 1]) + 1;
    (0..n).map(|_| FieldDef { desc: desc(s), name: name(s), args: input_vals(s, 0), ty: ty(s), dirs: dirs(s, true) }).collect()
}
fn names(s: &mut Src, min: usize) -> Vec<String> {
    let n = s.weighted(&[5, 3, 1]) + min;
    (0..n).map(|_| name(s)).collect()
}

pub fn sdef(s: &mut Src) -> SDef {
    let desc_ = desc(s);
    match s.below(8) {
        0 => SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Scalar }),
        1 => SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Object { ifaces: names(s, 0), fields: fields(s) } }),
        2 => SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Interface { ifaces: names(s, 0), fields: fields(s) } }),
        3 => SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Union { members: names(s, 1) } }),
        4 => {
            let n = s.weighted(&[4, 3, 1]) + 1;
            let values = (0..n).map(|_| EnumVal { desc: desc(s), name: enum_name(s), dirs: dirs(s, true) }).collect();
            SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Enum { values } })
        }
        5 => SDef::Type(TypeDef { desc: desc_, name: name(s), dirs: dirs(s, true), kind: Kind::Input { fields: input_vals(s, 1) } }),
        6 => {
            let n = s.weighted(&[4, 3, 1]) + 1;
            let locs = (0..n).map(|_| if s.bool() { s.pick(&EXEC_LOCS).to_string() } else { s.pick(&TYPE_LOCS).to_string() }).collect();
            SDef::Directive(DirDef { desc: desc_, name: name(s), args: input_vals(s, 0), repeatable: s.bool(), locs })
        }
        _ => {
            let n = s.weighted(&[4, 3, 1]) + 1;
            let ops = (0..n).map(|_| (*s.pick(&OpKind::ALL), name(s))).collect();
            SDef::Schema(SchemaDef { desc: desc_, dirs: dirs(s, true), ops })
        }
    }
}
pub fn sdoc(s: &mut Src) -> SDoc {
    let n = s.weighted(&[4, 3, 2, 1, 1]) + 1;
    SDoc { defs: (0..n).map(|_| sdef(s)).collect() }
}

pub fn junk_token(s: &mut Src) -> String {
    match s.below(6) {
        0 => s.pick(&crate::refparse::PUNCTS).to_string(),
        1 => name(s),
        2 => s.pick(&["$x", "$on", "0", "12", "-1", "1.5", "1e3", "\"s\"", "\"\"", "\"\"\"b\"\"\"", "{", "}", "on", "=", ":", "|", "&", "@"]).to_string(),
        3 => s
            .pick(&[
                "00", "01", "-", "-a", "1.", ".5", "1e", "1a", "0x1", "1.5.5", "1e1e1", "2147483648", "-2147483648", "-2147483649", "99999999999", "1e999", "-1e999", "1e-999", "$", "$1", "..", ".", "....", "%", "?", "~",
                "\"unterminated", "\"\"\"unterminated", "\"\\x\"", "\"\\u12\"", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\uD800\"", "\"\\uDC00\"", "\"\\uD83D\\uDD25\"", "\"a\nb\"", "\"a\rb\"", "é", "🔥", "\u{a0}", "\u{2028}", "\u{0}", "\\", "'a'", ";", "123abc", "1_", "-0", "-0.0",
                "\"\\u{0041}\"", "\"\\u{FFFFFFFFF}\"", "\"\"\"\"", "\"\"\"\"\"\"\"", "extend",
            ])
            .to_string(),
        4 => crate::render::val_text(&val(s, false, 1)),
        _ => s.pick(&["query", "fragment", "type", "schema", "implements", "repeatable", "directive", "union", "null", "true"]).to_string(),
    }
}

/// token-level corruption; None when nothing was changed
pub fn mutate_tokens(t: &mut Vec<String>, s: &mut Src) {
    let n = s.weighted(&[6, 2, 1]) + 1;
    for _ in 0..n {
        if t.is_empty() {
            t.push(junk_token(s));
            continue;
        }
        let i = s.below(t.len());
        match s.below(6) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x)
            }
            2 => {
                let j = junk_token(s);
                t.insert(i, j)
            }
            3 => t[i] = junk_token(s),
            4 => {
                let j = s.below(t.len());
                t.swap(i, j)
            }
            _ => t.truncate(i),
        }
    }
}

pub const CHARS: [&str; 46] = [
    "\"", "\\", "\n", "\r", "\r\n", "\t", " ", ",", "#", "{", "}", "(", ")", "[", "]", "$", "!", ":", "=", "@", "|", "&", ".", "...", "-", "+", "0", "1", "9", "e", "E", "a", "_", "u", "u{", "\"\"\"", "\u{FEFF}", "é", "🔥", "\u{0}", "\u{2028}",
    "\u{85}", "\u{b}", "x", "on", "\\u",
];

pub fn mutate_chars(t: &str, s: &mut Src) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = s.weighted(&[6, 2, 1]) + 1;
    for _ in 0..n {
        let i = s.below(c.len() + 1);
        match s.below(3) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => {
                let r = s.pick(&CHARS).chars().next().unwrap();
                c[i] = r
            }
            _ => {
                let ins: Vec<char> = s.pick(&CHARS).chars().collect();
                c.splice(i..i, ins);
            }
        }
    }
    c.into_iter().collect()
}

pub fn soup(s: &mut Src) -> String {
    let n = s.range(0, 30);
    let mut o = String::new();
    for _ in 0..n {
        if s.chance(1, 3) {
            o.push_str(&junk_token(s));
            if s.bool() {
                o.push(' ');
            }
        } else {
            o.push_str(*s.pick(&CHARS));
        }
    }
    o
}
