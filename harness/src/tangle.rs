//! Small schemas whose types share their few field names, and documents that select the same few
//! response keys over and over, directly, below type conditions and through fragments.
use crate::ast::*;
use crate::refparse;
use crate::schema::Schema;
use crate::src::Src;
use std::collections::BTreeMap;

struct T<'a> {
    s: &'a mut Src,
    sch: Schema,
    /// what an alias usually stands for
    alias: BTreeMap<&'static str, &'static str>,
    /// the arguments a field usually has
    args: BTreeMap<&'static str, String>,
    frags: Vec<(String, String)>,
    budget: usize,
    wild: usize,
    names: Names,
}

/// the names in use: fields, and the two arguments they all have
#[derive(Clone, Copy)]
pub struct Names(pub [&'static str; 4], pub [&'static str; 2], pub bool);
pub const PLAIN: Names = Names(["a", "b", "c", "d"], ["x", "y"], false);
/// with prices
pub const PRICED: Names = Names(["edges", "nodes", "c", "d"], ["first", "last"], true);
const OBJECTS: [&str; 4] = ["O", "P", "Q", "R"];
const COMPOSITE: [&str; 9] = ["O", "P", "I", "J", "U", "[I]", "I!", "[U!]", "[O]!"];
const LEAF: [&str; 7] = ["Int", "Int!", "String", "[Int]", "[Int!]", "E", "E!"];

fn schema(s: &mut Src, names: Names) -> String {
    let Names(fields, [x, y], priced) = names;
    let mut usual: BTreeMap<&str, &str> = BTreeMap::new();
    for (i, f) in fields.into_iter().enumerate() {
        let t = if i < 2 || s.chance(1, 4) { *s.pick(&COMPOSITE) } else { *s.pick(&LEAF) };
        usual.insert(f, t);
    }
    let mut owns = |s: &mut Src, fixed: &BTreeMap<&'static str, String>| -> BTreeMap<&'static str, String> {
        let mut m = fixed.clone();
        for f in fields {
            if !m.contains_key(f) && s.chance(3, 4) {
                let t = if s.chance(5, 6) { usual[f] } else if s.bool() { *s.pick(&COMPOSITE) } else { *s.pick(&LEAF) };
                m.insert(f, t.to_string());
            }
        }
        m
    };
    let none = BTreeMap::new();
    let i = owns(s, &none);
    let j = if s.chance(1, 3) { owns(s, &i) } else { owns(s, &none) };
    let j_is_i = i.iter().all(|(k, v)| j.get(k) == Some(v)) && s.bool();
    let price = |s: &mut Src| -> String {
        if !priced || s.chance(1, 2) {
            return String::new();
        }
        let weight = *s.pick(&["", "weight: \"0\"", "weight: \"1\"", "weight: \"2.5\"", "weight: \"7\""]);
        let kind = if s.bool() { "kind: \"connection\"" } else { "" };
        if weight.is_empty() && kind.is_empty() {
            " @cost".into()
        } else {
            format!(" @cost({weight} {kind})")
        }
    };
    let show = |s: &mut Src, m: &BTreeMap<&'static str, String>| -> String { m.iter().map(|(f, t)| format!(" {f}({x}: Int, {y}: Int): {t}{}", price(s))).collect() };
    let mut out = format!("interface I {{{} id: ID }}\ninterface J{} {{{} id: ID }}\n", show(s, &i), if j_is_i { " implements I" } else { "" }, show(s, &j));
    for (n, o) in OBJECTS.iter().enumerate() {
        let of = match n {
            0 => 1,
            1 => s.below(4),
            2 => s.below(3),
            _ => s.below(4),
        };
        let mut fixed = BTreeMap::new();
        let mut ifaces = vec![];
        // both only where they agree
        let agree = i.iter().all(|(k, v)| j.get(k).map_or(true, |w| w == v));
        if of == 1 || of == 3 && agree || (of == 2 && j_is_i) {
            ifaces.push("I");
            fixed.extend(i.clone());
        }
        if of == 2 || of == 3 && agree {
            ifaces.push("J");
            fixed.extend(j.clone());
        }
        let m = owns(s, &fixed);
        let imp = if ifaces.is_empty() { String::new() } else { format!(" implements {}", ifaces.join(" & ")) };
        out += &format!("type {o}{imp} {{{} id: ID }}\n", show(s, &m));
    }
    let members: Vec<&str> = OBJECTS.iter().copied().filter(|_| s.chance(3, 4)).collect();
    let members = if members.is_empty() { vec!["O"] } else { members };
    out += &format!("union U = {}\nenum E {{ M N }}\ntype Query {{", members.join(" | "));
    for (f, t) in fields.into_iter().zip(["I", "U", "O", "[J]"]) {
        out += &format!(" {f}({x}: Int, {y}: Int): {t}{}", price(s));
    }
    out += " }\n";
    if priced {
        out += "directive @cost(weight: String, kind: String) on FIELD_DEFINITION\n";
    }
    out
}

impl T<'_> {
    fn args_of(&mut self) -> String {
        let [x, y] = self.names.1;
        let n = if self.names.2 { *self.s.pick(&[0, 1, 3, 40]) } else { 1 };
        match self.s.below(8) {
            0..=2 => String::new(),
            3 => format!("({x}: {n})"),
            4 => format!("({x}: {})", n + 1),
            5 => format!("({x}: {n}, {y}: 1)"),
            6 => format!("({y}: 1, {x}: {n})"),
            _ => format!("({x}: null)"),
        }
    }

    fn field(&mut self, scope: &str, depth: usize) -> Option<String> {
        let defs: Vec<(String, String)> = self.sch.fields[scope].iter().filter(|f| !f.name.starts_with("__")).map(|f| (f.name.clone(), f.ty.base().to_string())).collect();
        if defs.is_empty() || self.s.chance(1, 12) {
            return Some("__typename".into());
        }
        // deep at first, then shallow
        let deep: Vec<&(String, String)> = defs.iter().filter(|d| self.sch.fields.contains_key(&d.1)).collect();
        let (name, base) = if !deep.is_empty() && depth > 0 && self.s.chance(2, 3) { (*self.s.pick(&deep)).clone() } else { self.s.pick(&defs).clone() };
        let mut key = None;
        let mut name = name;
        let mut base = base;
        if self.s.chance(1, 3) {
            let a = *self.s.pick(&["k", "l", self.names.0[0], "c"]);
            let usual = self.alias[a];
            if !self.s.chance(1, self.wild) {
                // the alias says which field
                let (n, b) = defs.iter().find(|d| d.0 == usual)?.clone();
                name = n;
                base = b;
            }
            key = Some(a);
        }
        let args = if self.s.chance(1, self.wild) { self.args_of() } else { self.args.get(name.as_str()).cloned().unwrap_or_default() };
        let args = if name == "id" { String::new() } else { args };
        let mut out = match key {
            Some(k) if k != name => format!("{k}: {name}{args}"),
            _ => format!("{name}{args}"),
        };
        if self.sch.fields.contains_key(&base) {
            if depth == 0 {
                out += " { __typename }";
            } else {
                out += &self.sels(&base, depth - 1);
            }
        }
        Some(out)
    }

    fn sels(&mut self, scope: &str, depth: usize) -> String {
        let n = self.s.range(1, 4);
        let mut l = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let union = scope == "U";
            let x = match self.s.weighted(&[if union { 1 } else { 7 }, 3, 2]) {
                0 => self.field(scope, depth),
                1 => {
                    let ts: Vec<&str> = ["O", "P", "Q", "R", "I", "J", "U", "", ""].into_iter().filter(|t| t.is_empty() || self.sch.overlap(scope, t)).collect();
                    let t = *self.s.pick(&ts);
                    Some(if t.is_empty() { format!("...{}", self.sels(scope, depth)) } else { format!("... on {t}{}", self.sels(t, depth)) })
                }
                _ => {
                    let fs: Vec<String> = self.frags.iter().filter(|f| self.sch.overlap(scope, &f.1)).map(|f| f.0.clone()).collect();
                    if fs.is_empty() {
                        self.field(scope, depth)
                    } else {
                        Some(format!("...{}", self.s.pick(&fs)))
                    }
                }
            };
            l.extend(x);
        }
        if l.is_empty() {
            l.push("__typename".into());
        }
        format!(" {{ {} }}", l.join(" "))
    }
}

pub fn tangle(s: &mut Src, names: Names, wild: usize) -> (SDoc, Schema, Doc) {
    let fields = names.0;
    let st = schema(s, names);
    let sdl = refparse::parse_sdoc(&st, false).expect("tangled schema");
    let sch = Schema::resolve(&sdl).expect("tangled schema");
    let alias = ["k", "l", fields[0], "c"].into_iter().map(|a| (a, if fields.contains(&a) { a } else { *s.pick(&fields) })).collect();
    let mut t = T { s, sch, alias, args: BTreeMap::new(), frags: vec![], budget: 40, wild, names };
    for f in fields {
        let a = t.args_of();
        t.args.insert(f, a);
    }
    let n = t.s.below(4);
    let mut texts = vec![];
    for i in 0..n {
        let on = *t.s.pick(&["O", "P", "Q", "I", "J", "U", "Query"]);
        let name = format!("F{i}");
        // may spread those before it
        let body = t.sels(on, 2);
        texts.push(format!("fragment {name} on {on}{body}"));
        t.frags.push((name, on.to_string()));
        t.budget = 40;
    }
    let depth = t.s.range(1, 3);
    let op = format!("query Q{}", t.sels("Query", depth));
    let at = t.s.below(texts.len() + 1);
    texts.insert(at, op);
    let doc = refparse::parse_doc(&texts.join("\n"), false).expect("tangled document");
    (sdl, t.sch, doc)
}
