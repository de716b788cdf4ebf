//! C30: programs for the type generator. A case is a schema, some queries, and responses and inputs
//! for them; the generated types are compiled and run on those.
use crate::ast::*;
use crate::engine::{self, Opts};
use crate::gen_doc::{self, tg_norm, DOpts};
use crate::gen_schema::{self, SOpts};
use crate::render;
use crate::schema::Schema;
use crate::src::Src;
use crate::valid;
use convert_case::{Case, Casing};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Instant;

// ------------------------------------------------------------------------------------------ names

fn ident(n: &str) -> String {
    const KW: &str = " as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union ";
    if n.is_empty() {
        "__".into()
    } else if ["crate", "self", "Self", "super"].contains(&n) {
        format!("{n}_")
    } else if KW.contains(&format!(" {n} ")) {
        format!("r#{n}")
    } else if n.starts_with(|c: char| c.is_ascii_digit()) {
        format!("_{n}")
    } else {
        n.into()
    }
}

pub fn pascal(n: &str) -> String {
    ident(&n.to_case(Case::Pascal))
}

pub fn snake(n: &str) -> String {
    ident(&n.to_case(Case::Snake))
}

const TYPE_NAMES: [&str; 34] = [
    "Option", "Vec", "string", "Box", "Result", "Some", "Ok", "Cow", "Self", "self", "type", "fooBar", "snake_case_name", "SCREAMING_CASE", "_Leading", "Trailing_", "a1b2", "HTTPServer", "lower", "X", "x_y", "Clone", "Debug", "Serialize", "Deserialize", "Default", "i32", "bool", "str", "Map", "Visitor", "Place", "Root", "Error",
];
const FIELD_NAMES: [&str; 40] = [
    "type", "self", "Self", "super", "crate", "fn", "match", "async", "fooBar", "foo_bar", "FooBar", "snake_case", "SCREAMING", "_lead", "trail_", "_1", "_", "x1", "x1y2", "HTTPCode", "out", "k", "state", "data", "map", "key", "finish", "begin", "Ok", "None", "Some", "string", "typename", "other", "union", "id", "URL", "box", "ref", "try",
];
const VALUE_NAMES: [&str; 22] = ["Self", "self", "SELF", "type", "_1", "_", "ok", "None", "SCREAMING_SNAKE", "camelCase", "PascalCase", "x1", "_lead", "Ok", "Some", "Err", "DEFAULT", "A_B_C", "HTTPCode", "fn", "Default", "Clone2"];

/// every constant of a schema document
fn each_const(d: &mut SDoc, f: &mut dyn FnMut(&mut Val)) {
    fn ds(l: &mut [Dir], f: &mut dyn FnMut(&mut Val)) {
        l.iter_mut().for_each(|d| d.args.iter_mut().for_each(|(_, v)| gen_doc::each_val(v, f)))
    }
    fn iv(l: &mut [InputVal], f: &mut dyn FnMut(&mut Val)) {
        for i in l {
            if let Some(v) = &mut i.default {
                gen_doc::each_val(v, f)
            }
            ds(&mut i.dirs, f);
        }
    }
    for x in &mut d.defs {
        match x {
            SDef::Schema(s) => ds(&mut s.dirs, f),
            SDef::Directive(d) => iv(&mut d.args, f),
            SDef::Type(t) => {
                ds(&mut t.dirs, f);
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter_mut().for_each(|x| {
                        iv(&mut x.args, f);
                        ds(&mut x.dirs, f);
                    }),
                    Kind::Enum { values } => values.iter_mut().for_each(|x| ds(&mut x.dirs, f)),
                    Kind::Input { fields } => iv(fields, f),
                    _ => {}
                }
            }
        }
    }
}

struct Names {
    map: BTreeMap<String, String>,
    norms: BTreeSet<String>,
}

impl Names {
    /// new names for some of the old ones; `distinct` keeps them apart in every case style
    fn pick(s: &mut Src, old: &[String], pool: &[&str], distinct: bool, avoid: &[&str], rate: (usize, usize)) -> Names {
        let mut n = Names { map: BTreeMap::new(), norms: avoid.iter().map(|x| x.to_string()).collect() };
        let mut exact: BTreeSet<String> = old.iter().cloned().collect();
        n.norms.extend(old.iter().map(|x| tg_norm(x)));
        for o in old {
            let c = s.pick(pool).to_string();
            if s.chance(rate.0, rate.1) && !n.map.contains_key(o) && exact.insert(c.clone()) && (n.norms.insert(tg_norm(&c)) || !distinct) {
                n.map.insert(o.clone(), c);
            }
        }
        n
    }
    fn to(&self, x: &mut String) {
        if let Some(y) = self.map.get(x) {
            *x = y.clone()
        }
    }
}

fn each_ty(d: &mut SDoc, f: &mut dyn FnMut(&mut String)) {
    fn t(x: &mut Ty, f: &mut dyn FnMut(&mut String)) {
        match x {
            Ty::Named(n, _) => f(n),
            Ty::List(i, _) => t(i, f),
        }
    }
    fn iv(l: &mut [InputVal], f: &mut dyn FnMut(&mut String)) {
        l.iter_mut().for_each(|i| t(&mut i.ty, f))
    }
    for x in &mut d.defs {
        match x {
            SDef::Schema(s) => s.ops.iter_mut().for_each(|o| f(&mut o.1)),
            SDef::Directive(d) => iv(&mut d.args, f),
            SDef::Type(td) => {
                f(&mut td.name);
                match &mut td.kind {
                    Kind::Object { fields, ifaces } | Kind::Interface { fields, ifaces } => {
                        ifaces.iter_mut().for_each(&mut *f);
                        for x in fields {
                            iv(&mut x.args, f);
                            t(&mut x.ty, f);
                        }
                    }
                    Kind::Union { members } => members.iter_mut().for_each(&mut *f),
                    Kind::Input { fields } => iv(fields, f),
                    _ => {}
                }
            }
        }
    }
}

fn rename(s: &mut Src, d: &mut SDoc) {
    let rate = *s.pick(&[(0, 1), (1, 3), (2, 3)]);
    if rate.0 == 0 {
        return;
    }
    let implicit = d.schema().is_none();
    let (mut types, mut scalars, mut fields, mut ins, mut vals) = (vec![], vec![], vec![], vec![], vec![]);
    for t in d.types() {
        if !(implicit && OpKind::ALL.iter().any(|k| k.default_name() == t.name)) {
            match t.kind {
                // an alias has to be written for it: names that are no identifiers will not do
                Kind::Scalar => scalars.push(t.name.clone()),
                _ => types.push(t.name.clone()),
            }
        }
        match &t.kind {
            Kind::Object { fields: f, .. } | Kind::Interface { fields: f, .. } => fields.extend(f.iter().map(|f| f.name.clone())),
            Kind::Input { fields: f } => ins.extend(f.iter().map(|f| f.name.clone())),
            Kind::Enum { values } => vals.extend(values.iter().map(|v| v.name.clone())),
            _ => {}
        }
    }
    let uniq = |l: Vec<String>| -> Vec<String> { l.into_iter().collect::<BTreeSet<_>>().into_iter().collect() };
    let mut avoid: Vec<String> = ["other", "typekind", "directivelocation", "query", "mutation", "subscription"].map(String::from).to_vec();
    avoid.extend(types.iter().chain(&scalars).map(|x| tg_norm(x)));
    let av: Vec<&str> = avoid.iter().map(|x| x.as_str()).collect();
    let tn = Names::pick(s, &uniq(types), &TYPE_NAMES, true, &av, rate);
    let mut avoid2: Vec<String> = avoid.clone();
    avoid2.extend(tn.map.values().map(|x| tg_norm(x)));
    avoid2.push("self".into());
    let av: Vec<&str> = avoid2.iter().map(|x| x.as_str()).collect();
    let sn = Names::pick(s, &uniq(scalars), &TYPE_NAMES, true, &av, rate);
    let fnn = Names::pick(s, &uniq(fields), &FIELD_NAMES, false, &[], rate);
    let inn = Names::pick(s, &uniq(ins), &FIELD_NAMES, true, &[], rate);
    let vn = Names::pick(s, &uniq(vals), &VALUE_NAMES, true, &["other"], rate);
    each_ty(d, &mut |n| {
        let o = n.clone();
        tn.to(n);
        if *n == o {
            sn.to(n);
        }
    });
    each_const(d, &mut |v| match v {
        Val::Enum(n) => vn.to(n),
        Val::Obj(o) => o.iter_mut().for_each(|(k, _)| inn.to(k)),
        _ => {}
    });
    for t in d.types_mut() {
        match &mut t.kind {
            Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter_mut().for_each(|f| fnn.to(&mut f.name)),
            Kind::Input { fields } => fields.iter_mut().for_each(|f| inn.to(&mut f.name)),
            Kind::Enum { values } => values.iter_mut().for_each(|f| vn.to(&mut f.name)),
            _ => {}
        }
    }
}

// -------------------------------------------------------------------------------------- responses

#[derive(Clone, Debug)]
enum R {
    Raw(String),
    Arr(Vec<R>),
    Obj(Vec<(String, R)>),
}

impl R {
    fn text(&self, o: &mut String) {
        match self {
            R::Raw(s) => o.push_str(s),
            R::Arr(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.text(o);
                }
                o.push(']');
            }
            R::Obj(l) => {
                o.push('{');
                for (i, (k, x)) in l.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ")
                    }
                    o.push_str(&format!("{}:", json!(k)));
                    x.text(o);
                }
                o.push('}');
            }
        }
    }
}

fn other() -> J {
    json!({"#other": true})
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alias {
    I64,
    Str,
    F64,
    Bool,
    Cow,
}

struct RG<'a> {
    sch: &'a Schema,
    doc: &'a Doc,
    aliases: &'a BTreeMap<String, Alias>,
    /// break one place
    fault: bool,
    broken: Option<String>,
    /// no conforming response exists here
    dead: bool,
    nodes: usize,
}

fn js_string(s: &mut Src) -> (String, J) {
    let v = match s.below(8) {
        0 => String::new(),
        1 => "RED".into(),
        2 => "line\nbreak\t\"quoted\" \\ /".into(),
        3 => "é\u{1F600}z\u{0}".into(),
        4 => "null".into(),
        5 => "Other".into(),
        _ => (0..s.range(1, 6)).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
    };
    let t = if s.chance(1, 4) {
        format!("\"{}\"", v.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>())
    } else {
        json!(v).to_string()
    };
    (t, J::from(v))
}

fn js_float(s: &mut Src) -> (String, J) {
    let (t, f) = *s.pick(&[("0.5", 0.5), ("0", 0.0), ("-3", -3.0), ("2.25", 2.25), ("1e3", 1000.0), ("-1.5E-1", -0.15), ("4294967296", 4294967296.0), ("1", 1.0), ("123456789.125", 123456789.125)]);
    (t.into(), J::from(f))
}

impl RG<'_> {
    fn hit(&mut self, s: &mut Src) -> bool {
        self.fault && self.broken.is_none() && s.chance(1, 3)
    }

    fn raw(t: impl Into<String>) -> R {
        R::Raw(t.into())
    }

    fn leaf(&mut self, s: &mut Src, n: &str) -> (R, J) {
        self.nodes += 1;
        let kind = if self.sch.is_builtin_scalar(n) { n.to_string() } else { "-".into() };
        let al = self.aliases.get(n).copied();
        let what: &str = match (kind.as_str(), al) {
            ("Int", _) => "Int",
            ("Float", _) => "Float",
            ("String" | "ID", _) => "String",
            ("Boolean", _) => "Boolean",
            (_, Some(Alias::I64)) => "i64",
            (_, Some(Alias::F64)) => "Float",
            (_, Some(Alias::Bool)) => "Boolean",
            (_, Some(Alias::Str | Alias::Cow)) => "String",
            _ => "enum",
        };
        if self.hit(s) {
            let l: &[&str] = match what {
                "Int" => &["\"1\"", "1.5", "true", "[]", "{}", "2147483648", "-2147483649", "9223372036854775808", "[1]"],
                "i64" => &["\"1\"", "1.5", "true", "[]", "{}", "9223372036854775808"],
                "Float" => &["\"1.5\"", "true", "[]", "{}", "[1.5]"],
                "String" => &["1", "1.5", "true", "[]", "{}", "[\"a\"]"],
                "Boolean" => &["0", "1", "\"true\"", "[]", "{}", "[true]"],
                _ => &["0", "1.5", "true", "[]"],
            };
            let t = *s.pick(l);
            self.broken = Some(format!("{t} where {n} is expected"));
            return (Self::raw(t), J::Null);
        }
        match what {
            "Int" => {
                let v = *s.pick(&[0i64, 1, -1, 42, 2147483647, -2147483648]);
                (Self::raw(v.to_string()), J::from(v))
            }
            "i64" => {
                let v = *s.pick(&[0i64, 7, -9, 4294967296, i64::MAX, i64::MIN]);
                (Self::raw(v.to_string()), J::from(v))
            }
            "Float" => {
                let (t, j) = js_float(s);
                (Self::raw(t), j)
            }
            "Boolean" => {
                let v = s.bool();
                (Self::raw(v.to_string()), J::from(v))
            }
            "String" => {
                let (t, j) = js_string(s);
                (Self::raw(t), j)
            }
            _ => {
                let Some(Kind::Enum { values }) = self.sch.kind(n) else { unreachable!("{n}") };
                if s.chance(1, 8) {
                    let v = *s.pick(&["UNKNOWN_VALUE", "", "other", "Other", "red"]);
                    if !values.iter().any(|x| x.name == v) {
                        return (Self::raw(json!(v).to_string()), other());
                    }
                }
                let v = s.pick(values).name.clone();
                (Self::raw(json!(v).to_string()), J::from(v))
            }
        }
    }

    fn value(&mut self, s: &mut Src, ty: &Ty, f: &Field, skip: bool) -> (R, J) {
        let base = ty.base();
        if !ty.is_req() {
            // nothing else conforms where no object can stand
            let none = self.sch.is_composite(base) && self.sch.possible(base).is_empty() && !matches!(ty, Ty::List(..));
            if none || s.chance(1, 5) {
                return (Self::raw("null"), J::Null);
            }
        } else if !skip && self.hit(s) {
            self.broken = Some(format!("null where {} is expected", ty.show()));
            return (Self::raw("null"), J::Null);
        }
        match ty {
            Ty::List(inner, _) => {
                if self.hit(s) {
                    let t = *s.pick(&["1", "\"a\"", "true", "{}"]);
                    self.broken = Some(format!("{t} where {} is expected", ty.show()));
                    return (Self::raw(t), J::Null);
                }
                let none = self.sch.is_composite(base) && self.sch.possible(base).is_empty() && inner.is_req() && matches!(**inner, Ty::Named(..));
                let n = if none { 0 } else { s.weighted(&[1, 2, 3, 1]) };
                let l: Vec<(R, J)> = (0..n).map(|_| self.value(s, inner, f, false)).collect();
                let (a, b): (Vec<R>, Vec<J>) = l.into_iter().unzip();
                (R::Arr(a), J::Array(b))
            }
            Ty::Named(n, _) => match &f.sel {
                Some(l) => self.composite(s, l, n),
                None => self.leaf(s, n),
            },
        }
    }

    fn composite(&mut self, s: &mut Src, sel: &[Sel], scope: &str) -> (R, J) {
        self.nodes += 1;
        if self.hit(s) {
            let t = *s.pick(&["1", "\"a\"", "true"]);
            self.broken = Some(format!("{t} where an object is expected"));
            return (Self::raw(t), J::Null);
        }
        if matches!(self.sch.kind(scope), Some(Kind::Union { .. })) && !matches!(sel, [Sel::Spread(..)]) && s.chance(1, 8) {
            let n = *s.pick(&["AddedLater__", "", "Other"]);
            if !self.sch.possible(scope).contains(n) {
                return (R::Obj(vec![("__typename".into(), Self::raw(json!(n).to_string()))]), other());
            }
        }
        let c: Vec<String> = self.sch.possible(scope).into_iter().collect();
        if c.is_empty() {
            self.dead = true;
            return (Self::raw("null"), J::Null);
        }
        let c = s.pick(&c).clone();
        self.of(s, sel, scope, &c)
    }

    /// the data of an object of type `c` for a selection set on `scope`
    fn of(&mut self, s: &mut Src, sel: &[Sel], scope: &str, c: &str) -> (R, J) {
        if let [Sel::Spread(n, _)] = sel {
            let f = self.doc.frags.iter().find(|f| f.name == *n).unwrap();
            return self.of(s, &f.sel, &f.on, c);
        }
        if matches!(self.sch.kind(scope), Some(Kind::Union { .. })) {
            let mut r = vec![("__typename".to_string(), Self::raw(json!(c).to_string()))];
            if self.hit(s) {
                let what = s.below(3);
                self.broken = Some("a union without its __typename".into());
                match what {
                    0 => {
                        r.clear();
                    }
                    1 => r[0].1 = Self::raw("null"),
                    _ => r[0].1 = Self::raw("true"),
                }
            }
            for x in sel {
                if let Sel::Inline(Some(m), _, l) = x {
                    if m == c {
                        let (R::Obj(l), mut j) = self.fields(s, l, m, m, true) else { unreachable!() };
                        r.extend(l.into_iter().filter(|(k, _)| k != "__typename"));
                        j["#variant"] = J::from(m.as_str());
                        return (R::Obj(r), j);
                    }
                }
            }
            return (R::Obj(r), other());
        }
        self.fields(s, sel, scope, c, false)
    }

    /// typed by what the query knows, which may be less than the object has
    fn fields(&mut self, s: &mut Src, sel: &[Sel], scope: &str, c: &str, variant: bool) -> (R, J) {
        let mut r = vec![];
        let mut j = serde_json::Map::new();
        for x in sel {
            let Sel::Field(f) = x else { unreachable!("limits") };
            let ty = self.sch.field(scope, &f.name).unwrap().ty.clone();
            let skip = skippable(f);
            let tn = variant && f.key() == "__typename";
            if skip && s.chance(1, 3) {
                if !tn {
                    j.insert(f.key().into(), J::Null);
                }
                continue;
            }
            if !skip && ty.is_req() && !tn && self.hit(s) {
                self.broken = Some(format!("{} left out", f.key()));
                continue;
            }
            let (a, b) = if f.name == "__typename" { (Self::raw(json!(c).to_string()), J::from(c)) } else { self.value(s, &ty, f, skip) };
            r.push((f.key().to_string(), a));
            if !tn {
                j.insert(f.key().into(), b);
            }
        }
        (R::Obj(r), J::Object(j))
    }
}

fn skippable(f: &Field) -> bool {
    f.dirs.iter().any(|d| d.name == "skip" || d.name == "include")
}

// ------------------------------------------------------------------------------------------ inputs

fn in_value(s: &mut Src, sch: &Schema, al: &BTreeMap<String, Alias>, ty: &Ty, depth: usize) -> J {
    match ty {
        Ty::List(i, _) => {
            let n = if depth == 0 { 0 } else { s.weighted(&[1, 2, 2]) };
            J::Array(
                (0..n)
                    .map(|_| if !i.is_req() && s.chance(1, 4) { J::Null } else { in_value(s, sch, al, i, depth - 1) })
                    .collect(),
            )
        }
        Ty::Named(n, _) => {
            let what = match al.get(n) {
                Some(Alias::I64) => "i64",
                Some(Alias::F64) => "Float",
                Some(Alias::Bool) => "Boolean",
                Some(_) => "String",
                None => n.as_str(),
            };
            match what {
                "i64" => J::from(*s.pick(&[0i64, 7, -9, 4294967296])),
                "Float" => js_float(s).1,
                "Boolean" => J::from(s.bool()),
                "String" | "ID" => js_string(s).1,
                "Int" => J::from(*s.pick(&[0i64, 1, -1, 2147483647, -2147483648])),
                _ => match sch.kind(n) {
                    Some(Kind::Enum { values }) => J::from(s.pick(values).name.clone()),
                    _ => in_object(s, sch, al, n, depth.saturating_sub(1)),
                },
            }
        }
    }
}

fn in_object(s: &mut Src, sch: &Schema, al: &BTreeMap<String, Alias>, n: &str, depth: usize) -> J {
    let Some(Kind::Input { fields }) = sch.kind(n) else { unreachable!("{n}") };
    let mut o = serde_json::Map::new();
    if sch.is_one_of(n) {
        // the way out of a cycle of one-ofs: a field that is no input object
        let out: Vec<&InputVal> = fields.iter().filter(|f| !matches!(sch.kind(f.ty.base()), Some(Kind::Input { .. })) || matches!(f.ty, Ty::List(..))).collect();
        let f = if depth == 0 && !out.is_empty() { *s.pick(&out) } else { s.pick(fields) };
        o.insert(f.name.clone(), in_value(s, sch, al, &f.ty.clone().req(), depth));
        return J::Object(o);
    }
    for f in fields {
        if f.required() || (depth > 0 && s.chance(2, 3)) {
            o.insert(f.name.clone(), in_value(s, sch, al, &f.ty, depth));
        }
    }
    J::Object(o)
}

fn cmp_in(sch: &Schema, ty: &Ty, want: &J, got: &J, at: &str) -> Result<(), String> {
    let bad = || Err(format!("{at}: {got} written, {want} expected"));
    if want.is_null() || got.is_null() {
        return if want == got { Ok(()) } else { bad() };
    }
    match ty {
        Ty::List(i, _) => {
            let (Some(a), Some(b)) = (want.as_array(), got.as_array()) else { return bad() };
            if a.len() != b.len() {
                return bad();
            }
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                cmp_in(sch, i, x, y, &format!("{at}[{k}]"))?;
            }
            Ok(())
        }
        Ty::Named(n, _) => match sch.kind(n) {
            Some(Kind::Input { fields }) => {
                let (Some(a), Some(b)) = (want.as_object(), got.as_object()) else { return bad() };
                for k in b.keys() {
                    if !fields.iter().any(|f| f.name == *k) {
                        return Err(format!("{at}: unexpected key {k} written"));
                    }
                }
                let one = sch.is_one_of(n);
                for f in fields {
                    let at = format!("{at}.{}", f.name);
                    match (a.get(&f.name), b.get(&f.name)) {
                        (Some(x), Some(y)) => cmp_in(sch, &f.ty, x, y, &at)?,
                        (Some(x), None) => return Err(format!("{at}: nothing written, {x} expected")),
                        (None, None) => {}
                        (None, Some(y)) if y.is_null() && !f.ty.is_req() && !one => {}
                        (None, Some(y)) => return Err(format!("{at}: {y} written for a field that was not given")),
                    }
                }
                Ok(())
            }
            _ => {
                if want == got || (want.is_f64() && want.as_f64() == got.as_f64()) {
                    Ok(())
                } else {
                    bad()
                }
            }
        },
    }
}

// ---------------------------------------------------------------------------------------- programs

#[derive(Clone, Debug)]
enum Want {
    Data(J),
    /// with the reason
    Refused(String),
    /// the value of an input type
    Input(String, J),
}

#[derive(Clone, Debug)]
pub struct Test {
    kind: &'static str,
    q: usize,
    i: usize,
    text: String,
    want: Want,
}

pub struct Module {
    pub files: Vec<(String, String)>,
    pub rust: String,
    sch: Schema,
    tests: Vec<Test>,
    tags: Vec<&'static str>,
    pub desc: String,
}

struct Emit<'a> {
    sch: &'a Schema,
    al: &'a BTreeMap<String, Alias>,
    borrow: bool,
    q: usize,
    doc: &'a Doc,
    n: usize,
}

impl Emit<'_> {
    fn var(&mut self) -> String {
        self.n += 1;
        format!("v{}", self.n)
    }

    fn leaf(&self, x: &str, n: &str) -> String {
        let st = if self.borrow { "::std::borrow::Cow<str>" } else { "::std::string::String" };
        let t = |t: &str, e: &str| format!("{{ let y: &{t} = {x}; {e} }}");
        if let Some(a) = self.al.get(n) {
            return match a {
                Alias::I64 => t("i64", "J::from(*y)"),
                Alias::F64 => t("f64", "J::from(*y)"),
                Alias::Bool => t("bool", "J::from(*y)"),
                Alias::Str => t("::std::string::String", "J::from(y.as_str())"),
                Alias::Cow => t("::std::borrow::Cow<str>", "J::from(y.as_ref())"),
            };
        }
        match n {
            "Int" => t("i32", "J::from(*y)"),
            "Float" => t("f64", "J::from(*y)"),
            "Boolean" => t("bool", "J::from(*y)"),
            "String" | "ID" => t(st, "{ let z: &str = y.as_ref(); J::from(z) }"),
            _ => {
                let Some(Kind::Enum { values }) = self.sch.kind(n) else { unreachable!("{n}") };
                let arms: String = values.iter().map(|v| format!("s::{}::{} => J::from({:?}), ", pascal(n), pascal(&v.name), v.name)).collect();
                format!("match {x} {{ {arms}s::{}::Other => other() }}", pascal(n))
            }
        }
    }

    fn value(&mut self, x: &str, ty: &Ty, skip: bool, f: &Field, npath: &str) -> String {
        if !ty.is_req() || skip {
            let v = self.var();
            let e = self.value(&v, &ty.clone().req(), false, f, npath);
            return format!("match {x} {{ ::std::option::Option::None => J::Null, ::std::option::Option::Some({v}) => {e} }}");
        }
        match ty {
            Ty::List(i, _) => {
                let v = self.var();
                let e = self.value(&v, i, false, f, npath);
                format!("J::Array({x}.iter().map(|{v}| {e}).collect())")
            }
            Ty::Named(n, _) => match &f.sel {
                Some(l) => {
                    let key = f.key().to_string();
                    self.composite(x, l, n, &format!("{npath}::{}", pascal(&key)), &format!("{npath}::{}", snake(&key)))
                }
                None => self.leaf(x, n),
            },
        }
    }

    fn composite(&mut self, x: &str, sel: &[Sel], scope: &str, tpath: &str, npath: &str) -> String {
        if let [Sel::Spread(n, _)] = sel {
            let i = self.doc.frags.iter().position(|f| f.name == *n).unwrap();
            return format!("frag_{}_{i}({x})", self.q);
        }
        if matches!(self.sch.kind(scope), Some(Kind::Union { .. })) {
            let mut arms = String::new();
            for s in sel {
                if let Sel::Inline(Some(m), _, l) = s {
                    let v = format!("{tpath}::{}", pascal(m));
                    let (pat, e) = self.fields(l, m, &format!("{npath}::{}", snake(m)), Some(m));
                    arms.push_str(&format!("{v} {{ {pat} }} => {e}, "));
                }
            }
            return format!("match {x} {{ {arms}{tpath}::Other => other() }}");
        }
        let (pat, e) = self.fields(sel, scope, npath, None);
        format!("{{ let {tpath} {{ {pat} }} = {x}; {e} }}")
    }

    fn fields(&mut self, sel: &[Sel], scope: &str, npath: &str, variant: Option<&str>) -> (String, String) {
        let (mut pat, mut e) = (String::new(), String::new());
        if let Some(m) = variant {
            e.push_str(&format!("(\"#variant\", J::from({m:?})), "));
        }
        for s in sel {
            let Sel::Field(f) = s else { unreachable!("limits") };
            if variant.is_some() && f.key() == "__typename" {
                continue;
            }
            let ty = self.sch.field(scope, &f.name).unwrap().ty.clone();
            let v = self.var();
            pat.push_str(&format!("{}: {v}, ", snake(f.key())));
            let x = self.value(&v, &ty, skippable(f), f, npath);
            e.push_str(&format!("({:?}, {x}), ", f.key()));
        }
        (pat, format!("obj(::std::vec![{e}])"))
    }

    /// an expression that builds a value of the input type from JSON
    fn input(&mut self, x: &str, ty: &Ty) -> String {
        match ty {
            Ty::List(i, _) => {
                let v = self.var();
                let mut e = self.input(&v, i);
                if !i.is_req() {
                    e = format!("if {v}.is_null() {{ ::std::option::Option::None }} else {{ ::std::option::Option::Some({e}) }}");
                }
                format!("{x}.as_array().unwrap().iter().map(|{v}| {e}).collect()")
            }
            Ty::Named(n, _) => {
                let what = match self.al.get(n) {
                    Some(Alias::I64) => "i64",
                    Some(Alias::F64) => "Float",
                    Some(Alias::Bool) => "Boolean",
                    Some(_) => "String",
                    None => n.as_str(),
                };
                match what {
                    "i64" => format!("{x}.as_i64().unwrap()"),
                    "Int" => format!("{x}.as_i64().unwrap() as i32"),
                    "Float" => format!("{x}.as_f64().unwrap()"),
                    "Boolean" => format!("{x}.as_bool().unwrap()"),
                    "String" | "ID" => format!("{x}.as_str().unwrap().to_string().into()"),
                    _ => match self.sch.kind(n) {
                        Some(Kind::Enum { values }) => {
                            let arms: String = values.iter().map(|v| format!("{:?} => s::{}::{}, ", v.name, pascal(n), pascal(&v.name))).collect();
                            format!("match {x}.as_str().unwrap() {{ {arms}_ => ::std::panic!() }}")
                        }
                        _ => format!("mk_{}({x}).into()", self.in_idx(n)),
                    },
                }
            }
        }
    }

    fn in_idx(&self, n: &str) -> usize {
        input_types(self.sch).iter().position(|x| x == n).unwrap()
    }
}

fn input_types(sch: &Schema) -> Vec<String> {
    sch.user_types.iter().filter(|n| matches!(sch.kind(n), Some(Kind::Input { .. }))).cloned().collect()
}

/// the text can stand in Rust source between brackets
fn dsl_ok(t: &str) -> bool {
    !t.contains('"') && !t.contains('#') && !t.contains('\'')
}

pub struct Base {
    pub sdoc: SDoc,
    pub sch: Schema,
    pub docs: Vec<Doc>,
    pub vis: bool,
}

/// input objects that contain each other in a circle, which need not pass through a list
fn ring(s: &mut Src, d: &mut SDoc) {
    let n = s.range(1, 5);
    // somewhere the circle can be left
    let leave = s.below(n);
    let leaf: Vec<String> = d.types().filter(|t| matches!(t.kind, Kind::Scalar | Kind::Enum { .. })).map(|t| t.name.clone()).chain(["String".into(), "Int".into()]).collect();
    for i in 0..n {
        let input = |name: &str, ty: Ty| InputVal { desc: None, name: name.into(), ty, default: None, dirs: vec![] };
        let mut next = Ty::named(&format!("Ring{}", (i + 1) % n));
        if i != leave && s.bool() {
            next = next.req();
        } else if s.chance(1, 4) {
            next = next.list();
        }
        let mut fields = vec![input("next", next)];
        if s.bool() {
            let mut t = Ty::named(s.pick(&leaf));
            if s.bool() {
                t = t.req();
            }
            fields.insert(s.below(2), input("v", t));
        }
        if s.chance(1, 3) {
            fields.push(input("other", Ty::named(&format!("Ring{}", s.below(n)))));
        }
        let at = s.below(d.defs.len() + 1);
        d.defs.insert(at, SDef::Type(TypeDef { desc: None, name: format!("Ring{i}"), dirs: vec![], kind: Kind::Input { fields } }));
    }
}

/// a schema and documents inside the documented limits
pub fn base(s: &mut Src) -> Option<Base> {
    let descs = s.bool();
    let o = SOpts { descs, applied: s.bool(), deprecated: s.bool(), small: s.chance(1, 3), ..Default::default() };
    let mut sdoc = gen_schema::schema(s, o);
    if s.chance(1, 3) {
        ring(s, &mut sdoc);
    }
    rename(s, &mut sdoc);
    let sch = Schema::resolve(&sdoc).ok()?;
    if crate::schema::SCALARS.iter().any(|n| sch.user_types.contains(*n)) {
        return None;
    }
    let n = s.weighted(&[3, 2]) + 1;
    let mut docs = vec![];
    for _ in 0..n {
        let o = DOpts { frags: 4, depth: 4, introspection: s.chance(1, 6), typegen: true, ..Default::default() };
        let d = gen_doc::doc(s, &sch, o);
        if !valid::validate(&sch, &d).valid() {
            return None;
        }
        docs.push(d);
    }
    let vis = s.bool();
    Some(Base { sdoc, sch, docs, vis })
}

pub fn aliases(s: &mut Src, sch: &Schema, borrow: bool) -> BTreeMap<String, Alias> {
    let mut al = BTreeMap::new();
    for n in &sch.user_types {
        if matches!(sch.kind(n), Some(Kind::Scalar)) && !crate::schema::SCALARS.contains(&n.as_str()) {
            let a = *s.pick(&[Alias::Str, Alias::I64, Alias::F64, Alias::Bool, Alias::Cow]);
            al.insert(n.clone(), if a == Alias::Cow && !borrow { Alias::Str } else { a });
        }
    }
    al
}

pub fn module(s: &mut Src, name: &str) -> Option<Module> {
    let Base { sdoc, sch, docs, vis } = base(s)?;
    let mut tags = vec![];
    let mini = s.chance(2, 5);
    let borrow = !mini && s.bool();
    let al = aliases(s, &sch, borrow);
    let mut files = vec![];
    let mut document = |s: &mut Src, t: String, f: String| -> String {
        if dsl_ok(&t) && s.bool() {
            format!("[{t}]")
        } else {
            files.push((f.clone(), t));
            format!("{f:?}")
        }
    };
    let mut rust = String::from("use super::rt::*;\n");
    let sdl = render::sdoc_text(&sdoc);
    let mut desc = format!("--- schema\n{sdl}\n");
    let mut attr = document(s, sdl, format!("{name}.schema.graphql"));
    let mut opts = vec![];
    if borrow || s.chance(1, 4) {
        opts.push(format!("borrow = {borrow}"));
    }
    if mini {
        opts.push("codec = \"miniserde\"".into());
    } else if s.bool() {
        opts.push("codec = \"serde\"".into());
    }
    if s.bool() {
        opts.reverse();
    }
    for o in &opts {
        attr.push_str(&format!(", {o}"));
    }
    desc.push_str(&format!("--- options {opts:?} {al:?}\n"));
    rust.push_str(&format!("#[bluejay_typegen::typegen({attr})]\n{}mod s {{\n", if vis { "pub " } else { "" }));
    for (n, a) in &al {
        let t = match a {
            Alias::I64 => "::std::primitive::i64",
            Alias::Str => "::std::string::String",
            Alias::F64 => "::std::primitive::f64",
            Alias::Bool => "::std::primitive::bool",
            Alias::Cow => "::std::borrow::Cow<'a, str>",
        };
        rust.push_str(&format!("pub type {}{} = {t};\n", pascal(n), if *a == Alias::Cow { "<'a>" } else { "" }));
    }
    for (q, d) in docs.iter().enumerate() {
        let t = render::doc_text(d);
        desc.push_str(&format!("--- query {q}\n{t}\n"));
        let a = document(s, t, format!("{name}.q{q}.graphql"));
        rust.push_str(&format!("#[query({a})]\npub mod q{q} {{}}\n"));
    }
    rust.push_str("}\n");
    let mut e = Emit { sch: &sch, al: &al, borrow, q: 0, doc: &docs[0], n: 0 };
    let mut run_q = String::new();
    let parse = if mini { "mini_read" } else { "serde_read" };
    for (q, d) in docs.iter().enumerate() {
        e.q = q;
        e.doc = d;
        for (i, f) in d.frags.iter().enumerate() {
            let b = e.composite("x", &f.sel, &f.on, &format!("s::q{q}::{}", pascal(&f.name)), &format!("s::q{q}::{}", snake(&f.name)));
            rust.push_str(&format!("fn frag_{q}_{i}(x: &s::q{q}::{}) -> J {{ {b} }}\n", pascal(&f.name)));
            run_q.push_str(&format!("(\"frag\", {q}, {i}) => {parse}!(s::q{q}::{}, text, frag_{q}_{i}),\n", pascal(&f.name)));
        }
        for (i, o) in d.ops.iter().enumerate() {
            let n = o.name.clone().unwrap_or("Root".into());
            let b = e.composite("x", &o.sel, &sch.roots[&o.kind], &format!("s::q{q}::{}", pascal(&n)), &format!("s::q{q}::{}", snake(&n)));
            rust.push_str(&format!("fn op_{q}_{i}(x: &s::q{q}::{}) -> J {{ {b} }}\n", pascal(&n)));
            run_q.push_str(&format!("(\"op\", {q}, {i}) => {parse}!(s::q{q}::{}, text, op_{q}_{i}),\n", pascal(&n)));
        }
    }
    let write = if mini { "mini_write" } else { "serde_write" };
    for (i, n) in input_types(&sch).iter().enumerate() {
        let Some(Kind::Input { fields }) = sch.kind(n) else { unreachable!() };
        let mut b = String::new();
        if sch.is_one_of(n) {
            for f in fields {
                let x = e.input("y", &f.ty);
                b.push_str(&format!("if let ::std::option::Option::Some(y) = v.get({:?}) {{ return s::{}::{}({x}); }}\n", f.name, pascal(n), pascal(&f.name)));
            }
            b.push_str("::std::panic!()");
        } else {
            b = format!("s::{} {{ ", pascal(n));
            for f in fields {
                let y = e.var();
                let mut x = e.input(&y, &f.ty);
                x = if f.required() {
                    format!("{{ let {y} = &v[{:?}]; {x} }}", f.name)
                } else {
                    format!("match v.get({:?}) {{ ::std::option::Option::None => ::std::option::Option::None, ::std::option::Option::Some({y}) => ::std::option::Option::Some({x}) }}", f.name)
                };
                b.push_str(&format!("{}: {x}, ", snake(&f.name)));
            }
            b.push('}');
        }
        rust.push_str(&format!("fn mk_{i}(v: &J) -> s::{} {{ {b} }}\n", pascal(n)));
        run_q.push_str(&format!("(\"input\", 0, {i}) => {write}!(mk_{i}, text),\n"));
    }
    for n in &sch.user_types {
        if matches!(sch.kind(n), Some(Kind::Enum { .. })) {
            rust.push_str(&format!("const _: () = copy_eq::<s::{}>();\n", pascal(n)));
        }
    }
    rust.push_str(&format!("pub fn run(kind: &str, q: usize, i: usize, text: &str) -> ::std::result::Result<J, ::std::string::String> {{ match (kind, q, i) {{\n{run_q}_ => ::std::unreachable!() }} }}\n"));
    // data for all of it
    let mut tests = vec![];
    for (q, d) in docs.iter().enumerate() {
        let targets = d.ops.iter().map(|o| (&o.sel, sch.roots[&o.kind].clone())).enumerate().map(|(i, x)| ("op", i, x));
        let frags = d.frags.iter().map(|f| (&f.sel, f.on.clone())).enumerate().map(|(i, x)| ("frag", i, x));
        for (kind, i, (sel, on)) in targets.chain(frags) {
            for k in 0..if kind == "op" { 14 } else { 6 } {
                let mut g = RG { sch: &sch, doc: d, aliases: &al, fault: k % 2 == 1, broken: None, dead: false, nodes: 0 };
                let (r, j) = g.composite(s, sel, &on);
                if g.dead || (g.fault && g.broken.is_none()) {
                    continue;
                }
                let mut text = String::new();
                r.text(&mut text);
                if text.len() > 20_000 {
                    continue;
                }
                let want = match g.broken {
                    Some(b) => Want::Refused(b),
                    None => Want::Data(j),
                };
                tests.push(Test { kind, q, i, text, want });
            }
        }
        let has = |f: &dyn Fn(&Sel) -> bool| {
            let mut d = d.clone();
            let mut r = false;
            gen_doc::each_sels(&mut d, &mut |l| r |= l.iter().any(f));
            r
        };
        if has(&|x| matches!(x, Sel::Inline(..))) {
            tags.push("union");
        }
        if has(&|x| matches!(x, Sel::Spread(..))) {
            tags.push("fragment-spread");
        }
        if has(&|x| matches!(x, Sel::Field(f) if skippable(f))) {
            tags.push("skippable-field");
        }
    }
    for (i, n) in input_types(&sch).iter().enumerate() {
        for k in 0..6 {
            let v = in_object(s, &sch, &al, n, if k == 0 { 0 } else { 3 });
            tests.push(Test { kind: "input", q: 0, i, text: v.to_string(), want: Want::Input(n.clone(), v) });
        }
        tags.push(if sch.is_one_of(n) { "one-of-input" } else { "input" });
    }
    tags.push(if mini {
        "miniserde"
    } else if borrow {
        "serde-borrow"
    } else {
        "serde"
    });
    tags.sort();
    tags.dedup();
    Some(Module { files, rust, sch, tests, tags, desc })
}

const RT: &str = r##"#![allow(warnings)]
pub use serde_json::Value as J;
pub fn other() -> J { serde_json::json!({"#other": true}) }
pub fn obj(l: Vec<(&str, J)>) -> J { J::Object(l.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
pub const fn copy_eq<T: Copy + Clone + Eq + std::fmt::Debug>() {}
macro_rules! finish { ($x:expr, $f:ident) => {{
    let x = $x;
    let y = x.clone();
    if x != y { return Err("a clone differs from the original".to_string()); }
    if format!("{:?}", x) != format!("{:?}", y) { return Err("a clone prints differently".to_string()); }
    Ok($f(&x))
}}}
macro_rules! serde_read { ($t:ty, $text:expr, $f:ident) => {{
    let x: $t = serde_json::from_str($text).map_err(|e| e.to_string())?;
    finish!(x, $f)
}}}
macro_rules! mini_read { ($t:ty, $text:expr, $f:ident) => {{
    let x: $t = miniserde::json::from_str($text).map_err(|e| e.to_string())?;
    finish!(x, $f)
}}}
macro_rules! serde_write { ($f:ident, $text:expr) => {{
    let v: J = serde_json::from_str($text).unwrap();
    let x = $f(&v);
    let y = x.clone();
    if x != y { return Err("a clone differs from the original".to_string()); }
    let t = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    Ok(serde_json::from_str(&t).unwrap())
}}}
macro_rules! mini_write { ($f:ident, $text:expr) => {{
    let v: J = serde_json::from_str($text).unwrap();
    let x = $f(&v);
    let y = x.clone();
    if x != y { return Err("a clone differs from the original".to_string()); }
    let t = miniserde::json::to_string(&x);
    Ok(serde_json::from_str(&t).map_err(|e| format!("not JSON: {t}"))?)
}}}
pub(crate) use {finish, serde_read, mini_read, serde_write, mini_write};
pub fn main_with(f: fn(usize, &str, usize, usize, &str) -> Result<J, String>) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let v: J = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let mut out = vec![];
    for t in v.as_array().unwrap() {
        let n = |i: usize| t[i].as_u64().unwrap() as usize;
        let r = std::panic::catch_unwind(|| f(n(0), t[1].as_str().unwrap(), n(2), n(3), t[4].as_str().unwrap()));
        out.push(match r {
            Ok(Ok(j)) => serde_json::json!({ "ok": j }),
            Ok(Err(e)) => serde_json::json!({ "err": e }),
            Err(_) => serde_json::json!({ "panic": true }),
        });
    }
    std::fs::write(&a[2], J::Array(out).to_string()).unwrap();
}
"##;

// ------------------------------------------------------------------------------------------- cargo

pub struct Crate {
    pub dir: PathBuf,
    name: String,
    target: PathBuf,
}

impl Crate {
    pub fn new(o: &Opts, name: &str) -> Crate {
        let root = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/harness/target", o.verif)));
        let root = std::fs::canonicalize(&root).unwrap_or(root);
        let dir = root.join("typegen").join(name);
        let target = root.join("typegen").join("target");
        let _ = std::fs::remove_dir_all(dir.join("src"));
        std::fs::create_dir_all(dir.join("src/bin")).expect("crate directory");
        for f in std::fs::read_dir(&dir).unwrap().flatten() {
            if f.path().extension().is_some_and(|e| e == "graphql") {
                let _ = std::fs::remove_file(f.path());
            }
        }
        std::fs::write(
            dir.join("Cargo.toml"),
            format!("[package]\nname = \"{name}\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nbluejay-typegen = {{ path = \"/repo/bluejay-typegen\", features = [\"serde\", \"miniserde\"] }}\nserde_json = \"1.0\"\nminiserde = \"0.1\"\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n"),
        )
        .unwrap();
        std::fs::write(dir.join("src/rt.rs"), RT).unwrap();
        let c = Crate { dir, name: name.into(), target };
        // never trust time stamps alone
        let h = std::fs::read_to_string(root.join(".bjhash")).unwrap_or_default();
        let mine = c.target.join(".bjhash");
        if h.is_empty() || std::fs::read_to_string(&mine).unwrap_or_default() != h {
            if c.target.join("debug").exists() {
                for p in ["bluejay-core", "bluejay-parser", "bluejay-validator", "bluejay-typegen-macro", "bluejay-typegen"] {
                    let _ = c.cargo("clean").args(["-p", p, "--quiet"]).output();
                }
            }
            let _ = std::fs::create_dir_all(&c.target);
            let _ = std::fs::write(&mine, h);
        }
        c
    }

    pub fn cargo(&self, cmd: &str) -> Command {
        let mut c = Command::new("cargo");
        c.current_dir(&self.dir).env("CARGO_TARGET_DIR", &self.target).env("RUSTUP_TOOLCHAIN", "stable").env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS");
        c.args([cmd, "--offline"]);
        c
    }

    /// errors by source file, and whether the command succeeded
    pub fn compile(&self, cmd: &str, bins: &[String]) -> (bool, Vec<Diag>, String) {
        let mut c = self.cargo(cmd);
        c.args(["--message-format=json", "--keep-going"]);
        for b in bins {
            c.args(["--bin", b]);
        }
        let out = c.output().expect("cargo");
        let mut l = vec![];
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<J>(line) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let m = &v["message"];
            let code = m["code"]["code"].as_str().map(String::from);
            let mut files: Vec<String> = vec![];
            for s in m["spans"].as_array().into_iter().flatten() {
                let mut s = s;
                loop {
                    files.push(s["file_name"].as_str().unwrap_or("").to_string());
                    if s["expansion"].is_null() {
                        break;
                    }
                    s = &s["expansion"]["span"];
                }
            }
            l.push(Diag { files, code, text: m["rendered"].as_str().unwrap_or("").to_string() });
        }
        (out.status.success(), l, String::from_utf8_lossy(&out.stderr).to_string())
    }

    pub fn bin(&self, b: &str) -> PathBuf {
        self.target.join("debug").join(b)
    }

    pub fn write(&self, m: &str, files: &[(String, String)], rust: &str) {
        for (f, t) in files {
            std::fs::write(self.dir.join(f), t).unwrap();
        }
        std::fs::write(self.dir.join(format!("src/{m}.rs")), rust).unwrap();
    }
    pub fn name(&self) -> &str {
        &self.name
    }
}

pub struct Diag {
    pub files: Vec<String>,
    pub code: Option<String>,
    pub text: String,
}

impl Diag {
    pub fn in_module(&self, m: &str) -> bool {
        let f = format!("{m}.rs");
        self.files.iter().any(|x| Path::new(x).file_name().is_some_and(|n| n == f.as_str()))
    }
}

/// the verdicts on some modules; Err when nothing can be said
fn judge(c: &Crate, mods: &[(String, &Module)], bins: usize) -> Result<Vec<Option<String>>, String> {
    let mut verdict: Vec<Option<String>> = vec![None; mods.len()];
    let prefix = format!("{}_", c.name());
    let names: Vec<String> = (0..bins.min(mods.len())).map(|b| format!("{prefix}b{b}")).collect();
    let mut alive: Vec<usize> = (0..mods.len()).collect();
    for (n, m) in mods {
        c.write(n, &m.files, &m.rust);
    }
    for round in 0..3 {
        for (b, name) in names.iter().enumerate() {
            let mine: Vec<usize> = alive.iter().copied().filter(|i| i % names.len() == b).collect();
            let mut t = String::from("#![allow(warnings)]\n#[macro_use]\n#[path = \"../rt.rs\"]\nmod rt;\n");
            let mut arms = String::new();
            for i in &mine {
                let n = &mods[*i].0;
                t.push_str(&format!("#[path = \"../{n}.rs\"]\nmod {n};\n"));
                arms.push_str(&format!("{i} => {n}::run(k, q, i, t), "));
            }
            t.push_str(&format!("fn go(m: usize, k: &str, q: usize, i: usize, t: &str) -> Result<rt::J, String> {{ match m {{ {arms}_ => unreachable!() }} }}\nfn main() {{ rt::main_with(go) }}\n"));
            std::fs::write(c.dir.join(format!("src/bin/{name}.rs")), t).unwrap();
        }
        let (ok, diags, err) = c.compile("build", &names);
        if ok {
            break;
        }
        let mut hit = false;
        for (i, (n, _)) in mods.iter().enumerate() {
            if let Some(d) = diags.iter().find(|d| d.in_module(n)) {
                if verdict[i].is_none() {
                    verdict[i] = Some(format!("does not compile: {}", d.text));
                    hit = true;
                }
            }
        }
        if !hit || round == 2 {
            return Err(format!("build failed:\n{}\n{}", diags.iter().map(|d| d.text.as_str()).collect::<Vec<_>>().join("\n"), err));
        }
        alive.retain(|i| verdict[*i].is_none());
    }
    // run them
    let runs: Vec<(Vec<(usize, usize)>, std::process::Child, PathBuf)> = names
        .iter()
        .enumerate()
        .map(|(b, name)| {
            let mut data = vec![];
            let mut keys = vec![];
            for i in alive.iter().copied().filter(|i| i % names.len() == b) {
                for (k, t) in mods[i].1.tests.iter().enumerate() {
                    keys.push((i, k));
                    data.push(json!([i, t.kind, t.q, t.i, t.text]));
                }
            }
            let (fi, fo) = (c.dir.join(format!("{name}.in")), c.dir.join(format!("{name}.out")));
            std::fs::write(&fi, J::Array(data).to_string()).unwrap();
            let _ = std::fs::remove_file(&fo);
            let ch = Command::new(c.bin(name)).arg(&fi).arg(&fo).spawn().expect("run");
            (keys, ch, fo)
        })
        .collect();
    for (keys, mut ch, fo) in runs {
        let st = ch.wait().unwrap();
        let Ok(t) = std::fs::read_to_string(&fo) else { return Err(format!("the test program died: {st}")) };
        let out: J = serde_json::from_str(&t).unwrap();
        for ((i, k), r) in keys.into_iter().zip(out.as_array().unwrap()) {
            let m = mods[i].1;
            let t = &m.tests[k];
            if verdict[i].is_some() {
                continue;
            }
            let what = format!("{} {} of query {}", t.kind, t.i, t.q);
            let bad = if r.get("panic").is_some() {
                Some("panics".to_string())
            } else {
                match (&t.want, r.get("ok")) {
                    (Want::Data(w), Some(g)) if !same(w, g) => Some(format!("reads other data: got {g}, expected {w}")),
                    (Want::Data(_), None) => Some(format!("refuses a conforming response: {}", r["err"])),
                    (Want::Refused(why), Some(g)) => Some(format!("accepts a response that does not conform: {why}, read as {g}")),
                    (Want::Input(n, w), Some(g)) => cmp_in(&m.sch, &Ty::named(n).req(), w, g, n).err().map(|e| format!("writes other data: {e}; whole: {g}")),
                    (Want::Input(..), None) => Some(format!("cannot write: {}", r["err"])),
                    _ => None,
                }
            };
            if let Some(b) = bad {
                verdict[i] = Some(format!("{b}\n[{what}]\njson: {}", t.text));
            }
        }
    }
    Ok(verdict)
}

fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || (x.is_f64() || y.is_f64()) && x.as_f64() == y.as_f64(),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same(a, b))),
        _ => a == b,
    }
}

fn kind(m: &str) -> String {
    m.split([':', '\n']).next().unwrap_or("").to_string()
}

pub const RULE: &str = "a response, an input or a faulty response put through the compiled generated types of a random schema and query; distinct by program and data";

fn gen(src: &mut Src, name: &str) -> Option<Module> {
    module(src, name)
}

fn case_src(o: &Opts, i: u64) -> Src {
    Src::from_seed(engine::case_seed_id("C30", o.seed, i))
}

pub fn c30(o: &Opts, replay: Option<Vec<u64>>, one: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let c = Crate::new(o, "tg30");
    if replay.is_some() || one.is_some() {
        let mut s = match (replay, one) {
            (Some(r), _) => Src::from_choices(r),
            (_, Some(i)) => case_src(o, i),
            _ => unreachable!(),
        };
        let Some(m) = gen(&mut s, "one") else {
            println!("the case makes no program");
            return 0;
        };
        println!("{}", m.desc);
        println!("{} tests, tags {:?}, choices {}", m.tests.len(), m.tags, s.record.len());
        return match judge(&c, &[("one".into(), &m)], 1) {
            Err(e) => {
                println!("{e}");
                2
            }
            Ok(v) => match &v[0] {
                None => {
                    println!("replay passes");
                    0
                }
                Some(m) => {
                    println!("=> {m}");
                    println!("VIOLATION property=C30 replay={}/evidence/replay/C30.json", o.verif);
                    1
                }
            },
        };
    }
    let n = o.cases.unwrap_or(if o.tier == "thorough" { 16_000 } else { 640 });
    let per = 160u64;
    let (mut evals, mut made) = (0u64, 0u64);
    let mut distinct: HashSet<(u64, String)> = HashSet::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut code = 0;
    let mut at = 0;
    let mut viol = 0;
    while at < n && code == 0 {
        let mut mods = vec![];
        let mut idx = vec![];
        for i in at..n.min(at + per) {
            let mut s = case_src(o, i);
            if let Some(m) = gen(&mut s, &format!("m{i}")) {
                mods.push((format!("m{i}"), m));
                idx.push((i, s.record));
            } else {
                *tags.entry("no-program".into()).or_default() += 1;
            }
        }
        at += per;
        made += mods.len() as u64;
        let refs: Vec<(String, &Module)> = mods.iter().map(|(n, m)| (n.clone(), m)).collect();
        let v = match judge(&c, &refs, 8) {
            Ok(v) => v,
            Err(e) => {
                println!("{e}");
                return 2;
            }
        };
        for (k, (_, m)) in refs.iter().enumerate() {
            for t in &m.tags {
                *tags.entry(t.to_string()).or_default() += 1;
            }
            for t in &m.tests {
                evals += 1;
                *tags
                    .entry(
                        match t.want {
                            Want::Data(_) => "conforming-response",
                            Want::Refused(_) => "faulty-response",
                            Want::Input(..) => "input-value",
                        }
                        .into(),
                    )
                    .or_default() += 1;
                distinct.insert((idx[k].0, format!("{}{}{}{}", t.kind, t.q, t.i, t.text)));
            }
            if samples.len() < 3 {
                samples.push(format!("{}--- e.g. {:?}", m.desc.chars().take(900).collect::<String>(), m.tests.first()));
            }
        }
        if let Some(k) = v.iter().position(|x| x.is_some()) {
            viol = 1;
            code = 1;
            let msg = v[k].clone().unwrap();
            println!("case {} fails: {msg}", idx[k].0);
            let want = kind(&msg);
            let best = engine::shrink(
                idx[k].1.clone(),
                |ch| {
                    let mut s = Src::from_choices(ch.to_vec());
                    let m = gen(&mut s, "one")?;
                    match judge(&c, &[("one".into(), &m)], 1) {
                        Ok(v) if v[0].as_ref().is_some_and(|m| kind(m) == want) => Some(s.record),
                        _ => None,
                    }
                },
                400,
                180.0,
            );
            let mut s = Src::from_choices(best.clone());
            let m = gen(&mut s, "one").unwrap();
            let msg = judge(&c, &[("one".into(), &m)], 1).ok().and_then(|v| v[0].clone()).unwrap_or(msg);
            println!("shrunk to {} choices\n{}\n=> {}", best.len(), m.desc, msg);
            let path = engine::write_replay("C30", o, &best, &msg, &m.desc);
            println!("VIOLATION property=C30 replay={path}");
        }
    }
    let known = known(o, &c, "C30");
    let wall = t0.elapsed().as_secs_f64();
    tags.insert("programs".into(), made);
    engine::write_evidence("C30", o, evals, distinct.len() as u64, RULE, &samples, &tags, &known, &ASSUME30, wall, viol);
    if code == 0 {
        println!("OK property=C30 programs={made} evaluations={evals} distinct_nontrivial={} wall={wall:.1}s", distinct.len());
        for (k, v) in &tags {
            println!("  {k}: {v}");
        }
    }
    code
}

const ASSUME30: [&str; 3] = [
    "rustc, serde, serde_json and miniserde work as documented; the case conversion of names is convert_case's",
    "names that differ only in case or underscores, and the other recorded limits of the generator, are kept out of the generated programs",
    "an object given as a JSON array, unknown extra keys and a missing nullable key are left open",
];

// --------------------------------------------------------------------------------------------- C31

/// what the documentation does not let a query do
pub fn limits(sch: &Schema, d: &Doc) -> (Vec<String>, bool) {
    let mut bad = vec![];
    let mut open = false;
    for o in &d.ops {
        let n = o.name.as_deref().unwrap_or("Root");
        if d.frags.iter().any(|f| f.name == n) {
            bad.push(format!("fragment and operation both named {n}"));
        }
    }
    fn walk(sch: &Schema, d: &Doc, l: &[Sel], t: &str, bad: &mut Vec<String>, open: &mut bool) {
        let spread = l.iter().find_map(|x| if let Sel::Spread(n, _) = x { d.frags.iter().find(|f| f.name == *n) } else { None });
        if spread.is_some() && l.len() > 1 {
            bad.push(format!("a fragment spread beside other selections on {t}"));
        }
        match sch.kind(t) {
            Some(Kind::Object { .. } | Kind::Interface { .. }) => {
                if l.iter().any(|x| matches!(x, Sel::Inline(..))) {
                    bad.push(format!("inline fragment on {t}"));
                }
                if let (Some(Kind::Interface { ifaces, .. }), Some(f)) = (sch.kind(t), spread) {
                    if f.on != t && !ifaces.contains(&f.on) {
                        bad.push(format!("spread of a fragment on {} on interface {t}", f.on));
                    }
                }
            }
            Some(Kind::Union { members }) => match (spread, l.len()) {
                (Some(f), 1) => {
                    if !sch.possible(t).is_subset(&sch.possible(&f.on)) {
                        bad.push(format!("spread of a fragment on {} on union {t}", f.on));
                    }
                }
                _ => {
                    if !matches!(l.first(), Some(Sel::Field(f)) if f.alias.is_none() && f.name == "__typename") {
                        bad.push(format!("no leading __typename on union {t}"));
                    }
                    if l.iter().skip(1).any(|x| matches!(x, Sel::Field(_))) {
                        bad.push(format!("a field on union {t}"));
                    }
                    let mut seen = BTreeSet::new();
                    for x in l {
                        if let Sel::Inline(on, _, sub) = x {
                            match on {
                                Some(m) if members.contains(m) => {
                                    if !seen.insert(m) {
                                        bad.push(format!("two inline fragments on {m}"));
                                    }
                                }
                                _ => bad.push(format!("inline fragment on {on:?}, no member of {t}")),
                            }
                            // allowed by the documentation, refused: a recorded finding
                            *open |= matches!(sub.as_slice(), [Sel::Spread(..)]);
                        }
                    }
                }
            },
            _ => {}
        }
        for x in l {
            match x {
                Sel::Field(f) => {
                    if let (Some(l), Some(def)) = (&f.sel, sch.field(t, &f.name)) {
                        walk(sch, d, l, def.ty.base(), bad, open);
                    }
                }
                Sel::Inline(on, _, l) => walk(sch, d, l, on.as_deref().unwrap_or(t), bad, open),
                _ => {}
            }
        }
    }
    for o in &d.ops {
        if let Some(r) = sch.roots.get(&o.kind) {
            walk(sch, d, &o.sel, r, &mut bad, &mut open);
        }
    }
    for f in &d.frags {
        walk(sch, d, &f.sel, &f.on, &mut bad, &mut open);
    }
    (bad, open)
}

/// step over a limit, or nearly
fn limit_edit(s: &mut Src, sch: &Schema, d: &mut Doc) -> &'static str {
    let tn = |a: Option<&str>| Sel::Field(Field { alias: a.map(String::from), name: "__typename".into(), args: vec![], dirs: vec![], sel: None });
    if s.chance(1, 8) {
        return if d.frags.is_empty() || s.chance(1, 3) {
            // spread by the operation itself
            let on = sch.roots[&d.ops[0].kind].clone();
            let own = d.ops[0].name.clone().unwrap_or("Root".into());
            let name = if s.bool() { own } else { "Root".into() };
            let sel = std::mem::replace(&mut d.ops[0].sel, vec![Sel::Spread(name.clone(), vec![])]);
            d.frags.push(Frag { name, on, dirs: vec![], sel });
            "fragment named like an operation"
        } else {
            let n = s.pick(&d.frags).name.clone();
            let k = s.below(d.ops.len());
            d.ops[k].name = Some(n);
            d.ops[k].short = false;
            "operation named like a fragment"
        };
    }
    let want_union = s.chance(1, 2);
    let mut n = 0;
    let is = |t: &str| !want_union || matches!(sch.kind(t), Some(Kind::Union { .. }));
    gen_doc::each_typed(d, sch, &mut |_, t| n += is(t) as usize);
    if n == 0 {
        return "none";
    }
    let k = s.below(n);
    let mut new: Option<Frag> = None;
    let frags: Vec<Frag> = d.frags.clone();
    let mut what = "none";
    let mut i = 0;
    gen_doc::each_typed(d, sch, &mut |l, t| {
        if !is(t) {
            return;
        }
        i += 1;
        if i != k + 1 || what != "none" {
            return;
        }
        let near: Vec<String> = sch.composites().into_iter().filter(|x| sch.overlap(x, t)).collect();
        let near = if near.is_empty() { vec![t.to_string()] } else { near };
        let at = s.below(l.len() + 1);
        what = match s.below(9) {
            0 => {
                let on = if s.chance(1, 3) { None } else { Some(s.pick(&near).clone()) };
                l.insert(at, Sel::Inline(on, vec![], vec![tn(Some("t9"))]));
                "add an inline fragment"
            }
            1 => {
                let f = Frag { name: "New9".into(), on: s.pick(&near).clone(), dirs: vec![], sel: vec![tn(None)] };
                l.insert(at, Sel::Spread("New9".into(), vec![]));
                new = Some(f);
                "add a spread"
            }
            2 | 3 => {
                let f = Frag { name: "New9".into(), on: s.pick(&near).clone(), dirs: vec![], sel: vec![tn(None)] };
                *l = vec![Sel::Spread("New9".into(), vec![])];
                new = Some(f);
                "only a spread"
            }
            4 => {
                let c: Vec<&Frag> = frags.iter().filter(|f| sch.overlap(&f.on, t)).collect();
                if c.is_empty() {
                    return;
                }
                let f = s.pick(&c).name.clone();
                if s.bool() {
                    *l = vec![Sel::Spread(f, vec![])]
                } else {
                    l.insert(at, Sel::Spread(f, vec![]))
                }
                "an existing fragment"
            }
            5 => {
                l.insert(at, tn(if s.bool() { Some("t8") } else { None }));
                "add __typename"
            }
            6 => {
                if let Some(Sel::Field(f)) = l.first_mut() {
                    f.alias = Some("t7".into());
                }
                "alias the first field"
            }
            7 => {
                if l.len() > 1 {
                    let x = l.remove(0);
                    if s.bool() {
                        l.push(x);
                    }
                }
                "move the first selection"
            }
            _ => {
                let k = s.below(l.len());
                if let Sel::Inline(on, ds, x) = l[k].clone() {
                    let on = if s.bool() { on } else { Some(s.pick(&near).clone()) };
                    l.push(Sel::Inline(on, ds, x));
                    "repeat an inline fragment"
                } else if l.len() > 1 {
                    let x = l.split_off(k);
                    l.push(Sel::Inline(None, vec![], x));
                    "wrap in an inline fragment"
                } else {
                    "none"
                }
            }
        };
    });
    d.frags.extend(new);
    what
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    Accept,
    Refuse(String),
    Open(&'static str),
}

struct M31 {
    files: Vec<(String, String)>,
    rust: String,
    expect: Expect,
    tag: &'static str,
    desc: String,
}

fn text_fault(s: &mut Src, t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let i = s.below(c.len().max(1));
    let mut o: String = c[..i].iter().collect();
    let (junk, skip) = match s.below(4) {
        0 => (*s.pick(&["{", "}", "(", ")", "!", "$", "@", "...", ":", "&", "|", "=", "[", "]", "\"", "\"\"\"", "%", "1", "x", "\u{7}"]), 0),
        1 => ("", s.range(1, 3)),
        2 => ("", c.len()),
        _ => (*s.pick(&["extend", "type", "fragment", "null", "on", "query"]), 0),
    };
    o.push_str(junk);
    o.extend(c.iter().skip(i + skip));
    o
}

fn m31(s: &mut Src, name: &str) -> Option<M31> {
    let Base { mut sdoc, sch, mut docs, vis } = base(s)?;
    let kind = s.weighted(&[4, 3, 5, 3, 4, 2]);
    let mut tag = "untouched";
    let q = s.below(docs.len());
    let mut refuse: Option<String> = None;
    let mut open: Option<&'static str> = None;
    let mut sch = sch;
    match kind {
        1 => {
            let group = *s.pick(&["C11", "C12", "C13", "C14", "C15", "C16", "C17"]);
            tag = gen_doc::corrupt(&mut docs[q], s, &sch, group)
        }
        2 => {
            tag = limit_edit(s, &sch, &mut docs[q]);
            if s.chance(1, 6) {
                limit_edit(s, &sch, &mut docs[q]);
            }
        }
        3 => {
            tag = match s.below(4) {
                0 => {
                    let mut t = "none";
                    for x in sdoc.types_mut() {
                        match &mut x.kind {
                            Kind::Enum { values } => {
                                let v = s.pick(values).clone();
                                values.push(v);
                                t = "duplicate enum value";
                                break;
                            }
                            Kind::Input { fields } if s.bool() => {
                                let v = s.pick(fields).clone();
                                fields.push(v);
                                t = "duplicate input field";
                                break;
                            }
                            _ => {}
                        }
                    }
                    t
                }
                1 => {
                    // input objects that need themselves
                    let f = |n: &str, t: Ty| InputVal { desc: None, name: n.into(), ty: t, default: None, dirs: vec![] };
                    let k = s.range(1, 3);
                    for i in 0..k {
                        let to = format!("Loop9{}", (i + 1) % k);
                        let ty = match s.below(5) {
                            0 => Ty::named(&to),
                            1 => Ty::named(&to).req().list().req(),
                            _ => Ty::named(&to).req(),
                        };
                        sdoc.defs.push(SDef::Type(TypeDef { desc: None, name: format!("Loop9{i}"), dirs: vec![], kind: Kind::Input { fields: vec![f("a", Ty::named("Int")), f("next", ty)] } }));
                    }
                    "input object cycle"
                }
                _ => crate::props::schema::fault(&mut sdoc, s),
            };
            match Schema::resolve(&sdoc) {
                Err(e) => refuse = Some(format!("schema: {e}")),
                Ok(m) => {
                    let (e, _) = crate::props::schema::definition_errors(&m);
                    if let Some(x) = e.iter().next() {
                        refuse = Some(format!("schema: {x:?}"));
                    }
                    sch = m;
                }
            }
        }
        _ => {}
    }
    let mut sdl = render::sdoc_text(&sdoc);
    let mut texts: Vec<String> = docs.iter().map(render::doc_text).collect();
    let mut raw = false;
    if kind == 5 {
        raw = true;
        if s.bool() {
            tag = "text of the schema";
            sdl = text_fault(s, &sdl);
            match crate::refparse::parse_sdoc(&sdl, false) {
                Err(e) => refuse = Some(format!("schema: {e}")),
                Ok(d) => match Schema::resolve(&d) {
                    Err(e) => refuse = Some(format!("schema: {e}")),
                    Ok(m) => {
                        if let Some(x) = crate::props::schema::definition_errors(&m).0.iter().next() {
                            refuse = Some(format!("schema: {x:?}"));
                        }
                        sch = m;
                        sdoc = d;
                    }
                },
            }
        } else {
            tag = "text of the query";
            texts[q] = text_fault(s, &texts[q]);
            match crate::refparse::parse_doc(&texts[q], false) {
                Err(e) => refuse = Some(format!("query: {e}")),
                Ok(d) => docs[q] = d,
            }
        }
    }
    if crate::schema::SCALARS.iter().any(|n| sch.user_types.contains(*n)) {
        open = Some("a built-in scalar is defined anew");
    }
    if refuse.is_none() {
        for d in &docs {
            let r = valid::validate(&sch, d);
            if !r.must.is_empty() {
                refuse = Some(format!("query: {:?}", r.must.iter().next().unwrap()));
            } else if !r.may.is_empty() {
                open = Some("validity of the query is open");
            } else {
                let (bad, o) = limits(&sch, d);
                if o {
                    open = Some("a single spread in a union's inline fragment");
                }
                if let Some(b) = bad.into_iter().next() {
                    refuse = Some(format!("limits: {b}"));
                }
            }
        }
    }
    let _ = &sdoc;
    // the attributes
    let mini = s.chance(1, 3);
    let borrow = !mini && s.bool();
    let al = aliases(s, &sch, borrow);
    let mut files = vec![];
    let mut desc = format!("--- schema\n{sdl}\n");
    let mut document = |s: &mut Src, t: &str, f: String| -> String {
        if !raw && dsl_ok(t) && s.chance(1, 3) {
            format!("[{t}]")
        } else {
            files.push((f.clone(), t.to_string()));
            format!("{f:?}")
        }
    };
    let mut schema_arg = document(s, &sdl, format!("{name}.schema.graphql"));
    let mut query_args: Vec<String> = vec![];
    for (i, t) in texts.iter().enumerate() {
        desc.push_str(&format!("--- query {i}\n{t}\n"));
        query_args.push(document(s, t, format!("{name}.q{i}.graphql")));
    }
    let mut opts = vec![];
    if borrow || s.chance(1, 4) {
        opts.push(format!("borrow = {borrow}"));
    }
    if mini {
        opts.push("codec = \"miniserde\"".to_string());
    } else if s.bool() {
        opts.push("codec = \"serde\"".into());
    }
    let mut alias_lines: Vec<String> = al
        .iter()
        .map(|(n, a)| match a {
            Alias::Cow => format!("pub type {}<'a> = ::std::borrow::Cow<'a, str>;", pascal(n)),
            Alias::I64 => format!("pub type {} = i64;", pascal(n)),
            Alias::F64 => format!("pub type {} = f64;", pascal(n)),
            Alias::Bool => format!("pub type {} = bool;", pascal(n)),
            Alias::Str => format!("pub type {} = ::std::string::String;", pascal(n)),
        })
        .collect();
    let mut query_attrs: Vec<String> = query_args.iter().map(|a| format!("#[query({a})]")).collect();
    let mut extra = String::new();
    let mut item = "mod s";
    if kind == 4 {
        let (t, bad) = match s.below(22) {
            0 => {
                opts = vec![format!("codec = {:?}", s.pick(&["Serde", "json", "", "serde_json", "miniserde "]))];
                ("codec", "an unknown codec")
            }
            1 => {
                opts = vec!["borrow = true".into(), "codec = \"miniserde\"".into()];
                ("borrow-miniserde", "borrowing with miniserde")
            }
            2 => {
                opts.push(s.pick(&["other = true", "borrowed = true", "x", "\"b\"", "[scalar X]", "borrow", "borrow = 1", "codec = serde"]).to_string());
                ("option", "an unknown option")
            }
            3 => {
                opts = vec!["borrow = false".into(), "borrow = false".into()];
                ("option-twice", "an option given twice")
            }
            4 => {
                schema_arg = s.pick(&["\"missing.graphql\"", "\"src\"", "", "missing", "1", "(\"x\")"]).to_string();
                ("schema-path", "no schema")
            }
            5 if !alias_lines.is_empty() => {
                let k = s.below(alias_lines.len());
                alias_lines.remove(k);
                ("alias-missing", "a custom scalar without an alias")
            }
            6 => {
                let names: Vec<String> = sch.user_types.iter().filter(|n| !matches!(sch.kind(n), Some(Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. }))).map(|n| pascal(n)).filter(|n| n != "Self_").collect();
                let n = if s.bool() && !names.is_empty() { s.pick(&names).clone() } else { s.pick(&["Nothing", "Int", "ID2", "nothing"]).to_string() };
                alias_lines.push(format!("pub type {n} = i64;"));
                ("alias-superfluous", "an alias for no custom scalar")
            }
            7 if !alias_lines.is_empty() => {
                let n = pascal(s.pick(&al.keys().cloned().collect::<Vec<_>>()));
                alias_lines.retain(|l| !l.contains(&format!("type {n} ")) && !l.contains(&format!("type {n}<")));
                alias_lines.push(match s.below(3) {
                    0 => format!("pub type {n}<T> = ::std::vec::Vec<T>;"),
                    1 => format!("pub type {n}<const N: usize> = [u8; N];"),
                    _ => format!("pub type {n}<'a, T> = &'a T;"),
                });
                ("alias-parameters", "an alias with type or const parameters")
            }
            8 if !alias_lines.is_empty() => {
                let n = pascal(s.pick(&al.keys().cloned().collect::<Vec<_>>()));
                alias_lines.retain(|l| !l.contains(&format!("type {n} ")) && !l.contains(&format!("type {n}<")));
                if borrow {
                    alias_lines.push(format!("pub type {n}<'a, 'b> = (&'a str, &'b str);"));
                } else {
                    alias_lines.push(format!("pub type {n}<'a> = &'a str;"));
                }
                ("alias-lifetimes", "an alias with lifetimes that cannot be")
            }
            9 => {
                query_attrs[q] = format!("#[query({})]", s.pick(&["\"missing.graphql\"", "\"src\"", "", "missing", "1"]));
                ("query-path", "no query document")
            }
            10 => {
                query_attrs[q] = s.pick(&["", "#[query]", "#[query = \"x.graphql\"]", "#[queries(\"x.graphql\")]", "#[cfg(all())]"]).to_string();
                ("query-attribute", "a module without a query")
            }
            11 => {
                query_attrs[q] = format!("{}\n{}", query_attrs[q], s.pick(&["#[allow(unused)]", "#[query(\"x.graphql\")]"]));
                ("query-attributes", "a module with two attributes")
            }
            12 => {
                query_attrs[q] = format!("#[query[{}]]", query_args[q]);
                ("query-delimiter", "a query in square brackets")
            }
            13 => {
                extra = s.pick(&["fn f() {}", "pub struct X;", "use std::fmt;", "const X: i32 = 1;", "trait T {}"]).to_string();
                ("item", "an item that is neither alias nor query module")
            }
            14 => {
                item = s.pick(&["struct S", "enum S", "trait S", "fn s()"]);
                alias_lines.clear();
                query_attrs.clear();
                ("not-a-module", "no module")
            }
            15 => {
                // the same schema, named twice
                opts.insert(0, schema_arg.clone());
                ("two-schemas", "two schemas")
            }
            _ => ("none", ""),
        };
        tag = t;
        if t != "none" {
            open = None;
            refuse = Some(bad.into());
        }
    }
    let mut rust = String::new();
    let mut attr = schema_arg;
    for o in &opts {
        attr.push_str(&format!(", {o}"));
    }
    rust.push_str(&format!("#[bluejay_typegen::typegen({attr})]\n{}{item} {{\n{}\n", if vis { "pub " } else { "" }, alias_lines.join("\n")));
    for (i, a) in query_attrs.iter().enumerate() {
        rust.push_str(&format!("{a}\npub mod q{i} {{}}\n"));
    }
    rust.push_str(&format!("{extra}\n}}\n"));
    desc.push_str(&format!("--- attribute: typegen({}), aliases {alias_lines:?}, queries {:?}, extra {extra:?}, item {item}\n--- change: {tag}\n", attr.chars().take(60).collect::<String>(), query_attrs.iter().map(|x| x.chars().take(40).collect::<String>()).collect::<Vec<_>>()));
    let expect = match (refuse, open) {
        (_, Some(o)) => Expect::Open(o),
        (Some(r), _) => Expect::Refuse(r),
        _ => Expect::Accept,
    };
    desc.push_str(&format!("--- expected: {expect:?}\n"));
    Some(M31 { files, rust, expect, tag, desc })
}

fn judge31(c: &Crate, mods: &[(String, &M31)], bins: usize) -> Result<Vec<Option<String>>, String> {
    for (n, m) in mods {
        c.write(n, &m.files, &m.rust);
    }
    let names: Vec<String> = (0..bins.min(mods.len())).map(|b| format!("{}_b{b}", c.name())).collect();
    // a module that is always refused keeps the compiler from going on to check types
    c.write("sentinel", &[], "#[bluejay_typegen::typegen([type Query { a: Nothing }])]\nmod s {}\n");
    c.write("healthy", &[], "#[bluejay_typegen::typegen([type Query { a: Int }])]\npub mod s { #[query([{ a }])] pub mod q {} }\n");
    for (b, name) in names.iter().enumerate() {
        let mut t = String::from("#![allow(warnings)]\n#[path = \"../sentinel.rs\"]\nmod sentinel;\n#[path = \"../healthy.rs\"]\nmod healthy;\n");
        for (i, (n, _)) in mods.iter().enumerate() {
            if i % names.len() == b {
                t.push_str(&format!("#[path = \"../{n}.rs\"]\nmod {n};\n"));
            }
        }
        t.push_str("fn main() {}\n");
        std::fs::write(c.dir.join(format!("src/bin/{name}.rs")), t).unwrap();
    }
    let (ok, diags, err) = c.compile("check", &names);
    let plain = |m: &str| diags.iter().find(|d| d.code.is_none() && d.in_module(m));
    if ok || diags.iter().filter(|d| d.in_module("sentinel")).count() < names.len() {
        return Err(format!("the compiler did not get to every program:\n{}\n{err}", diags.first().map(|d| d.text.as_str()).unwrap_or("")));
    }
    let mut v = vec![];
    for (n, m) in mods {
        v.push(match (&m.expect, plain(n)) {
            (Expect::Accept, Some(d)) => Some(format!("refuses what is valid: {}", d.text)),
            (Expect::Refuse(why), None) => Some(format!("generates types in spite of: {why}")),
            _ => None,
        });
    }
    if plain("healthy").is_some() && v.iter().all(|x| x.is_none()) {
        return Err("even the simplest program is refused".into());
    }
    Ok(v)
}

pub fn c31(o: &Opts, replay: Option<Vec<u64>>, one: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let c = Crate::new(o, "tg31");
    let src = |i: u64| Src::from_seed(engine::case_seed_id("C31", o.seed, i));
    if replay.is_some() || one.is_some() {
        let mut s = match (replay, one) {
            (Some(r), _) => Src::from_choices(r),
            (_, Some(i)) => src(i),
            _ => unreachable!(),
        };
        let Some(m) = m31(&mut s, "one") else {
            println!("the case makes no program");
            return 0;
        };
        println!("{}", m.desc);
        return match judge31(&c, &[("one".into(), &m)], 1) {
            Err(e) => {
                println!("{e}");
                2
            }
            Ok(v) => match &v[0] {
                None => {
                    println!("replay passes");
                    0
                }
                Some(m) => {
                    println!("=> {m}");
                    println!("VIOLATION property=C31 replay={}/evidence/replay/C31.json", o.verif);
                    1
                }
            },
        };
    }
    let n = o.cases.unwrap_or(if o.tier == "thorough" { 150_000 } else { 3600 });
    let per = 450u64;
    let (mut evals, mut at, mut code, mut viol) = (0u64, 0u64, 0, 0);
    let mut distinct: HashSet<String> = HashSet::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    while at < n && code == 0 {
        let mut mods = vec![];
        let mut idx = vec![];
        for i in at..n.min(at + per) {
            let mut s = src(i);
            if let Some(m) = m31(&mut s, &format!("m{i}")) {
                mods.push((format!("m{i}"), m));
                idx.push((i, s.record));
            }
        }
        at += per;
        let refs: Vec<(String, &M31)> = mods.iter().map(|(n, m)| (n.clone(), m)).collect();
        let v = match judge31(&c, &refs, 8) {
            Ok(v) => v,
            Err(e) => {
                println!("{e}");
                return 2;
            }
        };
        for (_, m) in &refs {
            evals += 1;
            let (k, t) = match &m.expect {
                Expect::Accept => ("valid", ""),
                Expect::Refuse(w) => ("refused", w.split(':').next().unwrap_or("")),
                Expect::Open(_) => ("open", ""),
            };
            *tags.entry(k.into()).or_default() += 1;
            if k == "refused" {
                let t = if ["schema", "query", "limits"].contains(&t) { t } else { "attributes" };
                *tags.entry(format!("refused for its {t}")).or_default() += 1;
            }
            *tags.entry(format!("change: {}", m.tag)).or_default() += 1;
            if m.tag != "untouched" && m.tag != "none" && k != "open" {
                distinct.insert(m.desc.clone());
                if samples.len() < 3 {
                    samples.push(m.desc.chars().take(1500).collect());
                }
            }
        }
        if let Some(k) = v.iter().position(|x| x.is_some()) {
            viol = 1;
            code = 1;
            let msg = v[k].clone().unwrap();
            println!("case {} fails: {msg}", idx[k].0);
            let want = kind(&msg);
            let best = engine::shrink(
                idx[k].1.clone(),
                |ch| {
                    let mut s = Src::from_choices(ch.to_vec());
                    let m = m31(&mut s, "one")?;
                    match judge31(&c, &[("one".into(), &m)], 1) {
                        Ok(v) if v[0].as_ref().is_some_and(|m| kind(m) == want) => Some(s.record),
                        _ => None,
                    }
                },
                600,
                180.0,
            );
            let mut s = Src::from_choices(best.clone());
            let m = m31(&mut s, "one").unwrap();
            let msg = judge31(&c, &[("one".into(), &m)], 1).ok().and_then(|v| v[0].clone()).unwrap_or(msg);
            println!("shrunk to {} choices\n{}\n=> {}", best.len(), m.desc, msg);
            let path = engine::write_replay("C31", o, &best, &msg, &m.desc);
            println!("VIOLATION property=C31 replay={path}");
        }
    }
    let known = known(o, &c, "C31");
    let wall = t0.elapsed().as_secs_f64();
    engine::write_evidence("C31", o, evals, distinct.len() as u64, "a program (schema, queries, attributes) with one change whose effect the reference decides; distinct by text", &samples, &tags, &known, &ASSUME31, wall, viol);
    if code == 0 {
        println!("OK property=C31 evaluations={evals} distinct_nontrivial={} wall={wall:.1}s", distinct.len());
        for (k, v) in &tags {
            println!("  {k}: {v}");
        }
    }
    code
}

const ASSUME31: [&str; 2] = [
    "a diagnostic of rustc without an error code, in the program's file, is the macro's refusal",
    "the reference schema resolver and validator, and the limits as documented in bluejay-typegen/src/lib.rs and on the macro",
];

// ------------------------------------------------------------------------------------------ probes

struct Probe {
    key: &'static str,
    what: &'static str,
    sdl: &'static str,
    /// inside the module
    body: &'static str,
    /// run after it compiled; must not fail
    main: &'static str,
}

const fn p(key: &'static str, what: &'static str, sdl: &'static str, body: &'static str, main: &'static str) -> Probe {
    Probe { key, what, sdl, body, main }
}

const PROBES30: [Probe; 9] = [
    p("field-names-collide", "fields whose names differ only in case or underscores cannot be selected together: { fooBar foo_bar } does not compile", "type Query { fooBar: Int foo_bar: Int }", "#[query([query Q { fooBar foo_bar }])] pub mod q {}", ""),
    p("definition-names-collide", "operations or fragments whose names agree after case conversion do not compile: query foo_bar with query fooBar", "type Query { a: Int }", "#[query([query foo_bar { a } query fooBar { a }])] pub mod q {}", ""),
    p("case-less-names", "the type and the module generated for a composite field named _1 are the same identifier, which does not compile", "type Query { _1: T } type T { t: T a: Int }", "#[query([query Q { _1 { t { a } } }])] pub mod q {}", ""),
    p("other-clash", "an enum value or union member named Other clashes with the variant added for unknown ones", "enum E { OTHER A } type Query { a: E }", "#[query([query Q { a }])] pub mod q {}", ""),
    p("union-other-clash", "the same for a union member", "type Other { a: Int } union U = Other type Query { a: U }", "#[query([query Q { a { __typename ... on Other { a } } }])] pub mod q {}", ""),
    p("repeated-field", "a field selected twice ({ a a }, valid GraphQL) is generated twice, which does not compile", "type Query { a: Int }", "#[query([query Q { a a }])] pub mod q {}", ""),
    p("introspection-enum-clash", "an enum named TypeKind clashes with the one generated for __TypeKind", "enum TypeKind { A } type Query { a: TypeKind }", "#[query([query Q { a }])] pub mod q {}", ""),
    p(
        "skipped-spread",
        "a response that conforms is refused when @skip or @include is applied to a fragment spread",
        "type Query { t: T! } type T { a: Int! }",
        "#[query([query Q($b: Boolean!) { t { ...F @skip(if: $b) } } fragment F on T { a }])] pub mod q {}",
        "let _: s::q::Q = serde_json::from_str(r#\"{\"t\":{}}\"#).unwrap();",
    ),
    p(
        "skipped-typename",
        "a response that conforms is refused when @skip is applied to the __typename of a union",
        "type Query { t: U! } union U = T type T { a: Int! }",
        "#[query([query Q($b: Boolean!) { t { __typename @skip(if: $b) ... on T { a } } }])] pub mod q {}",
        "let _: s::q::Q = serde_json::from_str(r#\"{\"t\":{\"a\":1}}\"#).unwrap();",
    ),
];

const PROBES31: [Probe; 1] = [p(
    "spread-in-variant",
    "an inline fragment of a union whose only selection is a fragment spread, which is documented to be supported, makes the macro panic",
    "type Query { t: U! } union U = T type T { a: Int! }",
    "#[query([query Q { t { __typename ... on T { ...F } } } fragment F on T { a }])] pub mod q {}",
    "",
)];

/// the recorded findings that still are; a program that nothing is recorded about but fails the
/// same way is left to the generated cases
fn known(o: &Opts, c: &Crate, id: &str) -> BTreeMap<String, (u64, String)> {
    engine::load_findings(&o.verif);
    let l: &[Probe] = if id == "C30" { &PROBES30 } else { &PROBES31 };
    let l: Vec<&Probe> = l.iter().filter(|p| engine::listed(id, p.key)).collect();
    let mut out = BTreeMap::new();
    if l.is_empty() {
        return out;
    }
    let names: Vec<String> = (0..l.len()).map(|i| format!("{}_probe{i}", c.name())).collect();
    for (n, p) in names.iter().zip(&l) {
        let t = format!("#![allow(warnings)]\n#[bluejay_typegen::typegen([{}])]\nmod s {{\n{}\n}}\nfn main() {{ {} }}\n", p.sdl, p.body, p.main);
        std::fs::write(c.dir.join(format!("src/bin/{n}.rs")), t).unwrap();
    }
    let (_, diags, _) = c.compile("build", &names);
    for (n, p) in names.iter().zip(&l) {
        let fails = match diags.iter().any(|d| d.in_module(n)) {
            true => true,
            false => !p.main.is_empty() && Command::new(c.bin(n)).output().is_ok_and(|o| !o.status.success()),
        };
        let _ = std::fs::remove_file(c.dir.join(format!("src/bin/{n}.rs")));
        if fails {
            println!("KNOWN-FINDING: property={id} {}: {}", p.key, p.what);
            out.insert(p.key.into(), (1, p.what.into()));
        }
    }
    out
}
