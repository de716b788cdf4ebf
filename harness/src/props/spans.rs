//! C40: what the parsed nodes say about where they stand in the source. The expected ranges come
//! from walking the tokens of the reference lexer along the reference parser's tree.
use super::syntax::{parse_def, parse_exec};
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::refparse::{self as rp, Tok, T};
use crate::render::{doc_tokens, join_random, sdoc_tokens};
use crate::src::Src;
use crate::gen_syn as g;
use bluejay_core::definition::{self as cd, prelude::*};
use bluejay_core::executable::{
    ExplicitOperationDefinition as _, Field as _, FragmentDefinition as _, FragmentSpread as _, InlineFragment as _, OperationDefinitionReference as OR, Selection as _, SelectionReference as SR,
};
use bluejay_core::{AsIter, Directive as _, Indexable};
use bluejay_parser::ast::definition::{DefaultContext, Directives as DefDirectives, InputType, InputValueDefinition, SchemaDefinition};
use bluejay_parser::ast::executable::{ExecutableDocument, OperationDefinition, Selection, SelectionSet, VariableType};
use bluejay_parser::ast::{Arguments, ConstValue, Parse, Value, VariableValue};
use bluejay_parser::{HasSpan, Span};
use std::collections::{HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};

type At = (usize, usize, String);

// ---- expected ----

struct Walk<'a> {
    t: &'a [Tok],
    i: usize,
    out: Vec<At>,
}

impl Walk<'_> {
    fn put(&mut self, what: &str, from: usize) {
        self.out.push((self.t[from].start, self.t[self.i - 1].end, what.into()))
    }
    fn is(&self, p: &str) -> bool {
        matches!(&self.t[self.i].t, T::P(q) if *q == p)
    }
    fn skip(&mut self, p: &str) {
        if self.is(p) {
            self.i += 1
        }
    }
    /// one token that is a node
    fn tok(&mut self, what: &str) {
        self.i += 1;
        self.put(what, self.i - 1);
    }
    fn desc(&mut self) {
        if matches!(self.t[self.i].t, T::Str(_)) {
            self.i += 1
        }
    }
    fn val(&mut self, v: &Val) {
        let b = self.i;
        self.i += 1;
        match v {
            Val::List(l) => {
                l.iter().for_each(|v| self.val(v));
                self.i += 1;
            }
            Val::Obj(l) => {
                for (k, v) in l {
                    self.tok(&format!("name {k}"));
                    self.i += 1;
                    self.val(v);
                }
                self.i += 1;
                self.put("object", b);
            }
            Val::Var(n) => self.put(&format!("variable {n}"), b),
            _ => {}
        }
        self.put("value", b);
    }
    fn ty(&mut self, t: &Ty) {
        let b = self.i;
        self.i += 1;
        if let Ty::List(t, _) = t {
            self.ty(t);
            self.i += 1;
        }
        self.i += t.is_req() as usize;
        self.put("type", b);
    }
    fn args(&mut self, a: &Args) {
        if a.is_empty() {
            return;
        }
        let b = self.i;
        self.i += 1;
        for (n, v) in a {
            let b = self.i;
            self.tok(&format!("name {n}"));
            self.i += 1;
            self.val(v);
            self.put("argument", b);
        }
        self.i += 1;
        self.put("arguments", b);
    }
    fn dirs(&mut self, d: &[Dir], names: bool) {
        for d in d {
            let b = self.i;
            self.i += 1;
            self.i += 1;
            if names {
                self.put(&format!("name {}", d.name), b + 1);
            }
            self.args(&d.args);
            self.put("directive", b);
        }
    }
    fn sels(&mut self, l: &[Sel]) {
        let b = self.i;
        self.i += 1;
        for x in l {
            let b = self.i;
            match x {
                Sel::Field(f) => {
                    self.i += if f.alias.is_some() { 2 } else { 0 };
                    self.tok(&format!("name {}", f.name));
                    self.args(&f.args);
                    self.dirs(&f.dirs, true);
                    if let Some(l) = &f.sel {
                        self.sels(l)
                    }
                    self.put(&format!("field {}", f.key()), b);
                }
                Sel::Spread(n, d) => {
                    self.i += 1;
                    self.tok(&format!("name {n}"));
                    // whether the directives belong to it is left open
                    self.put("spread", b);
                    self.dirs(d, true);
                }
                Sel::Inline(c, d, l) => {
                    self.i += 1;
                    if let Some(c) = c {
                        self.i += 1;
                        self.tok(&format!("name {c}"));
                    }
                    self.dirs(d, true);
                    self.sels(l);
                    self.put("inline", b);
                }
            }
        }
        self.i += 1;
        self.put("selections", b);
    }
    fn doc(&mut self, d: &Doc) {
        let (mut o, mut f) = (d.ops.iter(), d.frags.iter());
        while self.i < self.t.len() {
            let b = self.i;
            if matches!(&self.t[b].t, T::Name(n) if n == "fragment") {
                let f = f.next().unwrap();
                self.i += 1;
                self.tok(&format!("name {}", f.name));
                self.i += 1;
                self.tok(&format!("name {}", f.on));
                self.dirs(&f.dirs, true);
                self.sels(&f.sel);
                self.put(&format!("fragment {}", f.name), b);
                continue;
            }
            let o = o.next().unwrap();
            if !o.short {
                self.tok("operation type");
                if let Some(n) = &o.name {
                    self.tok(&format!("name {n}"));
                }
                if !o.vars.is_empty() {
                    self.i += 1;
                    for v in &o.vars {
                        self.tok(&format!("variable {}", v.name));
                        self.i += 1;
                        self.ty(&v.ty);
                        if let Some(d) = &v.default {
                            self.i += 1;
                            self.val(d);
                        }
                        self.dirs(&v.dirs, true);
                    }
                    self.i += 1;
                }
                self.dirs(&o.dirs, true);
            }
            self.sels(&o.sel);
            self.put("operation", b);
        }
    }
    // definitions: only what has a public position
    fn inputs(&mut self, l: &[InputVal]) {
        for v in l {
            self.desc();
            self.tok(&format!("name {}", v.name));
            self.i += 1;
            self.ty(&v.ty);
            if let Some(d) = &v.default {
                self.i += 1;
                self.val(d);
            }
            self.dirs(&v.dirs, false);
        }
    }
    fn argdefs(&mut self, l: &[InputVal]) {
        if !l.is_empty() {
            self.i += 1;
            self.inputs(l);
            self.i += 1;
        }
    }
    fn list(&mut self, sep: &str, n: usize) {
        for _ in 0..n {
            self.skip(sep);
            self.i += 1;
        }
    }
    fn sdoc(&mut self, d: &SDoc) {
        for d in &d.defs {
            self.desc();
            match d {
                SDef::Schema(s) => {
                    self.i += 1;
                    self.dirs(&s.dirs, false);
                    self.i += 2 + 3 * s.ops.len();
                }
                SDef::Directive(d) => {
                    self.i += 3;
                    self.argdefs(&d.args);
                    self.i += 1 + d.repeatable as usize;
                    self.list("|", d.locs.len());
                }
                SDef::Type(t) => {
                    self.i += 1;
                    if let Kind::Input { .. } = t.kind {
                        self.tok(&format!("name {}", t.name));
                    } else {
                        self.i += 1;
                    }
                    if let Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } = &t.kind {
                        if !ifaces.is_empty() {
                            self.i += 1;
                            self.list("&", ifaces.len());
                        }
                    }
                    self.dirs(&t.dirs, false);
                    match &t.kind {
                        Kind::Scalar => {}
                        Kind::Union { members } => {
                            self.i += 1;
                            self.list("|", members.len());
                        }
                        Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                            self.i += 1;
                            for f in fields {
                                self.desc();
                                self.i += 1;
                                self.argdefs(&f.args);
                                self.i += 1;
                                let n = self.out.len();
                                self.ty(&f.ty);
                                self.out.truncate(n);
                                self.dirs(&f.dirs, false);
                            }
                            self.i += 1;
                        }
                        Kind::Enum { values } => {
                            self.i += 1;
                            for v in values {
                                self.desc();
                                self.tok(&format!("name {}", v.name));
                                self.dirs(&v.dirs, false);
                            }
                            self.i += 1;
                        }
                        Kind::Input { fields } => {
                            self.i += 1;
                            self.inputs(fields);
                            self.i += 1;
                        }
                    }
                }
            }
        }
    }
}

// ---- actual ----

#[derive(Default)]
struct Seen(Vec<At>, Vec<Span>);

impl Seen {
    fn put(&mut self, what: impl Into<String>, s: &impl HasSpan) {
        let r = s.span().byte_range();
        self.0.push((r.start, r.end, what.into()));
        self.1.push(s.span().clone());
    }
    fn val<const C: bool>(&mut self, v: &Value<'_, C>) {
        self.put("value", v);
        match v {
            Value::Variable(v) => self.put(format!("variable {}", v.name()), v),
            Value::List(l) => l.iter().for_each(|v| self.val(v)),
            Value::Object(o) => {
                self.put("object", o);
                for (k, v) in AsIter::iter(o) {
                    self.put(format!("name {}", k.as_str()), k);
                    self.val(v);
                }
            }
            _ => {}
        }
    }
    fn args<const C: bool>(&mut self, a: Option<&Arguments<'_, C>>) {
        let Some(a) = a else { return };
        self.put("arguments", a);
        for a in a.iter() {
            self.put("argument", a);
            self.put(format!("name {}", a.name().as_str()), a.name());
            self.val(a.value());
        }
    }
    fn dirs<'a, const C: bool>(&mut self, l: Option<&bluejay_parser::ast::Directives<'a, C>>) {
        for d in l.into_iter().flat_map(|l| l.iter()) {
            self.put("directive", d);
            self.put(format!("name {}", d.name().as_str()), d.name());
            self.args(d.arguments());
        }
    }
    fn vty(&mut self, t: &VariableType) {
        self.put("type", t);
        if let VariableType::List { inner, .. } = t {
            self.vty(inner)
        }
    }
    fn sels(&mut self, l: &SelectionSet) {
        self.put("selections", l);
        for x in l.iter() {
            match x.as_ref() {
                SR::Field(f) => {
                    self.put(format!("field {}", f.response_key()), f);
                    self.put(format!("name {}", f.name().as_str()), f.name());
                    self.args(f.arguments());
                    self.dirs(f.directives());
                    f.selection_set().into_iter().for_each(|l| self.sels(l));
                }
                SR::FragmentSpread(f) => {
                    let (s, n) = (f.span().byte_range(), f.name().span().byte_range());
                    let last = f.directives().and_then(|l| l.iter().last()).map(|d| d.span().byte_range().end);
                    let end = if last == Some(s.end) { n.end } else { s.end };
                    self.0.push((s.start, end, "spread".into()));
                    self.put(format!("name {}", f.name().as_str()), f.name());
                    self.dirs(f.directives());
                }
                SR::InlineFragment(f) => {
                    self.put("inline", f);
                    f.type_condition().into_iter().for_each(|c| self.put(format!("name {}", c.named_type().as_str()), c.named_type()));
                    self.dirs(f.directives());
                    self.sels(f.selection_set());
                }
            }
        }
    }
    fn doc(&mut self, d: &ExecutableDocument) {
        for o in d.operation_definitions() {
            self.put("operation", o);
            if let OperationDefinition::Explicit(e) = o {
                self.put("operation", e);
                self.0.pop();
                self.put("operation type", e.operation_type());
                e.name().into_iter().for_each(|n| self.put(format!("name {}", n.as_str()), n));
                for v in e.variable_definitions().into_iter().flat_map(|l| l.iter()) {
                    self.put(format!("variable {}", v.variable().name()), v.variable());
                    self.vty(v.r#type());
                    v.default_value().into_iter().for_each(|v| self.val(v));
                    self.dirs(bluejay_core::executable::VariableDefinition::directives(v));
                }
                self.dirs(e.directives());
            }
            self.sels(o.selection_set());
        }
        for f in d.fragment_definitions() {
            self.put(format!("fragment {}", f.name().as_str()), f);
            self.put(format!("name {}", f.name().as_str()), f.name());
            self.put(format!("name {}", f.type_condition().named_type().as_str()), f.type_condition().named_type());
            self.dirs(f.directives());
            self.sels(f.selection_set());
        }
    }
    // definitions
    fn ddirs(&mut self, l: Option<&DefDirectives<'_, DefaultContext>>) {
        for d in l.into_iter().flat_map(|l| l.iter()) {
            self.put("directive", d);
            self.args(bluejay_core::Directive::arguments(d));
        }
    }
    fn ity(&mut self, t: &InputType) {
        self.put("type", t);
        if let InputType::List(t, ..) = t {
            self.ity(t)
        }
    }
    fn input(&mut self, v: &InputValueDefinition<'_, DefaultContext>) {
        self.put(format!("name {}", v.name_token().as_str()), v.name_token());
        self.ity(v.r#type());
        v.default_value().into_iter().for_each(|v| self.val(v));
        self.ddirs(v.directives());
    }
    fn schema(&mut self, s: &SchemaDefinition) {
        use cd::TypeDefinitionReference as R;
        self.ddirs(cd::HasDirectives::directives(s));
        for d in s.directive_definitions().filter(|d| !d.is_builtin()) {
            d.arguments_definition().into_iter().flat_map(|l| l.iter()).for_each(|v| self.input(v));
        }
        for t in s.type_definitions().filter(|t| !t.is_builtin()) {
            match t {
                R::BuiltinScalar(_) => {}
                R::CustomScalar(t) => self.ddirs(t.directives()),
                R::Union(t) => self.ddirs(t.directives()),
                R::Enum(t) => {
                    self.ddirs(t.directives());
                    for v in t.enum_value_definitions().iter() {
                        self.put(format!("name {}", v.name_token().as_str()), v.name_token());
                        self.ddirs(v.directives());
                    }
                }
                R::InputObject(t) => {
                    self.put(format!("name {}", t.name_token().as_str()), t.name_token());
                    self.ddirs(t.directives());
                    t.input_field_definitions().iter().for_each(|v| self.input(v));
                }
                R::Object(_) | R::Interface(_) => {
                    let (dirs, fields) = match t {
                        R::Object(t) => (t.directives(), t.fields_definition()),
                        R::Interface(t) => (t.directives(), t.fields_definition()),
                        _ => unreachable!(),
                    };
                    self.ddirs(dirs);
                    for f in fields.iter().filter(|f| !f.is_builtin()) {
                        self.ddirs(f.directives());
                        f.arguments_definition().into_iter().flat_map(|l| l.iter()).for_each(|v| self.input(v));
                    }
                }
            }
        }
    }
}

fn compare(t: &str, mut want: Vec<At>, mut got: Vec<At>) -> CaseResult {
    want.sort();
    got.sort();
    if want == got {
        return Ok(());
    }
    let show = |a: &At| format!("{} at {}..{} {:?}", a.2, a.0, a.1, t.get(a.0..a.1));
    let a = want.iter().find(|a| !got.contains(a)).map(show);
    let b = got.iter().find(|a| !want.contains(a)).map(show);
    Err(format!("positions: expected {a:?}, found {b:?}; {} expected, {} found", want.len(), got.len()))
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// nodes are told apart, and known again, by where they stand
fn identity(d: &ExecutableDocument, again: &ExecutableDocument) -> CaseResult {
    type Fields<'a, 'b> = Vec<&'a bluejay_parser::ast::executable::Field<'b>>;
    fn all<'a, 'b>(l: &'a SelectionSet<'b>, f: &mut Fields<'a, 'b>, sets: &mut Vec<&'a Span>) {
        sets.push(l.id());
        for x in l.iter() {
            match x {
                Selection::Field(x) => {
                    f.push(x);
                    if let Some(l) = bluejay_core::executable::Field::selection_set(x) {
                        all(l, f, sets)
                    }
                }
                Selection::InlineFragment(x) => all(x.selection_set(), f, sets),
                _ => {}
            }
        }
    }
    fn each<'a, 'b>(d: &'a ExecutableDocument<'b>) -> (Fields<'a, 'b>, [Vec<&'a Span>; 4]) {
        let (mut f, mut sets, mut types) = (vec![], vec![], vec![]);
        for o in d.operation_definitions() {
            all(o.selection_set(), &mut f, &mut sets);
            if let OR::Explicit(e) = bluejay_core::executable::OperationDefinition::as_ref(o) {
                types.extend(e.variable_definitions().into_iter().flat_map(|l| l.iter()).map(|v| v.r#type().id()));
            }
        }
        for x in d.fragment_definitions() {
            all(bluejay_core::executable::FragmentDefinition::selection_set(x), &mut f, &mut sets);
        }
        let ops = d.operation_definitions().iter().map(|o| o.id()).collect();
        let frags = d.fragment_definitions().iter().map(|o| o.id()).collect();
        (f, [sets, types, ops, frags])
    }
    let ((f, ids), (g, same)) = (each(d), each(again));
    for (l, what) in ids.iter().zip(["selection sets", "variable types", "operations", "fragments"]) {
        if l.iter().collect::<HashSet<_>>().len() != l.len() {
            return Err(format!("two {what} have the same id"));
        }
    }
    if ids != same {
        return Err("parsed again, the ids differ".into());
    }
    let by: HashMap<_, usize> = f.iter().enumerate().map(|(i, f)| (*f, i)).collect();
    for (i, x) in f.iter().enumerate() {
        if by.get(x) != Some(&i) {
            return Err(format!("two fields are equal, one of them {}", x.response_key()));
        }
        if f.iter().enumerate().any(|(j, y)| (i == j) != (x == y)) {
            return Err(format!("{} is equal to another field", x.response_key()));
        }
        if *x != g[i] || hash(x) != hash(&g[i]) {
            return Err(format!("the field {} differs from itself parsed again", x.response_key()));
        }
    }
    Ok(())
}

fn algebra(t: &str, l: &[Span], s: &mut Src) -> CaseResult {
    if l.is_empty() {
        return Ok(());
    }
    let (a, b) = (s.pick(l), s.pick(l));
    let (x, y) = (a.byte_range(), b.byte_range());
    let m = a.merge(b);
    if *m.byte_range() != (x.start.min(y.start)..x.end.max(y.end)) || m != b.merge(a) {
        return Err(format!("{x:?} and {y:?} together are {:?}", m.byte_range()));
    }
    let n = s.below(100);
    let moved = a.clone() + n;
    if *moved.byte_range() != (x.start + n..x.end + n) {
        return Err(format!("{x:?} moved by {n} is {:?}", moved.byte_range()));
    }
    if a.cmp(b) != x.start.cmp(&y.start) || a.partial_cmp(b) != Some(a.cmp(b)) || (a == b) != (x == y) {
        return Err(format!("{x:?} and {y:?} compare wrong"));
    }
    let r: std::ops::Range<usize> = a.clone().into();
    if r != *x || t.get(r).is_none() {
        return Err(format!("{x:?} is not a piece of the text"));
    }
    Ok(())
}

fn c40(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let compat = s.chance(1, 5);
    let k = s.weighted(&[6, 2, 5, 2]);
    ctx.tag(["document", "operations as printed", "schema", "value"][k]);
    let mut seen = Seen::default();
    let lexed = |t: &str| rp::lex(t, compat).map_err(|e| format!("lex error at {}", e.0));
    let (t, want) = match k {
        0 | 1 => {
            let d = g::doc(s);
            let toks = doc_tokens(&d, Some(s));
            let t = if k == 0 { join_random(&toks, s) } else { crate::render::doc_text(&d) };
            ctx.show("text", &format!("{t:?}"));
            let (Ok(d), Ok(e), Ok(again)) = (rp::parse_doc(&t, compat), parse_exec(&t, compat), parse_exec(&t, compat)) else {
                ctx.tag("not parsed");
                return Ok(());
            };
            let toks = lexed(&t)?;
            let mut w = Walk { t: &toks, i: 0, out: vec![] };
            w.doc(&d);
            seen.doc(&e);
            identity(&e, &again)?;
            (t, w.out)
        }
        2 => {
            let d = super::schema::wild_sdoc(s);
            let toks = sdoc_tokens(&d, Some(s));
            let t = join_random(&toks, s);
            ctx.show("text", &format!("{t:?}"));
            let (Ok(d), Ok(e)) = (rp::parse_sdoc(&t, compat), parse_def(&t, compat)) else {
                ctx.tag("not parsed");
                return Ok(());
            };
            let Ok(sd) = SchemaDefinition::try_from(&e) else {
                ctx.tag("not resolved");
                return Ok(());
            };
            let toks = lexed(&t)?;
            let mut w = Walk { t: &toks, i: 0, out: vec![] };
            w.sdoc(&d);
            seen.schema(&sd);
            (t, w.out)
        }
        _ => {
            let konst = s.bool();
            let v = g::val(s, konst, 3);
            let mut o = crate::render::Out::new(Some(s));
            o.val(&v);
            let toks = o.toks;
            let t = join_random(&toks, s);
            ctx.show("text", &format!("{t:?}"));
            let toks = lexed(&t)?;
            let mut w = Walk { t: &toks, i: 0, out: vec![] };
            w.val(&v);
            let o = bluejay_parser::ast::ParseOptions { graphql_ruby_compatibility: compat };
            if konst {
                seen.val(&ConstValue::parse_with_options(&t, o).map_err(|_| "a value is not parsed".to_string())?);
            } else {
                seen.val(&VariableValue::parse_with_options(&t, o).map_err(|_| "a value is not parsed".to_string())?);
            }
            (t, w.out)
        }
    };
    ctx.nontrivial = want.len() > 3;
    ctx.evals = want.len() as u64;
    algebra(&t, &seen.1, s)?;
    compare(&t, want, seen.0)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40",
        quick: 250_000,
        thorough: 5_000_000,
        rule: "a text with more than three nodes that have a position; distinct = distinct texts",
        case: c40,
        assumptions: &["whether the directives of a fragment spread belong to its range is left open"],
    }]
}
