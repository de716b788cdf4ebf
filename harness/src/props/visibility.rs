//! C26-C27: schemas restricted by a visibility policy.
use super::analysis as an;
use super::exec::{self, parse_doc, with_schema, MySchema};
use crate::ast::*;
use crate::dump;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::gen_schema::{self, SOpts};
use crate::render;
use crate::schema::{Schema, SCALARS};
use crate::refop::Tariff;
use crate::src::Src;
use crate::view::{self, view, View};
use bluejay_core::definition::{
    prelude::*, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference as R,
};
use bluejay_core::{AsIter, Directive};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_validator::executable::document::BuiltinRulesValidator;
use bluejay_validator::executable::Cache;
use bluejay_visibility::{self as vis, NullWarden, Warden};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum H {
    Type(String),
    Field(String, String),
    Arg(String, String, String),
    Input(String, String),
    Value(String, String),
    Member(String, String),
    Impl(String, String),
    Dir(String),
    DirArg(String, String),
    /// a version that is never shown
    Decoy,
}

pub type Hidden = BTreeSet<H>;

/// what a policy can speak about
fn elements(v: &View) -> Vec<H> {
    let mut l = vec![];
    for (n, t) in &v.types {
        if v.builtin_types.contains(n) && SCALARS.contains(&n.as_str()) {
            continue;
        }
        l.push(H::Type(n.clone()));
        match &t.kind {
            Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => {
                for f in fields {
                    if f.name != "__typename" {
                        l.push(H::Field(n.clone(), f.name.clone()));
                    }
                    l.extend(f.args.iter().map(|a| H::Arg(n.clone(), f.name.clone(), a.name.clone())));
                }
                l.extend(ifaces.iter().map(|i| H::Impl(n.clone(), i.clone())));
            }
            Kind::Union { members } => l.extend(members.iter().map(|m| H::Member(n.clone(), m.clone()))),
            Kind::Enum { values } => l.extend(values.iter().map(|m| H::Value(n.clone(), m.name.clone()))),
            Kind::Input { fields } => l.extend(fields.iter().map(|m| H::Input(n.clone(), m.name.clone()))),
            Kind::Scalar => {}
        }
    }
    for (n, d) in &v.dirdefs {
        l.push(H::Dir(n.clone()));
        l.extend(d.args.iter().map(|a| H::DirArg(n.clone(), a.name.clone())));
    }
    l
}

fn builtin(v: &View, h: &H) -> bool {
    match h {
        H::Type(t) | H::Arg(t, _, _) | H::Input(t, _) | H::Value(t, _) | H::Member(t, _) | H::Impl(t, _) if v.builtin_types.contains(t) => true,
        H::Field(t, f) | H::Arg(t, f, _) => v.builtin_types.contains(t) || v.builtin_fields.contains(&(t.clone(), f.clone())),
        H::Dir(d) | H::DirArg(d, _) => v.builtin_dirs.contains(d),
        _ => false,
    }
}

/// a policy; `tame` leaves built-in elements and the query root alone and hides types that would be left empty
pub fn policy(s: &mut Src, v: &View, tame: bool) -> Hidden {
    let mut h = Hidden::new();
    let den = *s.pick(&[8, 4, 20, 2]);
    let focus = s.below(4);
    for e in elements(v) {
        let ty = matches!(e, H::Type(_));
        if (tame || s.chance(9, 10)) && builtin(v, &e) {
            continue;
        }
        let mut d = if ty { den * 2 } else { den };
        if focus == 1 && !matches!(e, H::Impl(..) | H::Member(..) | H::Dir(..)) {
            d *= 4;
        }
        let root = matches!(&e, H::Type(n) if v.roots.get(&OpKind::Query) == Some(n));
        if root && (tame || s.chance(4, 5)) {
            continue;
        }
        if s.chance(1, d) {
            h.insert(e);
        }
    }
    if tame {
        loop {
            let Some(w) = prune(v, &h, false) else { break };
            let empty: Vec<String> = w
                .types
                .values()
                .filter(|t| match &t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter().all(|f| f.name.starts_with("__")),
                    Kind::Union { members } => members.is_empty(),
                    Kind::Enum { values } => values.is_empty(),
                    // nor should an input object be left that no value satisfies
                    Kind::Input { fields } => {
                        fields.is_empty()
                            || Schema::has_dir(&t.dirs, "oneOf") && fields.iter().all(|f| matches!(f.ty, Ty::Named(..)) && matches!(w.types.get(f.ty.base()).map(|t| &t.kind), Some(Kind::Input { .. })))
                    }
                    Kind::Scalar => false,
                })
                .map(|t| t.name.clone())
                .collect();
            if empty.is_empty() {
                break;
            }
            h.extend(empty.into_iter().map(H::Type));
        }
    }
    h
}

/// what remains visible; with `reach`, only what the roots lead to. None when the query root is hidden.
pub fn prune(v: &View, h: &Hidden, reach: bool) -> Option<View> {
    let vis_t = |n: &str| !h.contains(&H::Type(n.into()));
    let vis_d = |n: &str| !h.contains(&H::Dir(n.into()));
    let dirs = |l: &mut Vec<Dir>| l.retain(|d| vis_d(&d.name));
    let inputs = |l: &mut Vec<InputVal>, k: &dyn Fn(&str) -> H| {
        l.retain(|i| !h.contains(&k(&i.name)) && vis_t(i.ty.base()));
        l.iter_mut().for_each(|i| dirs(&mut i.dirs));
    };
    let fields = |n: &str, l: &mut Vec<FieldDef>| {
        l.retain(|f| !h.contains(&H::Field(n.into(), f.name.clone())) && vis_t(f.ty.base()));
        for f in l {
            dirs(&mut f.dirs);
            inputs(&mut f.args, &|a| H::Arg(n.into(), f.name.clone(), a.into()));
        }
    };
    let mut w = v.clone();
    dirs(&mut w.dirs);
    w.roots.retain(|_, n| vis_t(n));
    w.roots.get(&OpKind::Query)?;
    w.types.retain(|n, _| vis_t(n));
    for (n, t) in &mut w.types {
        dirs(&mut t.dirs);
        match &mut t.kind {
            Kind::Object { ifaces, fields: l } | Kind::Interface { ifaces, fields: l } => {
                ifaces.retain(|i| vis_t(i) && !h.contains(&H::Impl(n.clone(), i.clone())));
                fields(n, l);
            }
            Kind::Union { members } => members.retain(|i| vis_t(i) && !h.contains(&H::Member(n.clone(), i.clone()))),
            Kind::Enum { values } => {
                values.retain(|i| !h.contains(&H::Value(n.clone(), i.name.clone())));
                values.iter_mut().for_each(|i| dirs(&mut i.dirs));
            }
            Kind::Input { fields: l } => inputs(l, &|a| H::Input(n.clone(), a.into())),
            Kind::Scalar => {}
        }
    }
    for (n, l) in &mut w.union_fields {
        fields(n, l);
    }
    w.dirdefs.retain(|n, _| vis_d(n));
    for (n, d) in &mut w.dirdefs {
        inputs(&mut d.args, &|a| H::DirArg(n.clone(), a.into()));
    }
    for (i, l) in &mut w.implementors {
        l.retain(|o| vis_t(o) && !h.contains(&H::Impl(o.clone(), i.clone())));
    }
    if reach {
        let (ts, ds) = reachable(&w);
        w.types.retain(|n, _| ts.contains(n));
        w.dirdefs.retain(|n, _| ds.contains(n));
    }
    let types = &w.types;
    w.union_fields.retain(|n, _| types.contains_key(n));
    w.implementors.retain(|n, _| types.contains_key(n));
    w.builtin_types.retain(|n| types.contains_key(n));
    w.builtin_fields.retain(|(t, f)| match types.get(t).map(|t| &t.kind) {
        Some(Kind::Object { fields, .. } | Kind::Interface { fields, .. }) => fields.iter().any(|x| x.name == *f),
        k => k.is_some() && w.union_fields.get(t).map_or(true, |l| l.iter().any(|x| x.name == *f)),
    });
    let dd = &w.dirdefs;
    w.builtin_dirs.retain(|n| dd.contains_key(n));
    Some(w)
}

fn reachable(w: &View) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut ts, mut ds) = (BTreeSet::new(), BTreeSet::new());
    let mut todo: Vec<(bool, String)> = w.roots.values().map(|n| (true, n.clone())).collect();
    todo.extend(w.dirdefs.values().filter(|d| w.builtin_dirs.contains(&d.name) || d.locs.iter().any(|l| EXEC_LOCS.contains(&l.as_str()))).map(|d| (false, d.name.clone())));
    let dirs = |l: &[Dir], todo: &mut Vec<(bool, String)>| todo.extend(l.iter().map(|d| (false, d.name.clone())));
    let inputs = |l: &[InputVal], todo: &mut Vec<(bool, String)>| {
        for i in l {
            dirs(&i.dirs, todo);
            todo.push((true, i.ty.base().to_string()));
        }
    };
    dirs(&w.dirs, &mut todo);
    while let Some((is_type, n)) = todo.pop() {
        if !is_type {
            if let Some(d) = w.dirdefs.get(&n) {
                if ds.insert(n) {
                    inputs(&d.args, &mut todo);
                }
            }
            continue;
        }
        let Some(t) = w.types.get(&n) else { continue };
        if !ts.insert(n.clone()) {
            continue;
        }
        dirs(&t.dirs, &mut todo);
        match &t.kind {
            Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => {
                for f in fields {
                    dirs(&f.dirs, &mut todo);
                    inputs(&f.args, &mut todo);
                    todo.push((true, f.ty.base().to_string()));
                }
                todo.extend(ifaces.iter().map(|i| (true, i.clone())));
                todo.extend(w.implementors.get(&n).into_iter().flatten().map(|i| (true, i.clone())));
            }
            Kind::Union { members } => todo.extend(members.iter().map(|i| (true, i.clone()))),
            Kind::Enum { values } => values.iter().for_each(|v| dirs(&v.dirs, &mut todo)),
            Kind::Input { fields } => inputs(fields, &mut todo),
            Kind::Scalar => {}
        }
    }
    (ts, ds)
}

/// the document without the hidden elements, and only the listed names if given
fn delete(d: &SDoc, v: &View, h: &Hidden, only: Option<(&BTreeSet<String>, &BTreeSet<String>)>) -> SDoc {
    let w = prune(v, h, false).expect("query root");
    let mut out = SDoc::default();
    for def in &d.defs {
        match def {
            SDef::Schema(s) => {
                let mut s = s.clone();
                s.dirs = w.dirs.clone();
                s.ops.retain(|(k, _)| w.roots.contains_key(k));
                out.defs.push(SDef::Schema(s));
            }
            SDef::Directive(x) => {
                if let (Some(x), true) = (w.dirdefs.get(&x.name), only.map_or(true, |o| o.1.contains(&x.name))) {
                    out.defs.push(SDef::Directive(x.clone()));
                }
            }
            SDef::Type(x) => {
                if let (Some(x), true) = (w.types.get(&x.name), only.map_or(true, |o| o.0.contains(&x.name))) {
                    let mut x = x.clone();
                    if let Kind::Object { fields, .. } | Kind::Interface { fields, .. } = &mut x.kind {
                        fields.retain(|f| !f.name.starts_with("__"));
                    }
                    out.defs.push(SDef::Type(x));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------- the policy as a warden

/// what else a policy decides: versions and overrides
#[derive(Default)]
pub struct More {
    /// places (in the order of the text) of definitions that are not shown
    decoys: BTreeSet<String>,
    /// default values are taken from @zIs, arguments are dropped where one is named zDrop
    overrides: bool,
    /// custom scalars are coerced otherwise
    scalars: bool,
}

pub struct Pol<'s> {
    hidden: Hidden,
    more: More,
    /// address of each element of the schema that has no name of its own
    at: HashMap<(u8, usize), H>,
    p: std::marker::PhantomData<MySchema<'s>>,
}

fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

impl<'s> Pol<'s> {
    pub fn new(sd: &MySchema<'s>, hidden: Hidden) -> Self {
        Self::with(sd, hidden, More::default())
    }
    pub fn with(sd: &MySchema<'s>, hidden: Hidden, more: More) -> Self {
        let decoys = &more.decoys;
        let mut at = HashMap::new();
        let or = |p: String, h: H| if decoys.contains(&p) { H::Decoy } else { h };
        fn fields<F: bluejay_core::definition::FieldsDefinition>(at: &mut HashMap<(u8, usize), H>, n: &str, l: &F, or: &dyn Fn(String, H) -> H) {
            let mut i = 0;
            for f in l.iter() {
                if f.name() != "__typename" {
                    at.insert((0, addr(f)), if f.is_builtin() { H::Field(n.into(), f.name().into()) } else { or(format!("{n}/{i}"), H::Field(n.into(), f.name().into())) });
                }
                for (j, a) in f.arguments_definition().into_iter().flat_map(|a| a.iter()).enumerate() {
                    at.insert((1, addr(a)), if f.is_builtin() { H::Arg(n.into(), f.name().into(), a.name().into()) } else { or(format!("{n}/{i}/{j}"), H::Arg(n.into(), f.name().into(), a.name().into())) });
                }
                i += !f.is_builtin() as usize;
            }
        }
        for t in sd.type_definitions() {
            let n = t.name();
            match t {
                R::Object(o) => {
                    fields(&mut at, n, o.fields_definition(), &or);
                    for i in o.interface_implementations().into_iter().flat_map(|i| i.iter()) {
                        at.insert((2, addr(i)), H::Impl(n.into(), i.name().into()));
                    }
                }
                R::Interface(o) => {
                    fields(&mut at, n, o.fields_definition(), &or);
                    for i in o.interface_implementations().into_iter().flat_map(|i| i.iter()) {
                        at.insert((2, addr(i)), H::Impl(n.into(), i.name().into()));
                    }
                }
                R::Union(u) => {
                    for (i, m) in u.union_member_types().iter().enumerate() {
                        at.insert((3, addr(m)), or(format!("{n}/{i}"), H::Member(n.into(), m.name().into())));
                    }
                }
                R::Enum(e) => {
                    for (i, m) in e.enum_value_definitions().iter().enumerate() {
                        at.insert((4, addr(m)), or(format!("{n}/{i}"), H::Value(n.into(), m.name().into())));
                    }
                }
                R::InputObject(x) => {
                    for (i, m) in x.input_field_definitions().iter().enumerate() {
                        at.insert((1, addr(m)), or(format!("{n}/{i}"), H::Input(n.into(), m.name().into())));
                    }
                }
                _ => {}
            }
        }
        for d in sd.directive_definitions() {
            for (i, a) in d.arguments_definition().into_iter().flat_map(|a| a.iter()).enumerate() {
                at.insert((1, addr(a)), or(format!("@{}/{i}", d.name()), H::DirArg(d.name().into(), a.name().into())));
            }
        }
        Pol { hidden, more, at, p: Default::default() }
    }
    fn ok(&self, k: u8, a: usize) -> bool {
        self.at.get(&(k, a)).map_or(true, |h| *h != H::Decoy && !self.hidden.contains(h))
    }
    fn ty(&self, n: &str) -> bool {
        !self.hidden.contains(&H::Type(n.into()))
    }
}

macro_rules! def {
    ($t:ident) => {
        <MySchema<'s> as CoreSchema>::$t
    };
}

impl<'s> Warden for Pol<'s> {
    type SchemaDefinition = MySchema<'s>;
    type TypeDefinitionsForName<'a> = std::option::IntoIter<R<'a, def!(TypeDefinition)>> where Self: 'a;

    fn is_field_definition_visible(&self, x: &def!(FieldDefinition)) -> bool {
        self.ok(0, addr(x))
    }
    fn is_input_value_definition_visible(&self, x: &def!(InputValueDefinition)) -> bool {
        self.ok(1, addr(x))
    }
    fn is_enum_value_definition_visible(&self, x: &def!(EnumValueDefinition)) -> bool {
        self.ok(4, addr(x))
    }
    fn is_union_member_type_visible(&self, x: &def!(UnionMemberType)) -> bool {
        self.ok(3, addr(x))
    }
    fn is_interface_implementation_visible(&self, x: &def!(InterfaceImplementation)) -> bool {
        self.ok(2, addr(x))
    }
    fn is_directive_definition_visible(&self, x: &def!(DirectiveDefinition)) -> bool {
        !self.hidden.contains(&H::Dir(x.name().into()))
    }
    fn is_custom_scalar_type_definition_visible(&self, x: &def!(CustomScalarTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn is_enum_type_definition_visible(&self, x: &def!(EnumTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn is_input_object_type_definition_visible(&self, x: &def!(InputObjectTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn is_interface_type_definition_visible(&self, x: &def!(InterfaceTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn is_object_type_definition_visible(&self, x: &def!(ObjectTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn is_union_type_definition_visible(&self, x: &def!(UnionTypeDefinition)) -> bool {
        self.ty(x.name())
    }
    fn input_value_definition_default_value<'a>(&self, x: &vis::InputValueDefinition<'a, Self::SchemaDefinition, Self>) -> Option<&'a <def!(InputValueDefinition) as InputValueDefinition>::Value> {
        let inner = x.inner();
        match inner.directives().and_then(|l| l.iter().find(|d| Directive::name(*d) == "zIs")) {
            Some(d) if self.more.overrides => Directive::arguments(d).and_then(|a| a.iter().next()).map(|a| a.value()),
            _ => inner.default_value(),
        }
    }
    fn directive_arguments<'a>(&self, x: &vis::Directive<'a, Self::SchemaDefinition, Self>) -> Option<&'a <def!(Directive) as Directive<true>>::Arguments> {
        let a = Directive::arguments(x.inner());
        a.filter(|a| !(self.more.overrides && a.iter().any(|a| bluejay_core::Argument::name(a) == "zDrop")))
    }
    fn custom_scalar_definition_coerce_input<const C: bool>(&self, x: &def!(CustomScalarTypeDefinition), v: &impl bluejay_core::Value<C>) -> Result<(), std::borrow::Cow<'static, str>> {
        if self.more.scalars {
            return exec::other_opinion(v);
        }
        bluejay_core::definition::ScalarTypeDefinition::coerce_input(x, v)
    }
    fn type_definitions_for_name<'a>(&self, sd: &'a Self::SchemaDefinition, name: &str) -> Self::TypeDefinitionsForName<'a> {
        sd.get_type_definition(name).into_iter()
    }
}

// ---------------------------------------------------------------------------------- observing

/// look things up by name, in some order, before anything has been listed
pub fn poke<S: CoreSchema>(s: &mut Src, sd: &S, full: &View) {
    let names: Vec<&String> = full.types.keys().collect();
    for _ in 0..s.below(12) {
        match s.below(6) {
            0 => {
                let d: Vec<&String> = full.dirdefs.keys().collect();
                let _ = sd.get_directive_definition(s.pick(&d));
            }
            1 => {
                let _ = sd.type_definitions().count();
            }
            _ => {
                let n = *s.pick(&names);
                let Some(t) = sd.get_type_definition(n) else { continue };
                let deep = s.bool();
                match t {
                    R::Object(_) | R::Interface(_) | R::Union(_) => {
                        if let Some(Kind::Object { fields, .. } | Kind::Interface { fields, .. }) = full.types.get(n).map(|t| &t.kind) {
                            let f = s.pick(fields).name.clone();
                            if let Some(f) = t.fields_definition().and_then(|l| l.get(&f)) {
                                let _ = dump::field(f);
                            }
                        }
                        if let R::Interface(i) = t {
                            let _ = sd.get_interface_implementors(i).count();
                        }
                        if deep {
                            let _ = dump::typedef(t, true);
                        }
                    }
                    R::InputObject(i) => {
                        let _ = i.input_field_definitions().get("a");
                    }
                    _ => {}
                }
            }
        }
    }
}

/// nothing but `all` can be found by name
fn lookups<S: CoreSchema>(sd: &S, full: &View, all: &View, listed: &View) -> CaseResult {
    for n in full.types.keys() {
        let got = sd.get_type_definition(n);
        match (got, all.types.get(n)) {
            (Some(_), None) => return Err(format!("hidden type found: {n}")),
            (None, Some(_)) if listed.types.contains_key(n) => return Err(format!("visible type not found: {n}")),
            (Some(t), Some(w)) => {
                let g = dump::typedef(t, true).unwrap_or_else(|| w.clone());
                if g != *w {
                    return Err(format!("type found by name differs: got {g:?}, expected {w:?}"));
                }
                let before = &full.types[n].kind;
                let missing = |found: bool, m: &str| if found { Err(format!("hidden member found: {n}.{m}")) } else { Ok(()) };
                match (t, before, &w.kind) {
                    (R::Object(_) | R::Interface(_), Kind::Object { fields: b, .. } | Kind::Interface { fields: b, .. }, Kind::Object { fields: a, .. } | Kind::Interface { fields: a, .. }) => {
                        let l = t.fields_definition().ok_or("no fields")?;
                        for f in b {
                            match a.iter().find(|x| x.name == f.name) {
                                None => missing(l.get(&f.name).is_some() || l.contains_field(&f.name), &f.name)?,
                                Some(x) => {
                                    let g = l.get(&f.name).ok_or_else(|| format!("visible field not found: {n}.{}", f.name))?;
                                    for y in &f.args {
                                        let found = g.arguments_definition().and_then(|l| l.get(&y.name)).is_some();
                                        if found != x.args.iter().any(|z| z.name == y.name) {
                                            return Err(format!("argument lookup: {n}.{}({}) found: {found}", f.name, y.name));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    (R::Union(u), Kind::Union { members: b }, Kind::Union { members: a }) => {
                        for m in b {
                            let found = u.union_member_types().contains_type(m);
                            if found != a.contains(m) || u.union_member_types().get(m).is_some() != found {
                                return Err(format!("member lookup: {n} | {m} found: {found}"));
                            }
                        }
                    }
                    (R::InputObject(i), Kind::Input { fields: b }, Kind::Input { fields: a }) => {
                        for m in b {
                            let found = i.input_field_definitions().get(&m.name).is_some();
                            if found != a.iter().any(|x| x.name == m.name) {
                                return Err(format!("input field lookup: {n}.{} found: {found}", m.name));
                            }
                        }
                    }
                    _ => {}
                }
                if let (R::Interface(i), Some(w)) = (t, all.implementors.get(n)) {
                    let g: Vec<String> = sd.get_interface_implementors(i).map(|o| o.name().to_string()).collect();
                    if g != *w {
                        return Err(format!("implementors of {n}: got {g:?}, expected {w:?}"));
                    }
                }
            }
            _ => {}
        }
    }
    for n in full.dirdefs.keys() {
        match (sd.get_directive_definition(n), all.dirdefs.get(n)) {
            (Some(_), None) => return Err(format!("hidden directive found: @{n}")),
            (None, Some(_)) if listed.dirdefs.contains_key(n) => return Err(format!("visible directive not found: @{n}")),
            (Some(d), Some(w)) if dump::dirdef(d) != *w => return Err(format!("directive found by name differs: got {:?}, expected {w:?}", dump::dirdef(d))),
            _ => {}
        }
    }
    Ok(())
}

fn gen(s: &mut Src) -> SDoc {
    if s.bool() {
        loop {
            let d = super::schema::wild_sdoc(s);
            if super::schema::fields_unique(&d) && Schema::resolve(&d).is_ok() {
                return d;
            }
        }
    }
    let (applied, small, deprecated) = (s.chance(2, 3), s.bool(), s.bool());
    gen_schema::schema(s, SOpts { applied, small, deprecated, ..Default::default() })
}

fn c26(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = gen(s);
    let st = render::sdoc_text(&d);
    ctx.show("schema", &st);
    with_schema(&st, |sd| {
        let full = view(sd)?;
        let tame = s.bool();
        let h = policy(s, &full, tame);
        ctx.show("hidden", &format!("{h:?}"));
        ctx.nontrivial = !h.is_empty();
        let cache = vis::Cache::new(Pol::new(sd, h.clone()), sd);
        let restricted = match vis::SchemaDefinition::new(&cache) {
            Ok(r) => r,
            Err(e) if format!("{e:?}") == "QueryRootNotVisible" => {
                ctx.tag("query root hidden");
                return if prune(&full, &h, false).is_none() { Ok(()) } else { Err("query root: refused although visible".into()) };
            }
            Err(e) => return Err(format!("refused: {e:?}")),
        };
        let Some(all) = prune(&full, &h, false) else { return Err("query root: accepted although hidden".into()) };
        let want = prune(&full, &h, true).unwrap();
        if s.bool() {
            ctx.tag("looked up first");
            poke(s, &restricted, &full);
        }
        let first = s.bool();
        if first {
            lookups(&restricted, &full, &all, &want)?;
        }
        let got = view(&restricted)?;
        if let Some(x) = view::diff(&got, &want) {
            return Err(format!("restricted schema: {x}"));
        }
        if !first {
            lookups(&restricted, &full, &all, &want)?;
        }
        ctx.tag_if(want.types.len() < all.types.len(), "unreachable types");
        ctx.tag_if(want.dirdefs.len() < all.dirdefs.len(), "unreachable directives");
        ctx.tag_if(full.implementors.iter().any(|(k, v)| want.implementors.get(k).is_some_and(|w| w.len() < v.len())), "implementors hidden");
        Ok(())
    })
}

// ---------------------------------------------------------------------------------- C27

type Found = (Vec<crate::valid::Key>, Vec<String>);

fn judge<S: CoreSchema>(doc: &ExecutableDocument, t: &str, sd: &S) -> Found {
    let cache = Cache::new(doc, sd);
    let errs: Vec<_> = BuiltinRulesValidator::validate(doc, sd, &cache).collect();
    let mut keys: Vec<_> = errs.iter().map(exec::key).collect();
    keys.sort();
    let g = bluejay_parser::Error::into_graphql_errors(t, errs.into_iter().map(bluejay_parser::Error::from).collect::<Vec<_>>());
    let mut m: Vec<String> = g.into_iter().map(|e| format!("{} {:?}", e.message, e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>())).collect();
    m.sort();
    (keys, m)
}

fn analyses<S: CoreSchema>(doc: &ExecutableDocument, sd: &S, name: Option<&str>, vars: &serde_json::Map<String, serde_json::Value>) -> String {
    let mut dep = an::deprecated(doc, sd, name, vars);
    if let Ok(l) = &mut dep {
        l.sort();
    }
    let mut sizes = an::sizes(doc, sd, name, vars, 0);
    if let Ok(l) = &mut sizes {
        l.sort();
    }
    format!("depth {:?}\ncost {:?} {:?}\nsizes {:?}\ndeprecated {:?}\nvariables {:?}", an::depth(doc, sd, name, vars), an::cost(doc, sd, name, vars, Tariff::Default), an::cost(doc, sd, name, vars, Tariff::Relay), sizes, dep, an::variables(doc, sd, name, vars))
}

fn schema_errors<S: CoreSchema>(sd: &S) -> Vec<String> {
    use bluejay_validator::definition::{BuiltinRulesValidator, Error};
    let mut l: Vec<String> = BuiltinRulesValidator::validate(sd)
        .map(|e| match e {
            Error::NonUniqueInputValueDefinitionNames { name, input_value_definitions } => format!("field {name} {}", input_value_definitions.len()),
            Error::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions } => format!("value {name} {}", enum_value_definitions.len()),
            Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition, circular_references } => {
                format!("circular {} {}", bluejay_core::definition::InputObjectTypeDefinition::name(input_object_type_definition), circular_references.len())
            }
        })
        .collect();
    l.sort();
    l
}

fn c27(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (applied, small, deprecated, cost) = (s.chance(1, 2), s.bool(), s.bool(), s.bool());
    let d = gen_schema::schema(s, SOpts { applied, small, deprecated, cost, ..Default::default() });
    let st = render::sdoc_text(&d);
    let m = Schema::resolve(&d).expect("generated schema");
    ctx.show("schema", &st);
    let none = s.chance(1, 3);
    with_schema(&st, |sd| {
        let full = view(sd)?;
        let h = if none { Hidden::new() } else { policy(s, &full, true) };
        if prune(&full, &h, false).is_none() {
            ctx.tag("nothing left");
            return Ok(());
        }
        let plain_doc = delete(&d, &full, &h, None);
        let plain_text = render::sdoc_text(&plain_doc);
        ctx.show("hidden", &format!("{h:?}"));
        // a document for one of the two schemas
        let pm = Schema::resolve(&plain_doc).map_err(|e| format!("harness: {e}"))?;
        let of = if s.chance(2, 3) { &pm } else { &m };
        let collide = s.chance(1, 4);
        let mut x = gen_doc::doc(s, of, DOpts { collide, ..Default::default() });
        for _ in 0..s.weighted(&[3, 3, 1]) {
            let g = *s.pick(&["C11", "C12", "C13", "C14", "C15", "C16", "C17"]);
            gen_doc::corrupt(&mut x, s, of, g);
        }
        if s.bool() {
            an::conditions(s, &mut x);
        }
        exec::tidy(&mut x);
        let t = render::doc_text(&x);
        ctx.show("document", &t);
        ctx.nontrivial = exec::size(&x) >= 2 && (none || !h.is_empty());
        let doc = parse_doc(&t)?;
        let at = s.below(x.ops.len().max(1));
        let (name, vars) = match x.ops.get(at) {
            Some(o) => (o.name.clone(), an::vars_for(s, of, o)),
            None => (None, Default::default()),
        };
        let compare = |ctx: &mut Ctx, what: &str, a: Found, b: Found, x: Option<String>, y: Option<String>| -> CaseResult {
            ctx.tag(if a.0.is_empty() { "valid" } else { "invalid" });
            if a.0 != b.0 {
                return Err(format!("{what}: errors differ: {:?}, expected {:?}", b.0, a.0));
            }
            if a.1 != b.1 {
                return Err(format!("{what}: messages differ: {:?}, expected {:?}", b.1, a.1));
            }
            if x != y {
                return Err(format!("{what}: analyses differ:\n{}\nexpected\n{}", y.unwrap_or_default(), x.unwrap_or_default()));
            }
            Ok(())
        };
        if none {
            ctx.tag("nothing hidden");
            let cache = vis::Cache::new(NullWarden::default(), sd);
            let r = vis::SchemaDefinition::new(&cache).map_err(|e| format!("refused: {e:?}"))?;
            let a = judge(&doc, &t, sd);
            let run = a.0.iter().all(|k| k.0 == "C15" || k.0 == "C12");
            let p = run.then(|| analyses(&doc, sd, name.as_deref(), &vars));
            let q = run.then(|| analyses(&doc, &r, name.as_deref(), &vars));
            compare(ctx, "nothing hidden", a, judge(&doc, &t, &r), p, q)?;
            if schema_errors(sd) != schema_errors(&r) {
                return Err("nothing hidden: schema errors differ".into());
            }
            lookups(&r, &full, &full, &full)?;
            return Ok(());
        }
        ctx.show("what is left", &plain_text);
        let cache = vis::Cache::new(Pol::new(sd, h.clone()), sd);
        let r = vis::SchemaDefinition::new(&cache).map_err(|e| format!("refused: {e:?}"))?;
        if s.bool() {
            poke(s, &r, &full);
        }
        with_schema(&plain_text, |psd| {
            let a = judge(&doc, &t, psd);
            let run = a.0.iter().all(|k| k.0 == "C15" || k.0 == "C12");
            let p = run.then(|| analyses(&doc, psd, name.as_deref(), &vars));
            let q = run.then(|| analyses(&doc, &r, name.as_deref(), &vars));
            ctx.tag_if(run, "analyses compared");
            compare(ctx, "restricted", a, judge(&doc, &t, &r), p, q)
        })?;
        // printing
        let (ts, ds) = reachable(&prune(&full, &h, false).unwrap());
        let small = render::sdoc_text(&delete(&d, &full, &h, Some((&ts, &ds))));
        let printed = SchemaDefinitionPrinter::to_string(&r);
        ctx.show("printed", &printed);
        with_schema(&small, |want| {
            let v = view(want)?;
            let p = SchemaDefinitionPrinter::to_string(want);
            with_schema(&printed, |got| {
                let g = view(got)?;
                if let Some(x) = view::diff(&g, &v) {
                    return Err(format!("printed restricted schema: {x}"));
                }
                Ok(())
            })?;
            // an unreachable type of that name may call for an explicit schema definition
            let spare = |n: &str| full.types.contains_key(n) && !v.types.contains_key(n);
            if p != printed && !spare("Mutation") && !spare("Subscription") {
                return Err(format!("printed restricted schema differs from\n{p}"));
            }
            if schema_errors(want) != schema_errors(&r) {
                return Err("restricted: schema errors differ".into());
            }
            Ok(())
        })
    })
}

// ---------------------------------------------------------------------------------- C32

/// inserts versions that are not shown into a list, at any place
fn weave<T: Clone>(s: &mut Src, l: &mut Vec<T>, path: &str, decoys: &mut BTreeSet<String>, alter: &mut dyn FnMut(&mut Src, &T) -> T) -> Vec<bool> {
    let mut out: Vec<(T, bool)> = l.iter().map(|x| (x.clone(), false)).collect();
    for x in l.iter() {
        for _ in 0..s.weighted(&[4, 2, 1]) {
            let y = alter(s, x);
            let at = s.below(out.len() + 1);
            out.insert(at, (y, true));
        }
    }
    decoys.extend(out.iter().enumerate().filter(|(_, x)| x.1).map(|(i, _)| format!("{path}/{i}")));
    let shown = out.iter().map(|x| !x.1).collect();
    *l = out.into_iter().map(|x| x.0).collect();
    shown
}

/// the same schema with versions that are not shown, defaults kept elsewhere and arguments to be dropped
fn dress(s: &mut Src, d: &SDoc, decoys: &mut BTreeSet<String>) -> SDoc {
    let m = Schema::resolve(d).expect("generated schema");
    let names: Vec<String> = m.types.keys().cloned().collect();
    let ins: Vec<Ty> = names.iter().filter(|n| m.is_input(n)).map(|n| Ty::named(n)).collect();
    let outs: Vec<Ty> = names.iter().filter(|n| !matches!(m.types[*n].kind, Kind::Input { .. })).map(|n| Ty::named(n)).collect();
    let ty = |s: &mut Src, l: &[Ty]| {
        let t = s.pick(l).clone();
        let t = if s.chance(1, 3) { t.list() } else { t };
        if s.bool() { t.req() } else { t }
    };
    let odd = |s: &mut Src| match s.below(4) {
        0 => Val::Null,
        1 => Val::Int(7),
        2 => Val::Enum("zz".into()),
        _ => Val::Obj(vec![("z".into(), Val::List(vec![Val::Bool(true)]))]),
    };
    fn dirs(s: &mut Src, l: &mut [Dir]) {
        for d in l {
            if d.args.is_empty() && s.chance(2, 3) {
                d.args = vec![("zDrop".into(), Val::Bool(true)), ("reason".into(), Val::Str("not this".into())), ("weight".into(), Val::Str("9".into())), ("if".into(), Val::Bool(false))];
                s.shuffle(&mut d.args);
            }
        }
    }
    let input = |s: &mut Src, i: &mut InputVal| {
        dirs(s, &mut i.dirs);
        if s.chance(1, 3) {
            i.dirs.push(Dir { name: "zIs".into(), args: i.default.take().map(|v| ("value".to_string(), v)).into_iter().collect() });
            i.default = s.chance(2, 3).then(|| odd(s));
        }
    };
    let inputs = |s: &mut Src, l: &mut Vec<InputVal>, path: &str, decoys: &mut BTreeSet<String>| {
        l.iter_mut().for_each(|i| input(s, i));
        weave(s, l, path, decoys, &mut |s, i| {
            let mut i = i.clone();
            i.ty = ty(s, &ins);
            i.default = s.bool().then(|| odd(s));
            i
        });
    };
    let fields = |s: &mut Src, n: &str, l: &mut Vec<FieldDef>, decoys: &mut BTreeSet<String>| {
        l.iter_mut().for_each(|f| dirs(s, &mut f.dirs));
        let shown = weave(s, l, n, decoys, &mut |s, f| {
            let mut f = f.clone();
            if s.chance(3, 4) {
                f.ty = ty(s, &outs);
            }
            match s.below(3) {
                0 => f.args.clear(),
                1 => f.args.push(InputVal { desc: None, name: "z".into(), ty: ty(s, &ins), default: None, dirs: vec![] }),
                _ => {}
            }
            f
        });
        for (i, f) in l.iter_mut().enumerate() {
            if shown[i] {
                inputs(s, &mut f.args, &format!("{n}/{i}"), decoys);
            }
        }
    };
    let mut d = d.clone();
    for def in &mut d.defs {
        match def {
            SDef::Schema(x) => dirs(s, &mut x.dirs),
            SDef::Directive(x) => {
                let p = format!("@{}", x.name);
                inputs(s, &mut x.args, &p, decoys);
            }
            SDef::Type(t) => {
                dirs(s, &mut t.dirs);
                let n = t.name.clone();
                match &mut t.kind {
                    Kind::Object { fields: l, .. } | Kind::Interface { fields: l, .. } => fields(s, &n, l, decoys),
                    Kind::Union { members } => {
                        weave(s, members, &n, decoys, &mut |_, m| m.clone());
                    }
                    Kind::Enum { values } => {
                        values.iter_mut().for_each(|v| dirs(s, &mut v.dirs));
                        weave(s, values, &n, decoys, &mut |s, v| {
                            let mut v = v.clone();
                            v.desc = s.bool().then(|| "not this".into());
                            v.dirs.clear();
                            v
                        });
                    }
                    Kind::Input { fields } => inputs(s, fields, &n, decoys),
                    Kind::Scalar => {}
                }
            }
        }
    }
    let locs = ["ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION"].map(String::from).to_vec();
    let arg = InputVal { desc: None, name: "value".into(), ty: Ty::named("String"), default: None, dirs: vec![] };
    d.defs.push(SDef::Directive(DirDef { desc: None, name: "zIs".into(), args: vec![arg], repeatable: false, locs }));
    d
}

/// applied directives lose their arguments here and there
fn bare(s: &mut Src, d: &mut SDoc) {
    let mut strip = |l: &mut Vec<Dir>| {
        for d in l {
            if s.chance(1, 3) {
                d.args.clear();
            }
        }
    };
    for def in &mut d.defs {
        match def {
            SDef::Schema(x) => strip(&mut x.dirs),
            SDef::Directive(x) => x.args.iter_mut().for_each(|a| strip(&mut a.dirs)),
            SDef::Type(t) => {
                strip(&mut t.dirs);
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                        for f in fields {
                            strip(&mut f.dirs);
                            f.args.iter_mut().for_each(|a| strip(&mut a.dirs));
                        }
                    }
                    Kind::Enum { values } => values.iter_mut().for_each(|a| strip(&mut a.dirs)),
                    Kind::Input { fields } => fields.iter_mut().for_each(|a| strip(&mut a.dirs)),
                    _ => {}
                }
            }
        }
    }
}

fn c32(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (applied, small, deprecated, cost) = (s.chance(2, 3), s.chance(2, 3), s.bool(), s.bool());
    let mut d = gen_schema::schema(s, SOpts { applied, small, deprecated, cost, ..Default::default() });
    bare(s, &mut d);
    let mut more = More { overrides: true, scalars: s.bool(), ..Default::default() };
    let dressed = dress(s, &d, &mut more.decoys);
    let scalars = more.scalars;
    let (plain_full, text) = (render::sdoc_text(&d), render::sdoc_text(&dressed));
    ctx.show("schema", &text);
    let full = with_schema(&plain_full, |sd| view(sd))?;
    let mut h = if s.bool() { Hidden::new() } else { policy(s, &full, true) };
    if prune(&full, &h, false).is_none() {
        return Ok(());
    }
    let plain_doc = delete(&d, &full, &h, None);
    let plain = render::sdoc_text(&plain_doc);
    let (all, want) = (prune(&full, &h, false).unwrap(), prune(&full, &h, true).unwrap());
    let small_plain = {
        let (ts, ds) = reachable(&all);
        render::sdoc_text(&delete(&d, &full, &h, Some((&ts, &ds))))
    };
    h.insert(H::Dir("zIs".into()));
    ctx.show("as shown", &plain);
    ctx.show("custom scalars coerced otherwise", &scalars.to_string());
    ctx.nontrivial = more.decoys.len() >= 2;
    ctx.tag_if(h.len() > 1, "with hidden elements");
    ctx.tag_if(text.contains("@zIs"), "default values overridden");
    ctx.tag_if(text.contains("zDrop"), "directive arguments dropped");
    ctx.tag_if(scalars, "custom scalars coerced otherwise");
    let pm = Schema::resolve(&plain_doc).map_err(|e| format!("harness: {e}"))?;
    let mut x = gen_doc::doc(s, &pm, DOpts::default());
    for _ in 0..s.weighted(&[3, 2, 1]) {
        let g = *s.pick(&["C11", "C12", "C12", "C13", "C15", "C16"]);
        gen_doc::corrupt(&mut x, s, &pm, g);
    }
    exec::tidy(&mut x);
    let t = render::doc_text(&x);
    ctx.show("document", &t);
    let doc = parse_doc(&t)?;
    let at = s.below(x.ops.len().max(1));
    let (name, vars) = match x.ops.get(at) {
        Some(o) => (o.name.clone(), an::vars_for(s, &pm, o)),
        None => (None, Default::default()),
    };
    with_schema(&text, |sd| {
        let cache = vis::Cache::new(Pol::with(sd, h.clone(), more), sd);
        let r = vis::SchemaDefinition::new(&cache).map_err(|e| format!("refused: {e:?}"))?;
        if s.bool() {
            ctx.tag("looked up first");
            poke(s, &r, &full);
        }
        let first = s.below(3);
        if first == 0 {
            lookups(&r, &full, &all, &want)?;
        }
        if first < 2 {
            if let Some(x) = view::diff(&view(&r)?, &want) {
                return Err(format!("schema as shown: {x}"));
            }
        }
        fn both<A: CoreSchema, B: CoreSchema>(doc: &ExecutableDocument, t: &str, a: &A, b: &B, name: Option<&str>, vars: &serde_json::Map<String, serde_json::Value>, ctx: &mut Ctx) -> CaseResult {
            let (x, y) = (judge(doc, t, a), judge(doc, t, b));
            ctx.tag(if x.0.is_empty() { "valid" } else { "invalid" });
            if x != y {
                return Err(format!("errors differ: {y:?}, expected {x:?}"));
            }
            if x.0.iter().all(|k| k.0 == "C15" || k.0 == "C12") {
                ctx.tag("analyses compared");
                let (x, y) = (analyses(doc, a, name, vars), analyses(doc, b, name, vars));
                if x != y {
                    return Err(format!("analyses differ:\n{y}\nexpected\n{x}"));
                }
            }
            Ok(())
        }
        if scalars {
            exec::with_schema_in::<exec::OtherCtx, ()>(&plain, |p| both(&doc, &t, p, &r, name.as_deref(), &vars, ctx))?;
        } else {
            with_schema(&plain, |p| both(&doc, &t, p, &r, name.as_deref(), &vars, ctx))?;
        }
        if first == 2 {
            if let Some(x) = view::diff(&view(&r)?, &want) {
                return Err(format!("schema as shown: {x}"));
            }
        }
        lookups(&r, &full, &all, &want)?;
        if r.get_directive_definition("zIs").is_some() {
            return Err("hidden directive found: @zIs".into());
        }
        let printed = SchemaDefinitionPrinter::to_string(&r);
        ctx.show("printed", &printed);
        with_schema(&small_plain, |want| {
            let v = view(want)?;
            with_schema(&printed, |got| match view::diff(&view(got)?, &v) {
                Some(x) => Err(format!("printed schema: {x}")),
                None => Ok(()),
            })?;
            if schema_errors(want) != schema_errors(&r) {
                return Err("schema errors differ".into());
            }
            Ok(())
        })
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C26", quick: 150_000, thorough: 2_000_000, rule: "the policy hides at least one element; distinct = distinct (schema, policy)", case: c26, assumptions: &["policies decide per element, by identity, and do not change over time", "a visible type that no root leads to may be found by name"] },
        Prop { id: "C32", quick: 50_000, thorough: 1_000_000, rule: "at least two versions are not shown; distinct = distinct (schema, policy, document)", case: c32, assumptions: &["of the definitions of one name in one place at most one is shown", "type and directive definitions have one version (the parser accepts no more)", "policies leave no visible type without visible members"] },
        Prop { id: "C27", quick: 60_000, thorough: 2_000_000, rule: "the document selects at least two things, and the policy hides something unless the case is about hiding nothing; distinct = distinct (schema, policy, document)", case: c27, assumptions: &["policies leave no visible type without visible members, since SDL cannot express that", "built-in elements stay visible"] },
    ]
}
