//! Everything a user can observe of a schema through the core traits.
use crate::ast::*;
use crate::dump;
use crate::schema::Schema;
use bluejay_core::definition::{self as d, prelude::*, TypeDefinitionReference as R};
use bluejay_core::{AsIter, Directive as _};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub roots: BTreeMap<OpKind, String>,
    /// all types listed, meta fields included
    pub types: BTreeMap<String, TypeDef>,
    pub union_fields: BTreeMap<String, Vec<FieldDef>>,
    pub builtin_types: BTreeSet<String>,
    /// fields flagged as builtin
    pub builtin_fields: BTreeSet<(String, String)>,
    pub dirdefs: BTreeMap<String, DirDef>,
    pub builtin_dirs: BTreeSet<String>,
    /// object types found by following each interface
    pub implementors: BTreeMap<String, Vec<String>>,
}

pub fn kind_of<T: d::TypeDefinition>(t: &R<'_, T>) -> &'static str {
    match t {
        R::BuiltinScalar(_) => "scalar!",
        R::CustomScalar(_) => "scalar",
        R::Object(_) => "object",
        R::Interface(_) => "interface",
        R::Union(_) => "union",
        R::Enum(_) => "enum",
        R::InputObject(_) => "input",
    }
}

fn shape(t: &Ty) -> String {
    t.show()
}

fn out_ty<S: d::SchemaDefinition>(s: &S, t: &S::OutputType, at: &str) -> Result<Ty, String> {
    fn go<S: d::SchemaDefinition>(s: &S, t: &S::OutputType) -> Ty {
        match t.as_ref(s) {
            d::OutputTypeReference::Base(b, r) => Ty::Named(b.name().to_string(), r),
            d::OutputTypeReference::List(l, r) => Ty::List(Box::new(go(s, l)), r),
        }
    }
    let shallow = dump::oty(t);
    let deep = go(s, t);
    if shallow != deep || t.display_name() != shallow.show() || t.is_required() != shallow.is_req() || t.base_name() != shallow.base() || t.base(s).name() != shallow.base() {
        return Err(format!("output type: {at}: declared {} resolves to {}", shape(&shallow), shape(&deep)));
    }
    let b = t.base(s);
    let leaf = matches!(b, d::BaseOutputTypeReference::BuiltinScalar(_) | d::BaseOutputTypeReference::CustomScalar(_) | d::BaseOutputTypeReference::Enum(_));
    if (b.is_scalar_or_enum(), b.is_composite()) != (leaf, !leaf) {
        return Err(format!("kind of output type: {at}"));
    }
    if s.get_type_definition(b.name()).map(|t| kind_of(&t)) != Some(kind_of(&R::<S::TypeDefinition>::from(b))) {
        return Err(format!("output type: {at}: {} is another type than the one of that name", b.name()));
    }
    Ok(shallow)
}

fn in_ty<S: d::SchemaDefinition>(s: &S, t: &S::InputType, at: &str) -> Result<Ty, String> {
    fn go<S: d::SchemaDefinition>(s: &S, t: &S::InputType) -> Ty {
        match t.as_ref(s) {
            d::InputTypeReference::Base(b, r) => Ty::Named(b.name().to_string(), r),
            d::InputTypeReference::List(l, r) => Ty::List(Box::new(go(s, l)), r),
        }
    }
    let shallow = dump::ity(t);
    let deep = go(s, t);
    if shallow != deep || t.display_name() != shallow.show() || t.is_required() != shallow.is_req() || t.base(s).name() != shallow.base() {
        return Err(format!("input type: {at}: declared {} resolves to {}", shape(&shallow), shape(&deep)));
    }
    let b = t.base(s);
    if s.get_type_definition(b.name()).map(|t| kind_of(&t)) != Some(kind_of(&R::<S::TypeDefinition>::from(b))) {
        return Err(format!("input type: {at}: {} is another type than the one of that name", b.name()));
    }
    let r = t.as_ref(s);
    if r.is_required() != shallow.is_req() || r.unwrap_nullable().is_required() {
        return Err(format!("nullability of input type: {at}"));
    }
    Ok(shallow)
}

fn dirs<S: d::SchemaDefinition>(s: &S, ds: Option<&<S as d::SchemaDefinition>::Directives>, at: &str, hidden_ok: bool) -> Result<(), String> {
    for x in ds.into_iter().flat_map(|x| x.iter()) {
        let n = x.definition(s).name();
        if n != x.name() {
            return Err(format!("directive definition: {at}: @{} resolves to @{n}", x.name()));
        }
        if !hidden_ok && s.get_directive_definition(n).is_none() {
            return Err(format!("directive lookup: {at}: @{n} is applied but cannot be looked up"));
        }
    }
    Ok(())
}

fn input_vals<'a, S: d::SchemaDefinition + 'a>(s: &'a S, l: impl Iterator<Item = &'a S::InputValueDefinition>, at: &str) -> Result<(), String> {
    for i in l {
        let at = format!("{at}.{}", i.name());
        in_ty(s, i.r#type(), &at)?;
        dirs(s, i.directives(), &at, false)?;
        let req = dump::ity(i.r#type()).is_req() && i.default_value().is_none();
        if i.is_required() != req {
            return Err(format!("is_required: {at}"));
        }
    }
    Ok(())
}

fn fields<S: d::SchemaDefinition>(s: &S, v: &mut View, owner: &str, f: &S::FieldsDefinition) -> Result<(), String> {
    for f in f.iter() {
        let at = format!("{owner}.{}", f.name());
        out_ty(s, f.r#type(), &at)?;
        dirs(s, f.directives(), &at, false)?;
        input_vals(s, f.arguments_definition().into_iter().flat_map(|a| a.iter()), &at)?;
        for (a, x) in f.arguments_definition().into_iter().flat_map(|l| l.iter().map(move |x| (l, x))) {
            if a.get(x.name()).map(dump::input_val) != a.iter().find(|y| y.name() == x.name()).map(dump::input_val) {
                return Err(format!("argument lookup: {at}({})", x.name()));
            }
        }
        if f.arguments_definition().is_some_and(|a| a.get("noSuchArgumentAnywhere").is_some()) {
            return Err(format!("argument lookup: {at} has an argument that is not there"));
        }
        if f.is_builtin() {
            v.builtin_fields.insert((owner.to_string(), f.name().to_string()));
        }
    }
    // lookup by name agrees with iteration
    for x in f.iter() {
        let g = f.iter().find(|y| y.name() == x.name());
        let l = f.get(x.name());
        match (g, l) {
            (Some(a), Some(b)) if dump::field(a) == dump::field(b) => {}
            _ => return Err(format!("field lookup: {owner}.{}", x.name())),
        }
    }
    if f.get("noSuchFieldAnywhere").is_some() || f.contains_field("noSuchFieldAnywhere") || f.iter().any(|x| !f.contains_field(x.name())) || f.is_empty() != (f.len() == 0) || f.len() != f.iter().count() {
        return Err(format!("field lookup: {owner} has a field that is not there"));
    }
    Ok(())
}

fn ifaces<S: d::SchemaDefinition>(s: &S, i: Option<&S::InterfaceImplementations>, at: &str) -> Result<(), String> {
    for i in i.into_iter().flat_map(|i| i.iter()) {
        if i.interface(s).name() != i.name() {
            return Err(format!("interface: {at} implements {} which resolves to {}", i.name(), i.interface(s).name()));
        }
    }
    Ok(())
}

pub fn view<S: d::SchemaDefinition>(s: &S) -> Result<View, String> {
    let mut v = View { desc: s.description().map(|s| s.to_string()), dirs: dump::dirs::<true, _>(d::HasDirectives::directives(s)), ..Default::default() };
    dirs(s, d::HasDirectives::directives(s), "schema", false)?;
    v.roots.insert(OpKind::Query, s.query().name().to_string());
    if let Some(m) = s.mutation() {
        v.roots.insert(OpKind::Mutation, m.name().to_string());
    }
    if let Some(m) = s.subscription() {
        v.roots.insert(OpKind::Subscription, m.name().to_string());
    }
    for t in s.type_definitions() {
        let n = t.name().to_string();
        let def = dump::typedef(t, true).unwrap_or(TypeDef { desc: t.description().map(|s| s.to_string()), name: n.clone(), dirs: vec![], kind: Kind::Scalar });
        if t.description().map(|s| s.to_string()) != def.desc {
            return Err(format!("description: of {n}"));
        }
        if t.is_builtin() {
            v.builtin_types.insert(n.clone());
        }
        let g = s.get_type_definition(&n).ok_or_else(|| format!("type lookup: {n} is listed but not found"))?;
        if kind_of(&g) != kind_of(&t) || g.name() != n || dump::typedef(g, true) != dump::typedef(t, true) {
            return Err(format!("type lookup: {n} is listed with one definition and found with another"));
        }
        let (kind, composite, abstr, input) = match t {
            R::BuiltinScalar(_) | R::CustomScalar(_) => ("SCALAR", false, false, true),
            R::Enum(_) => ("ENUM", false, false, true),
            R::InputObject(_) => ("INPUT_OBJECT", false, false, true),
            R::Object(_) => ("OBJECT", true, false, false),
            R::Interface(_) => ("INTERFACE", true, true, false),
            R::Union(_) => ("UNION", true, true, false),
        };
        if (t.kind(), t.is_composite(), t.is_abstract(), t.is_input()) != (kind, composite, abstr, input) {
            return Err(format!("kind of type: {n} says {} composite {} abstract {} input {}", t.kind(), t.is_composite(), t.is_abstract(), t.is_input()));
        }
        if t.fields_definition().is_some() != composite {
            return Err(format!("fields of type: {n}"));
        }
        if dump::dirs::<true, _>(t.directives()) != def.dirs {
            return Err(format!("directives of type: {n}"));
        }
        if d::BaseInputTypeReference::<S::InputType>::try_from(t).map(|b| b.name() == n) != if input { Ok(true) } else { Err(()) }
            || d::BaseOutputTypeReference::<S::OutputType>::try_from(t).map(|b| b.name() == n) != if kind == "INPUT_OBJECT" { Err(()) } else { Ok(true) }
        {
            return Err(format!("type as input or output: {n}"));
        }
        match t {
            R::BuiltinScalar(_) => {}
            R::CustomScalar(x) => dirs(s, x.directives(), &n, false)?,
            R::Object(x) => {
                dirs(s, x.directives(), &n, false)?;
                fields(s, &mut v, &n, x.fields_definition())?;
                ifaces(s, x.interface_implementations(), &n)?;
            }
            R::Interface(x) => {
                dirs(s, x.directives(), &n, false)?;
                fields(s, &mut v, &n, x.fields_definition())?;
                ifaces(s, x.interface_implementations(), &n)?;
                v.implementors.insert(n.clone(), s.get_interface_implementors(x).map(|o| o.name().to_string()).collect());
            }
            R::Union(x) => {
                dirs(s, x.directives(), &n, false)?;
                fields(s, &mut v, &n, x.fields_definition())?;
                v.union_fields.insert(n.clone(), dump::fields(x.fields_definition(), true));
                for m in x.union_member_types().iter() {
                    if !x.union_member_types().contains_type(m.name()) || x.union_member_types().get(m.name()).map(|m| m.name()) != Some(m.name()) {
                        return Err(format!("union member lookup: {n} | {}", m.name()));
                    }
                    if m.member_type(s).name() != m.name() {
                        return Err(format!("union member: {n} | {} resolves to {}", m.name(), m.member_type(s).name()));
                    }
                }
            }
            R::Enum(x) => {
                dirs(s, x.directives(), &n, false)?;
                for e in x.enum_value_definitions().iter() {
                    dirs(s, e.directives(), &n, false)?;
                }
            }
            R::InputObject(x) => {
                dirs(s, x.directives(), &n, false)?;
                input_vals(s, x.input_field_definitions().iter(), &n)?;
                for f in x.input_field_definitions().iter() {
                    if x.input_field_definitions().get(f.name()).map(dump::input_val) != x.input_field_definitions().iter().find(|y| y.name() == f.name()).map(dump::input_val) {
                        return Err(format!("input field lookup: {n}.{}", f.name()));
                    }
                }
            }
        }
        if v.types.insert(n.clone(), def).is_some() {
            return Err(format!("type listed twice: {n}"));
        }
    }
    for x in s.directive_definitions() {
        let n = x.name().to_string();
        input_vals(s, x.arguments_definition().into_iter().flat_map(|a| a.iter()), &format!("@{n}"))?;
        match s.get_directive_definition(&n) {
            Some(y) if dump::dirdef(y) == dump::dirdef(x) => {}
            _ => return Err(format!("directive lookup: @{n} is listed but not found")),
        }
        if x.is_builtin() {
            v.builtin_dirs.insert(n.clone());
        }
        if v.dirdefs.insert(n.clone(), dump::dirdef(x)).is_some() {
            return Err(format!("directive listed twice: {n}"));
        }
    }
    if s.get_type_definition("NoSuchTypeAnywhere").is_some() || s.get_type_definition("").is_some() {
        return Err("type lookup: finds a type that is not there".into());
    }
    if s.get_directive_definition("noSuchDirectiveAnywhere").is_some() {
        return Err("directive lookup: finds a directive that is not there".into());
    }
    Ok(v)
}

/// the same observations, computed from the model
pub fn model_view(m: &Schema) -> View {
    let mut v = View { desc: m.desc.clone(), dirs: m.schema_dirs.clone(), roots: m.roots.clone(), ..Default::default() };
    for (n, t) in &m.types {
        let mut t = t.clone();
        match &mut t.kind {
            Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                let all = m.fields[n].clone();
                for f in &all {
                    if ["__typename", "__schema", "__type"].contains(&f.name.as_str()) {
                        v.builtin_fields.insert((n.clone(), f.name.clone()));
                    }
                }
                *fields = all;
            }
            Kind::Union { .. } => {
                v.builtin_fields.insert((n.clone(), "__typename".into()));
                v.union_fields.insert(n.clone(), m.fields[n].clone());
            }
            _ => {}
        }
        if let Kind::Interface { .. } = t.kind {
            v.implementors.insert(n.clone(), m.possible(n).into_iter().collect());
        }
        if !m.user_types.contains(n) {
            v.builtin_types.insert(n.clone());
        }
        v.types.insert(n.clone(), t);
    }
    for (n, d) in &m.dirs {
        v.dirdefs.insert(n.clone(), d.clone());
        if !m.user_dirs.contains(n) {
            v.builtin_dirs.insert(n.clone());
        }
    }
    v
}

/// first difference, for messages
pub fn diff(got: &View, want: &View) -> Option<String> {
    macro_rules! cmp {
        ($f:ident) => {
            if got.$f != want.$f {
                return Some(format!("{}: got {:?}, expected {:?}", stringify!($f), got.$f, want.$f));
            }
        };
    }
    macro_rules! cmpmap {
        ($f:ident) => {
            for (k, w) in &want.$f {
                match got.$f.get(k) {
                    None => return Some(format!("{} {k}: missing", stringify!($f))),
                    Some(g) if g != w => return Some(format!("{} {k}: got {g:?}, expected {w:?}", stringify!($f))),
                    _ => {}
                }
            }
            if let Some(k) = got.$f.keys().find(|k| !want.$f.contains_key(*k)) {
                return Some(format!("{} {k}: unexpected", stringify!($f)));
            }
        };
    }
    cmp!(desc);
    cmp!(dirs);
    cmp!(roots);
    cmpmap!(types);
    cmpmap!(union_fields);
    cmp!(builtin_types);
    cmp!(builtin_fields);
    cmpmap!(dirdefs);
    cmp!(builtin_dirs);
    cmpmap!(implementors);
    None
}
