//! C11-C18: validation of executable documents.
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::gen_schema::{self, SOpts};
use crate::render;
use crate::schema::Schema;
use crate::src::Src;
use crate::tangle;
use crate::valid::{self, Key, Keys};
use bluejay_core::definition::{DirectiveDefinition, FieldDefinition, InputType, InputValueDefinition, OutputType, SchemaDefinition as CoreSchema};
use bluejay_core::executable::{OperationDefinition as _};
use bluejay_core::{Argument, Value};
use bluejay_parser::ast::definition::{Context, CustomScalarTypeDefinition, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document::{ArgumentError, BuiltinRulesValidator, DirectiveError, Error};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::Error as CErr;
use std::borrow::Cow;

#[derive(Debug)]
pub struct MyCtx;
impl Context for MyCtx {
    fn coerce_custom_scalar_input<const C: bool>(_: &CustomScalarTypeDefinition<Self>, v: &impl Value<C>) -> Result<(), Cow<'static, str>> {
        use bluejay_core::ValueReference as R;
        match v.as_ref() {
            R::Boolean(_) => Err("no booleans".into()),
            R::String(s) if s.starts_with("bad") => Err("bad".into()),
            _ => Ok(()),
        }
    }
}

/// another opinion about custom scalars
#[derive(Debug)]
pub struct OtherCtx;
pub fn other_opinion<const C: bool>(v: &impl Value<C>) -> Result<(), Cow<'static, str>> {
    use bluejay_core::ValueReference as R;
    match v.as_ref() {
        R::Integer(_) | R::List(_) => Err("no integers".into()),
        R::String(s) if s.len() == 1 => Err("short".into()),
        _ => Ok(()),
    }
}
impl Context for OtherCtx {
    fn coerce_custom_scalar_input<const C: bool>(_: &CustomScalarTypeDefinition<Self>, v: &impl Value<C>) -> Result<(), Cow<'static, str>> {
        other_opinion(v)
    }
}

pub type MySchema<'a> = SchemaDefinition<'a, MyCtx>;

pub fn with_schema<R>(sdl: &str, f: impl FnOnce(&MySchema) -> Result<R, String>) -> Result<R, String> {
    with_schema_in::<MyCtx, R>(sdl, f)
}

pub fn with_schema_in<X: Context, R>(sdl: &str, f: impl FnOnce(&SchemaDefinition<X>) -> Result<R, String>) -> Result<R, String> {
    let dd: DefinitionDocument<X> = DefinitionDocument::parse(sdl).map_err(|e| format!("schema does not parse: {}", crate::props::syntax::err_text(sdl, e.into_iter().collect())))?;
    let sd = SchemaDefinition::<X>::try_from(&dd).map_err(|e| format!("schema does not resolve: {} errors", e.len()))?;
    f(&sd)
}

pub fn fault<const C: bool, V: Value<C>>(e: &CErr<C, V>) -> (String, &'static str, String) {
    let p = |p: &bluejay_validator::Path| p.to_vec().iter().map(|x: &String| format!("/{x}")).collect::<String>();
    match e {
        CErr::NullValueForRequiredType { input_type_name, path, .. } => (p(path), "Null", input_type_name.clone()),
        CErr::NoImplicitConversion { input_type_name, path, .. } => (p(path), "Kind", input_type_name.clone()),
        CErr::NoEnumMemberWithName { name, path, .. } => (p(path), "NoMember", name.to_string()),
        CErr::NoValueForRequiredFields { field_names, path, .. } => (p(path), "Missing", field_names.join(",")),
        CErr::NonUniqueFieldNames { field_name, path, .. } => (p(path), "Dup", field_name.to_string()),
        CErr::NoInputFieldWithName { field, path, .. } => (p(path), "NoField", field.as_ref().to_string()),
        CErr::CustomScalarInvalidValue { custom_scalar_type_name, path, .. } => (p(path), "Custom", custom_scalar_type_name.to_string()),
        CErr::OneOfInputNullValues { input_object_type_name, path, .. } => (p(path), "OneOfNull", input_object_type_name.to_string()),
        CErr::OneOfInputNotSingleNonNullValue { input_object_type_name, path, .. } => (p(path), "OneOfCount", input_object_type_name.to_string()),
    }
}

fn value_key<const C: bool, V: Value<C>>(e: &CErr<C, V>) -> Key {
    let (p, k, d) = fault(e);
    ("C12", format!("value {k} {p} {d}"))
}

type Doc_<'a> = ExecutableDocument<'a>;

fn dir_key<const C: bool, S: CoreSchema>(e: &DirectiveError<'_, C, Doc_<'_>, S>) -> Key {
    (
        "C13",
        match e {
            DirectiveError::DirectiveDoesNotExist { directive } => format!("undefined {}", directive.name().as_ref()),
            DirectiveError::DirectiveInInvalidLocation { directive, location, .. } => format!("location {} {location}", directive.name().as_ref()),
            DirectiveError::DirectivesNotUniquePerLocation { directives, .. } => format!("repeated {}", directives[0].name().as_ref()),
        },
    )
}

fn arg_key<const C: bool, S: CoreSchema>(e: &ArgumentError<'_, C, Doc_<'_>, S>) -> Key {
    let names = |l: &Vec<&S::InputValueDefinition>| l.iter().map(|i| i.name()).collect::<Vec<_>>().join(",");
    (
        "C12",
        match e {
            ArgumentError::NonUniqueArgumentNames { name, .. } => format!("dup-arg {name}"),
            ArgumentError::ArgumentDoesNotExistOnField { argument, field_definition } => format!("unknown-arg {} {}", field_definition.name(), Argument::name(*argument)),
            ArgumentError::ArgumentDoesNotExistOnDirective { argument, directive_definition } => format!("unknown-arg @{} {}", directive_definition.name(), Argument::name(*argument)),
            ArgumentError::DirectiveMissingRequiredArguments { directive_definition, missing_argument_definitions, .. } => format!("missing-arg @{} {}", directive_definition.name(), names(missing_argument_definitions)),
            ArgumentError::FieldMissingRequiredArguments { field_definition, missing_argument_definitions, .. } => format!("missing-arg {} {}", field_definition.name(), names(missing_argument_definitions)),
        },
    )
}

pub fn key<S: CoreSchema>(e: &Error<'_, Doc_<'_>, S>) -> Key {
    use bluejay_core::executable::Field as _;
    let two = |f: &str, a: &str, b: &str, key: &str| {
        let mut n = [a, b];
        n.sort();
        ("C16", format!("{f} {key} {} {}", n[0], n[1]))
    };
    match e {
        Error::NonUniqueOperationNames { name, .. } => ("C17", format!("dup-op {name}")),
        Error::NotLoneAnonymousOperation { .. } => ("C17", "anon".into()),
        Error::SubscriptionRootNotSingleField { operation } => ("C17", format!("subscription {}", operation.as_ref().name().unwrap_or(""))),
        Error::FieldDoesNotExistOnType { field, r#type } => ("C11", format!("field {} {}", bluejay_core::executable::Field::name(*field), r#type.name())),
        Error::OperationTypeNotDefined { operation } => {
            let o = *operation;
            ("C17", format!("root {} {}", bluejay_core::executable::ExplicitOperationDefinition::operation_type(o), bluejay_core::executable::ExplicitOperationDefinition::name(o).unwrap_or("")))
        }
        Error::LeafFieldSelectionNotEmpty { r#type, .. } => ("C11", format!("leaf {}", r#type.display_name())),
        Error::NonLeafFieldSelectionEmpty { field, r#type } => ("C11", format!("nonleaf {} {}", bluejay_core::executable::Field::name(*field), r#type.display_name())),
        Error::NonUniqueFragmentDefinitionNames { name, .. } => ("C14", format!("dup-frag {name}")),
        Error::FragmentDefinitionTargetTypeDoesNotExist { fragment_definition } => ("C14", format!("frag-type {}", bluejay_core::executable::FragmentDefinition::name(*fragment_definition))),
        Error::InlineFragmentTargetTypeDoesNotExist { inline_fragment } => ("C14", format!("inline-type {}", bluejay_core::executable::InlineFragment::type_condition(*inline_fragment).unwrap_or(""))),
        Error::FragmentDefinitionTargetTypeNotComposite { fragment_definition } => ("C14", format!("frag-not-composite {}", bluejay_core::executable::FragmentDefinition::name(*fragment_definition))),
        Error::InlineFragmentTargetTypeNotComposite { inline_fragment } => ("C14", format!("inline-not-composite {}", bluejay_core::executable::InlineFragment::type_condition(*inline_fragment).unwrap_or(""))),
        Error::FragmentDefinitionUnused { fragment_definition } => ("C14", format!("unused {}", bluejay_core::executable::FragmentDefinition::name(*fragment_definition))),
        Error::FragmentSpreadTargetUndefined { fragment_spread } => ("C14", format!("undefined-spread {}", bluejay_core::executable::FragmentSpread::name(*fragment_spread))),
        Error::FragmentSpreadCycle { fragment_definition, .. } => ("C14", format!("cycle {}", bluejay_core::executable::FragmentDefinition::name(*fragment_definition))),
        Error::FieldSelectionsDoNotMergeIncompatibleTypes { field_a, field_b, .. } => two("types", bluejay_core::executable::Field::name(*field_a), bluejay_core::executable::Field::name(*field_b), field_a.response_name()),
        Error::FieldSelectionsDoNotMergeDifferingNames { field_a, field_b, .. } => two("names", bluejay_core::executable::Field::name(*field_a), bluejay_core::executable::Field::name(*field_b), field_a.response_name()),
        Error::FieldSelectionsDoNotMergeDifferingArguments { field_a, field_b, .. } => two("args", bluejay_core::executable::Field::name(*field_a), bluejay_core::executable::Field::name(*field_b), field_a.response_name()),
        Error::FragmentSpreadIsNotPossible { fragment_spread, parent_type } => ("C14", format!("spread-impossible {} {}", bluejay_core::executable::FragmentSpread::name(*fragment_spread), parent_type.name())),
        Error::InlineFragmentSpreadIsNotPossible { inline_fragment, parent_type } => {
            ("C14", format!("inline-impossible {} {}", bluejay_core::executable::InlineFragment::type_condition(*inline_fragment).unwrap_or(""), parent_type.name()))
        }
        Error::InvalidConstValue(e) => value_key(e),
        Error::InvalidVariableValue(e) => value_key(e),
        Error::InvalidConstDirective(e) => dir_key(e),
        Error::InvalidVariableDirective(e) => dir_key(e),
        Error::InvalidConstArgument(e) => arg_key(e),
        Error::InvalidVariableArgument(e) => arg_key(e),
        Error::NonUniqueVariableDefinitionNames { name, .. } => ("C15", format!("dup-var {name}")),
        Error::VariableDefinitionTypeNotInput { variable_definition } => ("C15", format!("not-input {}", bluejay_core::executable::VariableDefinition::variable(*variable_definition))),
        Error::VariableNotDefined { variable, operation_definition } => ("C15", format!("undefined {} {}", bluejay_core::Variable::name(*variable), operation_definition.as_ref().name().unwrap_or(""))),
        Error::VariableDefinitionUnused { variable_definition } => ("C15", format!("unused {}", bluejay_core::executable::VariableDefinition::variable(*variable_definition))),
        Error::InvalidVariableUsage { variable, variable_type, location_type } => {
            ("C15", format!("usage {} {} {}", bluejay_core::Variable::name(*variable), bluejay_core::executable::VariableType::as_ref(*variable_type).display_name(), location_type.display_name()))
        }
    }
}

pub fn parse_doc(t: &str) -> Result<Doc_<'_>, String> {
    ExecutableDocument::parse(t).map_err(|e| format!("document does not parse: {}", crate::props::syntax::err_text(t, e.into_iter().collect())))
}

/// all errors' keys, after checking that they convert into located errors
pub fn validate(sd: &MySchema, t: &str) -> Result<Keys, String> {
    let doc = parse_doc(t)?;
    let cache = Cache::new(&doc, sd);
    let errs: Vec<_> = BuiltinRulesValidator::validate(&doc, sd, &cache).collect();
    let keys: Keys = errs.iter().map(key).collect();
    let n = errs.len();
    let pos = crate::props::syntax::positions(t);
    if n > 0 && t.len() < 4000 {
        let g = bluejay_parser::Error::into_graphql_errors(t, errs.into_iter().map(bluejay_parser::Error::from).collect::<Vec<_>>());
        if g.len() < n {
            return Err(format!("{n} errors became {} GraphQL errors", g.len()));
        }
        for e in g {
            if e.message.is_empty() || e.locations.is_empty() {
                return Err(format!("error without a message or a location: {e:?}"));
            }
            for l in &e.locations {
                let p = (l.line, l.col);
                if !pos.contains_key(&p) {
                    return Err(format!("location {p:?} of {:?} is no position of the document", e.message));
                }
            }
        }
    }
    Ok(keys)
}

pub fn group(k: &Keys, g: &str) -> Vec<String> {
    k.iter().filter(|k| k.0 == g).map(|k| k.1.clone()).collect()
}

pub fn tidy(d: &mut Doc) {
    for o in &mut d.ops {
        if o.short && (o.kind != OpKind::Query || o.name.is_some() || !o.vars.is_empty() || !o.dirs.is_empty()) {
            o.short = false;
        }
    }
}

pub fn gen_sch(s: &mut Src) -> (SDoc, Schema) {
    let applied = s.chance(1, 3);
    let small = s.bool();
    let d = gen_schema::schema(s, SOpts { applied, small, ..Default::default() });
    let m = Schema::resolve(&d).expect("generated schema");
    (d, m)
}

pub fn size(d: &Doc) -> usize {
    let mut n = 0;
    let mut d = d.clone();
    gen_doc::each_sels(&mut d, &mut |l| n += l.len());
    n
}

fn run(s: &mut Src, ctx: &mut Ctx, g: &'static str) -> CaseResult {
    if g == "C16" && s.chance(1, 3) {
        ctx.tag("tangle");
        let wild = *s.pick(&[400, 60, 12, 4]);
        let (sdl, m, d) = tangle::tangle(s, tangle::PLAIN, wild);
        return check_doc(ctx, &sdl, &m, &d, g);
    }
    let (sdl, m) = gen_sch(s);
    let o = DOpts { collide: g == "C16" && s.chance(2, 3), ..Default::default() };
    let mut d = gen_doc::doc(s, &m, o);
    let n = s.weighted(&[2, 5, 2, 1]);
    for _ in 0..n {
        let what = gen_doc::corrupt(&mut d, s, &m, g);
        ctx.tag(what);
    }
    tidy(&mut d);
    check_doc(ctx, &sdl, &m, &d, g)
}

fn check_doc(ctx: &mut Ctx, sdl: &SDoc, m: &Schema, d: &Doc, g: &'static str) -> CaseResult {
    let st = render::sdoc_text(sdl);
    let t = render::doc_text(d);
    ctx.show("schema", &st);
    ctx.show("document", &t);
    let want = valid::validate(m, d);
    let got = with_schema(&st, |sd| validate(sd, &t))?;
    compare(ctx, &got, &want, g, size(d))
}

fn compare(ctx: &mut Ctx, got: &Keys, want: &valid::Report, g: &'static str, size: usize) -> CaseResult {
    let must = group(&want.must, g);
    let may = group(&want.may, g);
    ctx.nontrivial = size >= 2;
    ctx.tag(if !must.is_empty() {
        "at fault"
    } else if may.is_empty() {
        "no such fault"
    } else {
        "left open by another fault"
    });
    ctx.tag_if(want.valid(), "valid document");
    let mut have = group(got, g);
    if g == "C16" && !have.is_empty() {
        have.push("conflict".into());
    }
    if g == "C14" && have.iter().any(|k| k.starts_with("cycle ")) {
        have.push("cycle".into());
    }
    for k in &must {
        if !have.contains(k) {
            return Err(format!("not reported: {k}\nreported: {got:?}"));
        }
    }
    for k in &have {
        if !may.contains(k) {
            return Err(format!("reported without cause: {k}\nexpected: {may:?}"));
        }
    }
    Ok(())
}

fn c11(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C11")
}
fn c12(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C12")
}
fn c13(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C13")
}
fn c14(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C14")
}
fn c15(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C15")
}
fn c16(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C16")
}
fn c17(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run(s, c, "C17")
}

const A: &[&str] = &["documents and schemas come from this harness's generators (grammar-complete, sizes bounded)", "where one fault leaves another open, both answers are accepted"];
const RULE: &str = "the document selects at least two things; distinct = distinct (schema, document) texts";

pub fn props() -> Vec<Prop> {
    let p = |id, case| Prop { id, quick: 200_000, thorough: 4_000_000, rule: RULE, case, assumptions: A };
    vec![p("C11", c11), p("C12", c12), p("C13", c13), p("C14", c14), p("C15", c15), p("C16", c16), p("C17", c17)]
}
