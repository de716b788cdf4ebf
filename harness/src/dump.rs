//! bluejay trait objects -> reference AST, through the public core traits only.
use crate::ast::*;
use bluejay_core::definition::{self as d, prelude::*};
use bluejay_core::executable as x;
use bluejay_core::executable::*;
use bluejay_core::{Argument, AsIter, Directive, ObjectValue, OperationType, Value, ValueReference, Variable};

pub fn val<const C: bool, V: Value<C>>(v: &V) -> Val {
    match v.as_ref() {
        ValueReference::Variable(v) => Val::Var(v.name().to_string()),
        ValueReference::Integer(i) => Val::Int(i),
        ValueReference::Float(f) => Val::Float(f),
        ValueReference::String(s) => Val::Str(s.to_string()),
        ValueReference::Boolean(b) => Val::Bool(b),
        ValueReference::Null => Val::Null,
        ValueReference::Enum(e) => Val::Enum(e.to_string()),
        ValueReference::List(l) => Val::List(l.iter().map(|v| val::<C, V>(v)).collect()),
        ValueReference::Object(o) => Val::Obj(ObjectValue::iter(o).map(|(k, v)| (AsRef::<str>::as_ref(k).to_string(), val::<C, V>(v))).collect()),
    }
}

pub fn args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> Args {
    a.map(|a| a.iter().map(|a| (a.name().to_string(), val::<C, _>(a.value()))).collect()).unwrap_or_default()
}

pub fn dirs<const C: bool, D: bluejay_core::Directives<C>>(ds: Option<&D>) -> Vec<Dir> {
    ds.map(|ds| ds.iter().map(|d| Dir { name: d.name().to_string(), args: args::<C, _>(d.arguments()) }).collect()).unwrap_or_default()
}

pub fn vty<T: VariableType>(t: &T) -> Ty {
    match t.as_ref() {
        VariableTypeReference::Named(n, r) => Ty::Named(n.to_string(), r),
        VariableTypeReference::List(t, r) => Ty::List(Box::new(vty(t)), r),
    }
}

pub fn sels<S: SelectionSet>(s: &S) -> Vec<Sel>
where
    S::Selection: Selection,
    <S::Selection as Selection>::Field: x::Field<SelectionSet = S>,
    <S::Selection as Selection>::InlineFragment: x::InlineFragment<SelectionSet = S>,
{
    s.iter()
        .map(|s| match s.as_ref() {
            SelectionReference::Field(f) => Sel::Field(crate::ast::Field {
                alias: f.alias().map(|s| s.to_string()),
                name: f.name().to_string(),
                args: args::<false, _>(f.arguments()),
                dirs: dirs::<false, _>(f.directives()),
                sel: f.selection_set().map(sels),
            }),
            SelectionReference::FragmentSpread(f) => Sel::Spread(f.name().to_string(), dirs::<false, _>(f.directives())),
            SelectionReference::InlineFragment(f) => {
                Sel::Inline(f.type_condition().map(|s| s.to_string()), dirs::<false, _>(f.directives()), sels(f.selection_set()))
            }
        })
        .collect()
}

pub fn op_kind(t: OperationType) -> OpKind {
    match t {
        OperationType::Query => OpKind::Query,
        OperationType::Mutation => OpKind::Mutation,
        OperationType::Subscription => OpKind::Subscription,
    }
}

pub fn doc<E: ExecutableDocument>(e: &E) -> Doc {
    Doc {
        ops: e
            .operation_definitions()
            .map(|o| match o.as_ref() {
                OperationDefinitionReference::Implicit(i) => {
                    Op { kind: OpKind::Query, short: true, name: None, vars: vec![], dirs: vec![], sel: sels(i.selection_set()) }
                }
                OperationDefinitionReference::Explicit(e) => Op {
                    kind: op_kind(e.operation_type()),
                    short: false,
                    name: e.name().map(|s| s.to_string()),
                    vars: e
                        .variable_definitions()
                        .map(|v| {
                            v.iter()
                                .map(|v| VarDef {
                                    name: v.variable().to_string(),
                                    ty: vty(v.r#type()),
                                    default: v.default_value().map(|v| val::<true, _>(v)),
                                    dirs: dirs::<true, _>(v.directives()),
                                })
                                .collect()
                        })
                        .unwrap_or_default(),
                    dirs: dirs::<false, _>(e.directives()),
                    sel: sels(e.selection_set()),
                },
            })
            .collect(),
        frags: e
            .fragment_definitions()
            .map(|f| Frag { name: f.name().to_string(), on: f.type_condition().to_string(), dirs: dirs::<false, _>(f.directives()), sel: sels(f.selection_set()) })
            .collect(),
    }
}

// ---- schema side ----

pub fn ity<I: d::InputType>(t: &I) -> Ty {
    match t.as_shallow_ref() {
        d::ShallowInputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowInputTypeReference::List(t, r) => Ty::List(Box::new(ity(t)), r),
    }
}
pub fn oty<O: d::OutputType>(t: &O) -> Ty {
    match t.as_shallow_ref() {
        d::ShallowOutputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowOutputTypeReference::List(t, r) => Ty::List(Box::new(oty(t)), r),
    }
}

fn s(o: Option<&str>) -> Option<String> {
    o.map(|s| s.to_string())
}

pub fn input_val<I: d::InputValueDefinition>(i: &I) -> InputVal {
    InputVal {
        desc: s(i.description()),
        name: i.name().to_string(),
        ty: ity(i.r#type()),
        default: i.default_value().map(|v| val::<true, _>(v)),
        dirs: dirs::<true, _>(i.directives()),
    }
}

pub fn argdefs<A: d::ArgumentsDefinition>(a: Option<&A>) -> Vec<InputVal> {
    a.map(|a| a.iter().map(input_val).collect()).unwrap_or_default()
}

pub fn field<F: d::FieldDefinition>(f: &F) -> FieldDef {
    FieldDef { desc: s(f.description()), name: f.name().to_string(), args: argdefs(f.arguments_definition()), ty: oty(f.r#type()), dirs: dirs::<true, _>(f.directives()) }
}

/// builtin fields are left out unless `builtin`
pub fn fields<F: d::FieldsDefinition>(f: &F, builtin: bool) -> Vec<FieldDef> {
    f.iter().filter(|f| builtin || !f.is_builtin()).map(field).collect()
}

fn ifaces<I: d::InterfaceImplementations>(i: Option<&I>) -> Vec<String> {
    i.map(|i| i.iter().map(|i| i.name().to_string()).collect()).unwrap_or_default()
}

pub fn dirdef<D: d::DirectiveDefinition>(x: &D) -> DirDef {
    DirDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        args: argdefs(x.arguments_definition()),
        repeatable: x.is_repeatable(),
        locs: x.locations().iter().map(|l| l.to_string()).collect(),
    }
}

pub fn scalar<X: d::ScalarTypeDefinition>(x: &X) -> TypeDef {
    TypeDef { desc: s(x.description()), name: x.name().to_string(), dirs: dirs::<true, _>(x.directives()), kind: Kind::Scalar }
}
pub fn object<X: d::ObjectTypeDefinition>(x: &X, b: bool) -> TypeDef {
    TypeDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        dirs: dirs::<true, _>(x.directives()),
        kind: Kind::Object { ifaces: ifaces(x.interface_implementations()), fields: fields(x.fields_definition(), b) },
    }
}
pub fn interface<X: d::InterfaceTypeDefinition>(x: &X, b: bool) -> TypeDef {
    TypeDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        dirs: dirs::<true, _>(x.directives()),
        kind: Kind::Interface { ifaces: ifaces(x.interface_implementations()), fields: fields(x.fields_definition(), b) },
    }
}
pub fn union<X: d::UnionTypeDefinition>(x: &X) -> TypeDef {
    TypeDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        dirs: dirs::<true, _>(x.directives()),
        kind: Kind::Union { members: x.union_member_types().iter().map(|m| m.name().to_string()).collect() },
    }
}
pub fn enum_<X: d::EnumTypeDefinition>(x: &X) -> TypeDef {
    TypeDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        dirs: dirs::<true, _>(x.directives()),
        kind: Kind::Enum {
            values: x.enum_value_definitions().iter().map(|v| EnumVal { desc: s(v.description()), name: v.name().to_string(), dirs: dirs::<true, _>(v.directives()) }).collect(),
        },
    }
}
pub fn input<X: d::InputObjectTypeDefinition>(x: &X) -> TypeDef {
    TypeDef {
        desc: s(x.description()),
        name: x.name().to_string(),
        dirs: dirs::<true, _>(x.directives()),
        kind: Kind::Input { fields: x.input_field_definitions().iter().map(input_val).collect() },
    }
}

/// None for a builtin scalar
pub fn typedef<T: d::TypeDefinition>(t: d::TypeDefinitionReference<'_, T>, b: bool) -> Option<TypeDef> {
    use d::TypeDefinitionReference as R;
    Some(match t {
        R::BuiltinScalar(_) => return None,
        R::CustomScalar(x) => scalar(x),
        R::Object(x) => object(x, b),
        R::Interface(x) => interface(x, b),
        R::Union(x) => union(x),
        R::Enum(x) => enum_(x),
        R::InputObject(x) => input(x),
    })
}
